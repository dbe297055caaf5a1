// RPCs over a socket: what the client receives is what the server was scripted to send.
#include "pbt.hpp"
#include "refmodel.hpp"
#include "rpc.service.hpp"
#include <chrono>
#include <condition_variable>
#include <deque>
#include <hpp_proto/grpc/client.hpp>
#include <hpp_proto/grpc/server.hpp>
#include <mutex>
#include <unistd.h>

extern "C" bool is_utf8(const char *s, size_t n) { return ref::valid_utf8(std::string_view(s, n)); }
using namespace pbt;
using namespace rpc;
namespace hg = hpp_proto::grpc;
namespace {
using NO = hpp_proto::non_owning_traits;
using Methods = Svc::_methods;

// ------------------------------------------------------------------ shared vocabulary
enum Kind { REPLY, STATUS, REPLY_STATUS, RAW, GARBAGE, BAD_UTF8, RAW_STATUS };
::grpc::Status status_of(int code, std::string_view text) { return {static_cast<::grpc::StatusCode>(code), std::string(text)}; }
template <class R> Rep<> reply_to(const R &r, std::string_view suffix) {
  Rep<> p;
  if (r.seq % 5 == 4) return p; // empty replies are replies
  p.name = std::string(r.name) + std::string(suffix);
  p.seq = r.seq * 3 + 1;
  p.payload.assign(r.payload.begin(), r.payload.end());
  std::ranges::reverse(p.payload);
  for (int i = 0; i < r.seq % 5; ++i) p.seen.push_back(i * r.seq);
  if (r.seq % 2) p.m[(int)r.seq % 7] = "x";
  return p;
}
template <class F> void with_mode(int mode, F &&f) {
  switch (mode) {
  case 1: f(hpp_proto::contiguous_mode); break;
  case 2: f(hpp_proto::adaptive_mode); break;
  case 3: f(hpp_proto::chunked_mode); break;
  default: f();
  }
}
::grpc::ByteBuffer raw(const auto &m) {
  ::grpc::ByteBuffer b;
  (void)hg::write_binpb(m, b);
  return b;
}
// no message of any type
::grpc::ByteBuffer garbage(int variant) {
  static const std::string_view v[] = {{"\x0a\xff\xff", 3}, {"\x0a", 1}, {"\x07", 1}, {"\x0a\x01", 2}, {"\x00", 1}};
  auto x = v[variant % 5];
  ::grpc::Slice s[2] = {::grpc::Slice(x.data(), 1), ::grpc::Slice(x.data() + 1, x.size() - 1)};
  return {s, variant % 2 ? 2U : 1U + (x.size() > 1)};
}
std::atomic<int> created{0}, unary_created{0}, fan_created{0}, done{0}, destroyed{0}, cancels{0}, unexpected{0};
struct Counted {
  Counted() { ++created; }
  Counted(const Counted &) = delete;
  ~Counted() { ++destroyed; }
  void on_done() { ++done; }
};

// ------------------------------------------------------------------ server
class Service : public hg::CallbackService<Service, Methods> {
public:
  struct UnaryH : Counted {
    using rpc_t = hg::ServerRPC<Svc::Unary>;
    UnaryH(Service &, rpc_t &rpc, hg::RequestToken<Svc::Unary> tok) {
      ++unary_created;
      std::pmr::monotonic_buffer_resource mr;
      Req<> q;
      Req<NO> v;
      auto st = tok.get(q);
      auto st2 = tok.get(v, hpp_proto::alloc_from(mr));
      if (!st.ok() || !st2.ok() || tok.get() == nullptr) { rpc.finish(st.ok() ? ::grpc::Status{::grpc::StatusCode::DATA_LOSS, "non-owning"} : st); return; }
      auto rep = reply_to(v, "/u");
      if (rep != reply_to(q, "/u")) { rpc.finish({::grpc::StatusCode::DATA_LOSS, "the two readings of the request differ"}); return; }
      Act<> a;
      if (!q.acts.empty()) a = q.acts[0];
      auto s = status_of(a.code, a.text);
      switch (a.kind) {
      case STATUS: rpc.finish(s); break;
      case REPLY_STATUS: with_mode(a.mode, [&](auto &&...o) { rpc.finish(rep, s, o...); }); break;
      case RAW: rpc.finish(raw(rep)); break;
      case RAW_STATUS: rpc.finish(raw(rep), s); break;
      case GARBAGE: rpc.finish(garbage(a.code)); break;
      case BAD_UTF8: rep.name = "\xff"; with_mode(a.mode, [&](auto &&...o) { rpc.finish(rep, o...); }); break;
      default: with_mode(a.mode, [&](auto &&...o) { rpc.finish(rep, o...); });
      }
    }
  };
  auto handle(Svc::Unary) -> UnaryH;

  struct CollectH : Counted {
    using rpc_t = hg::ServerRPC<Svc::Collect>;
    Sum<> sum;
    CollectH(Service &, rpc_t &rpc) { rpc.start_read(); }
    void on_read_ok(rpc_t &rpc, hg::RequestToken<Svc::Collect> tok) {
      Req<> q;
      if (auto st = tok.get(q); !st.ok()) { rpc.finish(st); return; }
      sum.seqs.push_back(q.seq);
      sum.last = q.name;
      if (q.acts.empty()) { rpc.start_read(); return; }
      auto &a = q.acts[0];
      switch (a.kind) {
      case STATUS: case REPLY_STATUS: rpc.finish(status_of(a.code, a.text)); break;
      case RAW: rpc.finish(raw(sum)); break;
      case RAW_STATUS: rpc.finish(raw(sum), status_of(a.code, a.text)); break;
      case GARBAGE: rpc.finish(garbage(a.code)); break;
      case BAD_UTF8: sum.last = "\xff"; with_mode(a.mode, [&](auto &&...o) { rpc.finish(sum, o...); }); break;
      default: with_mode(a.mode, [&](auto &&...o) { rpc.finish(sum, o...); });
      }
    }
    bool on_read_eof(rpc_t &rpc) {
      if (rpc.context().IsCancelled()) ++unexpected;
      rpc.finish(sum);
      return true;
    }
    bool on_read_cancel(rpc_t &rpc) {
      if (!rpc.context().IsCancelled()) ++unexpected;
      ++cancels;
      return false;
    }
  };
  auto handle(Svc::Collect) -> CollectH;

  struct FanH : Counted {
    using rpc_t = hg::ServerRPC<Svc::Fan>;
    Req<> q;
    size_t i = 0;
    FanH(Service &, rpc_t &rpc, hg::RequestToken<Svc::Fan> tok) {
      ++fan_created;
      if (auto st = tok.get(q); !st.ok()) { rpc.finish(st); return; }
      next(rpc);
    }
    void next(rpc_t &rpc) {
      if (i == q.acts.size()) { rpc.finish(::grpc::Status::OK); return; }
      auto &a = q.acts[i];
      bool last = i + 1 == q.acts.size();
      auto rep = reply_to(q, std::to_string(i));
      ++i;
      auto s = status_of(a.code, a.text);
      switch (a.kind) {
      case STATUS: rpc.finish(s); return;
      case REPLY_STATUS: with_mode(a.mode, [&](auto &&...o) { rpc.finish(rep, ::grpc::WriteOptions{}, s, o...); }); return;
      case RAW: last ? rpc.finish(raw(rep)) : rpc.write(raw(rep)); return;
      case RAW_STATUS: rpc.finish(raw(rep), ::grpc::WriteOptions{}, s); return;
      case GARBAGE: last ? rpc.finish(garbage(a.code)) : rpc.write(garbage(a.code)); return;
      case BAD_UTF8: rep.name = "\xff"; [[fallthrough]];
      default:
        with_mode(a.mode, [&](auto &&...o) {
          if (last && a.code == 1) rpc.finish(rep, o...);
          else if (last && a.code == 2) rpc.finish(rep, ::grpc::WriteOptions{}, o...);
          else if (a.code == 3) rpc.write(rep, ::grpc::WriteOptions{}, o...);
          else rpc.write(rep, o...);
        });
      }
    }
    void on_write_ok(rpc_t &rpc) { next(rpc); }
    bool on_write_error(rpc_t &) { return false; }
    void on_cancel() { ++cancels; }
  };
  auto handle(Svc::Fan) -> FanH;

  struct ChatH : Counted {
    using rpc_t = hg::ServerRPC<Svc::Chat>;
    int n = 0;
    ChatH(Service &, rpc_t &rpc) { rpc.start_read(); }
    void on_read_ok(rpc_t &rpc, hg::RequestToken<Svc::Chat> tok) {
      Req<> q;
      if (auto st = tok.get(q); !st.ok()) { rpc.finish(st); return; }
      auto rep = reply_to(q, std::to_string(n++));
      Act<> a;
      bool act = !q.acts.empty();
      if (act) a = q.acts[0];
      auto s = status_of(a.code, a.text);
      switch (act ? a.kind : -1) {
      case STATUS: rpc.finish(s); return;
      case REPLY_STATUS: with_mode(a.mode, [&](auto &&...o) { rpc.finish(rep, ::grpc::WriteOptions{}, s, o...); }); return;
      case RAW: rpc.write(raw(rep)); return;
      case RAW_STATUS: rpc.finish(raw(rep), ::grpc::WriteOptions{}, s); return;
      case GARBAGE: rpc.write(garbage(a.code)); return;
      case BAD_UTF8: rep.name = "\xff"; [[fallthrough]];
      default:
        with_mode(a.mode, [&](auto &&...o) {
          if (act && a.kind == REPLY && a.code == 1) rpc.finish(rep, o...);
          else if (act && a.kind == REPLY && a.code == 2) rpc.finish(rep, ::grpc::WriteOptions{}, o...);
          else if (a.code == 3) rpc.write(rep, ::grpc::WriteOptions{}, o...);
          else rpc.write(rep, o...);
        });
      }
    }
    void on_write_ok(rpc_t &rpc) { rpc.start_read(); }
    bool on_write_error(rpc_t &) { return false; }
    bool on_read_eof(rpc_t &rpc) {
      if (rpc.context().IsCancelled()) ++unexpected;
      rpc.finish(status_of(n % 2 ? 0 : 9, n % 2 ? "" : "even"));
      return true;
    }
    bool on_read_cancel(rpc_t &rpc) {
      if (!rpc.context().IsCancelled()) ++unexpected;
      ++cancels;
      return false;
    }
  };
  auto handle(Svc::Chat) -> ChatH;

  struct PlainH : Counted { // no optional callbacks: the fallbacks of the library apply
    using rpc_t = hg::ServerRPC<Svc::Plain>;
    PlainH(Service &, rpc_t &rpc) { rpc.start_read(); }
    void on_read_ok(rpc_t &rpc, hg::RequestToken<Svc::Plain> tok) {
      Req<> q;
      if (auto st = tok.get(q); !st.ok()) { rpc.finish(st); return; }
      rpc.write(reply_to(q, "p"));
    }
    void on_write_ok(rpc_t &rpc) { rpc.start_read(); }
  };
  auto handle(Svc::Plain) -> PlainH;
};

// one server per process, never destroyed (workers are forked before it exists)
struct World {
  Service svc;
  std::unique_ptr<::grpc::Server> server;
  std::shared_ptr<::grpc::Channel> channel;
  std::unique_ptr<hg::Stub<Methods>> stub;
  World() {
    ::grpc::ServerBuilder b;
    b.RegisterService(&svc);
    // not the in-process transport: it loses messages sent together with the status
    auto address = "unix-abstract:vp-rpc-" + std::to_string(getpid());
    b.SetMaxReceiveMessageSize(-1);
    b.AddListeningPort(address, ::grpc::InsecureServerCredentials());
    server = b.BuildAndStart();
    ::grpc::ChannelArguments args;
    args.SetMaxReceiveMessageSize(-1);
    channel = ::grpc::CreateCustomChannel(address, ::grpc::InsecureChannelCredentials(), args);
    stub = std::make_unique<hg::Stub<Methods>>(channel, ::grpc::StubOptions{});
  }
};
World &world() {
  static World *w = new World;
  return *w;
}

// ------------------------------------------------------------------ client
struct Waiter {
  std::mutex mu;
  std::condition_variable cv;
  int dones = 0;
  ::grpc::Status status;
  void finish(const ::grpc::Status &s) {
    std::lock_guard l(mu);
    ++dones;
    status = s;
    cv.notify_all();
  }
  void wait(Case &c, const char *what) {
    std::unique_lock l(mu);
    if (!cv.wait_for(l, std::chrono::seconds(15), [&] { return dones > 0; })) {
      l.release();
      c.fail("rpc-hang", std::string(what) + ": the call never completed");
    }
  }
};
struct Call { // what a client saw
  std::vector<Rep<>> got;
  int parse_errors = 0;
  ::grpc::Status status;
};
struct Plan {
  std::vector<Req<>> reqs;
  int stop = -1;      // cancel once this many replies (or writes, for Collect) were seen
  int last = 0;       // how writing ends: 0 write_last, 1 write_done
  int mode = 0;
};

struct UnaryR : hg::ClientCallbackReactor<Svc::Unary> {
  Waiter w;
  void OnDone(const ::grpc::Status &s) override { w.finish(s); }
};
struct FanR : hg::ClientCallbackReactor<Svc::Fan> {
  Waiter w;
  Call call;
  ::grpc::ClientContext *ctx;
  int stop;
  bool non_owning;
  void OnReadDone(bool ok) override {
    if (!ok) return;
    Rep<> r;
    if (non_owning) {
      std::pmr::monotonic_buffer_resource mr;
      Rep<NO> v;
      hpp_proto::pb_context c{hpp_proto::alloc_from(mr)};
      if (!get_response(v, c).ok()) ++call.parse_errors;
      else {
        r.name = v.name; r.seq = v.seq; r.payload.assign(v.payload.begin(), v.payload.end()); r.seen.assign(v.seen.begin(), v.seen.end());
        for (auto &x : v.m) r.m[x.first] = std::string(x.second);
        call.got.push_back(r);
      }
    } else if (!get_response(r).ok()) ++call.parse_errors;
    else call.got.push_back(r);
    if ((int)(call.got.size() + call.parse_errors) == stop) ctx->TryCancel();
    this->start_read();
  }
  void OnDone(const ::grpc::Status &s) override { w.finish(s); }
};
// writers send the messages of the plan one after the other
template <class Method, class Derived> struct Writer : hg::ClientCallbackReactor<Method> {
  Waiter w;
  Call call;
  Plan *plan;
  ::grpc::ClientContext *ctx;
  size_t next = 0;
  ::grpc::Status write_status;
  void send() {
    if (next == plan->reqs.size()) {
      if (plan->last == 1 || plan->reqs.empty()) this->write_done();
      return;
    }
    auto &q = plan->reqs[next++];
    bool last = next == plan->reqs.size() && plan->last == 0;
    ::grpc::Status st;
    with_mode(plan->mode, [&](auto &&...o) {
      if (last) st = this->write_last(q, ::grpc::WriteOptions{}, o...);
      else if (next % 2) st = this->write(q, o...);
      else st = this->write(q, ::grpc::WriteOptions{}, o...);
    });
    if (!st.ok()) { // not sent; the stream is still usable
      if (write_status.ok()) write_status = st;
      if (last) this->write_done();
      else send();
    }
  }
  void OnWriteDone(bool ok) override {
    if (!ok) return;
    if constexpr (!Method::server_streaming) {
      if ((int)next == plan->stop) { ctx->TryCancel(); return; }
    }
    if (next == plan->reqs.size() && plan->last == 0) return; // write_last has half-closed the stream
    send();
  }
  void OnDone(const ::grpc::Status &s) override { w.finish(s); }
};
struct CollectR : Writer<Svc::Collect, CollectR> {};
template <class M> struct ChatR : Writer<M, ChatR<M>> {
  void OnReadDone(bool ok) override {
    if (!ok) return;
    Rep<> r;
    if (!this->get_response(r).ok()) ++this->call.parse_errors;
    else this->call.got.push_back(r);
    if ((int)(this->call.got.size() + this->call.parse_errors) == this->plan->stop) this->ctx->TryCancel();
    this->start_read();
  }
};

// ------------------------------------------------------------------ generation and model
std::string text(Case &c) {
  static const char *t[] = {"", "a", "name", "\xc3\xa9\xe2\x82\xac", "a longer name which does not fit into a small string", "z\0y"};
  return c.pick(t);
}
Req<> gen_req(Case &c) {
  Req<> q;
  q.name = text(c);
  q.seq = (int64_t)c.draw(20) * (c.chance(1, 5) ? -1000000007LL : 1);
  size_t n = c.weighted({6, 2, 1}) == 0 ? c.draw(5) : c.draw(300);
  if (c.chance(1, 150)) n = 1048576 - 20 + c.draw(2000000);
  for (size_t i = 0; i < n; ++i) q.payload.push_back(std::byte(i * 7 + n));
  return q;
}
Act<> gen_act(Case &c) {
  Act<> a;
  a.kind = (int)c.weighted({6, 2, 2, 2, 1, 1, 2});
  a.code = (int)c.draw(16);
  a.text = a.code ? text(c) : "";
  a.mode = (int)c.draw(3);
  return a;
}
std::string show(const ::grpc::Status &s) { return std::to_string(s.error_code()) + " '" + s.error_message() + "'"; }
std::string show(const Req<> &q) {
  std::string s = "{name=" + hex(q.name, 20) + " seq=" + std::to_string(q.seq) + " payload " + std::to_string(q.payload.size()) + " bytes";
  for (auto &a : q.acts) s += " act(kind " + std::to_string(a.kind) + " code " + std::to_string(a.code) + " mode " + std::to_string(a.mode) + " '" + a.text + "')";
  return s + "}";
}
struct Expect {
  std::vector<Rep<>> got;
  int parse_errors = 0;
  int code = 0;
  std::string text;
  bool reply = false; // unary reply present
};
void final_status(Expect &e, int code, const std::string &text) { e.code = code; e.text = text; }

// gRPC may drop replies that are under way when a call ends with an error or before the client has finished writing: `early`
// False when messages are missing at the end of a call that the server ended while the client was still
// writing, or with an error: the transport may drop them, once in a while. `attempt` says how often that has
// happened in a row; a call that never delivers them is a failure.
constexpr int attempts = 25;
bool check_call(Case &c, const char *what, const Call &got, const Expect &want, bool cancelled, bool early = false, int attempt = attempts) {
  size_t n = std::min(got.got.size(), want.got.size());
  for (size_t i = 0; i < n; ++i)
    c.check_f(got.got[i] == want.got[i], "rpc-reply", [&] { return std::string(what) + ": reply " + std::to_string(i) + " differs (name " + hex(got.got[i].name) + ", expected " + hex(want.got[i].name) + ")"; });
  if (cancelled) {
    c.check(got.got.size() <= want.got.size(), "rpc-count", std::string(what) + ": more replies than were sent");
    return true;
  }
  bool all = got.got.size() == want.got.size() && got.parse_errors == want.parse_errors;
  early = (early || want.code != 0) && (all || attempt < attempts);
  bool count = early ? got.got.size() <= want.got.size() && got.parse_errors <= want.parse_errors : all;
  c.check_f(count, "rpc-count", [&] {
    return std::string(what) + ": " + std::to_string(got.got.size()) + " replies and " + std::to_string(got.parse_errors) + " unreadable ones instead of " + std::to_string(want.got.size()) + " and " + std::to_string(want.parse_errors);
  });
  c.check_f(got.status.error_code() == want.code, "rpc-status", [&] { return std::string(what) + ": status " + show(got.status) + " instead of " + std::to_string(want.code) + " '" + want.text + "'"; });
  if (want.code && want.text != "*") c.check_f(got.status.error_message() == want.text, "rpc-message", [&] { return std::string(what) + ": status " + show(got.status) + " instead of " + std::to_string(want.code) + " '" + want.text + "'"; });
  return all;
}

void unary(Case &c) {
  auto q = gen_req(c);
  if (c.chance(3, 4)) q.acts.push_back(gen_act(c));
  bool bad = c.chance(1, 8);
  if (bad) q.name = "ok\xc0";
  int style = (int)c.draw(6);
  c.note("unary style " + std::to_string(style) + " " + show(q));
  c.label("unary");
  Expect e;
  auto rep = reply_to(q, "/u");
  Act<> a;
  if (!q.acts.empty()) a = q.acts[0];
  if (bad) final_status(e, 13, "*");
  else switch (a.kind) {
  case STATUS: if (a.code == 0) final_status(e, -1, "*"); else final_status(e, a.code, a.text); break;
  case REPLY_STATUS: case RAW_STATUS: final_status(e, a.code, a.text); e.reply = a.code == 0; break;
  case GARBAGE: case BAD_UTF8: final_status(e, 13, "*"); break;
  default: e.reply = true;
  }
  if (bad) c.label("request not serializable");
  if (e.code == -1) c.discard(); // OK without a message is not a valid unary response
  auto &stub = *world().stub;
  ::grpc::ClientContext ctx;
  ::grpc::Status st;
  Rep<> r;
  r.name = "old";
  int before = unary_created;
  switch (style) {
  case 0: st = stub.call<Svc::Unary>(ctx, q, r); break;
  case 1: with_mode(1 + (int)c.draw(2), [&](auto &&...o) { if constexpr (sizeof...(o)) st = stub.call<Svc::Unary>(ctx, q, r, o...); }); break;
  case 2: { // non-owning response
    std::pmr::monotonic_buffer_resource mr;
    Rep<NO> v;
    st = stub.call<Svc::Unary>(ctx, q, v, hpp_proto::alloc_from(mr));
    if (st.ok() && e.reply) {
      r = {};
      r.name = v.name; r.seq = v.seq; r.payload.assign(v.payload.begin(), v.payload.end()); r.seen.assign(v.seen.begin(), v.seen.end());
      for (auto &x : v.m) r.m[x.first] = std::string(x.second);
    }
    break;
  }
  case 3: case 4: {
    struct Shared { Waiter w; };
    auto sh = std::make_shared<Shared>();
    auto cb = [sh](const ::grpc::Status &s) { sh->w.finish(s); };
    stub.async_call<Svc::Unary>(ctx, q, r, cb);
    sh->w.wait(c, "async unary call");
    st = sh->w.status;
    c.check(sh->w.dones == 1, "rpc-callback", "the callback ran " + std::to_string(sh->w.dones) + " times");
    break;
  }
  case 5: { // asynchronous, non-owning response in a memory resource of the caller
    struct Shared { Waiter w; std::pmr::monotonic_buffer_resource mr; Rep<NO> v; };
    auto sh = std::make_shared<Shared>();
    stub.async_call<Svc::Unary>(ctx, q, sh->v, [sh](const ::grpc::Status &s) { sh->w.finish(s); }, hpp_proto::alloc_from(sh->mr));
    sh->w.wait(c, "async unary call");
    st = sh->w.status;
    if (st.ok() && e.reply) {
      auto &v = sh->v;
      r = {};
      r.name = v.name; r.seq = v.seq; r.payload.assign(v.payload.begin(), v.payload.end()); r.seen.assign(v.seen.begin(), v.seen.end());
      for (auto &x : v.m) r.m[x.first] = std::string(x.second);
    }
    break;
  }
  default: {
    auto u = std::make_unique<UnaryR>();
    stub.async_call<Svc::Unary>(ctx, q, u.get());
    u->start_call();
    try { u->w.wait(c, "unary reactor"); } catch (...) { u.release(); throw; }
    st = u->w.status;
    c.check(u->w.dones == 1, "rpc-callback", "OnDone ran " + std::to_string(u->w.dones) + " times");
    if (st.ok()) st = u->get_response(r);
  }
  }
  bool ok = st.ok();
  c.check_f(st.error_code() == e.code, "rpc-status", [&] { return "unary style " + std::to_string(style) + ": status " + show(st) + " instead of " + std::to_string(e.code) + " '" + e.text + "'"; });
  if (e.code && e.text != "*") c.check(st.error_message() == e.text, "rpc-message", "unary: status " + show(st) + " instead of " + e.text);
  if (ok && e.reply) c.check(r == rep, "rpc-reply", "unary style " + std::to_string(style) + ": reply differs (name " + hex(r.name) + ")");
  if (bad) c.check(unary_created == before, "rpc-sent", "a request that cannot be serialized reached the server");
  if (style > 2 || !q.acts.empty()) c.nontrivial();
}
// many asynchronous calls at the same time: each completes once, with its own reply
void parallel(Case &c) {
  struct Shared {
    std::mutex mu;
    std::condition_variable cv;
    int open = 0;
    struct One { Req<> q; Rep<> r; ::grpc::Status st; int runs = 0; ::grpc::ClientContext ctx; };
    std::deque<One> calls;
  };
  auto sh = std::make_shared<Shared>();
  size_t n = 2 + c.draw(12);
  for (size_t i = 0; i < n; ++i) {
    auto &o = sh->calls.emplace_back();
    o.q = gen_req(c);
    o.q.seq += (int64_t)i * 100;
    if (c.chance(1, 3)) o.q.acts.push_back(Act<>{.kind = REPLY_STATUS, .code = 1 + (int)c.draw(15), .text = text(c)});
    if (c.chance(1, 8)) o.q.name = "\xff";
  }
  c.note(std::to_string(n) + " calls at the same time");
  c.label("calls in parallel");
  c.nontrivial();
  sh->open = (int)n;
  for (auto &o : sh->calls)
    world().stub->async_call<Svc::Unary>(o.ctx, o.q, o.r, [sh, &o](const ::grpc::Status &s) {
      std::lock_guard l(sh->mu);
      o.st = s;
      ++o.runs;
      --sh->open;
      sh->cv.notify_all();
    });
  std::unique_lock l(sh->mu);
  bool all = sh->cv.wait_for(l, std::chrono::seconds(15), [&] { return sh->open <= 0; });
  c.check(all, "rpc-hang", "parallel calls: " + std::to_string(sh->open) + " of " + std::to_string(n) + " never completed");
  for (auto &o : sh->calls) {
    c.check(o.runs == 1, "rpc-callback", "parallel calls: the callback ran " + std::to_string(o.runs) + " times");
    int code = o.q.name == "\xff" ? 13 : o.q.acts.empty() ? 0 : o.q.acts[0].code;
    c.check(o.st.error_code() == code, "rpc-status", "parallel calls: status " + show(o.st) + " instead of " + std::to_string(code));
    if (code == 0) c.check(o.r == reply_to(o.q, "/u"), "rpc-reply", "parallel calls: reply differs");
    else if (code != 13) c.check(o.st.error_message() == (o.q.acts[0].text), "rpc-message", "parallel calls: message '" + o.st.error_message() + "'");
  }
}
void missing(Case &c) {
  auto q = gen_req(c);
  c.label("unimplemented");
  ::grpc::ClientContext ctx;
  Rep<> r;
  auto st = world().stub->call<Svc::Missing>(ctx, q, r);
  c.check(st.error_code() == 12, "rpc-unimplemented", "calling a method without a handler gives " + show(st));
}
Plan gen_plan(Case &c, bool with_acts) {
  Plan p;
  for (size_t n = c.draw(6); n; --n) {
    p.reqs.push_back(gen_req(c));
    if (with_acts && c.chance(1, 4)) p.reqs.back().acts.push_back(gen_act(c));
  }
  p.last = (int)c.draw(1);
  p.mode = (int)c.draw(3);
  if (!p.reqs.empty() && c.chance(1, 8)) p.reqs[c.draw(p.reqs.size() - 1)].name = "\xff";
  if (c.chance(1, 6)) p.stop = (int)c.draw(4) + 1;
  return p;
}
void describe(Case &c, const char *what, const Plan &p) {
  std::string s = std::string(what) + (p.stop >= 0 ? " cancelled after " + std::to_string(p.stop) : "") + (p.last ? " write_done" : " write_last") + " mode " + std::to_string(p.mode);
  for (auto &q : p.reqs) s += "\n  " + show(q);
  c.note(s);
  c.label(what);
  if (p.stop >= 0) c.label("cancelled by the client");
  if (p.reqs.size() > 1) c.nontrivial();
}
// the first write comes before the call starts, or later from outside the reactions, which needs a hold
template <class U> void launch(Case &c, U &u, const Plan &p) {
  if (!c.chance(1, 3)) {
    u.send();
    u.start_call();
    return;
  }
  c.label("hold");
  int holds = 1 + (int)c.draw(2);
  if (holds == 1) u.add_hold();
  else u.add_multiple_holds(holds);
  u.start_call();
  if (c.coin()) std::this_thread::sleep_for(std::chrono::microseconds(300));
  { std::lock_guard l(u.w.mu); c.check(u.w.dones == 0, "rpc-hold", "OnDone ran while a hold is in place"); }
  u.send();
  for (int i = 0; i < holds; ++i) {
    { std::lock_guard l(u.w.mu); c.check(u.w.dones == 0, "rpc-hold", "OnDone ran while a hold is in place"); }
    u.remove_hold();
  }
}
void collect(Case &c) {
  auto p = gen_plan(c, true);
  describe(c, "client stream", p);
  Sum<> sum;
  Expect e;
  e.reply = true;
  bool bad = false, ended = false;
  int sent = 0;
  for (auto &q : p.reqs) {
    if (q.name == "\xff") { bad = true; continue; }
    sum.seqs.push_back(q.seq);
    sum.last = q.name;
    ++sent;
    if (q.acts.empty()) continue;
    auto &a = q.acts[0];
    ended = true;
    switch (a.kind) {
    case STATUS: case REPLY_STATUS: final_status(e, a.code, a.text); e.reply = false; break;
    case RAW_STATUS: final_status(e, a.code, a.text); e.reply = a.code == 0; break;
    case GARBAGE: e.parse_errors = 1; break;
    case BAD_UTF8: final_status(e, 13, "*"); e.reply = false; break;
    default:;
    }
    break;
  }
  if (!e.code && !e.reply) c.discard(); // OK without a message
  auto u = std::make_unique<CollectR>();
  auto ctx = std::make_unique<::grpc::ClientContext>();
  u->plan = &p;
  u->ctx = ctx.get();
  world().stub->async_call<Svc::Collect>(*ctx, u.get());
  launch(c, *u, p);
  try { u->w.wait(c, "client stream"); } catch (...) { u.release(); ctx.release(); throw; }
  c.check(u->w.dones == 1, "rpc-callback", "OnDone ran " + std::to_string(u->w.dones) + " times");
  u->call.status = u->w.status;
  if (p.stop >= 0 && u->w.status.error_code() == 1) return; // cancelled in time
  if (bad) c.check(u->write_status.error_code() == 13 || ended, "rpc-write-status", "writing a message that is not UTF-8 gives " + show(u->write_status));
  Sum<> got;
  if (u->w.status.ok() && e.reply) {
    auto st = u->get_response(got);
    if (e.parse_errors) c.check(st.error_code() == 13, "rpc-garbage", "an unreadable response gives " + show(st));
    else c.check(st.ok() && got == sum, "rpc-reply", "client stream: the server saw " + std::to_string(got.seqs.size()) + " messages instead of " + std::to_string(sum.seqs.size()));
  }
  e.parse_errors = 0;
  e.got.clear();
  check_call(c, "client stream", u->call, e, false);
}
void fan(Case &c) {
  auto q = gen_req(c);
  for (size_t n = c.draw(6); n; --n) {
    auto a = gen_act(c);
    if (c.chance(2, 3)) a.kind = REPLY;
    q.acts.push_back(a);
  }
  bool bad = c.chance(1, 10);
  if (bad) q.name = "\xff";
  int stop = c.chance(1, 5) ? 1 + (int)c.draw(3) : -1;
  c.note("server stream " + show(q) + (stop >= 0 ? " cancelled after " + std::to_string(stop) : ""));
  c.label("server stream");
  if (q.acts.size() > 1) c.nontrivial();
  Expect e;
  for (size_t i = 0; i < q.acts.size() && !bad; ++i) {
    auto &a = q.acts[i];
    auto rep = reply_to(q, std::to_string(i));
    bool end = false;
    switch (a.kind) {
    case STATUS: final_status(e, a.code, a.text); end = true; break;
    case REPLY_STATUS: case RAW_STATUS: e.got.push_back(rep); final_status(e, a.code, a.text); end = true; break;
    case GARBAGE: ++e.parse_errors; break;
    case BAD_UTF8: final_status(e, 13, "*"); end = true; break;
    default: e.got.push_back(rep);
    }
    if (end) break;
  }
  if (bad) final_status(e, 13, "*");
  bool non_owning = c.coin();
  for (int attempt = 1;; ++attempt) {
  auto u = std::make_unique<FanR>();
  auto ctx = std::make_unique<::grpc::ClientContext>();
  u->ctx = ctx.get();
  u->stop = stop;
  u->non_owning = non_owning;
  int before = fan_created;
  world().stub->async_call<Svc::Fan>(*ctx, q, u.get());
  u->start_read();
  u->start_call();
  try { u->w.wait(c, "server stream"); } catch (...) { u.release(); ctx.release(); throw; }
  c.check(u->w.dones == 1, "rpc-callback", "OnDone ran " + std::to_string(u->w.dones) + " times");
  u->call.status = u->w.status;
  if (bad) { c.check(fan_created == before, "rpc-sent", "a request that cannot be serialized reached the server"); c.label("request not serializable"); }
  bool cancelled = stop >= 0 && (int)(e.got.size() + e.parse_errors) >= stop;
  if (check_call(c, "server stream", u->call, e, cancelled, false, attempt)) return;
  }
}
template <class M> void chat(Case &c, bool plain) {
  auto p = gen_plan(c, !plain);
  describe(c, plain ? "bidi stream, no optional callbacks" : "bidi stream", p);
  Expect e;
  int n = 0;
  bool bad = false, ended = false;
  for (auto &q : p.reqs) {
    if (q.name == "\xff") { bad = true; continue; }
    auto rep = reply_to(q, plain ? "p" : std::to_string(n));
    ++n;
    bool act = !q.acts.empty();
    Act<> a;
    if (act) a = q.acts[0];
    switch (act ? a.kind : -1) {
    case STATUS: final_status(e, a.code, a.text); ended = true; break;
    case REPLY_STATUS: case RAW_STATUS: e.got.push_back(rep); final_status(e, a.code, a.text); ended = true; break;
    case GARBAGE: ++e.parse_errors; break;
    case BAD_UTF8: final_status(e, 13, "*"); ended = true; break;
    default: e.got.push_back(rep); if (act && a.kind == REPLY && (a.code == 1 || a.code == 2)) ended = true;
    }
    if (ended) break;
  }
  if (!ended && !plain) final_status(e, n % 2 ? 0 : 9, n % 2 ? "" : "even");
  for (int attempt = 1;; ++attempt) {
  auto u = std::make_unique<ChatR<M>>();
  auto ctx = std::make_unique<::grpc::ClientContext>();
  u->plan = &p;
  u->ctx = ctx.get();
  world().stub->async_call<M>(*ctx, u.get());
  u->start_read();
  launch(c, *u, p);
  try { u->w.wait(c, "bidi stream"); } catch (...) { u.release(); ctx.release(); throw; }
  c.check(u->w.dones == 1, "rpc-callback", "OnDone ran " + std::to_string(u->w.dones) + " times");
  u->call.status = u->w.status;
  bool cancelled = p.stop >= 0 && (int)(e.got.size() + e.parse_errors) >= p.stop;
  if (bad && !ended && !cancelled) c.check(u->write_status.error_code() == 13, "rpc-write-status", "writing a message that is not UTF-8 gives " + show(u->write_status));
  if (check_call(c, "bidi stream", u->call, e, cancelled, ended, attempt)) return;
  }
}
} // namespace

PBT_PROP(rpc, "a call with a scripted outcome, an asynchronous call, or a stream of several messages") {
  world();
  for (size_t n = 1 + c.draw(2); n; --n) {
    switch (c.weighted({4, 4, 4, 5, 2, 1, 2})) {
    case 0: unary(c); break;
    case 1: collect(c); break;
    case 2: fan(c); break;
    case 3: chat<Svc::Chat>(c, false); break;
    case 4: chat<Svc::Plain>(c, true); break;
    case 5: missing(c); break;
    default: parallel(c);
    }
  }
  // every handler is told that its call is over, once, and destroyed
  auto end = std::chrono::steady_clock::now() + std::chrono::seconds(10);
  while ((done != created || destroyed != created) && std::chrono::steady_clock::now() < end) std::this_thread::sleep_for(std::chrono::microseconds(50));
  c.check(done == created && destroyed == created, "rpc-handlers", std::to_string(created) + " handlers, on_done ran " + std::to_string(done) + " times, " + std::to_string(destroyed) + " destroyed");
  c.check(unexpected == 0, "rpc-cancel-callback", "on_read_eof was called for a cancelled call, or on_read_cancel for one that was not");
}
