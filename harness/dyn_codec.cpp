// Binary codec of dynamic messages against the reference codec, over generated schemas.
#include "dyn.hpp"
extern "C" bool is_utf8(const char *s, size_t n) { return ref::valid_utf8(std::string_view(s, n)); }
using namespace pbt;
using namespace dyn;

static void strip(ref::Msg &m) {
  m.unknown.clear();
  for (auto &f : m.f)
    for (auto &v : f.v)
      if (v.msg) strip(*v.msg);
}
// flat value -> map value: last entry of a key wins, absent parts read as their default
static ref::Msg unflatten(const ref::Schema &s, const ref::Msg &m, bool *partial = nullptr) {
  ref::Msg r;
  r.d = m.d;
  r.f.resize(m.f.size());
  for (size_t i = 0; i < m.f.size(); ++i) {
    auto &fd = s.msgs[m.d].fields[i];
    r.f[i].present = m.f[i].present;
    for (auto v : m.f[i].v) {
      if (v.msg) v.msg = std::make_shared<ref::Msg>(unflatten(s, *v.msg, partial));
      if (fd.card != ref::MAP) { r.f[i].v.push_back(v); continue; }
      auto &ed = s.msgs[fd.sub];
      auto part = [&](size_t k) {
        auto &p = v.msg->f[k];
        if (p.present) return p.v[0];
        if (partial) *partial = true;
        ref::Val x;
        auto &pd = ed.fields[k];
        if (ref::is_msg_type(pd.type)) x.msg = std::make_shared<ref::Msg>(ref::make(s, pd.sub));
        else x = ref::default_of(s, pd);
        return x;
      };
      ref::Decoder::map_put(r.f[i], ed, part(0), part(1));
    }
  }
  return r;
}
static void chunks(Case &c, const std::string &in, std::vector<std::vector<std::byte>> &out) {
  size_t at = 0;
  unsigned small = (unsigned)c.draw(2);
  while (at < in.size()) {
    size_t n = small == 0 ? c.draw(40) : small == 1 ? c.draw(8) : c.draw(200);
    n = std::min(n, in.size() - at);
    auto *b = (const std::byte *)in.data() + at;
    out.emplace_back(b, b + n);
    out.back().shrink_to_fit();
    at += n;
  }
  if (out.empty()) out.emplace_back();
}

PBT_PROP(dyn_codec, "the input is at least 4 bytes and the reference decides whether it is valid") {
  sgen::Cfg sc;
  Fixture fx(c, sc);
  int d = c.pick(fx.set.roots);
  gen::WCfg w;
  w.max_depth = 4;
  w.bad_utf8 = c.chance(1, 8);
  std::string in = gen::wire(c, fx.set.ref, d, w);
  unsigned kind = c.weighted({6, 1, 1});
  if (kind == 1) gen::mutate(c, in);
  if (kind == 2) gen::malform(c, in, fx.set.ref, d, w);
  c.note(fx.set.msgs[d].full + " input " + hex(in));
  ref::Msg want = ref::make(fx.set.ref, d);
  ref::Decoder dec{fx.set.ref, {}};
  auto res = dec.run(want, in);
  strip(want);
  Counting up;
  {
    std::pmr::monotonic_buffer_resource mr{&up};
    auto m = fx.make(c, d, mr);
    if (c.coin()) { // previous content must not survive
      auto old = gen::wire(c, fx.set.ref, d, {});
      (void)read_binpb(m, old).ok();
    }
    status st;
    unsigned mode = c.weighted({3, 2, 1});
    if (mode == 0) {
      std::unique_ptr<std::byte[]> p(new std::byte[in.size()]); // exact-size: reads past the end are seen
      memcpy(p.get(), in.data(), in.size());
      std::span<const std::byte> sp{p.get(), in.size()};
      st = read_binpb(m, sp);
    } else if (mode == 1) {
      std::vector<std::vector<std::byte>> ch;
      chunks(c, in, ch);
      st = read_binpb(m, ch);
      c.label("segmented");
    } else {
      std::string copy = in;
      st = read_binpb(m, copy);
    } // the input is gone
    if (in.size() >= 4 && res != ref::Res::unspecified) c.nontrivial();
    c.label(res == ref::Res::ok ? "valid input" : res == ref::Res::bad ? "malformed input" : "unspecified input");
    if (res == ref::Res::bad) c.check_f(!st.ok(), "dyn-accepts", [&] { return std::string("malformed input accepted (") + dec.r.why + ")"; });
    if (res == ref::Res::ok) c.check_f(st.ok(), "dyn-rejects", [&] { return "valid input rejected with errc " + std::to_string((int)(std::errc)st) + ", expected\n" + fx.show(want, false); });
    if (!st.ok()) return;
    Walker wk{c, fx.flat_ref, ""};
    auto got = wk.walk(m, d);
    bool partial = false; // an entry without value would be written without it
    auto got_map = unflatten(fx.set.ref, got, &partial);
    if (res == ref::Res::ok) c.check(!partial, "dyn-map-entry", "a map entry read from the input has no key or value, its encoding will lack it");
    if (res == ref::Res::ok)
      c.check_f(ref::same(fx.set.ref, got_map, want, false), "dyn-value", [&] { return "read\n" + fx.show(got_map, false) + "instead of\n" + fx.show(want, false); });
    // and back
    std::vector<std::byte> out;
    auto ws = write_binpb(m.cref(), out);
    bool utf8_ok = true; // closed by the reader
    c.check(ws.ok() || !utf8_ok, "dyn-write", "write_binpb fails with errc " + std::to_string((int)(std::errc)ws));
    std::string bytes((const char *)out.data(), out.size());
    auto canon = ref::encode(fx.flat_ref, got);
    c.check_f(bytes == canon, "dyn-encoding", [&] { return "of\n" + fx.show(got) + "is " + hex(bytes) + " instead of " + hex(canon); });
    std::pmr::monotonic_buffer_resource mr2{&up};
    auto m2 = fx.make(c, d, mr2);
    c.check(read_binpb(m2, out).ok(), "dyn-reread", "own output is rejected: " + hex(bytes));
    auto again = wk.walk(m2, d);
    c.check_f(ref::same(fx.flat_ref, again, got, false), "dyn-reread", [&] { return "own output reads as\n" + fx.show(again) + "instead of\n" + fx.show(got); });
  }
  c.check(up.live == 0, "dyn-leak", "memory of the message's resource is not released");
}

static const int kLimits[] = {100, 0, 1, 3, 12};
template <class F> static status with_limit(int lim, F f) {
  switch (lim) {
  case 0: return f();
  case 1: return f(recursion_limit<0>);
  case 2: return f(recursion_limit<1>);
  case 3: return f(recursion_limit<3>);
  default: return f(recursion_limit<12>);
  }
}
PBT_PROP(dyn_depth, "the nesting is within two levels of the limit, or beyond it") {
  sgen::Cfg sc;
  Fixture fx(c, sc);
  int d = c.pick(fx.set.roots);
  for (int i = 0; i < 6 && !gen::endless(fx.set.ref, d); ++i) d = c.pick(fx.set.roots);
  int lim = (int)c.draw(4), limit = kLimits[lim];
  gen::WCfg w;
  w.unknown = c.chance(1, 3);
  int k = c.chance(2, 3) ? std::max(0, limit - 1 + (int)c.draw(2)) : (int)c.draw((uint64_t)limit + 60);
  std::string in = gen::deep(c, fx.set.ref, d, k, w, w.unknown);
  ref::Msg want = ref::make(fx.set.ref, d), all = want;
  ref::Decoder dec{fx.set.ref, {}}, full{fx.set.ref, {}};
  dec.o.depth_limit = limit;
  full.o.depth_limit = 100000;
  auto res = dec.run(want, in);
  auto res_all = full.run(all, in);
  strip(want);
  c.note(fx.set.msgs[d].full + " limit " + std::to_string(limit) + ", nesting " + std::to_string(full.max_depth) + "\ninput " + hex(in));
  c.label(full.max_depth > limit ? "too deep" : full.max_depth == limit ? "at the limit" : "below the limit");
  if (full.max_depth + 1 >= limit && res_all == ref::Res::ok) c.nontrivial();
  std::pmr::monotonic_buffer_resource mr;
  auto m = fx.make(c, d, mr);
  std::vector<std::vector<std::byte>> ch;
  bool seg = c.coin();
  if (seg) chunks(c, in, ch);
  auto st = with_limit(lim, [&](auto &&...o) { return seg ? read_binpb(m, ch, o...) : read_binpb(m, in, o...); });
  if (res == ref::Res::bad) c.check_f(!st.ok(), "dyn-depth-read-beyond", [&] { return std::string("accepted (") + dec.r.why + ")"; });
  if (res == ref::Res::ok) {
    c.check_f(st.ok(), "dyn-depth-read", [&] { return "rejected with errc " + std::to_string((int)(std::errc)st); });
    Walker wk{c, fx.flat_ref, ""};
    auto got = unflatten(fx.set.ref, wk.walk(m, d));
    c.check_f(ref::same(fx.set.ref, got, want, false), "dyn-depth-value", [&] { return "read\n" + fx.show(got, false) + "instead of\n" + fx.show(want, false); });
  }
  // writing what was read without a practical limit
  if (res_all != ref::Res::ok) return;
  auto m2 = fx.make(c, d, mr);
  c.check(read_binpb(m2, in, recursion_limit<1000>).ok(), "dyn-depth-read", "rejected with limit 1000");
  Walker wk{c, fx.flat_ref, ""};
  auto flat = wk.walk(m2, d);
  auto canon = ref::encode(fx.flat_ref, flat);
  ref::Decoder again{fx.set.ref, {}};
  again.o.depth_limit = 100000;
  ref::Msg tmp = ref::make(fx.set.ref, d);
  if (again.run(tmp, canon) != ref::Res::ok) return;
  std::string out;
  auto ws = with_limit(lim, [&](auto &&...o) { return write_binpb(m2.cref(), out, o...); });
  if (again.max_depth > limit) c.check(!ws.ok(), "dyn-depth-write-beyond", "wrote nesting " + std::to_string(again.max_depth));
  else {
    c.check(ws.ok(), "dyn-depth-write", "nesting " + std::to_string(again.max_depth) + " not written, errc " + std::to_string((int)(std::errc)ws));
    c.check_f(out == canon, "dyn-depth-encoding", [&] { return hex(out) + " instead of " + hex(canon); });
  }
}
