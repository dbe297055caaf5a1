// Included by the generated instantiation units after the *.pb.hpp headers and the adapter.
#pragma once
#include "adapter.hpp"
#include "ops.hpp"
#include <deque>
#include <hpp_proto/binpb.hpp>
#ifdef OPS_GRPC
#include <grpcpp/grpcpp.h>
#include <hpp_proto/grpc/serialization.hpp>
#endif
#if defined(OPS_MERGE) || defined(OPS_ALLOC)
#include <hpp_proto/merge.hpp>
#endif
#ifdef OPS_ALLOC
#include "newtrack.hpp"
#include <optional>
#endif
#ifdef OPS_ANY
#include <google/protobuf/any.pb.hpp>
#endif

namespace inst {
using namespace hpp_proto;
using keep_default = keep_unknown_fields<default_traits>;
using keep_stable = keep_unknown_fields<stable_traits>;
using keep_pmr = keep_unknown_fields<pmr_stable_traits>;
using keep_nonowning = keep_unknown_fields<non_owning_traits>;
template <class Tr> constexpr bool is_keep = !requires { Tr::unknown_fields_range_t::operator==; } && requires(typename Tr::unknown_fields_range_t f) { f.data(); };

template <class M> ref::Msg to_ref(const M &m) {
  ref::Msg r = ref::make(ops::schema(), ad::Ad<M>::D);
  ad::Ad<M>::to(m, r);
  return r;
}
inline std::span<const std::byte> bytes_of(std::string_view s) { return {reinterpret_cast<const std::byte *>(s.data()), s.size()}; }
// exactly sized heap copy so that AddressSanitizer sees every over-read
struct Exact {
  std::unique_ptr<std::byte[]> p;
  size_t n;
  explicit Exact(std::string_view s) : p(new std::byte[s.size()]), n(s.size()) { if (n) memcpy(p.get(), s.data(), n); }
  std::span<const std::byte> span() const { return {p.get(), n}; }
};
template <class B> std::string str_of(const B &b) { return std::string(reinterpret_cast<const char *>(b.data()), b.size()); }

// Output sink following the documented contract: it is told the total size once and then hands out
// chunks that never add up to more than that size.
struct Sink {
  using slice_type = std::byte;
  const std::vector<size_t> &sizes;
  bool vary;
  bool whole = false;
  size_t limit = SIZE_MAX; // total capacity; an empty span afterwards
  bool roomy = false;      // hand out chunks that are larger than what is still to be written
  size_t announced = 0, remaining = 0, i = 0;
  int calls = 0;
  std::deque<std::unique_ptr<std::byte[]>> own{};
  std::vector<std::span<std::byte>> out{};
  void set_message_size(std::size_t n) { ++calls; announced = remaining = n; }
  std::size_t chunk_size() const { return whole ? SIZE_MAX : sizes[0]; }
  std::span<std::byte> next_chunk() {
    size_t want = whole ? remaining : (vary && i > 0) ? sizes[i % sizes.size()] : sizes[0];
    ++i;
    size_t n = roomy && !whole ? want : std::min(want, remaining);
    n = std::min(n, limit);
    limit -= n;
    own.emplace_back(new std::byte[n]);
    for (size_t k = 0; k < n; ++k) own.back()[k] = std::byte{0xee};
    remaining -= std::min(n, remaining);
    if (n) out.push_back({own.back().get(), n});
    return {own.back().get(), n};
  }
};

template <class M, bool Owning> struct Run {
  static auto read(std::span<const std::byte> b, std::pmr::memory_resource &mr) {
    if constexpr (Owning) return read_binpb<M>(b);
    else return read_binpb<M>(b, alloc_from{mr});
  }
  static status read_to(M &m, std::span<const std::byte> b, std::pmr::memory_resource &mr) {
    if constexpr (Owning) return read_binpb(m, b);
    else return read_binpb(m, b, alloc_from{mr});
  }
};

template <template <class> class Msg, class Tr> ops::Entry make(const char *trait) {
  using M = Msg<Tr>;
  constexpr bool owning = !requires(typename Tr::string_t s) { s.remove_prefix(1); };
  using R = Run<M, owning>;
  ops::Entry e;
  e.msg = ad::Ad<M>::name;
  e.trait = trait;
  e.d = ad::Ad<M>::D;
  e.keep = requires(typename Tr::unknown_fields_range_t f) { f.data(); };
  e.owning = owning;
#ifdef OPS_R
  e.read = [](std::string_view in) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    Exact ex(in);
    auto r = R::read(ex.span(), mr);
    if (!r.has_value()) o.ec = (int)r.error();
    else o.msg = to_ref(*r);
    return o;
  };
  e.read_into = [](std::string_view in, const ref::Msg &old) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    ad::Arena a;
    Exact ex(in);
    M m;
    ad::Ad<M>::from(old, m, a);
    auto st = R::read_to(m, ex.span(), mr);
    o.ec = (int)st.ec;
    if (st.ok()) o.msg = to_ref(m);
    return o;
  };
#endif
#ifdef OPS_W
  e.write = [](const ref::Msg &v) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    std::vector<std::byte> b;
    auto st = write_binpb(m, b);
    o.ec = (int)st.ec;
    if (st.ok()) o.bytes = str_of(b);
    return o;
  };
#endif
#if defined(OPS_R) && defined(OPS_W)
  e.rewrite = [](std::string_view in) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    Exact ex(in);
    auto r = R::read(ex.span(), mr);
    if (!r.has_value()) {
      o.ec = (int)r.error();
      return o;
    }
    std::vector<std::byte> b;
    auto st = write_binpb(*r, b);
    o.ec = (int)st.ec;
    o.bytes = str_of(b);
    o.msg = to_ref(*r);
    return o;
  };
  e.roundtrip = [](const ref::Msg &v) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    M copy = m;
    std::vector<std::byte> b;
    auto st = write_binpb(m, b);
    o.ec = (int)st.ec;
    if (!st.ok()) { o.note = "write"; return o; }
    o.bytes = str_of(b);
    if (!ref::same(ops::schema(), to_ref(m), to_ref(copy), true)) { o.eq = false; o.note = "writing changed the message"; return o; }
    std::pmr::monotonic_buffer_resource mr;
    Exact ex(o.bytes);
    auto r = R::read(ex.span(), mr);
    if (!r.has_value()) { o.ec = (int)r.error(); o.note = "read"; return o; }
    o.msg = to_ref(*r);
    o.eq = (*r == m);
    if (!o.eq) o.note = "operator== is false";
    std::vector<std::byte> b2;
    M moved = std::move(*r);
    if (auto s2 = write_binpb(moved, b2); !s2.ok()) { o.ec = (int)s2.ec; o.note = "second write"; }
    else if (b2.size() != b.size()) { o.eq = false; o.note = "second encoding has a different size"; }
    return o;
  };
#endif
#ifdef OPS_CHUNK
  e.read_chunks = [](const std::vector<std::string> &segs, int mode) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    std::deque<Exact> own;
    for (auto &s : segs) own.emplace_back(s);
    std::vector<std::span<const std::byte>> v;
    for (auto &x : own) v.push_back(x.span());
    auto fin = [&](auto &&r) {
      if (!r.has_value()) o.ec = (int)r.error();
      else {
        for (auto &x : own) if constexpr (owning) { if (x.n) memset(x.p.get(), 0xdd, x.n); }
        o.msg = to_ref(*r);
      }
    };
    if constexpr (owning) {
      if (mode == 0) fin(read_binpb<M>(v));
      else { std::deque<std::span<const std::byte>> dq(v.begin(), v.end()); fin(read_binpb<M>(dq)); }
    } else {
      if (mode == 0) fin(read_binpb<M>(v, alloc_from{mr}));
      else { std::deque<std::span<const std::byte>> dq(v.begin(), v.end()); fin(read_binpb<M>(dq, alloc_from{mr})); }
    }
    return o;
  };
  e.read_padded = [](std::string_view in) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    std::string pad(in);
    pad.append(16, '\0');
    Exact ex(pad);
    auto sp = ex.span().first(in.size());
    auto fin = [&](auto &&r) {
      if (!r.has_value()) o.ec = (int)r.error();
      else o.msg = to_ref(*r);
    };
    if constexpr (owning) fin(read_binpb<M>(sp, padded_input));
    else fin(read_binpb<M>(sp, padded_input, alloc_from{mr}));
    return o;
  };
#endif
#ifdef OPS_SINK
  e.write_mode = [](const ref::Msg &v, int mode, const std::vector<size_t> &chunks, bool vary, bool roomy, size_t limit) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    Sink sink{chunks, vary};
    sink.roomy = roomy;
    sink.limit = limit;
    status st;
    if (mode == 0) st = write_binpb(m, sink);
    else if (mode == 1) st = write_binpb(m, sink, adaptive_mode);
    else if (mode == 2) { sink.whole = true; st = write_binpb(m, sink, contiguous_mode); }
    else if (mode == 3) st = write_binpb(m, sink, chunked_mode);
    else if (mode == 4) { std::pmr::monotonic_buffer_resource mr; st = write_binpb(m, sink, chunked_mode, cache_alloc_from(mr)); }
    else { std::pmr::monotonic_buffer_resource mr; st = write_binpb(m, sink, alloc_from(mr)); }
    o.ec = (int)st.ec;
    for (auto &c : sink.out) o.bytes += str_of(c);
    if (st.ok() && roomy && o.bytes.size() > sink.announced) o.bytes.resize(sink.announced);
    if (st.ok() && sink.announced != o.bytes.size()) { o.eq = false; o.note = "announced size " + std::to_string(sink.announced) + " but chunks hold " + std::to_string(o.bytes.size()); }
    if (sink.calls != 1) { o.eq = false; o.note = "set_message_size called " + std::to_string(sink.calls) + " times"; }
    return o;
  };
  e.append = [](const ref::Msg &v, std::string_view prefix) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    std::vector<std::byte> b(bytes_of(prefix).begin(), bytes_of(prefix).end());
    auto st = append_binpb(m, b);
    o.ec = (int)st.ec;
    o.bytes = str_of(b);
    return o;
  };
  e.write_as = [](const ref::Msg &v, int kind, std::string_view junk) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    status st;
    switch (kind) {
    case 0: { std::string b(junk); st = write_binpb(m, b); o.bytes = b; break; }
    case 1: { std::vector<unsigned char> b(junk.begin(), junk.end()); st = write_binpb(m, b); o.bytes = str_of(b); break; }
    case 2: { std::pmr::monotonic_buffer_resource mr; std::pmr::vector<std::byte> b(&mr); st = write_binpb(m, b); o.bytes = str_of(b); break; }
    case 3: { std::pmr::monotonic_buffer_resource mr; std::span<std::byte> b; st = write_binpb(m, b, alloc_from(mr)); o.bytes = str_of(b); break; }
    case 4: { auto r = write_binpb(m); if (r.has_value()) o.bytes = str_of(*r); else st = r.error(); break; }
    case 5: { auto r = write_binpb<std::string>(m); if (r.has_value()) o.bytes = *r; else st = r.error(); break; }
    default: { std::pmr::monotonic_buffer_resource mr; bytes_view b; st = write_binpb(m, b, alloc_from(mr)); o.bytes = str_of(b); break; }
    }
    o.ec = (int)st.ec;
    return o;
  };
#endif
#ifdef OPS_MERGE
  e.merge = [](std::string_view x, std::string_view y, bool rv) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    Exact ex(x), ey(y);
    auto p = R::read(ex.span(), mr), q = R::read(ey.span(), mr);
    if (!p.has_value() || !q.has_value()) { o.ec = -1; return o; }
    auto before = ref::dump(ops::schema(), to_ref(*q), true);
    if constexpr (owning) {
      if (rv) merge(*p, std::move(*q));
      else merge(*p, std::as_const(*q));
    } else {
      if (rv) merge(*p, std::move(*q), alloc_from(mr));
      else merge(*p, std::as_const(*q), alloc_from(mr));
    }
    if (!rv && before != ref::dump(ops::schema(), to_ref(*q), true)) { o.eq = false; o.note = "merge changed its source"; }
    o.msg = to_ref(*p);
    return o;
  };
#endif
#ifdef OPS_GRPC
  e.grpc_write = [](const ref::Msg &v, int how, std::string_view junk, std::vector<size_t> &sizes) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    ::grpc::ByteBuffer b;
    if (!junk.empty()) { // the buffer already holds something
      ::grpc::Slice s(junk.data(), junk.size());
      b = ::grpc::ByteBuffer(&s, 1);
    }
    std::pmr::monotonic_buffer_resource mr;
    auto put = [&](auto &&...opt) -> ::grpc::Status {
      if (how < 5) return hpp_proto::grpc::write_binpb(m, b, opt...);
      pb_context ctx{opt...};
      if (how < 10) return hpp_proto::grpc::write_binpb(m, b, ctx);
      with_pb_context w{std::as_const(m), ctx};
      bool own = false;
      auto st = ::grpc::SerializationTraits<decltype(w)>::Serialize(w, &b, &own);
      if (st.ok() && !own) o.note = "own_buffer is false";
      return st;
    };
    ::grpc::Status st;
    switch (how % 5) {
    case 0: st = put(); break;
    case 1: st = put(adaptive_mode); break;
    case 2: st = put(contiguous_mode); break;
    case 3: st = put(chunked_mode); break;
    default: st = put(chunked_mode, cache_alloc_from(mr));
    }
    o.ec = st.ok() ? 0 : (int)st.error_code();
    std::vector<::grpc::Slice> sl;
    if (b.Valid()) b.Dump(&sl);
    for (auto &s : sl) {
      o.bytes.append(reinterpret_cast<const char *>(s.begin()), s.size());
      sizes.push_back(s.size());
    }
    if (b.Length() != o.bytes.size()) o.note = "Length() differs";
    return o;
  };
  e.grpc_read = [](const std::vector<std::string> &segs, int how, const ref::Msg *old) {
    ops::Out o;
    ad::Arena a;
    std::pmr::monotonic_buffer_resource mr;
    M m;
    if (old) ad::Ad<M>::from(*old, m, a);
    std::deque<Exact> own;
    std::vector<::grpc::Slice> sl;
    for (auto &s : segs) {
      if (own.size() % 2) { // slices that point to memory of the application, and ones grpc owns (short ones inline)
        auto &x = own.emplace_back(s);
        sl.emplace_back(x.p.get(), x.n, ::grpc::Slice::STATIC_SLICE);
      } else { own.emplace_back(""); sl.emplace_back(s.data(), s.size()); }
    }
    ::grpc::ByteBuffer b;
    if (how & 4 || !sl.empty()) b = ::grpc::ByteBuffer(sl.data(), sl.size());
    sl.clear();
    ::grpc::Status st;
    auto get = [&](auto &&...opt) {
      if ((how & 3) == 0) st = hpp_proto::grpc::read_binpb(m, b, opt...);
      else {
        pb_context ctx{opt...};
        if ((how & 3) == 1) st = hpp_proto::grpc::read_binpb(m, std::as_const(b), ctx);
        else if (!b.Valid()) st = hpp_proto::grpc::read_binpb(m, b, ctx);
        else {
          with_pb_context w{m, ctx};
          auto keep = b; // Deserialize releases the buffer
          st = ::grpc::SerializationTraits<decltype(w)>::Deserialize(&b, &w);
          if (b.Length() != 0) o.note = "Deserialize did not clear the buffer";
          b = keep;
        }
      }
    };
    const size_t before = b.Valid() ? b.Length() : 0;
    if constexpr (owning) {
      if (how & 8) get(cache_alloc_from(mr));
      else get();
    } else get(alloc_from(mr));
    if ((b.Valid() ? b.Length() : 0) != before && o.note.empty()) o.note = "the buffer was changed";
    o.ec = st.ok() ? 0 : (int)st.error_code();
    if constexpr (owning) { b = {}; for (auto &x : own) if (x.n) memset(x.p.get(), 0xdd, x.n); }
    if (st.ok()) o.msg = to_ref(m);
    return o;
  };
#endif
#ifdef OPS_LIM
  e.read_lim = [](const std::vector<std::string> &segs, int lim, int how, const std::vector<std::string> *before) {
    ops::Out o;
    std::pmr::monotonic_buffer_resource mr;
    auto go = [&](auto &&...opt) {
      pb_context ctx{opt..., alloc_from(mr)};
      M m;
      for (auto *in : {before, &segs}) { // the context is used again for the second input
        if (!in) continue;
        std::deque<Exact> own;
        std::vector<std::span<const std::byte>> v;
        for (auto &s : *in) own.emplace_back(s), v.push_back(own.back().span());
        status st = how == 0 ? read_binpb(m, v[0], ctx) : read_binpb(m, v, ctx);
        o.ec = (int)st.ec;
        if (st.ok() && in == &segs) o.msg = to_ref(m);
      }
      if (!before && how == 0) { // without a context of our own
        std::pmr::monotonic_buffer_resource mr2;
        Exact x(segs[0]);
        M m2;
        auto st = read_binpb(m2, x.span(), opt..., alloc_from(mr2));
        if ((int)st.ec != o.ec) o.note = "options give errc " + std::to_string((int)st.ec) + ", a context " + std::to_string(o.ec);
      }
    };
    switch (lim) {
    case 0: go(); break;
    case 1: go(recursion_limit<0>); break;
    case 2: go(recursion_limit<1>); break;
    case 3: go(recursion_limit<3>); break;
    default: go(recursion_limit<12>);
    }
    return o;
  };
  e.write_lim = [](const ref::Msg &v, int lim, int how, const std::vector<size_t> &chunks, const ref::Msg *before) {
    ops::Out o;
    ad::Arena a;
    auto go = [&](auto &&...opt) {
      pb_context ctx{opt...};
      for (auto *x : {before, &v}) {
        if (!x) continue;
        M m;
        ad::Ad<M>::from(*x, m, a);
        status st;
        o.bytes.clear();
        if (how == 0) { std::vector<std::byte> b; st = write_binpb(m, b, ctx); if (st.ok()) o.bytes = str_of(b); }
        else {
          Sink sink{chunks, false};
          st = write_binpb(m, sink, ctx);
          if (st.ok()) for (auto &s : sink.out) o.bytes += str_of(s);
        }
        o.ec = (int)st.ec;
      }
    };
    auto pick_mode = [&](auto &&...opt) {
      if (how == 2) go(opt..., chunked_mode);
      else go(opt...);
    };
    switch (lim) {
    case 0: pick_mode(); break;
    case 1: pick_mode(recursion_limit<0>); break;
    case 2: pick_mode(recursion_limit<1>); break;
    case 3: pick_mode(recursion_limit<3>); break;
    default: pick_mode(recursion_limit<12>);
    }
    return o;
  };
#endif
#ifdef OPS_ALLOC
  e.alloc_read = [](const std::vector<std::string> &segs, const ref::Msg &want, const ref::Msg &old, int how, ops::Entry::Fail fail) {
    ops::Entry::Mem r;
    std::deque<Exact> own;
    std::vector<std::span<const std::byte>> v;
    for (auto &s : segs) own.emplace_back(s), v.push_back(own.back().span());
    const auto before = mem::live();
    {
      ad::Arena arena;
      mem::Res a, def;
      mem::Default guard(&def);
      M m;
      if (how & 4) ad::Ad<M>::from(old, m, arena);
      auto once = [&](bool with_failures) {
        std::optional<mem::Res> b(std::in_place);
        auto def0 = def.n;
        if (with_failures) { a.fail_at = fail.a; b->fail_at = fail.b; if (fail.def != ~0ULL) def.fail_at = def.n + fail.def; mem::arm(fail.global); }
        status st;
        try {
          auto go = [&](auto &&...opt) { st = how & 1 ? read_binpb(m, v, opt...) : read_binpb(m, v[0], opt...); };
          if constexpr (owning) {
            if (how & 2) go(cache_alloc_from(*b));
            else go();
          } else {
            if (how & 2) go(alloc_from(a), cache_alloc_from(*b));
            else go(alloc_from(a));
          }
        } catch (const std::bad_alloc &) {
          r.threw = true;
        }
        if (with_failures) { r.global = mem::disarm(); r.a = a.n; r.b = b->n; r.def = def.n - def0; a.fail_at = def.fail_at = ~0ULL; }
        r.ec = (int)st.ec;
      };
      once(true);
      if (r.threw) { bool t = r.threw; r.threw = false; once(false); if (r.threw) r.note = "bad_alloc without a failure"; r.threw = t; }
      // the cache is gone, so are the bytes of an owning message
      if constexpr (owning) { for (auto &x : own) if (x.n) memset(x.p.get(), 0xdd, x.n); }
      if constexpr (!std::is_same_v<typename Tr::string_t, std::pmr::string>) if (!def.blocks.empty()) r.note = "cache memory not given back";
      if (r.ec == 0 && !ref::same(ops::schema(), to_ref(m), want, true)) r.note = "wrong value\n" + ref::dump(ops::schema(), to_ref(m), true);
    }
    r.leaked = mem::live() - before - (r.note.empty() ? 0 : r.note.size() > 15);
    return r;
  };
  e.alloc_write = [](const ref::Msg &v, const std::string &want, int how, size_t chunk, ops::Entry::Fail fail) {
    ops::Entry::Mem r;
    const auto before = mem::live();
    {
      ad::Arena arena;
      mem::Res a, def;
      mem::Default guard(&def);
      M m;
      ad::Ad<M>::from(v, m, arena);
      struct FixedSink {
        using slice_type = std::byte;
        std::unique_ptr<std::byte[]> p;
        size_t cap, chunk, at = 0, total = 0;
        void set_message_size(size_t n) { total = n; at = 0; }
        size_t chunk_size() const { return chunk; }
        std::span<std::byte> next_chunk() { size_t n = std::min(chunk, std::min(total, cap) - at); at += n; return {p.get() + at - n, n}; }
      } sink{std::make_unique<std::byte[]>(want.size() + 64), want.size() + 64, chunk};
      bool good = true;
      auto once = [&](bool with_failures) {
        std::optional<mem::Res> b(std::in_place);
        std::vector<std::byte> buf;
        std::span<std::byte> out;
        std::span<const std::byte> res;
        auto def0 = def.n;
        if (with_failures) { a.fail_at = fail.a; b->fail_at = fail.b; if (fail.def != ~0ULL) def.fail_at = def.n + fail.def; mem::arm(fail.global); }
        status st;
        try {
          switch (how) {
          case 0: st = write_binpb(m, buf); break;
          case 1: st = write_binpb(m, sink, chunked_mode, cache_alloc_from(*b)); break;
          case 2: st = write_binpb(m, sink); break;
          case 3: st = write_binpb(m, out, alloc_from(a)); break;
          default: st = write_binpb(m, out, alloc_from(a), cache_alloc_from(*b)); break;
          }
        } catch (const std::bad_alloc &) {
          r.threw = true;
        }
        if (with_failures) { r.global = mem::disarm(); r.a = a.n; r.b = b->n; r.def = def.n - def0; a.fail_at = def.fail_at = ~0ULL; }
        r.ec = (int)st.ec;
        b.reset();
        if (how == 0) res = buf;
        else if (how < 3) res = {sink.p.get(), sink.total};
        else res = out;
        good = r.threw || str_of(res) == want;
      };
      once(true);
      if (r.threw) { bool t = r.threw; r.threw = false; once(false); if (r.threw) r.note = "bad_alloc without a failure"; r.threw = t; }
      if (r.ec == 0 && !good) r.note = "wrong bytes";
      if (!ref::same(ops::schema(), to_ref(m), v, true)) r.note = "message changed";
      if constexpr (!std::is_same_v<typename Tr::string_t, std::pmr::string>) if (!def.blocks.empty()) r.note = "cache memory not given back";
    }
    r.leaked = mem::live() - before - (r.note.size() > 15);
    return r;
  };
  if constexpr (owning) e.alloc_modify = [](const ref::Msg &x, const ref::Msg &y, const ref::Msg &want, int how, ops::Entry::Fail fail) {
    ops::Entry::Mem r;
    const auto before = mem::live();
    {
      ad::Arena arena;
      mem::Res def;
      mem::Default guard(&def);
      M p, q;
      ad::Ad<M>::from(x, p, arena);
      ad::Ad<M>::from(y, q, arena);
      auto def0 = def.n;
      if (fail.def != ~0ULL) def.fail_at = def.n + fail.def;
      mem::arm(fail.global);
      std::optional<M> copy;
      try {
        switch (how) {
        case 0: merge(p, std::as_const(q)); break;
        case 1: merge(p, std::move(q)); break;
        case 2: copy.emplace(std::as_const(q)); break;
        default: p = std::as_const(q);
        }
      } catch (const std::bad_alloc &) {
        r.threw = true;
      }
      r.global = mem::disarm();
      r.def = def.n - def0;
      def.fail_at = ~0ULL;
      if (how != 1 && !ref::same(ops::schema(), to_ref(q), y, true)) r.note = "source changed";
      if (!r.threw && !ref::same(ops::schema(), to_ref(copy ? *copy : p), want, true)) r.note = "wrong value\n" + ref::dump(ops::schema(), to_ref(copy ? *copy : p), true);
      (void)to_ref(p); // still a message
      p = {};
      ad::Ad<M>::from(y, p, arena);
      if (!ref::same(ops::schema(), to_ref(p), y, true)) r.note = "destination unusable";
    }
    r.leaked = mem::live() - before - (r.note.size() > 15);
    return r;
  };
#endif
#ifdef OPS_ANY
  e.pack_any = [](const ref::Msg &v, std::string &url, int how) {
    ops::Out o;
    ad::Arena a;
    M m;
    ad::Ad<M>::from(v, m, a);
    std::pmr::monotonic_buffer_resource mr;
    auto fin = [&](auto &any, status st) {
      o.ec = (int)st.ec;
      url = std::string(any.type_url);
      o.bytes = str_of(any.value);
    };
    if (how < 3) {
      google::protobuf::Any<default_traits> any;
      if (how & 1) { any.type_url = "old/old.Type"; any.value.resize(50); }
      if (how == 2) { pb_context ctx{}; (void)ctx; fin(any, pack_any(any, m, cache_alloc_from(mr))); }
      else fin(any, pack_any(any, m));
    } else {
      google::protobuf::Any<non_owning_traits> any;
      fin(any, pack_any(any, m, alloc_from(mr)));
    }
    return o;
  };
  e.unpack_any = [](std::string_view url, std::string_view value, const ref::Msg &old, int how) {
    ops::Out o;
    ad::Arena a;
    std::pmr::monotonic_buffer_resource mr;
    M m;
    if (how & 2) ad::Ad<M>::from(old, m, a);
    auto go = [&](auto const &any) {
      if (how & 4) {
        auto fin = [&](auto &&r) {
          if (r.has_value()) o.msg = to_ref(*r);
          else o.ec = (int)r.error();
        };
        if constexpr (owning) fin(unpack_any<M>(any));
        else fin(unpack_any<M>(any, alloc_from(mr)));
        return;
      }
      status st;
      if constexpr (owning) st = unpack_any(any, m);
      else st = unpack_any(any, m, alloc_from(mr));
      o.ec = (int)st.ec;
      if (st.ok()) o.msg = to_ref(m);
    };
    Exact u(url), b(value);
    if (how & 1) {
      google::protobuf::Any<non_owning_traits> any;
      any.type_url = {reinterpret_cast<const char *>(u.p.get()), u.n};
      any.value = {b.p.get(), b.n};
      go(any);
    } else {
      google::protobuf::Any<default_traits> any;
      any.type_url = std::string(url);
      any.value.assign(b.span().begin(), b.span().end());
      go(any);
    }
    return o;
  };
#endif
  return e;
}
} // namespace inst
#define INST(tag, Msg, Tr) static ops::Add add_##tag(inst::make<Msg, Tr>(#Tr));
