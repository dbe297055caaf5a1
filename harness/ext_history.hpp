// Extensions: histories of set / get / has / read / write / copy on an extendable message against a
// model that keeps, per field number, the wire records a conforming implementation would hold.
// Included after the *.pb.hpp headers and the adapter.
#pragma once
#include "inst.hpp"
#include <map>

namespace ext_history {
using namespace pbt;
using namespace hpp_proto;
// the schema with one more message: a copy of an extendable one in which its extensions are ordinary fields
struct Aug {
  ref::Schema s = ops::schema();
  int d;
  explicit Aug(int D) : d((int)s.msgs.size()) {
    auto m = s.msgs[D];
    for (auto &f : m.fields)
      if (f.presence == ref::REQUIRED) f.presence = ref::EXPLICIT;
    m.fields.insert(m.fields.end(), m.exts.begin(), m.exts.end());
    s.msgs.push_back(std::move(m));
  }
  const ref::FieldDesc &field(uint32_t n) const { return s.msgs[d].fields[s.msgs[d].find(n)]; }
};
template <uint32_t N, bool Rep, class X> struct Tag {
  static constexpr uint32_t number = N;
  static constexpr bool rep = Rep;
  using type = X;
};

inline std::string show(const ref::FieldDesc &fd, const std::vector<ref::Val> &v) {
  std::string o = fd.name + "={";
  for (auto &x : v) o += ref::dump_val(ops::schema(), fd, x, true, 1) + " ";
  return o + "}";
}
inline void strip(ref::Msg &m, bool keep) {
  if (!keep && !ops::schema().msgs[m.d].extendable) m.unknown.clear();
  for (auto &fv : m.f)
    for (auto &v : fv.v)
      if (v.msg) strip(*v.msg, keep);
}
// Ext itself: sub-messages of the augmented descriptor share their descriptors with the plain schema
inline std::vector<ref::Val> normal(std::vector<ref::Val> v, bool keep) {
  for (auto &x : v)
    if (x.msg) strip(*x.msg, keep);
  return v;
}
inline bool is_default(const ref::FieldDesc &fd, const std::vector<ref::Val> &v) {
  if (fd.card != ref::SINGULAR) return v.empty();
  if (v.empty()) return true;
  if (fd.type == ref::T_MESSAGE || fd.type == ref::T_GROUP) return ref::encode(ops::schema(), *v[0].msg) == ref::encode(ops::schema(), ref::make(ops::schema(), fd.sub));
  auto dv = ref::default_of(ops::schema(), fd);
  return dv.num == v[0].num && dv.str == v[0].str;
}

struct Model {
  ref::Msg base;                       // declared fields
  std::map<uint32_t, std::string> raw; // extension and unknown records, by field number
};
inline std::string number_of(const std::string &tok, uint32_t &n) {
  ref::Schema dummy;
  ref::Decoder d{dummy, {}};
  d.r.p = (const unsigned char *)tok.data();
  d.r.e = d.r.p + tok.size();
  n = d.r.tag() >> 3;
  return tok;
}

inline bool unordered(int d, std::vector<char> &seen) {
  if (seen[d]) return false;
  seen[d] = 1;
  if (ops::schema().msgs[d].extendable) return true;
  for (auto &f : ops::schema().msgs[d].fields)
    if (f.card == ref::MAP || (ref::is_msg_type(f.type) && unordered(f.sub, seen))) return true;
  return false;
}
inline bool unordered(const ref::FieldDesc &f) {
  std::vector<char> seen(ops::schema().msgs.size());
  return ref::is_msg_type(f.type) && unordered(f.sub, seen);
}
inline bool has_nan(const ref::Msg &m) {
  auto nan = [](int type, uint64_t n) {
    if (type == ref::T_DOUBLE) return (n & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (n & 0xfffffffffffffULL);
    return type == ref::T_FLOAT && (n & 0x7f800000U) == 0x7f800000U && (n & 0x7fffffU) != 0;
  };
  auto &md = ops::schema().msgs[m.d];
  for (size_t i = 0; i < m.f.size(); ++i)
    for (size_t k = 0; k < m.f[i].v.size(); ++k) {
      auto &v = m.f[i].v[k];
      auto &fd = md.fields[i];
      if (v.msg ? has_nan(*v.msg) : nan(fd.card == ref::MAP ? ops::schema().msgs[fd.sub].fields[k & 1].type : fd.type, v.num)) return true;
    }
  return false;
}
template <class M, class Exts, bool Owning, bool Keep> struct History {
  static constexpr int D = ad::Ad<M>::D;
  static const Aug &aug() {
    static Aug a(D);
    return a;
  }
  using R = inst::Run<M, Owning>;
  Case &c;
  std::pmr::monotonic_buffer_resource mr;
  std::deque<inst::Exact> inputs;
  ad::Arena arena;
  M m{};
  Model mod;

  explicit History(Case &cc) : c(cc) { mod.base = ref::make(ops::schema(), ad::Ad<M>::D); }

  // what the records of one extension number read as
  ref::Res decode(uint32_t n, std::vector<ref::Val> &v) {
    ref::Msg a = ref::make(aug().s, aug().d);
    ref::Decoder d{aug().s, {}};
    auto it = mod.raw.find(n);
    auto res = it == mod.raw.end() ? ref::Res::ok : d.run(a, it->second);
    int i = aug().s.msgs[aug().d].find(n);
    v = a.f[i].v;
    if (!a.unknown.empty()) return ref::Res::unspecified; // unrecognised closed enum value in an extension
    if (v.empty() && aug().field(n).card == ref::SINGULAR) {
      auto &fd = aug().field(n);
      ref::Val x = ref::default_of(aug().s, fd);
      if (ref::is_msg_type(fd.type)) x.msg = std::make_shared<ref::Msg>(ref::make(ops::schema(), fd.sub));
      v.push_back(x);
    }
    v = normal(v, Keep);
    return res;
  }
  template <class T> std::vector<ref::Val> value_of(const typename T::type &x) {
    std::vector<ref::Val> r;
    if constexpr (!T::rep) r.push_back(ad::val(x.value));
    else
      for (const auto &e : x.value) r.push_back(ad::val(e));
    return normal(r, Keep);
  }
  template <class T> void fill(typename T::type &x, const std::vector<ref::Val> &v) {
    if constexpr (!T::rep) ad::build(x.value, v[0], arena);
    else {
      ref::Msg t;
      t.f.resize(1);
      t.f[0].v = v;
      x.value = {};
      ad::set_rep(x.value, t, 0, arena);
    }
  }
  std::vector<ref::Val> gen_value(uint32_t n) {
    auto &fd = aug().field(n);
    gen::Cfg cfg;
    cfg.max_depth = 3;
    cfg.bad_utf8 = false;
    std::vector<ref::Val> v;
    if (fd.card == ref::SINGULAR) {
      if (c.chance(1, 6)) { // the default
        ref::Val x = c.coin() ? ref::default_of(aug().s, fd) : ref::Val{};
        if (fd.type == ref::T_ENUM) x = ref::default_of(aug().s, fd);
        if (ref::is_msg_type(fd.type)) x.msg = std::make_shared<ref::Msg>(ref::make(ops::schema(), fd.sub));
        v.push_back(x);
      } else v.push_back(gen::value(c, ops::schema(), fd, cfg, 1));
    } else {
      size_t k = c.chance(1, 8) ? 0 : gen::count(c, fd);
      while (k--) v.push_back(gen::value(c, ops::schema(), fd, cfg, 1));
    }
    return normal(v, Keep);
  }
  template <class X> status call_get(const M &msg, X &x) {
    if constexpr (Owning) return msg.get_extension(x);
    else return msg.get_extension(x, alloc_from{mr});
  }

  void read() {
    gen::WCfg w;
    w.unknown_enum = c.chance(1, 6);
    w.wide_values = c.chance(1, 4);
    w.max_depth = 3;
    std::string in;
    unsigned k = 1 + (unsigned)c.draw(5);
    auto &md = ops::schema().msgs[ad::Ad<M>::D];
    uint32_t focus = c.pick(md.exts).number;
    while (k--) {
      switch (c.weighted({5, 3, 2, 1, 1})) {
      case 0: gen::record(c, ops::schema(), in, c.pick(md.exts), w, 1); break;
      case 1: gen::record(c, ops::schema(), in, md.exts[aug().s.msgs[aug().d].find(focus) - md.fields.size()], w, 1); break;
      case 2:
        if (!md.fields.empty()) gen::record(c, ops::schema(), in, c.pick(md.fields), w, 1);
        break;
      case 3: gen::unknown_field(c, in, gen::unknown_number(c, ops::schema(), ad::Ad<M>::D, w), w, 1); break;
      default: gen::unknown_field(c, in, c.pick(md.exts).number, w, 1); break; // another wire type than declared, often
      }
    }
    c.note("read " + hex(in));
    ref::Msg want = ref::make(ops::schema(), ad::Ad<M>::D);
    ref::Decoder d{ops::schema(), {}};
    auto res = d.run(want, in);
    if (res == ref::Res::unspecified) c.discard();
    inputs.emplace_back(in);
    auto st = R::read_to(m, inputs.back().span(), mr);
    c.check(st.ok() == (res == ref::Res::ok), "ext-read-status", "reading an extendable message gave errc " + std::to_string((int)st.ec));
    if (!st.ok()) c.discard();
    mod.raw.clear();
    for (auto &u : want.unknown) mod.raw[u.first] += u.second;
    want.unknown.clear();
    strip(want, Keep);
    mod.base = want;
  }
  template <class T> void set() {
    using X = typename T::type;
    auto &fd = aug().field(T::number);
    auto v = gen_value(T::number);
    bool bad = false;
    if (fd.type == ref::T_STRING && c.chance(1, 8)) {
      if (v.empty()) v.push_back({});
      v.back().str = gen::bad_text(c);
      bad = fd.utf8;
    }
    c.note("set " + show(fd, v));
    X x{};
    fill<T>(x, v);
    status st;
    if constexpr (Owning) st = m.set_extension(x);
    else st = m.set_extension(x, alloc_from{mr});
    c.check(st.ok() == !bad, "ext-set-status", std::string("set_extension ") + (bad ? "accepted invalid UTF-8" : "failed") + " for " + fd.name);
    if (bad) return; // and nothing has changed: the final comparison sees it
    bool had = mod.raw.contains(T::number);
    if (had) c.label("replaces");
    std::string r;
    ref::Msg a = ref::make(aug().s, aug().d);
    int i = aug().s.msgs[aug().d].find(T::number);
    a.f[i].v = v;
    a.f[i].present = fd.card == ref::SINGULAR;
    if (had) c.nontrivial();
    mod.raw.erase(T::number);
    r = ref::encode(aug().s, a);
    if (!is_default(fd, v)) {
      mod.raw[T::number] = r;
      c.check(m.has_extension(x), "ext-has", "has_extension is false right after set_extension of " + show(fd, v));
    } else { // whether the default is stored explicitly is not decided here; it must read as the default
      c.label("set_default");
      if (m.has_extension(x)) mod.raw[T::number] = r;
    }
    get<T>();
  }
  template <class T> void get() {
    using X = typename T::type;
    auto &fd = aug().field(T::number);
    std::vector<ref::Val> want;
    auto res = decode(T::number, want);
    X x{};
    bool has = mod.raw.contains(T::number);
    c.check_f(m.has_extension(x) == has, "ext-has", [&] { return "has_extension(" + fd.name + ") is " + (has ? "false" : "true"); });
    if (has && c.chance(1, 3)) { // the object read into already holds something
      auto old = gen_value(T::number);
      fill<T>(x, old);
      c.label("prefilled");
    }
    auto st = call_get(m, x);
    if (res == ref::Res::unspecified) return;
    if (has) c.nontrivial();
    if (res == ref::Res::bad) c.label("malformed");
    c.check_f(st.ok() == (res == ref::Res::ok), "ext-get-status", [&] { return "get_extension(" + fd.name + ") gave errc " + std::to_string((int)st.ec) + " for records " + hex(mod.raw[T::number]); });
    if (!st.ok()) return;
    auto got = value_of<T>(x);
    c.check_f(show(fd, got) == show(fd, want), "ext-value", [&] { return "get_extension reads " + show(fd, got) + " but the message holds " + show(fd, want); });
  }
  void write() {
    std::vector<std::byte> out;
    auto st = write_binpb(m, out);
    c.check(st.ok(), "ext-write-status", "writing failed");
    std::string s = inst::str_of(out);
    std::vector<std::string> toks;
    c.check_f(ref::split(s, toks), "ext-write", [&] { return "malformed output " + hex(s); });
    std::map<uint32_t, std::string> got, want;
    for (auto &t : toks) {
      uint32_t n;
      number_of(t, n);
      got[n] += t;
    }
    std::vector<std::string> bt;
    ref::encode_tokens(ops::schema(), mod.base, bt);
    for (auto &t : bt) {
      uint32_t n;
      number_of(t, n);
      want[n] += t;
    }
    for (auto &[n, t] : mod.raw) want[n] += t;
    // entries of maps and unknown fields of extendable messages may come in any order
    auto loose = [&](uint32_t n) {
      auto &md = aug().s.msgs[aug().d];
      int i = md.find(n);
      return i >= 0 && (md.fields[i].card == ref::MAP || unordered(md.fields[i]));
    };
    auto reads_as = [&](const std::map<uint32_t, std::string> &recs) {
      std::string o;
      for (auto &[n, r] : recs) {
        ref::Msg a = ref::make(aug().s, aug().d);
        ref::Decoder d{aug().s, {}};
        if (loose(n) && d.run(a, r) == ref::Res::ok) strip(a, Keep), o += ref::dump(aug().s, a, true);
        else o += std::to_string(n) + ":" + hex(r, SIZE_MAX) + "\n";
      }
      return o;
    };
    c.check_f(reads_as(got) == reads_as(want), "ext-write", [&] {
      std::string r = "written " + hex(s) + "; expected records:";
      for (auto &[n, t] : want) r += " " + hex(t);
      return r;
    });
    for (auto &[n, t] : mod.raw)
      if (aug().s.msgs[aug().d].find(n) >= 0 && ops::schema().msgs[D].find(n) < 0 && loose(n)) t = got[n];
    if (c.coin()) { // and the message read back continues the history
      c.note("reread");
      inputs.emplace_back(s);
      M m2{};
      auto r = R::read_to(m2, inputs.back().span(), mr);
      c.check(r.ok(), "ext-reread", "the written message cannot be read");
      if constexpr (Owning) c.check(m2 == m || has_nan(mod.base), "ext-equal", "the message read back differs");
      m = std::move(m2);
    }
  }
  // the records of one number may be kept as several entries of a non-owning message
  void split_entries() {
    if constexpr (!Owning) {
      auto &f = pb_serializer::get_unknown_fields(m);
      using entry = std::remove_cvref_t<decltype(f[0])>;
      std::vector<entry> v;
      for (auto &e : f) {
        std::string s((const char *)e.second.data(), e.second.size());
        std::vector<std::string> toks;
        if (!c.coin() || !ref::split(s, toks)) { v.push_back(e); continue; }
        size_t at = 0;
        for (size_t i = 0; i < toks.size();) {
          size_t n = 0;
          do n += toks[i++].size(); while (i < toks.size() && c.chance(1, 3));
          v.push_back(entry{e.first, {e.second.data() + at, n}});
          at += n;
        }
        if (toks.size() > 1) c.label("split entries");
      }
      for (unsigned k = (unsigned)c.draw(6); k && v.size() > 1; --k) { // entries of different numbers may be in any order
        size_t i = c.draw(v.size() - 2);
        if (v[i].first != v[i + 1].first) std::swap(v[i], v[i + 1]);
      }
      auto *p = (entry *)mr.allocate(sizeof(entry) * v.size() + 1, alignof(entry));
      std::uninitialized_copy(v.begin(), v.end(), p);
      f = {p, v.size()};
    }
  }
  void copy() {
    M b = m;
    c.check(b == m || has_nan(mod.base), "ext-equal", "a copy differs");
    if (c.coin()) m = std::move(b);
    else m = b;
  }
  template <size_t I = 0> void dispatch(size_t k, bool setting) {
    if constexpr (I < std::tuple_size_v<Exts>) {
      if (k != I) return dispatch<I + 1>(k, setting);
      using T = std::tuple_element_t<I, Exts>;
      if (setting) set<T>();
      else get<T>();
    }
  }
  template <size_t... I> void all(std::index_sequence<I...>) { (get<std::tuple_element_t<I, Exts>>(), ...); }
  void run() {
    constexpr size_t N = std::tuple_size_v<Exts>;
    size_t focus = c.draw(N - 1);
    unsigned k = 1 + (unsigned)c.draw(7);
    if (c.coin()) read();
    while (k--) {
      size_t which = c.coin() ? focus : c.draw(N - 1);
      switch (c.weighted({6, 2, 2, 1, 1})) {
      case 0: dispatch(which, true); break;
      case 1: dispatch(which, false); break;
      case 2: c.note("write"); write(); break;
      case 3: read(); break;
      default:
        if (!Owning && c.coin()) c.note("split entries"), split_entries();
        else c.note("copy"), copy();
      }
    }
    c.check_f(ref::same(ops::schema(), [&] { auto r = inst::to_ref(m); r.unknown.clear(); return r; }(), mod.base, false), "ext-base", [&] { return std::string("the declared fields changed"); });
    all(std::make_index_sequence<N>{});
    write();
  }
};
} // namespace ext_history
