// F03: arena_vector against std::vector.  F04: the optional types, spans and literals used as fields.
#include "pbt.hpp"
#include <hpp_proto/memory_resource_utils.hpp>
#include <limits>
#include <list>
#include <memory>
#include <optional>
using namespace hpp_proto;

namespace {
// ------------------------------------------------------------------ arena_vector
struct Arena { // every block is a heap block of its own (so that ASan sees overruns), freed with the arena
  std::vector<std::pair<void *, size_t>> blocks;
  Arena() = default;
  Arena(const Arena &) = delete;
  void *allocate(size_t n, size_t) {
    void *p = malloc(n ? n : 1);
    memset(p, 0xcd, n);
    blocks.push_back({p, n});
    return p;
  }
  bool owns(const void *p, size_t n) const {
    for (auto &[b, s] : blocks)
      if (p >= b && static_cast<const char *>(p) + n <= static_cast<char *>(b) + s) return true;
    return false;
  }
  ~Arena() { for (auto &b : blocks) free(b.first); }
};
template <class T> T mkv(uint64_t i) { return static_cast<T>(i); }
template <> std::string_view mkv<std::string_view>(uint64_t i) {
  static const char *s[] = {"", "a", "bc", "def", "ghij"};
  return s[i % 5];
}
template <class View> void arena_run(pbt::Case &c) {
  using T = typename detail::arena_vector<View, Arena>::value_type;
  Arena arena;
  auto val = [&] { return mkv<T>(c.draw(200)); };
  auto vals = [&](uint64_t max) {
    std::vector<T> v(c.draw(max));
    for (auto &x : v) x = val();
    return v;
  };
  const std::vector<T> original = vals(6); // the input the view refers to at first; it may never be written to
  std::vector<T> backing = original;
  View view(backing.data(), backing.size());
  std::vector<T> r = original;
  std::vector<std::pair<View, std::vector<T>>> handed_out; // views the arena's user kept; their memory must stay valid
  using AV = detail::arena_vector<View, Arena>;
  std::optional<AV> av;
  av.emplace(view, arena);
  bool live = false; // storage materialised
  size_t steps = 0;
  for (; steps < 40 && c.draw(20) != 0; ++steps) {
    unsigned op = unsigned(c.draw(13));
    c.note("op" + std::to_string(op));
    switch (op) {
    case 0: { auto v = val(); r.push_back(v); av->push_back(v); live = true; break; }
    case 1: { auto v = val(); r.push_back(v); c.check(av->emplace_back(v) == v, "arena", "emplace_back"); live = true; break; }
    case 2: { auto v = vals(5); r.insert(r.end(), v.begin(), v.end()); av->append_range(v); live = true; break; }
    case 3: { auto v = vals(5); std::list<T> l(v.begin(), v.end()); r.insert(r.end(), v.begin(), v.end()); av->append_range(l.begin(), l.end()); live = true; break; }
    case 4: { auto v = vals(9); r = v; if (c.coin()) av->assign_range(v); else *av = v; live = true; break; }
    case 5: { auto v = vals(9); r = v; av->assign(v.data(), v.size()); live = true; break; }
    case 6: { // resize; what is added has to be written before it is read
      size_t n = c.draw(12), old = r.size();
      r.resize(n);
      av->resize(n);
      live = true;
      for (size_t i = old; i < n; ++i) (*av)[i] = r[i] = val();
      break;
    }
    case 7: { auto n = c.draw(20); av->reserve(n); break; }
    case 8: if (c.chance(1, 3)) { r.clear(); av->clear(); live = true; } break;
    case 9: { // an adapter made anew for the same view, as for every chunk of a packed field
      av.reset();
      av.emplace(view, arena);
      live = false;
      break;
    }
    case 10: if (live && !r.empty()) { size_t i = c.draw(r.size() - 1); (*av)[i] = r[i] = val(); for (auto &h : handed_out) if (h.first.data() == view.data()) h.second.clear(); } break;
    case 11:
      if constexpr (std::is_arithmetic_v<T>) {
        auto v = vals(6);
        std::vector<std::byte> raw(v.size() * sizeof(T));
        if (!v.empty()) memcpy(raw.data(), v.data(), raw.size());
        r.insert(r.end(), v.begin(), v.end());
        av->append_raw_data(raw);
        live = true;
      }
      break;
    case 12: if (live && !r.empty()) { c.check(av->front() == r.front() && av->back() == r.back() && av->data() == view.data() && av->end() - av->begin() == ptrdiff_t(r.size()), "arena", "front/back/data"); } break;
    default: handed_out.push_back({view, r}); break;
    }
    c.check(av->size() == r.size() && av->empty() == r.empty() && view.size() == r.size(), "arena-size", "size after op" + std::to_string(op) + ": " + std::to_string(view.size()) + ", expected " + std::to_string(r.size()));
    c.check_f(std::equal(r.begin(), r.end(), view.begin(), view.end()), "arena-content", [&] { return "content differs from std::vector after op" + std::to_string(op); });
    c.check(backing == original, "arena-input-written", "the memory of the original view was written to");
    if (live && !r.empty()) c.check(arena.owns(view.data(), view.size() * sizeof(T)), "arena-owner", "the view does not point into the arena");
    volatile uint64_t sum = 0;
    for (auto &h : handed_out)
      for (size_t i = 0; i < h.first.size(); ++i) sum = sum + *reinterpret_cast<const unsigned char *>(h.first.data() + i); // ASan: still allocated
  }
  if (steps >= 4 && r.size() >= 2) c.nontrivial();
}

// ------------------------------------------------------------------ optional
template <class T> T some(pbt::Case &c);
template <> int some<int>(pbt::Case &c) { return int(c.range(-4, 8)); }
template <> double some<double>(pbt::Case &c) { return double(c.range(-4, 8)) / 2; }
template <> std::string some<std::string>(pbt::Case &c) { return std::string(size_t(c.draw(3)) * 9, char('a' + c.draw(2))) + (c.coin() ? "abc" : ""); }
template <> std::string_view some<std::string_view>(pbt::Case &c) { return c.pick<const char *>({"", "x", "abc", "longer text than fits"}); }
template <> bytes some<bytes>(pbt::Case &c) { return bytes(size_t(c.draw(4)), std::byte(c.draw(3))); }
enum class E : int { A = 0, B = 3, C = -1 };
template <> E some<E>(pbt::Case &c) { return c.pick<E>({E::A, E::B, E::C}); }

// a type that converts to the type of the field
template <class T> struct src_of { using type = void; };
template <> struct src_of<int> { using type = short; };
template <> struct src_of<double> { using type = float; };
template <> struct src_of<std::string> { using type = const char *; };
template <> struct src_of<std::string_view> { using type = const char *; };
template <class S> S some_src(pbt::Case &c) {
  if constexpr (std::is_arithmetic_v<S>) return S(c.range(-4, 8));
  else return c.pick<const char *>({"", "x", "abc", "longer text than fits"});
}
template <class O, class Other> void opt_run(pbt::Case &c, const typename O::value_type &def) {
  using T = typename O::value_type;
  struct M { std::optional<T> v; bool unspec = false; } m[3];
  O o[3];
  size_t steps = 0;
  for (; steps < 40 && c.draw(20) != 0; ++steps) {
    int i = int(c.draw(2)), j = int(c.draw(2));
    T v = some<T>(c);
    unsigned op = unsigned(c.draw(21));
    c.note("op" + std::to_string(op) + " " + std::to_string(i) + " " + std::to_string(j));
    if (m[j].unspec) j = i;
    switch (op) {
    case 0: o[i] = v; m[i] = {v}; break;
    case 1: { T w = v; o[i] = std::move(w); m[i] = {v}; break; }
    case 2: c.check(o[i].emplace(v) == v, "optional", "emplace"); m[i] = {v}; break;
    case 3: o[i].reset(); m[i] = {}; break;
    case 4: o[i] = std::nullopt; m[i] = {}; break;
    case 5: if (!m[j].unspec) { const O &s = o[j]; o[i] = s; m[i] = m[j]; } break;
    case 6: if (!m[j].unspec && i != j) { o[i] = std::move(o[j]); m[i] = m[j]; m[j].unspec = true; } break;
    case 7: if (!m[i].unspec && !m[j].unspec) { o[i].swap(o[j]); std::swap(m[i], m[j]); } break;
    case 8: { std::optional<T> s; if (c.coin()) s = v; o[i] = s; m[i] = {s}; break; }
    case 9: { std::optional<T> s; if (c.coin()) s = v; auto t = s; o[i] = std::move(t); m[i] = {s}; break; }
    case 10: if (!m[j].unspec) { O t(o[j]); o[i] = t; m[i] = m[j]; } break;
    case 11: if (!m[j].unspec) { O t(std::move(o[j])); if (i != j) { m[i] = m[j]; m[j].unspec = true; } o[i] = std::move(t); if (i == j) { } } break;
    case 12: { std::optional<T> s; if (c.coin()) s = v; O t(s); o[i] = t; m[i] = {s}; break; }
    case 13: { O t(std::in_place, v); o[i] = t; m[i] = {v}; break; }
    case 14: // from an optional with another default
      if constexpr (!std::is_void_v<Other>) {
        Other s;
        if (c.coin()) s = v;
        std::optional<T> w;
        if (s.has_value()) w = T(*s);
        if (c.coin()) o[i] = s;
        else if (c.coin()) o[i] = std::move(s);
        else if (c.coin()) { O t(s); o[i] = t; }
        else { O t(std::move(s)); o[i] = t; }
        m[i] = {w};
      }
      break;
    case 15: if (!m[i].unspec && m[i].v) { if (c.coin()) *o[i] = v; else o[i].value() = v; m[i].v = v; } break;
    case 16: if (!m[i].unspec) {
        const O &s = o[i];
        c.check(s.value_or(v) == m[i].v.value_or(v) && O(s).value_or(v) == m[i].v.value_or(v), "optional", "value_or");
      }
      break;
    case 17: // from another type that converts, as itself or as an optional
      if constexpr (!std::is_void_v<typename src_of<T>::type>) {
        using S = typename src_of<T>::type;
        S v2 = some_src<S>(c);
        std::optional<S> s;
        if (c.coin()) s = v2;
        std::optional<T> w = s;
        switch (c.draw(5)) {
        case 0: o[i] = v2; w = T(v2); break;
        case 1: { O t(v2); o[i] = t; w = T(v2); break; }
        case 2: { O t(s); o[i] = t; break; }
        case 3: { O t(std::move(s)); o[i] = t; break; }
        case 4: { O t = v2; o[i] = std::move(t); w = T(v2); break; }
        default: c.check(o[i].emplace(v2) == T(v2), "optional", "emplace from another type"); w = T(v2); break;
        }
        m[i] = {w};
      }
      break;
    case 18: // take the value out
      if (!m[i].unspec && m[i].v) {
        T t = c.coin() ? std::move(o[i]).value() : *std::move(o[i]);
        c.check(t == *m[i].v && o[i].has_value(), "optional", "value() of an rvalue");
        m[i].unspec = true;
      }
      break;
    case 19: // const rvalues do not change what they refer to
      if (!m[i].unspec && m[i].v) {
        const O &s = o[i];
        T t = c.coin() ? std::move(s).value() : *std::move(s);
        c.check(t == *m[i].v, "optional", "value() of a const rvalue");
      }
      break;
    case 20:
      if constexpr (requires(T t) { t.push_back(v[0]); }) {
        if (v.size() >= 2) {
          O t(std::in_place, {v[0], v[1]});
          o[i] = t;
          m[i] = {T{v[0], v[1]}};
        } else if (!m[i].unspec && m[i].v) {
          auto x = typename T::value_type{};
          o[i]->push_back(x);
          m[i].v->push_back(x);
        }
      }
      break;
    default: if (!m[i].unspec && !m[j].unspec) { c.check((o[i] == o[j]) == (m[i].v == m[j].v) && (o[i] != o[j]) == (m[i].v != m[j].v), "optional-compare", "== differs from std::optional"); }
    }
    for (int k = 0; k < 3; ++k) {
      if (m[k].unspec) continue;
      const O &s = o[k];
      c.check_f(s.has_value() == m[k].v.has_value() && bool(s) == m[k].v.has_value(), "optional-presence", [&] { return "presence of " + std::to_string(k) + " after op" + std::to_string(op); });
      c.check_f(s.value() == m[k].v.value_or(def) && *s == m[k].v.value_or(def) && *s.operator->() == m[k].v.value_or(def), "optional-value", [&] { return "value of " + std::to_string(k) + " after op" + std::to_string(op); });
    }
  }
  if (steps >= 4) c.nontrivial();
}
template <class O> void bool_run(pbt::Case &c, bool def) {
  std::optional<bool> m[2];
  O o[2];
  size_t steps = 0;
  for (; steps < 30 && c.draw(20) != 0; ++steps) {
    int i = int(c.draw(1)), j = int(c.draw(1));
    bool v = c.coin();
    unsigned op = unsigned(c.draw(8));
    c.note("bool op" + std::to_string(op) + " " + std::to_string(i) + " " + std::to_string(j) + " " + std::to_string(v));
    switch (op) {
    case 0: o[i] = v; m[i] = v; break;
    case 1: { auto p = o[i].emplace(v); c.check(bool(p) == v, "optional-bool", "emplace"); m[i] = v; break; }
    case 2: { auto p = o[i].emplace(); c.check(bool(p) == def, "optional-bool", "emplace()"); m[i] = def; break; }
    case 3: { auto p = o[i].emplace(); p = v; m[i] = v; break; }
    case 4: o[i].reset(); m[i].reset(); break;
    case 5: o[i] = o[j]; m[i] = m[j]; break;
    case 6: o[i].swap(o[j]); std::swap(m[i], m[j]); break;
    case 7: { O t(v); o[i] = t; m[i] = v; break; }
    default: { O t; o[i] = std::move(t); m[i].reset(); }
    }
    for (int k = 0; k < 2; ++k) c.check(o[k].has_value() == m[k].has_value() && o[k].value() == m[k].value_or(def) && *o[k] == m[k].value_or(def), "optional-bool", "state after op" + std::to_string(op));
    c.check((o[0] == o[1]) == (m[0] == m[1]), "optional-bool", "==");
  }
  if (steps >= 4) c.nontrivial();
}
// ------------------------------------------------------------------ spans and literals
template <class T> void span_run(pbt::Case &c) {
  std::vector<T> a(size_t(c.draw(5))), b;
  for (auto &x : a) x = mkv<T>(c.draw(3));
  if (c.coin()) b = a;
  else b.resize(size_t(c.draw(5)));
  if (!b.empty() && c.coin()) b[c.draw(b.size() - 1)] = mkv<T>(c.draw(3));
  if (!a.empty() && a.size() == b.size()) c.nontrivial();
  c.note("span of " + std::to_string(a.size()) + " and " + std::to_string(b.size()));
  using S = equality_comparable_span<const T>;
  S x(a.data(), a.size()), y{std::span<const T>(b)}, z(std::span<T>(a.data(), a.size()));
  c.check((x == y) == (a == b) && (x != y) == (a != b) && x == z, "span-compare", "==");
  c.check(x.size() == a.size() && x.empty() == a.empty() && x.size_bytes() == a.size() * sizeof(T) && std::equal(x.begin(), x.end(), a.begin(), a.end()) && std::equal(x.rbegin(), x.rend(), a.rbegin(), a.rend()) && std::equal(x.crbegin(), x.crend(), a.rbegin(), a.rend()), "span-content", "content");
  size_t i = size_t(c.draw(6));
  bool threw = false;
  try { c.check(x.at(i) == a.at(i), "span-at", "at"); } catch (const std::out_of_range &) { threw = true; }
  c.check(threw == (i >= a.size()), "span-at", "at() and its range check");
  if (i <= a.size()) {
    c.check(std::ranges::equal(x.first(i), std::span(a).first(i)) && std::ranges::equal(x.last(i), std::span(a).last(i)) && std::ranges::equal(x.subspan(i), std::span(a).subspan(i)), "span-sub", "first/last/subspan");
  }
  if (!a.empty()) c.check(x.front() == a.front() && x.back() == a.back() && x[0] == a[0], "span-content", "front/back");
  y = std::span<T>(a);
  c.check(y == x && y.data() == a.data(), "span-assign", "assignment");
  S e;
  c.check(e.empty() && e.size() == 0 && (e == x) == a.empty(), "span-default", "default constructed");
}
template <auto L> void lit(pbt::Case &c, std::string_view want) {
  string_literal<L> s;
  std::string_view sv = s;
  c.check(s.size() == want.size() && sv == want && std::string_view(s.begin(), s.end()) == want && s.c_str()[want.size()] == 0, "literal", "string_literal as view");
  c.check(s.operator std::string() == want, "literal-string", "string_literal converted to std::string");
  c.check(static_cast<std::string>(s) == std::string(want) && s == std::string(want) && s == want, "literal-string", "string_literal as std::string");
  c.check(!(s == std::string(want) + "x"), "literal", "string_literal equals another string");
  bytes_literal<L> b;
  std::vector<std::byte> v = b;
  std::pmr::vector<std::byte> pv = b;
  bytes_view bv = b;
  auto as = [](auto &r) { return std::string_view(reinterpret_cast<const char *>(r.data()), r.size()); };
  c.check(as(v) == want && as(pv) == want && as(bv) == want && b == bv && b == v, "literal", "bytes_literal");
  optional<std::string, string_literal<L>{}> o;
  c.check(!o.has_value() && *o == want, "literal-default", "default of optional<string>");
  o = "other";
  o.reset();
  c.check(!o.has_value() && *o == want, "literal-default", "default of optional<string> after reset");
  optional<std::string_view, string_literal<L>{}> ov;
  c.check(*ov == want, "literal-default", "default of optional<string_view>");
  optional<bytes, bytes_literal<L>{}> ob;
  c.check(as(*ob) == want, "literal-default", "default of optional<bytes>");
  optional<bytes_view, bytes_literal<L>{}> obv;
  c.check(as(*obv) == want, "literal-default", "default of optional<bytes_view>");
}
} // namespace

PBT_PROP(arena_vector, "4 or more operations and two or more elements") {
  switch (c.draw(5)) {
  case 0: arena_run<equality_comparable_span<const int>>(c); break;
  case 1: arena_run<std::string_view>(c); break;
  case 2: arena_run<equality_comparable_span<const std::string_view>>(c); break;
  case 3: arena_run<equality_comparable_span<const uint64_t>>(c); break;
  case 4: arena_run<bytes_view>(c); break;
  default: arena_run<equality_comparable_span<const double>>(c); break;
  }
}
PBT_PROP(optional_field, "4 or more operations") {
  switch (c.draw(8)) {
  case 0: opt_run<hpp_proto::optional<int>, hpp_proto::optional<short>>(c, 0); break;
  case 1: opt_run<hpp_proto::optional<int, 70000>, hpp_proto::optional<short>>(c, 70000); break;
  case 2: opt_run<hpp_proto::optional<double, 2.5>, hpp_proto::optional<double>>(c, 2.5); break;
  case 3: opt_run<hpp_proto::optional<std::string, string_literal<"abc">{}>, hpp_proto::optional<std::string>>(c, "abc"); break;
  case 4: opt_run<hpp_proto::optional<std::string_view>, void>(c, ""); break;
  case 5: opt_run<hpp_proto::optional<E, E::B>, void>(c, E::B); break;
  case 6: opt_run<hpp_proto::optional<bytes>, void>(c, bytes{}); break;
  case 7: bool_run<hpp_proto::optional<bool>>(c, false); break;
  default: bool_run<hpp_proto::optional<bool, true>>(c, true); break;
  }
}
PBT_PROP(span_literal, "two ranges of the same non-zero length, or a literal with a zero byte") {
  switch (c.draw(6)) {
  case 0: span_run<int>(c); break;
  case 1: span_run<std::string_view>(c); break;
  case 2: span_run<unsigned char>(c); break;
  case 3: lit<compile_time_string{""}>(c, ""); break;
  case 4: lit<compile_time_string{"abc \xc3\xa4"}>(c, "abc \xc3\xa4"); break;
  case 5: c.nontrivial(); lit<compile_time_string{"\0"}>(c, std::string_view("\0", 1)); break;
  default: c.nontrivial(); lit<compile_time_string{"a\0b"}>(c, std::string_view("a\0b", 3)); break;
  }
}
