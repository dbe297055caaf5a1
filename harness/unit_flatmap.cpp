// F01: histories of operations on hpp_proto's flat_map against std::map.
#include "track.hpp"
#include <hpp_proto/field_types.hpp>
#include <algorithm>
#include <sstream>
using namespace track;

namespace {
template <class T> T mk(int i);
template <> int mk<int>(int i) { return i * 3 - 12; }
template <> Obj mk<Obj>(int i) { return Obj(i * 3 - 12); }
template <> std::string mk<std::string>(int i) { return i == 0 ? std::string() : std::string(size_t(i % 23), char('a' + i % 26)) + "key" + std::to_string(i); }
template <> hpp_proto::boolean mk<hpp_proto::boolean>(int i) { return i & 1; }
template <> uint64_t mk<uint64_t>(int i) { return (uint64_t(i) << 60) + uint64_t(i); }
std::string str(int v) { return std::to_string(v); }
std::string str(uint64_t v) { return std::to_string(v); }
std::string str(const Obj &v) { return std::to_string(v.v); }
std::string str(const std::string &v) { return "'" + v + "'"; }
std::string str(hpp_proto::boolean v) { return v ? "true" : "false"; }

template <class M, class Model> void same(pbt::Case &c, const M &m, const Model &r, const char *when) {
  auto show = [&] {
    std::ostringstream o;
    o << when << ": map has";
    for (size_t i = 0; i < m.keys().size(); ++i) o << " " << str(m.keys()[i]) << "=" << (i < m.values().size() ? str(m.values()[i]) : "?");
    o << " (" << m.keys().size() << " keys, " << m.values().size() << " values), expected";
    for (auto &[k, v] : r) o << " " << str(k) << "=" << str(v);
    return o.str();
  };
  bool ok = m.keys().size() == r.size() && m.values().size() == r.size() && m.size() == r.size() && m.empty() == r.empty() && m.end() - m.begin() == ptrdiff_t(r.size());
  if (ok) {
    auto it = r.begin();
    for (auto kv : m) {
      if (!(kv.first == it->first) || !(kv.second == it->second)) ok = false;
      ++it;
    }
  }
  c.check_f(ok, std::string("content-") + when, show);
  settled(c);
}

// M: flat_map type; Throws: elements may throw; mkmap: makes an empty map (with its allocator)
struct Plain {};
template <class M, bool Throws, class Make, class MakeModel = Plain> void run(pbt::Case &c, Make mkmap, MakeModel mkmodel = {}) {
  using K = typename M::key_type;
  using V = typename M::mapped_type;
  using Model = std::map<K, V, typename M::key_compare>;
  const int span = int(c.range(3, 24));
  auto key = [&] { return mk<K>(int(c.draw(uint64_t(span)))); };
  auto val = [&] { return mk<V>(int(c.draw(99))); };
  // unsorted, possibly duplicated (key, value) pairs; equal keys get equal values, as which of them survives is not specified
  auto pairs = [&] {
    std::vector<std::pair<K, V>> p;
    size_t n = size_t(c.draw(8));
    for (size_t i = 0; i < n; ++i) {
      int k = int(c.draw(uint64_t(span)));
      p.push_back({mk<K>(k), mk<V>(k * 7)});
    }
    return p;
  };
  M m = mkmap();
  Model r = [&] { if constexpr (std::is_same_v<MakeModel, Plain>) return Model(); else return mkmodel(); }();
  auto fill = [&](Model &x, const std::vector<std::pair<K, V>> &p) { for (auto &e : p) x.insert(e); };
  auto sorted = [&](std::vector<std::pair<K, V>> p, typename M::key_compare cmp = {}) {
    Model x(cmp);
    fill(x, p);
    return std::vector<std::pair<K, V>>(x.begin(), x.end());
  };
  // the position an iterator stands at; the element before it and, through it, the one there are looked at on the way
  auto pos = [&](auto first, auto last, auto it) {
    ptrdiff_t i = it - first;
    if (i < 0 || i > last - first) return ptrdiff_t(-1);
    bool ok = (it == last) == (i == last - first);
    if (i < last - first) ok = ok && it->first == first[i].first && (*it).second == first[i].second;
    if (i > 0) { auto b = it; --b; ok = ok && b->first == first[i - 1].first && b->second == first[i - 1].second; }
    return ok ? i : ptrdiff_t(-2);
  };
  auto idx = [&](auto it) { return pos(m.cbegin(), m.cend(), typename M::const_iterator(it)); };
  auto ridx = [&](auto it) { return std::distance(r.begin(), it); };
  size_t steps = 0;
  for (; steps < 60 && c.draw(24) != 0; ++steps) {
    unsigned op = unsigned(c.draw(Throws ? 31 : 28));
    std::string opn = "op" + std::to_string(op);
    switch (op) {
    case 0: case 1: { // emplace / insert
      K k = key(); V v = val();
      c.note("emplace " + str(k) + " " + str(v));
      auto want = r.emplace(k, v);
      auto got = op == 0 ? m.emplace(k, v) : m.insert(typename M::value_type(k, v));
      c.check(got.second == want.second && idx(got.first) == ridx(want.first), "emplace-result", "emplace returned another position or flag than std::map");
      break;
    }
    case 2: case 3: { // try_emplace
      K k = key(); V v = val();
      c.note("try_emplace " + str(k) + " " + str(v));
      auto want = r.try_emplace(k, v);
      V arg = v;
      auto got = op == 2 ? m.try_emplace(k, v) : m.try_emplace(K(k), std::move(arg));
      c.check(got.second == want.second && idx(got.first) == ridx(want.first), "try_emplace-result", "try_emplace returned another position or flag than std::map");
      if (!want.second) c.check(arg == v, "try_emplace-moved", "try_emplace moved from its argument although the key was there");
      break;
    }
    case 4: case 5: { // hinted
      K k = key(); V v = val();
      auto h = c.draw(m.size());
      c.note("try_emplace hint " + std::to_string(h) + " key " + str(k) + " " + str(v));
      auto want = r.try_emplace(k, v).first;
      auto got = op == 4 ? m.try_emplace(m.cbegin() + ptrdiff_t(h), k, v) : m.try_emplace(m.cbegin() + ptrdiff_t(h), K(k), V(v));
      c.check(idx(got) == ridx(want), "try_emplace-hint-result", "hinted try_emplace returned another position than std::map");
      break;
    }
    case 6: case 7: {
      K k = key(); V v = val();
      c.note("insert_or_assign " + str(k) + " " + str(v));
      auto want = r.insert_or_assign(k, v);
      auto got = op == 6 ? m.insert_or_assign(k, v) : m.insert_or_assign(K(k), V(v));
      c.check(got.second == want.second && idx(got.first) == ridx(want.first), "insert_or_assign-result", "insert_or_assign returned another position or flag than std::map");
      break;
    }
    case 8: {
      K k = key(); V v = val();
      auto h = c.draw(m.size());
      c.note("insert_or_assign hint " + std::to_string(h) + " key " + str(k) + " " + str(v));
      auto want = r.insert_or_assign(k, v).first;
      auto got = c.coin() ? m.insert_or_assign(m.cbegin() + ptrdiff_t(h), k, v) : m.insert_or_assign(m.cbegin() + ptrdiff_t(h), K(k), V(v));
      c.check(idx(got) == ridx(want), "insert_or_assign-hint-result", "hinted insert_or_assign returned another position than std::map");
      break;
    }
    case 9: {
      K k = key(); V v = val();
      c.note("m[" + str(k) + "] = " + str(v));
      r[k] = v;
      if (c.coin()) m[k] = v; else m[K(k)] = v;
      break;
    }
    case 10: {
      K k = key();
      c.note("erase key " + str(k));
      auto want = r.erase(k);
      c.check(m.erase(k) == want, "erase-result", "erase(key) returned another count than std::map");
      break;
    }
    case 11: {
      if (r.empty()) break;
      auto i = c.draw(r.size() - 1);
      c.note("erase at " + std::to_string(i));
      auto want = r.erase(std::next(r.begin(), ptrdiff_t(i)));
      auto got = c.coin() ? m.erase(m.begin() + ptrdiff_t(i)) : m.erase(m.cbegin() + ptrdiff_t(i));
      c.check(idx(got) == ridx(want), "erase-position", "erase(iterator) returned another position than std::map");
      break;
    }
    case 12: {
      auto a = c.draw(r.size()), b = a + c.draw(r.size() - a);
      c.note("erase range " + std::to_string(a) + ".." + std::to_string(b));
      auto want = r.erase(std::next(r.begin(), ptrdiff_t(a)), std::next(r.begin(), ptrdiff_t(b)));
      auto got = m.erase(m.cbegin() + ptrdiff_t(a), m.cbegin() + ptrdiff_t(b));
      c.check(idx(got) == ridx(want), "erase-range-position", "erase(range) returned another position than std::map");
      break;
    }
    case 13: {
      auto p = pairs();
      c.note("insert range of " + std::to_string(p.size()));
      fill(r, p);
      m.insert(p.begin(), p.end());
      break;
    }
    case 14: {
      auto p = sorted(pairs(), m.key_comp());
      c.note("insert sorted_unique range of " + std::to_string(p.size()));
      fill(r, p);
      m.insert(hpp_proto::sorted_unique, p.begin(), p.end());
      break;
    }
    case 15: {
      auto p = pairs();
      c.note("construct from range of " + std::to_string(p.size()));
      M x(p.begin(), p.end());
      Model y;
      fill(y, p);
      same(c, x, y, "construct-range");
      std::vector<K> ks; std::vector<V> vs;
      for (auto &e : p) { ks.push_back(e.first); vs.push_back(e.second); }
      M z(typename M::key_container_type(ks.begin(), ks.end()), typename M::mapped_container_type(vs.begin(), vs.end()));
      same(c, z, y, "construct-containers");
      c.check((x == z) && !(x != z), "compare", "two maps of the same pairs do not compare equal");
      break;
    }
    case 16: {
      auto p = sorted(pairs());
      c.note("construct sorted_unique from " + std::to_string(p.size()));
      M x(hpp_proto::sorted_unique, p.begin(), p.end());
      Model y(p.begin(), p.end());
      same(c, x, y, "construct-sorted");
      c.check((x == m) == (y == r) && (x != m) == (y != r), "compare", "== differs from std::map");
      if constexpr (requires { y < r; })
        c.check((x < m) == (y < r) && (x > m) == (y > r) && (x <= m) == (y <= r) && (x >= m) == (y >= r), "compare", "ordering differs from std::map");
      break;
    }
    case 17: {
      K k = key();
      c.note("look up " + str(k));
      const M &cm = m;
      bool in = r.count(k) != 0;
      c.check(m.contains(k) == in && m.count(k) == size_t(in), "lookup", "contains/count");
      c.check((m.find(k) != m.end()) == in && (cm.find(k) != cm.end()) == in, "lookup", "find");
      if (in) c.check(idx(m.find(k)) == ridx(r.find(k)) && m.find(k)->second == r.find(k)->second && cm.at(k) == r.at(k) && m.at(k) == r.at(k), "lookup", "find/at value");
      else {
        bool threw = false;
        try { (void)m.at(k); } catch (const std::out_of_range &) { threw = true; }
        c.check(threw, "lookup", "at() of a missing key does not throw");
      }
      c.check(idx(m.lower_bound(k)) == ridx(r.lower_bound(k)) && idx(m.upper_bound(k)) == ridx(r.upper_bound(k)) && idx(cm.lower_bound(k)) == ridx(r.lower_bound(k)) && idx(cm.upper_bound(k)) == ridx(r.upper_bound(k)), "lookup", "bounds");
      auto e = m.equal_range(k); auto ce = cm.equal_range(k);
      c.check(idx(e.first) == ridx(r.lower_bound(k)) && idx(e.second) == ridx(r.upper_bound(k)) && idx(ce.first) == idx(e.first) && idx(ce.second) == idx(e.second) && idx(cm.find(k)) == (in ? idx(e.first) : ptrdiff_t(r.size())), "lookup", "equal_range");
      break;
    }
    case 18: {
      c.note("reverse iteration");
      auto check = [&](auto f, auto l) {
        auto it = r.rbegin();
        size_t n = 0;
        for (; f != l && it != r.rend(); ++f, ++it, ++n)
          if (!((*f).first == it->first) || !((*f).second == it->second)) return false;
        return f == l && it == r.rend();
      };
      const M &cm = m;
      c.check(check(m.rbegin(), m.rend()) && check(cm.rbegin(), cm.rend()), "reverse", "rbegin..rend");
      c.check(m.crend() - m.crbegin() == ptrdiff_t(r.size()), "reverse-const", "crbegin..crend does not span the elements");
      c.check(check(m.crbegin(), m.crend()), "reverse-const", "crbegin..crend");
      break;
    }
    case 19: {
      c.note("extract and replace");
      auto x = std::move(m).extract();
      c.check(m.size() == 0 && x.keys.size() == r.size() && x.values.size() == r.size(), "extract", "extract does not hand out everything");
      m.replace(std::move(x.keys), std::move(x.values));
      break;
    }
    case 20: {
      auto n = c.draw(64);
      c.note("reserve " + std::to_string(n));
      hpp_proto::reserve(m, n);
      c.check(m.keys().capacity() >= n, "reserve", "too little capacity");
      break;
    }
    case 21: {
      c.note("copy, move, swap");
      M x(m), y = mkmap();
      y = x;
      same(c, x, r, "copy");
      same(c, y, r, "copy-assign");
      y.clear();
      c.check(y.empty() && y.keys().empty() && y.values().empty(), "clear", "clear");
      if (m.keys().get_allocator() == y.keys().get_allocator()) {
        m.swap(y);
        same(c, y, r, "swap");
        m = std::move(y);
      }
      break;
    }
    case 22: {
      if (r.empty() || !c.chance(1, 3)) break;
      c.note("clear");
      r.clear(); m.clear();
      break;
    }
    case 23: {
      if (r.empty()) break;
      auto i = c.draw(r.size() - 1);
      V v = val();
      c.note("write through iterator " + std::to_string(i));
      std::next(r.begin(), ptrdiff_t(i))->second = v;
      m.begin()[ptrdiff_t(i)].second = v;
      break;
    }
    case 24: { // initializer lists
      int a = int(c.draw(uint64_t(span))), b = int(c.draw(uint64_t(span))), d = int(c.draw(uint64_t(span)));
      typedef std::initializer_list<typename M::value_type> IL;
      IL il{{mk<K>(a), mk<V>(a * 7)}, {mk<K>(b), mk<V>(b * 7)}, {mk<K>(d), mk<V>(d * 7)}};
      unsigned w = unsigned(c.draw(4));
      c.note("initializer list " + std::to_string(w) + " of keys " + str(mk<K>(a)) + " " + str(mk<K>(b)) + " " + str(mk<K>(d)));
      if (w == 0) { r.insert(il.begin(), il.end()); m.insert(il); break; }
      if (w == 1) { Model y(r); y.clear(); y.insert(il.begin(), il.end()); r = y; m = il; break; }
      auto cmp = m.key_comp();
      Model y(il.begin(), il.end(), cmp);
      if (w == 2) { M x(il, cmp); same(c, x, y, "construct-list"); if (c.coin()) { m = x; r = y; } break; }
      if (w == 3) { Model z(il.begin(), il.end()); M x(il); same(c, x, z, "construct-list"); break; }
      if (y.size() != 3) break;
      IL so{*y.begin(), *std::next(y.begin()), *std::next(y.begin(), 2)};
      M x(hpp_proto::sorted_unique, so, cmp);
      same(c, x, y, "construct-sorted-list");
      r.insert(so.begin(), so.end());
      m.insert(hpp_proto::sorted_unique, so);
      break;
    }
    case 25: { // hints need not be right
      K k = key(); V v = val();
      auto h = m.cbegin() + ptrdiff_t(c.draw(m.size()));
      unsigned w = unsigned(c.draw(2));
      c.note("insert with hint " + std::to_string(w) + " " + str(k) + " " + str(v));
      auto want = r.emplace(k, v).first;
      typename M::value_type e(k, v);
      auto got = w == 0 ? m.emplace_hint(h, k, v) : w == 1 ? m.insert(h, e) : m.insert(h, std::move(e));
      c.check(idx(got) == ridx(want), "insert-hint-result", "insertion with a hint returned another position than std::map");
      break;
    }
    case 26: { // every other constructor
      auto p = pairs(), q = sorted(p);
      auto cmp = m.key_comp();
      Model y(p.begin(), p.end()), yc(p.begin(), p.end(), cmp);
      std::vector<std::pair<K, V>> qc(yc.begin(), yc.end());
      std::vector<K> ks; std::vector<V> vs;
      for (auto &e : q) { ks.push_back(e.first); vs.push_back(e.second); }
      typename M::key_container_type kc(ks.begin(), ks.end());
      typename M::mapped_container_type vc(vs.begin(), vs.end());
      c.note("construct from " + std::to_string(p.size()) + " pairs");
      using hpp_proto::sorted_unique;
      { M x(p); same(c, x, y, "construct-container"); }
      { M x(p, cmp); same(c, x, yc, "construct-container-compare"); }
      { M x(p.begin(), p.end(), cmp); same(c, x, yc, "construct-range-compare"); }
      { M x(sorted_unique, q); same(c, x, y, "construct-sorted-container"); }
      { M x(sorted_unique, qc, cmp); same(c, x, yc, "construct-sorted-container-compare"); }
      { M x(sorted_unique, qc.begin(), qc.end(), cmp); same(c, x, yc, "construct-sorted-range-compare"); if (c.chance(1, 3)) { r = yc; m = x; } }
      { M x(sorted_unique, kc, vc); same(c, x, y, "construct-sorted-containers"); }
      if constexpr (!std::is_same_v<V, bool> || requires { typename M::mapped_container_type::allocator_type; }) {
        auto a = m.keys().get_allocator();
        auto all = [&](const M &x, const Model &want, const char *what) {
          same(c, x, want, what);
          c.check(x.keys().get_allocator() == a, "allocator", std::string(what) + ": the allocator was not used");
        };
        if constexpr (std::uses_allocator_v<typename M::mapped_container_type, decltype(a)>) {
          all(M(p.begin(), p.end(), cmp, a), yc, "construct-range-alloc");
          all(M(p.begin(), p.end(), a), y, "construct-range-alloc");
          all(M(p, cmp, a), yc, "construct-container-alloc");
          all(M(p, a), y, "construct-container-alloc");
          all(M(sorted_unique, q, a), y, "construct-sorted-alloc");
          all(M(sorted_unique, qc, cmp, a), yc, "construct-sorted-alloc");
          all(M(sorted_unique, q.begin(), q.end(), a), y, "construct-sorted-alloc");
          all(M(kc, vc, a), y, "construct-containers-alloc");
          all(M(sorted_unique, kc, vc, a), y, "construct-containers-alloc");
          all(M(m, a), r, "copy-alloc");
          all(M(cmp, a), Model(), "construct-empty-alloc");
          all(M(a), Model(), "construct-empty-alloc");
          M t(p);
          all(M(std::move(t), a), y, "move-alloc");
        }
      }
      break;
    }
    case 27: {
      c.note("comparison objects, move construction, free swap");
      K a = key(), b = key();
      c.check(m.key_comp()(a, b) == r.key_comp()(a, b), "key_comp", "key_comp() orders keys differently");
      if (m.size() >= 2) {
        auto i = ptrdiff_t(c.draw(m.size() - 1)), j = ptrdiff_t(c.draw(m.size() - 1));
        typename M::value_type vi(m.cbegin()[i].first, m.cbegin()[i].second), vj(m.cbegin()[j].first, m.cbegin()[j].second);
        c.check(m.value_comp()(vi, vj) == (i < j), "value_comp", "value_comp() orders entries differently from iteration");
      }
      M x(std::move(m));
      same(c, x, r, "move-construct");
      if (x.keys().get_allocator() == M(x).keys().get_allocator()) {
        M y(x);
        m = mkmap();
        if (m.keys().get_allocator() == y.keys().get_allocator()) { swap(m, y); c.check(y.empty(), "swap", "the other side keeps entries"); break; }
      }
      m = std::move(x);
      break;
    }
    case 28: {
      if constexpr (requires { typename M::key_compare::is_transparent; }) {
        K k = key();
        std::string_view sv(k);
        c.note("look up by string_view " + str(k));
        const M &cm = m;
        bool in = r.count(k) != 0;
        auto lo = ridx(r.lower_bound(k)), hi = ridx(r.upper_bound(k));
        c.check(m.contains(sv) == in && m.count(sv) == size_t(in), "transparent", "contains/count");
        c.check(idx(m.find(sv)) == (in ? lo : ptrdiff_t(r.size())) && idx(cm.find(sv)) == idx(m.find(sv)), "transparent", "find");
        c.check(idx(m.lower_bound(sv)) == lo && idx(cm.lower_bound(sv)) == lo && idx(m.upper_bound(sv)) == hi && idx(cm.upper_bound(sv)) == hi, "transparent", "bounds");
        auto e = m.equal_range(sv); auto ce = cm.equal_range(sv);
        c.check(idx(e.first) == lo && idx(e.second) == hi && idx(ce.first) == lo && idx(ce.second) == hi, "transparent", "equal_range");
      }
      break;
    }
    default: { // an operation during which an element operation throws
      if constexpr (Throws) {
        if (c.chance(1, 5)) { // assignment: the old content may be lost, but what is left is a map
          M x = mkmap();
          Model want;
          for (auto n = c.draw(5); n; --n) { K k = key(); V v = val(); x.insert_or_assign(k, v); want.insert_or_assign(k, v); }
          long f = long(c.draw(12));
          c.note("assign " + std::to_string(want.size()) + " entries with a throw after " + std::to_string(f));
          bool threw = false;
          fuse = f;
          try { m = std::as_const(x); } catch (const Bomb &) { threw = true; }
          fuse = -1;
          same(c, x, want, "assign-source");
          if (!threw) { r = want; break; }
          c.label("threw");
          c.check(m.keys().size() == m.values().size(), "assign-after-throw", std::to_string(m.keys().size()) + " keys, " + std::to_string(m.values().size()) + " values");
          r.clear();
          for (auto it = m.begin(); it != m.end(); ++it) r.insert({it->first, it->second});
          break;
        }
        int which = int(c.draw(5));
        K k = key(); V v = val();
        long f = long(c.draw(6));
        c.note("operation " + std::to_string(which) + " on " + str(k) + " with a throw after " + std::to_string(f));
        auto i = c.draw(r.size());
        Model after = r;
        switch (which) {
        case 0: case 1: case 4: after.insert({k, v}); break;
        case 2: after.insert_or_assign(k, v); break;
        case 3: after.erase(k); break;
        default: if (i < r.size()) after.erase(std::next(after.begin(), ptrdiff_t(i)));
        }
        bool threw = false;
        fuse = f;
        try {
          switch (which) {
          case 0: m.try_emplace(k, v); break;
          case 1: m.emplace(k, v); break;
          case 2: m.insert_or_assign(k, v); break;
          case 3: m.erase(k); break;
          case 4: m.try_emplace(m.cbegin() + ptrdiff_t(i), k, v); break;
          default: if (i < r.size()) m.erase(m.cbegin() + ptrdiff_t(i));
          }
        } catch (const Bomb &) { threw = true; }
        fuse = -1;
        if (threw) { c.label("threw"); same(c, m, r, "after-throw"); }
        else r = after;
      }
    }
    }
    same(c, m, r, opn.c_str());
  }
  if (steps >= 8 && r.size() >= 2) c.nontrivial();
}
template <class K, class V, class Cmp = std::less<K>> using FM = hpp_proto::flat_map<K, V, Cmp>;
struct Dir { // an ordering chosen at run time
  bool down = false;
  bool operator()(int a, int b) const { return down ? b < a : a < b; }
};
template <class K, class V> using PFM = hpp_proto::pmr_stable_traits::map_t<K, V>;
} // namespace

PBT_PROP(flat_map, "8 or more operations and two or more elements at the end") {
  track::reset();
  {
    Resource res(5), def(6);
    auto *old = std::pmr::set_default_resource(&def);
    struct Restore { std::pmr::memory_resource *o; ~Restore() { std::pmr::set_default_resource(o); } } restore{old};
    unsigned t = unsigned(c.draw(8));
    c.label("type" + std::to_string(t));
    try {
      switch (t) {
      case 0: run<FM<int, int>, false>(c, [] { return FM<int, int>(); }); break;
      case 1: run<FM<std::string, std::string>, false>(c, [] { return FM<std::string, std::string>(); }); break;
      case 2: run<FM<int, Obj>, true>(c, [] { return FM<int, Obj>(); }); break;
      case 3: run<FM<Obj, Obj>, true>(c, [] { return FM<Obj, Obj>(); }); break;
      case 4: run<FM<int, std::string, std::greater<int>>, false>(c, [] { return FM<int, std::string, std::greater<int>>(); }); break;
      case 5: {
        using M = hpp_proto::stable_traits::map_t<uint64_t, bool>;
        run<M, false>(c, [] { return M(); });
        break;
      }
      case 6: {
        bool down = c.coin();
        run<FM<int, int, Dir>, false>(c, [&] { return FM<int, int, Dir>(Dir{down}); }, [&] { return std::map<int, int, Dir>(Dir{down}); });
        break;
      }
      case 7: run<FM<std::string, int, std::less<>>, false>(c, [] { return FM<std::string, int, std::less<>>(); }); break;
      default: { // a map whose memory comes from another resource than the default one
        using M = PFM<int, int>;
        run<M, false>(c, [&] { return M(std::pmr::polymorphic_allocator<int>(&res)); });
      }
      }
    } catch (...) {
      fuse = -1;
      throw;
    }
  }
  all_gone(c);
}
