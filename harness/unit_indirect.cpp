// F02: indirect / optional_indirect (value semantics, allocator rules, no leak or double free) and the view variants.
#include "track.hpp"
#include <hpp_proto/indirect.hpp>
#include <hpp_proto/indirect_view.hpp>
#include <hpp_proto/optional_indirect.hpp>
#include <memory>
#include <optional>
using namespace track;
using std::allocator_arg;

namespace {
constexpr int U = -100000; // "unspecified" (moved-from)
template <class T> struct Slot {
  alignas(T) unsigned char mem[sizeof(T)];
  T *p = nullptr;
  template <class... A> void make(A &&...a) { p = new (mem) T(std::forward<A>(a)...); }
  void kill() { if (p) p->~T(); p = nullptr; }
  ~Slot() { kill(); }
};
struct Model { // of one slot
  bool exists = false;
  bool has = false;    // has a value (always true for indirect unless moved from)
  bool unspec = false; // moved from: only assignment to it and destruction are allowed
  int v = 0;
  int alloc = 0;
};
template <int F> struct Rules {
  static constexpr bool pcca = F & 1, pcma = F & 2, pocs = F & 4, eq = F & 8;
  static int norm(int a) { return eq ? 0 : a; }
  static int copied(int a) { return (F & 16) ? 0 : a; }
};

// value() and the monadic operations of an optional, in every value category, against presence and value
template <class X> std::optional<int> value_of(X &&x) {
  try { return std::forward<X>(x).value().v; } catch (const std::bad_optional_access &) { return std::nullopt; }
}
template <class X> constexpr bool is_view = std::is_same_v<std::remove_cvref_t<X>, hpp_proto::optional_indirect_view<typename std::remove_cvref_t<X>::value_type>>;
template <class X> bool transform_ok(X &&x, bool has, int v) {
  int n = 0;
  auto t = std::forward<X>(x).transform([&](auto &&y) {
    n += is_view<X> || std::is_same_v<decltype(y), decltype(*std::forward<X>(x))> ? 1 : 100;
    return y.v + 1;
  });
  return t.has_value() == has && n == int(has) && (!t || *t == v + 1);
}
template <class X> bool and_then_ok(X &&x, bool has, int v, bool fail) {
  int n = 0;
  auto t = std::forward<X>(x).and_then([&](auto &&y) {
    n += is_view<X> || std::is_same_v<decltype(y), decltype(*std::forward<X>(x))> ? 1 : 100;
    return fail ? std::optional<int>() : std::optional<int>(y.v + 2);
  });
  return n == int(has) && t.has_value() == (has && !fail) && (!t || *t == v + 2);
}
template <class T> void monads(pbt::Case &c, T &x, bool has, int v) {
  const T &k = x;
  std::optional<int> want;
  if (has) want = v;
  c.check(value_of(x) == want, "value", "value() &");
  c.check(value_of(k) == want, "value", "value() const &");
  c.check(value_of(std::move(x)) == want, "value", "value() &&"); // hands out a reference: moves nothing
  c.check(value_of(std::move(k)) == want, "value", "value() const &&");
  c.check(transform_ok(x, has, v), "transform", "transform &");
  c.check(transform_ok(k, has, v), "transform", "transform const &");
  c.check(transform_ok(std::move(x), has, v), "transform", "transform &&");
  c.check(transform_ok(std::move(k), has, v), "transform", "transform const &&");
  bool fail = c.coin();
  c.check(and_then_ok(x, has, v, fail), "and_then", "and_then &");
  c.check(and_then_ok(k, has, v, fail), "and_then", "and_then const &");
  c.check(and_then_ok(std::move(x), has, v, fail), "and_then", "and_then &&");
  c.check(and_then_ok(std::move(k), has, v, fail), "and_then", "and_then const &&");
}

template <class T, int F, bool Opt> void run(pbt::Case &c) {
  using A = Alloc<Obj, F>;
  using R = Rules<F>;
  constexpr int N = 4;
  Slot<T> s[N];
  Model m[N];
  auto pickv = [&] { return int(c.range(0, 9)); };
  auto usable = [&](int i) { return m[i].exists && !m[i].unspec; };
  auto check = [&](const char *what) {
    settled(c);
    for (int i = 0; i < N; ++i) {
      if (!m[i].exists) continue;
      c.check_f(s[i].p->get_allocator().id == m[i].alloc, "allocator", [&] { return std::string(what) + ": slot " + std::to_string(i) + " has allocator " + std::to_string(s[i].p->get_allocator().id) + ", expected " + std::to_string(m[i].alloc); });
      if (m[i].unspec) continue;
      if constexpr (Opt) c.check_f(s[i].p->has_value() == m[i].has && bool(*s[i].p) == m[i].has && (*s[i].p == std::nullopt) != m[i].has, "presence", [&] { return std::string(what) + ": slot " + std::to_string(i) + (m[i].has ? " should have a value" : " should be empty"); });
      if (m[i].has) c.check_f((**s[i].p).get() == m[i].v && std::as_const(*s[i].p)->v == m[i].v && s[i].p->value().v == m[i].v, "value", [&] { return std::string(what) + ": slot " + std::to_string(i) + " has " + std::to_string((**s[i].p).v) + ", expected " + std::to_string(m[i].v); });
    }
    settled(c);
  };
  size_t done = 0;
  for (size_t st = 0; st < 60 && c.draw(24) != 0; ++st) {
    int i = int(c.draw(N - 1)), j = int(c.draw(N - 1)), v = pickv(), a = R::norm(int(c.draw(2)));
    unsigned op = unsigned(c.draw(17));
    // some operations run with a fuse: an element operation or an allocation then throws
    long f = c.chance(1, 8) ? long(c.draw(3)) : -1;
    c.note("op" + std::to_string(op) + " i=" + std::to_string(i) + " j=" + std::to_string(j) + " v=" + std::to_string(v) + " alloc=" + std::to_string(a) + (f >= 0 ? " throwing after " + std::to_string(f) : ""));
    Model oi = m[i], oj = m[j];
    auto set = [&](Model &x, bool has, int val, int al) { x = {true, has, false, val, al}; };
    bool is_assign = false;
    try {
      if (op <= 7 && m[i].exists) {
        if (!(op >= 2 && op <= 5 && i == j)) { // reconstruct in place
          if (i != j || op < 2 || op > 5) { s[i].kill(); m[i] = {}; oi = {}; if (i == j) oj = {}; }
        } else continue;
      }
      switch (op) {
      case 0: { A al(a); fuse = f; s[i].make(allocator_arg, al); fuse = -1; set(m[i], !Opt, 0, a); break; }
      case 1: { A al(a); fuse = f; s[i].make(allocator_arg, al, std::in_place, v); fuse = -1; set(m[i], true, v, a); break; }
      case 2: // copy construction
        if (i == j || !usable(j)) continue;
        fuse = f; s[i].make(std::as_const(*s[j].p)); fuse = -1;
        set(m[i], m[j].has, m[j].v, R::copied(m[j].alloc));
        break;
      case 3: { // with allocator
        if (i == j || !usable(j)) continue;
        A al(a);
        fuse = f; s[i].make(allocator_arg, al, std::as_const(*s[j].p)); fuse = -1;
        set(m[i], m[j].has, m[j].v, a);
        break;
      }
      case 4:
        if (i == j || !usable(j)) continue;
        s[i].make(std::move(*s[j].p));
        set(m[i], m[j].has, m[j].v, m[j].alloc);
        m[j].unspec = true;
        break;
      case 5: {
        if (i == j || !usable(j)) continue;
        A al(a);
        fuse = f; s[i].make(allocator_arg, al, std::move(*s[j].p)); fuse = -1;
        set(m[i], m[j].has, m[j].v, a);
        m[j].unspec = true;
        break;
      }
      case 6: { Obj o(v); A al(a); fuse = f; s[i].make(allocator_arg, al, std::move(o)); fuse = -1; set(m[i], true, v, a); break; }
      case 7: { const Obj o(v); fuse = f; s[i].make(o); fuse = -1; set(m[i], true, v, 0); break; }
      case 8: case 9: // copy assignment
        if (!m[i].exists || !usable(j)) continue;
        is_assign = true;
        fuse = f; *s[i].p = std::as_const(*s[j].p); fuse = -1;
        if (i != j) set(m[i], m[j].has, m[j].v, R::pcca ? m[j].alloc : m[i].alloc);
        break;
      case 10: case 11: // move assignment
        if (!m[i].exists || !usable(j)) continue;
        is_assign = true;
        fuse = f;
        if constexpr (noexcept(*s[i].p = std::move(*s[j].p))) fuse = -1;
        *s[i].p = std::move(*s[j].p); fuse = -1;
        if (i != j) {
          set(m[i], m[j].has, m[j].v, R::pcma ? m[j].alloc : m[i].alloc);
          m[j].unspec = true;
        }
        break;
      case 12: { // from a value
        if (!m[i].exists) continue;
        is_assign = true;
        Obj o(v);
        fuse = f;
        if constexpr (Opt) *s[i].p = std::move(o);
        else if (c.coin()) *s[i].p = std::move(o);
        else *s[i].p = std::as_const(o);
        fuse = -1;
        set(m[i], true, v, m[i].alloc);
        break;
      }
      case 13: case 14: { // swap
        if (!usable(i) || !usable(j)) continue;
        is_assign = true;
        s[i].p->swap(*s[j].p);
        if (i != j) {
          std::swap(m[i], m[j]);
          if (!R::pocs) std::swap(m[i].alloc, m[j].alloc);
        }
        break;
      }
      case 15: // write through
        if (!usable(i) || !m[i].has) continue;
        if (c.coin()) (**s[i].p).v = v; else (*s[i].p)->v = v;
        m[i].v = v;
        break;
      case 16: // compare
        if (!usable(i) || !usable(j)) continue;
        {
          bool e = m[i].has == m[j].has && (!m[i].has || m[i].v == m[j].v);
          c.check((*s[i].p == *s[j].p) == e && (*s[i].p != *s[j].p) == !e, "compare", "== of two slots");
          Obj o(v);
          c.check((*s[i].p == o) == (m[i].has && m[i].v == v), "compare", "== with a value");
          if constexpr (!Opt) c.check((*s[i].p <=> *s[j].p) == (m[i].v <=> m[j].v) && (*s[i].p <=> o) == (m[i].v <=> v), "compare", "<=>");
          else {
            T &o1 = *s[i].p;
            monads<T>(c, o1, m[i].has, m[i].v);
            auto w = std::as_const(o1).or_else([&] { return T(Obj(v)); });
            c.check(w.has_value() && w->v == (m[i].has ? m[i].v : v), "or_else", "or_else");
            // the overloads for temporaries run on a copy
            T tmp(allocator_arg, o1.get_allocator(), std::as_const(o1));
            auto w2 = std::move(tmp).or_else([&] { return T(allocator_arg, o1.get_allocator(), Obj(v)); });
            c.check(w2.has_value() && w2->v == (m[i].has ? m[i].v : v) && w2.get_allocator().id == m[i].alloc, "or_else", "or_else of a temporary");
            // the remaining constructors
            T e1(std::nullopt), e2(allocator_arg, o1.get_allocator(), std::nullopt), e3(o1.get_allocator()), e4;
            c.check(!e1.has_value() && !e2.has_value() && !e3.has_value() && !e4.has_value() && e2.get_allocator().id == m[i].alloc && e3.get_allocator().id == m[i].alloc, "construct-empty", "an empty constructor");
            const Obj &co = o;
            T f1(allocator_arg, o1.get_allocator(), co), f2(std::in_place, v), f3(co), f4(Obj{v});
            c.check(f1.has_value() && f1->v == v && f1.get_allocator().id == m[i].alloc && f2.has_value() && f2->v == v && f3.has_value() && f3->v == v && f4.has_value() && f4->v == v, "construct-value", "a constructor from a value");
            f1.emplace();
            c.check(f1.has_value() && f1->v == 0, "emplace", "emplace without arguments");
            c.check(f1 != std::nullopt && e1 == std::nullopt && !(f1 == std::nullopt), "compare", "== nullopt");
            c.check(e1 == e2 && e1 != f2 && f2 != e1 && !(e1 == co), "compare", "== with an empty object");
          }
        }
        break;
      default:
        if constexpr (Opt) {
          if (!m[i].exists) continue;
          is_assign = true;
          if (c.coin()) { s[i].p->reset(); set(m[i], false, 0, m[i].alloc); }
          else {
            fuse = f;
            auto &o = s[i].p->emplace(v);
            fuse = -1;
            c.check(&o == &**s[i].p, "emplace", "emplace returns another object");
            set(m[i], true, v, m[i].alloc);
          }
        } else if (m[i].exists) { s[i].kill(); m[i] = {}; }
      }
      ++done;
    } catch (const Bomb &) {
      fuse = -1;
      c.label("threw");
      if (is_assign) {
        // basic guarantee: whatever is left can be assigned to and destroyed; an untouched source keeps its value
        int al = s[i].p->get_allocator().id;
        c.check(al == oi.alloc || (oj.exists && al == oj.alloc), "allocator", "after a throw the allocator is neither the old nor the new one");
        m[i] = oi;
        m[i].alloc = al;
        if constexpr (Opt) { // emplace and assignment either keep the old value or leave it empty
          if (!oi.unspec) {
            bool h = s[i].p->has_value();
            if (h) c.check((**s[i].p).get() == oi.v && oi.has, "throw-value", "after a throw the value is neither the old one nor absent");
            m[i].has = h;
          }
        } else m[i].unspec = true;
        if (i != j && op >= 10 && op <= 11) m[j].unspec = true;
      } else {
        s[i].p = nullptr; // construction failed
        m[i] = {};
        if (op == 5 && i != j) m[j].unspec = true;
      }
    }
    check(("after op" + std::to_string(op)).c_str());
  }
  if (done >= 8) c.nontrivial();
}
template <int F> void either(pbt::Case &c) {
  c.label("allocator" + std::to_string(F));
  if (c.coin()) run<hpp_proto::optional_indirect<Obj, Alloc<Obj, F>>, F, true>(c);
  else run<hpp_proto::indirect<Obj, Alloc<Obj, F>>, F, false>(c);
}
} // namespace

PBT_PROP(indirect, "8 or more operations took effect") {
  track::reset();
  try {
    switch (c.draw(5)) {
    case 0: either<8>(c); break;       // always equal (std::allocator)
    case 1: either<16>(c); break;      // nothing propagates, copies use the default (polymorphic_allocator)
    case 2: either<0>(c); break;
    case 3: either<1 | 2 | 4>(c); break;
    case 4: either<2 | 16>(c); break;
    default: either<4>(c);
    }
  } catch (...) {
    fuse = -1;
    throw;
  }
  all_gone(c);
}

namespace {
struct Plain {
  int v = 0;
  auto operator<=>(const Plain &) const = default;
};
} // namespace
PBT_PROP(indirect_view, "both objects are set") {
  {
    using IV = hpp_proto::indirect_view<Plain>;
    using OV = hpp_proto::optional_indirect_view<Plain>;
    Plain o[3] = {int(c.range(-2, 2)), int(c.range(-2, 2)), int(c.range(-2, 2))};
    int pa = int(c.draw(3)) - 1, pb = int(c.draw(3)) - 1;
    auto at = [&](int i) { return i < 0 ? nullptr : &o[i]; };
    auto val = [&](int i) { return i < 0 ? 0 : o[i].v; };
    if (pa >= 0 && pb >= 0) c.nontrivial();
    c.note("a=" + std::to_string(pa) + " b=" + std::to_string(pb));
    IV a(at(pa)), b;
    b.reset(at(pb));
    c.check(a.value().v == val(pa) && (*a).v == val(pa) && a->v == val(pa) && b->v == val(pb), "view-value", "value of an indirect_view");
    c.check((a == b) == (val(pa) == val(pb)) && (a == o[0]) == (val(pa) == o[0].v), "view-compare", "== of indirect_view");
    c.check((a <=> b) == (val(pa) <=> val(pb)) && (a <=> o[1]) == (val(pa) <=> o[1].v), "view-compare", "<=> of indirect_view");
    IV a2(a);
    a2.swap(b);
    c.check(a2.pointer() == at(pb) && b.pointer() == at(pa), "view-swap", "swap");
    b = a2;
    c.check(b.pointer() == at(pb) && a.pointer() == at(pa), "view-assign", "assignment");
    OV x(at(pa)), y;
    y = at(pb);
    c.check(x.has_value() == (pa >= 0) && bool(y) == (pb >= 0) && (x == nullptr) == (pa < 0), "oview-presence", "presence");
    if (pa >= 0) c.check(x.value().v == val(pa) && (*x).v == val(pa) && x->v == val(pa), "oview-value", "value");
    else {
      bool threw = false;
      try { (void)x.value(); } catch (const std::bad_optional_access &) { threw = true; }
      c.check(threw, "oview-value", "value() of an empty view does not throw");
    }
    c.check((x == y) == ((pa < 0) == (pb < 0) && (pa < 0 || val(pa) == val(pb))), "oview-compare", "==");
    monads<OV>(c, x, pa >= 0, val(pa));
    c.check((x != nullptr) == (pa >= 0) && !(OV(nullptr).has_value()) && !OV().has_value(), "oview-presence", "nullptr");
    if (pa >= 0) {
      c.check(&*x.or_else([&] { return OV(&o[(pa + 1) % 3]); }) == at(pa), "oview-or_else", "or_else of a set view");
      int k = o[pa].v;
      Plain same{k}, other{k + 1};
      c.check(x == OV(&same) && x != OV(&other), "oview-compare", "== compares the objects");
    }
    OV z(x);
    z.swap(y);
    c.check(z.has_value() == (pb >= 0) && y.has_value() == (pa >= 0) && (pa < 0 || &*y == at(pa)), "oview-swap", "swap");
    y.reset();
    c.check(!y.has_value() && x.has_value() == (pa >= 0), "oview-reset", "reset");
    OV q(at(pb));
    q = nullptr;
    c.check(!q.has_value(), "oview-assign", "= nullptr");
    q = x;
    c.check(q.has_value() == (pa >= 0) && (pa < 0 || &*q == at(pa)), "oview-assign", "copy assignment");
    q = OV(at(pb));
    c.check(q.has_value() == (pb >= 0) && (pb < 0 || &*q == at(pb)), "oview-assign", "move assignment");
    auto w = y.or_else([&] { return OV(&o[2]); });
    c.check(w.has_value() && &*w == &o[2], "oview-or_else", "or_else");
  }
}
