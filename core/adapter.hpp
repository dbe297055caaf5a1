// Conversion between generated message structs and reference values.  Only public struct members
// are used (by name, see tools/schema.py); hpp-proto's field metadata is never consulted.
#pragma once
#include "refmodel.hpp"
#include <any>
#include <bit>
#include <concepts>
#include <cstddef>
#include <list>
#include <memory_resource>
#include <optional>
#include <span>
#include <type_traits>
#include <variant>

namespace ad {
extern const ref::Schema &schema();
// Owns everything non-owning values point to.
struct Arena {
  std::pmr::monotonic_buffer_resource mr{1024};
  std::list<std::any> objs;
  std::string_view str(const std::string &s) {
    if (s.empty()) return {};
    char *p = static_cast<char *>(mr.allocate(s.size(), 1));
    memcpy(p, s.data(), s.size());
    return {p, s.size()};
  }
  template <class T> std::vector<T> &vec(size_t n) {
    objs.emplace_back(std::make_shared<std::vector<T>>());
    auto &v = **std::any_cast<std::shared_ptr<std::vector<T>>>(&objs.back());
    v.reserve(n);
    return v;
  }
  template <class T> T &obj() {
    objs.emplace_back(std::make_shared<T>());
    return **std::any_cast<std::shared_ptr<T>>(&objs.back());
  }
};
template <class T> struct Ad;
template <class T> concept generated = requires { typename std::remove_cvref_t<T>::hpp_proto_traits_type; };
template <class T> concept opt_like = requires(const T &t) { t.has_value(); *t; };
template <class T> concept byte_range = requires(const T &t) { t.data(); t.size(); } && (sizeof(*std::declval<const T &>().data()) == 1) && !opt_like<T>;
template <class T> concept indirect_like = requires(const T &t) { *t; } && !opt_like<T> && !byte_range<T> && !std::is_arithmetic_v<T>;

// ---- struct -> reference
template <class T> ref::Val val(const T &v) {
  ref::Val r;
  if constexpr (generated<T>) {
    r.msg = std::make_shared<ref::Msg>(ref::make(schema(), Ad<T>::D));
    Ad<T>::to(v, *r.msg);
  } else if constexpr (indirect_like<T>) return val(*v);
  else if constexpr (std::is_same_v<T, double>) r.num = std::bit_cast<uint64_t>(v);
  else if constexpr (std::is_same_v<T, float>) r.num = std::bit_cast<uint32_t>(v);
  else if constexpr (std::is_enum_v<T>) r.num = (uint64_t)(int64_t)(int32_t)v;
  else if constexpr (std::is_same_v<T, bool>) {
    unsigned char raw;
    memcpy(&raw, &v, 1);
    r.num = raw; // a bool holding anything but 0/1 is visible here
  } else if constexpr (std::is_integral_v<T>) r.num = std::is_signed_v<T> ? (uint64_t)(int64_t)v : (uint64_t)v;
  else if constexpr (byte_range<T>) r.str.assign(reinterpret_cast<const char *>(v.data()), v.size());
  else r.num = static_cast<bool>(v) ? 1 : 0; // hpp_proto::boolean
  return r;
}
template <class T> void sing(const T &m, ref::Msg &r, int i) {
  if constexpr (opt_like<T>) {
    if (m.has_value()) {
      r.f[i].present = true;
      r.f[i].v.assign(1, val(*m));
    }
  } else {
    r.f[i].v.assign(1, val(m));
    r.f[i].present = schema().msgs[r.d].fields[i].presence != ref::IMPLICIT;
  }
}
template <class T> void rep(const T &m, ref::Msg &r, int i) {
  for (const auto &e : m) r.f[i].v.push_back(val(e));
}
template <class T> void map(const T &m, ref::Msg &r, int i) {
  auto &ed = schema().msgs[schema().msgs[r.d].fields[i].sub];
  for (const auto &e : m) ref::Decoder::map_put(r.f[i], ed, val(e.first), val(e.second));
}
template <size_t P, class T> void one(const T &m, ref::Msg &r, int i) {
  if (m.index() == P) {
    r.f[i].present = true;
    r.f[i].v.assign(1, val(std::get<P>(m)));
  }
}
template <class M> void unk(const M &m, ref::Msg &r) {
  const auto &f = m.unknown_fields_.fields;
  using F = std::remove_cvref_t<decltype(f)>;
  if constexpr (byte_range<F>) {
    if (f.size()) r.unknown.push_back({0, std::string(reinterpret_cast<const char *>(f.data()), f.size())});
  } else if constexpr (requires { f.begin(); }) {
    for (const auto &e : f) r.unknown.push_back({e.first, std::string(reinterpret_cast<const char *>(e.second.data()), e.second.size())});
  }
}
// ---- reference -> struct
template <class T> void build(T &out, const ref::Val &v, Arena &a) {
  if constexpr (generated<T>) {
    if (v.msg) Ad<T>::from(*v.msg, out, a);
  } else if constexpr (std::is_same_v<T, double>) out = std::bit_cast<double>(v.num);
  else if constexpr (std::is_same_v<T, float>) out = std::bit_cast<float>((uint32_t)v.num);
  else if constexpr (std::is_enum_v<T>) out = static_cast<T>((int32_t)v.num);
  else if constexpr (std::is_same_v<T, bool>) out = v.num != 0;
  else if constexpr (std::is_integral_v<T>) out = (T)v.num;
  else if constexpr (byte_range<T>) {
    using B = std::remove_cvref_t<decltype(*out.data())>;
    auto *p = reinterpret_cast<const B *>(v.str.data());
    if constexpr (requires { out.assign(p, p + 1); }) out.assign(p, p + v.str.size());
    else {
      auto s = a.str(v.str);
      out = T(reinterpret_cast<const B *>(s.data()), s.size());
    }
  } else if constexpr (requires(T t) { t.pointer(); }) { // indirect_view
    using U = std::remove_cvref_t<decltype(*out)>;
    U &u = a.obj<U>();
    build(u, v, a);
    out.reset(&u);
  } else if constexpr (indirect_like<T>) build(*out, v, a);
  else out = T(v.num != 0);
}
template <class T> void set(T &m, const ref::Msg &r, int i, Arena &a) {
  auto &fv = r.f[i];
  if constexpr (opt_like<T>) {
    if (!fv.present) return;
    using U = std::remove_cvref_t<decltype(*m)>;
    if constexpr (generated<U>) {
      if constexpr (requires { m.emplace(); }) build(m.emplace(), fv.v[0], a);
      else { // optional_indirect_view
        U &u = a.obj<U>();
        build(u, fv.v[0], a);
        m = &u;
      }
    } else {
      U u{};
      build(u, fv.v[0], a);
      m = std::move(u);
    }
  } else if (!fv.v.empty()) build(m, fv.v[0], a);
}
template <class T> void set_rep(T &m, const ref::Msg &r, int i, Arena &a) {
  using E = std::remove_cvref_t<decltype(*m.begin())>;
  auto fill = [&](auto &c) {
    for (auto &v : r.f[i].v) {
      E e{};
      build(e, v, a);
      c.push_back(std::move(e));
    }
  };
  if constexpr (requires(E e) { m.push_back(e); }) fill(m);
  else if constexpr (std::is_same_v<E, bool>) {
    size_t n = r.f[i].v.size();
    bool *p = static_cast<bool *>(a.mr.allocate(n + 1, 1));
    for (size_t k = 0; k < n; ++k) p[k] = r.f[i].v[k].num != 0;
    m = std::span<const bool>(p, n);
  } else {
    auto &vec = a.vec<E>(r.f[i].v.size());
    fill(vec);
    m = std::span<const E>(vec.data(), vec.size());
  }
}
template <class T> void set_map(T &m, const ref::Msg &r, int i, Arena &a) {
  auto &fv = r.f[i];
  if constexpr (requires { typename T::mapped_type; }) {
    using K = typename T::key_type;
    using V = typename T::mapped_type;
    for (size_t k = 0; k + 1 < fv.v.size(); k += 2) {
      K key{};
      V v{};
      build(key, fv.v[k], a);
      build(v, fv.v[k + 1], a);
      m.insert_or_assign(std::move(key), std::move(v));
    }
  } else {
    using E = std::remove_cvref_t<decltype(*m.begin())>;
    auto &vec = a.vec<E>(fv.v.size());
    for (size_t k = 0; k + 1 < fv.v.size(); k += 2) {
      E e{};
      build(e.first, fv.v[k], a);
      build(e.second, fv.v[k + 1], a);
      vec.push_back(std::move(e));
    }
    m = std::span<const E>(vec.data(), vec.size());
  }
}
template <size_t P, class T> void set_one(T &m, const ref::Msg &r, int i, Arena &a) {
  if (r.f[i].present) build(m.template emplace<P>(), r.f[i].v[0], a);
}
template <class M> void set_unk(M &m, const ref::Msg &r, Arena &a) {
  auto &f = m.unknown_fields_.fields;
  using F = std::remove_cvref_t<decltype(f)>;
  if constexpr (byte_range<F>) {
    ref::Val v;
    for (auto &u : r.unknown) v.str += u.second;
    build(f, v, a);
  } else if constexpr (requires { f.begin(); }) {
    std::map<uint32_t, std::string> by;
    for (auto &u : r.unknown) by[u.first] += u.second;
    if constexpr (requires { typename F::mapped_type; }) {
      for (auto &[k, s] : by) {
        typename F::mapped_type b;
        ref::Val v;
        v.str = s;
        build(b, v, a);
        f.insert_or_assign(k, std::move(b));
      }
    } else {
      using E = std::remove_cvref_t<decltype(*f.begin())>;
      auto &vec = a.vec<E>(by.size());
      for (auto &[k, s] : by) {
        E e{};
        e.first = k;
        ref::Val v;
        v.str = s;
        build(e.second, v, a);
        vec.push_back(e);
      }
      f = std::span<const E>(vec.data(), vec.size());
    }
  }
}
} // namespace ad
