// Dynamic messages over generated schemas: a schema generator case, the factory made from it and
// the conversion of a dynamic message into a reference value.
#pragma once
#include "sgen.hpp"
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
#include <memory_resource>

namespace dyn {
using namespace hpp_proto;
using pbt::Case;

// counts live allocations and fails on mismatched frees; used as the upstream of every arena
struct Counting : std::pmr::memory_resource {
  size_t live = 0, total = 0;
  void *do_allocate(size_t n, size_t a) override { ++live; ++total; return std::pmr::new_delete_resource()->allocate(n, a); }
  void do_deallocate(void *p, size_t n, size_t a) override { --live; std::pmr::new_delete_resource()->deallocate(p, n, a); }
  bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
};
// the reference schema as the dynamic API presents it: a map is a repeated field of entries
inline ref::Schema flat(const ref::Schema &s) {
  ref::Schema r = s;
  for (auto &m : r.msgs)
    for (auto &f : m.fields)
      if (f.card == ref::MAP) f.card = ref::REPEATED;
  return r;
}
inline uint64_t bits(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
inline uint64_t bits(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
template <class T> uint64_t num_of(T v) {
  if constexpr (std::is_floating_point_v<T>) return bits(v);
  else if constexpr (std::is_signed_v<T>) return (uint64_t)(int64_t)v;
  else return (uint64_t)v;
}
template <class T> T from_num(uint64_t n) {
  if constexpr (std::is_same_v<T, double>) { double d; memcpy(&d, &n, 8); return d; }
  else if constexpr (std::is_same_v<T, float>) { uint32_t u = (uint32_t)n; float d; memcpy(&d, &u, 4); return d; }
  else return (T)n;
}
inline std::string str(std::string_view v) { return std::string(v); }
inline std::string str(bytes_view v) { return std::string((const char *)v.data(), v.size()); }
inline bytes_view bv(std::string_view s) { return bytes_view{(const std::byte *)s.data(), s.size()}; }

template <class F> constexpr bool is_msg_ref = std::is_same_v<F, message_field_cref> || std::is_same_v<F, message_field_mref>;
template <class F> constexpr bool is_rep_msg_ref = std::is_same_v<F, repeated_message_field_cref> || std::is_same_v<F, repeated_message_field_mref>;
template <class F> constexpr bool is_enum_ref = std::is_same_v<F, enum_field_cref> || std::is_same_v<F, enum_field_mref>;
template <class F> constexpr bool is_rep_enum_ref = std::is_same_v<F, repeated_enum_field_cref> || std::is_same_v<F, repeated_enum_field_mref>;

// what is observable of a message, through the const references.  Everything a reader may ask about
// an absent field is checked on the way.
struct Walker {
  Case &c;
  const ref::Schema &fs; // flat
  std::string where;
  int depth = 0;
  ref::Msg walk(message_value_cref m, int d) {
    auto &md = fs.msgs[d];
    ref::Msg r;
    r.d = d;
    r.f.resize(md.fields.size());
    c.check(m.descriptor().full_name() == md.name, "walk-descriptor", "message descriptor " + std::string(m.descriptor().full_name()) + " instead of " + md.name);
    c.check(m.descriptor().fields().size() == md.fields.size(), "walk-fields", md.name + ": number of fields");
    for (size_t i = 0; i < md.fields.size(); ++i) {
      auto &fd = md.fields[i];
      auto f = m.field_by_number(fd.number);
      c.check(f.has_value() && f->descriptor().proto().name == fd.name, "walk-field", md.name + "." + fd.name + " is not found by its number");
      field(*f, fd, r.f[i], md.name + "." + fd.name);
      // presence of oneofs
      if (fd.oneof >= 0 && fd.card == ref::SINGULAR && r.f[i].present) {
        c.check((size_t)f->active_oneof_index() == i, "walk-active", md.name + "." + fd.name + ": active_oneof_index is " + std::to_string(f->active_oneof_index()));
      }
    }
    for (auto &o : m.descriptor().oneofs()) {
      bool any = false;
      for (auto &f : o.fields()) any |= m.field(f).has_value();
      c.check(m.has_oneof(o) == any, "walk-has-oneof", md.name + " has_oneof(" + std::string(o.proto().name) + ") is " + std::to_string(!any));
    }
    return r;
  }
  void field(field_cref f, const ref::FieldDesc &fd, ref::FVal &out, const std::string &name) {
    auto def = ref::default_of(fs, fd);
    bool has = f.has_value();
    f.visit([&](auto r) {
      using F = decltype(r);
      if constexpr (is_rep_msg_ref<F>) {
        size_t i = 0;
        for (auto e : r) {
          ref::Val v;
          v.msg = std::make_shared<ref::Msg>(walk(e, fd.sub));
          out.v.push_back(v);
          ++i;
        }
        c.check(i == r.size() && has == (i != 0) && r.empty() == (i == 0), "walk-repeated-size", name + ": size");
      } else if constexpr (F::is_repeated) {
        size_t n = r.size();
        c.check(has == (n != 0) && r.empty() == (n == 0), "walk-repeated-size", name + ": size");
        for (size_t i = 0; i < n; ++i) {
          ref::Val v;
          if constexpr (is_rep_enum_ref<F>) v.num = (uint64_t)(int64_t)r[i].number();
          else if constexpr (requires { str(r[i]); }) v.str = str(r[i]);
          else v.num = num_of(r[i]);
          out.v.push_back(v);
        }
      } else {
        c.check(r.has_value() == has, "walk-has-value", name + ": typed and untyped presence differ");
        if constexpr (is_msg_ref<F>) {
          if (has) {
            ref::Val v;
            v.msg = std::make_shared<ref::Msg>(walk(*r, fd.sub));
            out.v.push_back(v);
            out.present = true;
          } else {
            c.check(r.template get<message_value_cref>().error() == dynamic_message_errc::no_such_value, "walk-absent-message", name);
            bool thrown = false;
            try { (void)r.value(); } catch (std::bad_optional_access &) { thrown = true; }
            c.check(thrown, "walk-absent-message", name + ": value() of an absent message does not throw");
          }
        } else {
          ref::Val v;
          auto get = [&](auto x) {
            ref::Val o;
            if constexpr (is_enum_ref<F>) o.num = (uint64_t)(int64_t)x.number();
            else if constexpr (requires { str(x); }) o.str = str(x);
            else o.num = num_of(x);
            return o;
          };
          v = get(r.value());
          auto dv = get(r.default_value());
          if (fd.presence == ref::IMPLICIT && fd.type == ref::T_ENUM) def.num = 0;
          c.check_f(dv.num == def.num && dv.str == def.str, "walk-default", [&] { return name + ": default_value() is " + ref::dump_val(fs, fd, dv, false, 0) + " instead of " + ref::dump_val(fs, fd, def, false, 0); });
          if (!has) {
            c.check_f(v.num == def.num && v.str == def.str, "walk-absent-value", [&] { return name + ": an absent field reads as " + ref::dump_val(fs, fd, v, false, 0) + " instead of " + ref::dump_val(fs, fd, def, false, 0); });
            if constexpr (is_enum_ref<F>) c.check((uint64_t)(int64_t)r.number() == def.num, "walk-absent-value", name + ": number() of an absent field");
          } else if (fd.presence != ref::IMPLICIT || fd.oneof >= 0 || !ref::val_zero(fd, v)) {
            out.present = true;
            out.v.push_back(v);
          }
          if constexpr (is_enum_ref<F>) {
            auto n = r.template get<enum_name>();
            auto &ed = fs.enums[fd.sub];
            bool known = ed.has((int32_t)v.num);
            c.check(n.has_value() == known && (uint64_t)(int64_t)*r.template get<enum_number>() == v.num, "walk-enum-name", name + ": name of enum value " + std::to_string((int64_t)v.num));
          }
        }
      }
    });
  }
};

// a schema and its factory
struct Fixture {
  sgen::Set set;
  ref::Schema flat_ref;
  std::optional<dynamic_message_factory> fac;
  Counting upstream;
  Fixture(Case &c, const sgen::Cfg &cfg = {}) : set(sgen::schema(c, cfg)), flat_ref(flat(set.ref)) {
    c.note(set.text());
    auto f = dynamic_message_factory::create(set.bytes, &upstream);
    c.check(f.has_value(), "factory-rejects", "a valid schema is rejected with " + std::to_string(f.has_value() ? 0 : (int)f.error()));
    fac.emplace(std::move(*f));
  }
  Fixture(const Fixture &) = delete;
  message_value_mref make(Case &c, int d, std::pmr::monotonic_buffer_resource &mr) {
    auto m = fac->get_message(set.msgs[d].full, mr);
    c.check(m.has_value(), "factory-get-message", set.msgs[d].full + " is unknown");
    return *m;
  }
  std::string show(const ref::Msg &m, bool flat = true) { return ref::dump(flat ? flat_ref : set.ref, m, false); }
};
} // namespace dyn
