// Histories of operations on dynamic messages against a reference value.
#include "dyn.hpp"
#include <deque>
extern "C" bool is_utf8(const char *s, size_t n) { return ref::valid_utf8(std::string_view(s, n)); }
using namespace pbt;
using namespace dyn;

namespace {
// what kind of C++ type a field takes
enum Cat { c_bool, c_i32, c_u32, c_i64, c_u64, c_f, c_d, c_str, c_bytes, c_enum, c_msg, c_none };
Cat cat(const ref::FieldDesc &f) {
  switch (f.type) {
  case ref::T_BOOL: return c_bool;
  case ref::T_INT32: case ref::T_SINT32: case ref::T_SFIXED32: return c_i32;
  case ref::T_UINT32: case ref::T_FIXED32: return c_u32;
  case ref::T_INT64: case ref::T_SINT64: case ref::T_SFIXED64: return c_i64;
  case ref::T_UINT64: case ref::T_FIXED64: return c_u64;
  case ref::T_FLOAT: return c_f;
  case ref::T_DOUBLE: return c_d;
  case ref::T_STRING: return c_str;
  case ref::T_BYTES: return c_bytes;
  case ref::T_ENUM: return c_enum;
  default: return c_msg;
  }
}
struct Ops {
  Case &c;
  Fixture &fx;
  std::pmr::monotonic_buffer_resource &mr;
  std::deque<std::string> keep;                 // adopted text outlives the message
  std::deque<std::vector<std::string_view>> keep_sv;
  std::deque<std::vector<bytes_view>> keep_bv;
  std::deque<std::shared_ptr<void>> keep_any;
  std::deque<std::unique_ptr<std::pmr::monotonic_buffer_resource>> keep_mr;
  int bad_utf8 = 0;
  std::string last;
  const ref::Schema &fs() const { return fx.flat_ref; }

  ref::Val value(const ref::FieldDesc &fd) {
    gen::Cfg g;
    g.bad_utf8 = bad_utf8;
    return gen::value(c, fs(), fd, g, 9);
  }
  // ---- model
  void clear_oneof(ref::Msg &m, int oneof) {
    for (size_t i = 0; i < m.f.size(); ++i) {
      auto &fd = fs().msgs[m.d].fields[i];
      if (fd.oneof == oneof && fd.card == ref::SINGULAR) m.f[i] = ref::FVal{};
    }
  }
  void put(ref::Msg &m, size_t i, const ref::Val &v) {
    auto &fd = fs().msgs[m.d].fields[i];
    if (fd.oneof >= 0) clear_oneof(m, fd.oneof);
    m.f[i] = ref::FVal{};
    if (!ref::is_msg_type(fd.type) && fd.presence == ref::IMPLICIT && fd.oneof < 0 && ref::val_zero(fd, v)) return;
    m.f[i].present = true;
    m.f[i].v.push_back(v);
  }
  bool active_sibling(const ref::Msg &m, size_t i) {
    auto &fd = fs().msgs[m.d].fields[i];
    if (fd.oneof < 0 || m.f[i].present) return false;
    for (size_t k = 0; k < m.f.size(); ++k)
      if (fs().msgs[m.d].fields[k].oneof == fd.oneof && m.f[k].present) return true;
    return false;
  }
  ref::Val def(const ref::FieldDesc &fd) {
    auto v = ref::default_of(fs(), fd);
    if (fd.presence == ref::IMPLICIT && fd.type == ref::T_ENUM) v.num = 0;
    return v;
  }
  static ref::Msg deep(const ref::Msg &m) {
    ref::Msg r = m;
    for (auto &f : r.f)
      for (auto &v : f.v)
        if (v.msg) v.msg = std::make_shared<ref::Msg>(deep(*v.msg));
    return r;
  }
  ref::Msg walk(message_value_cref m, int d) {
    Walker w{c, fs(), last};
    return w.walk(m, d);
  }
  bool utf8_ok(const ref::Msg &m) {
    for (size_t i = 0; i < m.f.size(); ++i) {
      auto &fd = fs().msgs[m.d].fields[i];
      for (auto &v : m.f[i].v) {
        if (v.msg && !utf8_ok(*v.msg)) return false;
        if (fd.type == ref::T_STRING && fd.utf8 && !ref::valid_utf8(v.str)) return false;
      }
    }
    return true;
  }
  // ---- a message to work on: a path from the root through present messages
  struct At { message_value_mref m; ref::Msg *model; std::string path; };
  At descend(message_value_mref m, ref::Msg &model, std::string path) {
    std::vector<std::pair<size_t, size_t>> subs;
    for (size_t i = 0; i < model.f.size(); ++i)
      for (size_t k = 0; k < model.f[i].v.size(); ++k)
        if (model.f[i].v[k].msg) subs.push_back({i, k});
    if (subs.empty() || !c.chance(1, 2)) return {m, &model, path};
    auto [i, k] = c.pick(subs);
    auto &fd = fs().msgs[model.d].fields[i];
    auto &next = *model.f[i].v[k].msg;
    path += "." + fd.name;
    if (fd.card == ref::SINGULAR) {
      auto r = m.typed_ref_by_number<message_field_mref>((uint32_t)fd.number);
      c.check(r.has_value() && r->has_value(), "ops-descend", path);
      return descend(c.coin() ? r->value() : **r, next, path);
    }
    auto r = m.typed_ref_by_name<repeated_message_field_mref>(fd.name);
    c.check(r.has_value() && r->size() == model.f[i].v.size(), "ops-descend", path);
    path += "[" + std::to_string(k) + "]";
    return descend(c.coin() ? r->at(k) : (*r)[k], next, path);
  }
  // a second message of the same type with generated content
  struct Other { std::unique_ptr<std::pmr::monotonic_buffer_resource> mr; std::optional<message_value_mref> m; ref::Msg model; };
  Other other(int d) {
    Other o;
    o.mr = std::make_unique<std::pmr::monotonic_buffer_resource>(&fx.upstream);
    o.m.emplace(fx.set.msgs[d].map_entry ? message_value_mref{*descriptor(d), *o.mr} : fx.make(c, d, *o.mr));
    gen::WCfg w;
    w.max_depth = 3;
    w.unknown = w.overlong = false;
    auto in = gen::wire(c, fx.set.ref, d, w);
    (void)read_binpb(*o.m, in).ok(); // an entry may be incomplete or carry an unknown enum value
    o.model = walk(*o.m, d);
    return o;
  }
  const message_descriptor_t *descriptor(int d) { // of a map entry: through the field that uses it
    for (size_t p = 0; p < fx.set.msgs.size(); ++p) {
      if (fx.set.msgs[p].map_entry) continue;
      for (auto &fd : fs().msgs[p].fields)
        if (fd.sub == d && ref::is_msg_type(fd.type)) {
          auto m = fx.make(c, (int)p, mr);
          return m.field_descriptor_by_number((uint32_t)fd.number)->message_field_type_descriptor();
        }
    }
    abort();
  }

  // ---- typed values
  template <class F> static constexpr bool rep_text = std::is_same_v<F, repeated_string_field_mref> || std::is_same_v<F, repeated_bytes_field_mref>;
  std::string_view kept(const std::string &s) { keep.push_back(s); return keep.back(); }

  void expect_ok(const std::expected<void, dynamic_message_errc> &r, const char *what) {
    c.check(r.has_value(), "ops-error", last + ": " + what + " fails with " + std::to_string(r.has_value() ? 0 : (int)r.error()));
  }
  // calls f(value as the C++ type the untyped API takes)
  template <class Fn> void as_cpp(const ref::FieldDesc &fd, const ref::Val &v, Fn f) {
    switch (cat(fd)) {
    case c_bool: f(v.num != 0); break;
    case c_i32: f((int32_t)v.num); break;
    case c_u32: f((uint32_t)v.num); break;
    case c_i64: f((int64_t)v.num); break;
    case c_u64: f((uint64_t)v.num); break;
    case c_f: f(from_num<float>(v.num)); break;
    case c_d: f(from_num<double>(v.num)); break;
    case c_str: f(std::string_view(v.str)); break;
    case c_bytes: f(bv(v.str)); break;
    case c_enum: f(enum_number{(int32_t)v.num}); break;
    default: break;
    }
  }

  // one operation on one field
  void field_op(At &at) {
    auto &m = *at.model;
    auto &md = fs().msgs[m.d];
    if (md.fields.empty()) return;
    size_t i = c.draw(md.fields.size() - 1);
    auto &fd = md.fields[i];
    auto f = at.m.field_by_number((uint32_t)fd.number);
    c.check(f.has_value(), "ops-field", md.name + "." + fd.name);
    std::string name = at.path + "." + fd.name;
    f->visit([&](auto r) {
      using R = decltype(r);
      if constexpr (is_rep_msg_ref<R>) rep_msg(at, *f, r, i, fd, name);
      else if constexpr (R::is_repeated) rep(at, *f, r, i, fd, name);
      else if constexpr (is_msg_ref<R>) msg(at, *f, r, i, fd, name);
      else single(at, *f, r, i, fd, name);
    });
  }
  void note(const std::string &s) { last = s; c.note(s); }
  // after resetting a member that is not the selected one, the selected one may or may not remain
  bool loose = false;
  int loose_oneof = -1;
  ref::Msg *loose_msg = nullptr;

  void do_reset(At &at, field_mref f, auto r, size_t i, const std::string &name) {
    auto &m = *at.model;
    unsigned how = (unsigned)c.draw(2);
    note(name + (how == 0 ? ".reset()" : how == 1 ? " untyped reset()" : " clear_field"));
    if (active_sibling(m, i)) { loose = true; loose_msg = &m; loose_oneof = fs().msgs[m.d].fields[i].oneof; }
    if (how == 0) r.reset();
    else if (how == 1) f.reset();
    else at.m.clear_field(f.descriptor());
    if (!loose) m.f[i] = ref::FVal{};
  }
  // copies the field from another message of the type
  template <class R> void copy_from(At &at, field_mref f, R r, size_t i, const std::string &name) {
    auto &m = *at.model;
    auto o = other(m.d);
    auto of = o.m->field_by_number((uint32_t)fs().msgs[m.d].fields[i].number);
    auto orf = *of->template to<R>();
    unsigned how = (unsigned)c.draw(3);
    bool have = !o.model.f[i].v.empty() || o.model.f[i].present;
    auto &fd = fs().msgs[m.d].fields[i];
    if (how == 3 && !of->has_value() && fd.oneof >= 0) how = 1; // the untyped alias copies the whole slot
    note(name + (how == 0 ? " clone_from " : how == 1 ? " untyped clone_from " : how == 2 ? " alias_from " : " untyped alias_from ") + (have ? "present" : "absent"));
    if (!have && active_sibling(m, i)) { loose = true; loose_msg = &m; loose_oneof = fd.oneof; }
    switch (how) {
    case 0: r.clone_from(orf.cref()); break;
    case 1: f.clone_from(*of); break;
    case 2:
      if constexpr (requires { r.alias_from(orf); }) r.alias_from(orf);
      else r.alias_from(orf.cref());
      break;
    default: f.alias_from(*of); break;
    }
    auto still = walk(*o.m, m.d);
    c.check_f(ref::same(fs(), still, o.model, false), "ops-source", [&] { return last + " changes its source"; });
    if (have) {
      auto v = deep(o.model).f[i];
      if (fd.oneof >= 0) clear_oneof(m, fd.oneof);
      m.f[i] = v;
    } else if (!loose) m.f[i] = ref::FVal{};
    if (how >= 2) keep_mr.push_back(std::move(o.mr)); // an alias needs its source
    else { o.m.reset(); o.mr.reset(); }               // a clone does not
  }

  template <class R> void single(At &at, field_mref f, R r, size_t i, const ref::FieldDesc &fd, const std::string &name) {
    auto &m = *at.model;
    auto num = (uint32_t)fd.number;
    switch (c.weighted({4, 4, 2, 2, 3, 2})) {
    case 0: { // typed set
      auto v = value(fd);
      if constexpr (is_enum_ref<R>) {
        auto &ed = fs().enums[fd.sub];
        switch (c.draw(3)) {
        case 0: note(name + ".set(number " + std::to_string((int32_t)v.num) + ")"); r.set(enum_number{(int32_t)v.num}); break;
        case 1: {
          auto &nv = c.pick(fx.set.enums[fd.sub].values);
          note(name + ".set(name " + nv.first + ")");
          expect_ok(r.set(enum_name{nv.first}), "set by name");
          v.num = (uint64_t)(int64_t)nv.second;
          break;
        }
        case 2: {
          note(name + ".set(unknown name)");
          auto e = r.set(enum_name{"no_such_name"});
          c.check(!e.has_value() && e.error() == dynamic_message_errc::invalid_enum_name, "ops-enum-name", name + ": unknown name accepted");
          return;
        }
        default: {
          note(name + ".emplace().set(" + std::to_string((int32_t)v.num) + ")");
          auto e = r.emplace();
          c.check((uint64_t)(int64_t)e.number() == def(fd).num, "ops-emplace", name + ": emplace() does not start from the default");
          e.set((int32_t)v.num);
        }
        }
        (void)ed;
      } else if constexpr (std::is_same_v<R, string_field_mref> || std::is_same_v<R, bytes_field_mref>) {
        auto conv = [](std::string_view s) { if constexpr (std::is_same_v<R, string_field_mref>) return s; else return bv(s); };
        if (c.coin()) { note(name + ".set(" + hex(v.str) + ")"); std::string tmp = v.str; r.set(conv(tmp)); }
        else { note(name + ".adopt(" + hex(v.str) + ")"); auto k = conv(kept(v.str)); r.adopt(k); c.check((const void *)r.value().data() == (const void *)k.data(), "ops-adopt", name + ": adopt copies"); }
      } else {
        using T = typename R::value_type;
        if (c.coin()) { note(name + ".set(" + std::to_string(v.num) + ")"); r.set(from_num<T>(v.num)); }
        else { note(name + ".emplace() = " + std::to_string(v.num)); auto &x = r.emplace(); c.check(num_of(x) == def(fd).num, "ops-emplace", name + ": emplace() does not start from the default"); x = from_num<T>(v.num); }
      }
      put(m, i, v);
      break;
    }
    case 1: { // through the untyped interfaces
      auto v = value(fd);
      unsigned how = (unsigned)c.draw(4);
      static const char *hn[] = {" field set ", " set_field_by_name ", " set_field_by_number ", " modify ", " fluent set "};
      note(name + hn[how] + (ref::is_len_type(fd.type) ? hex(v.str) : std::to_string(v.num)));
      std::string tmp = v.str;
      auto tv = v;
      tv.str = tmp;
      if (fd.type == 9 && (how == 1 || how == 2) && c.coin()) { // a character array, with or without a zero at its end
        char a4[4];
        char a1[1];
        for (char &ch : a4) ch = (char)('a' + c.draw(25));
        bool zero = c.coin(), one = c.chance(1, 3);
        a1[0] = a4[0];
        if (zero) a4[3] = a1[0] = 0;
        v.str = one ? std::string(a1, zero ? 0 : 1) : std::string(a4, zero ? 3 : 4);
        note(name + " set to a character array of " + hex(v.str));
        if (how == 1) c.check(one ? at.m.set_field_by_name(fd.name, a1).has_value() : at.m.set_field_by_name(fd.name, a4).has_value(), "ops-error", last + " fails");
        else c.check(one ? at.m.set_field_by_number(num, a1).has_value() : at.m.set_field_by_number(num, a4).has_value(), "ops-error", last + " fails");
        put(m, i, v);
        break;
      }
      as_cpp(fd, tv, [&](auto x) {
        switch (how) {
        case 0: expect_ok(f.set(x), "field set"); break;
        case 1: c.check(at.m.set_field_by_name(fd.name, x).has_value(), "ops-error", last + " fails"); break;
        case 2: c.check(at.m.set_field_by_number(num, x).has_value(), "ops-error", last + " fails"); break;
        case 3: expect_ok(f.modify([&](R q) { if constexpr (R::template settable_from_v<decltype(x)>) q.set(x); return std::expected<void, dynamic_message_errc>{}; }), "modify"); break;
        default: expect_ok(expected_message_mref{at.m}.set_field_by_number(num, x).done(), "fluent set"); break;
        }
      });
      put(m, i, v);
      break;
    }
    case 2: wrong_type(at, f, fd, name); break;
    case 3: note(name + ".set_as_default()"); if constexpr (requires { r.set_as_default(); }) r.set_as_default(); put(m, i, def(fd)); break;
    case 4: do_reset(at, f, r, i, name); break;
    default: copy_from(at, f, r, i, name); break;
    }
  }
  static std::string camel(const std::string &n) {
    std::string o;
    bool up = false;
    for (char ch : n) {
      if (ch == '_') up = true;
      else { o += up && ch >= 'a' && ch <= 'z' ? (char)(ch - 32) : ch; up = false; }
    }
    return o;
  }
  // a value of another type is refused and changes nothing
  void wrong_type(At &at, field_mref f, const ref::FieldDesc &fd, const std::string &name) {
    Cat have = fd.card == ref::SINGULAR ? cat(fd) : c_none;
    auto num = (uint32_t)fd.number;
    auto attempt = [&](Cat k, auto x, const char *what) {
      note(name + " set to a " + what);
      std::expected<void, dynamic_message_errc> e;
      auto drop = [&](auto q) { if (!q.has_value()) e = std::unexpected(q.error()); };
      switch (c.draw(2)) {
      case 0: e = f.set(x); break;
      case 1: drop(at.m.set_field_by_name(fd.name, x)); break;
      default: drop(at.m.set_field_by_number(num, x)); break;
      }
      if (k == have) return false;
      c.check(!e.has_value() && e.error() == dynamic_message_errc::invalid_field_type, "ops-wrong-type", last + " is accepted");
      return true;
    };
    auto getter = [&](Cat k, auto tag, const char *what) {
      using T = typename decltype(tag)::type;
      if (k == have) return;
      auto g = f.template get<T>();
      c.check(!g.has_value() && g.error() == dynamic_message_errc::invalid_field_type, "ops-wrong-get", name + " read as " + what);
    };
    unsigned k = (unsigned)c.draw(9);
    if (Cat(k) == have) k = (k + 1) % 10;
    switch (k) {
    case c_bool: attempt(c_bool, true, "bool"); getter(c_bool, std::type_identity<bool>{}, "bool"); break;
    case c_i32: attempt(c_i32, (int32_t)5, "int32"); getter(c_i32, std::type_identity<int32_t>{}, "int32"); break;
    case c_u32: attempt(c_u32, (uint32_t)5, "uint32"); getter(c_u32, std::type_identity<uint32_t>{}, "uint32"); break;
    case c_i64: attempt(c_i64, (int64_t)5, "int64"); getter(c_i64, std::type_identity<int64_t>{}, "int64"); break;
    case c_u64: attempt(c_u64, (uint64_t)5, "uint64"); getter(c_u64, std::type_identity<uint64_t>{}, "uint64"); break;
    case c_f: attempt(c_f, 1.5f, "float"); getter(c_f, std::type_identity<float>{}, "float"); break;
    case c_d: attempt(c_d, 1.5, "double"); getter(c_d, std::type_identity<double>{}, "double"); break;
    case c_str: attempt(c_str, std::string_view("x"), "string"); getter(c_str, std::type_identity<std::string_view>{}, "string"); break;
    case c_bytes: attempt(c_bytes, bv("x"), "bytes"); getter(c_bytes, std::type_identity<bytes_view>{}, "bytes"); break;
    default: attempt(c_enum, enum_number{0}, "enum number"); if (have != c_str) attempt(c_enum, enum_name{"x"}, "enum name"); /* converts to a string */ getter(c_enum, std::type_identity<enum_number>{}, "enum number"); break;
    }
    { // a mutator for another kind of field is not called
      auto mod = [&](auto tag) {
        using Q = typename decltype(tag)::type;
        if (Q::field_kind == f.field_kind()) return;
        auto e = f.modify([](Q) -> std::expected<void, dynamic_message_errc> { return {}; });
        c.check(!e.has_value() && e.error() == dynamic_message_errc::invalid_field_type, "ops-wrong-modify", name + ": modify with another kind of reference");
        c.check(!f.template to<Q>().has_value() && !at.m.template typed_ref_by_number<Q>(num).has_value() && !at.m.template typed_ref_by_name<Q>(fd.name).has_value(), "ops-wrong-ref", name + " converts to a reference of another kind");
      };
      switch (c.draw(3)) {
      case 0: mod(std::type_identity<string_field_mref>{}); break;
      case 1: mod(std::type_identity<int32_field_mref>{}); break;
      case 2: mod(std::type_identity<message_field_mref>{}); break;
      default: mod(std::type_identity<repeated_message_field_mref>{}); break;
      }
    }
    // unknown names and numbers
    auto none = at.m.set_field_by_name("no such field", 1);
    c.check(!none.has_value() && none.error() == dynamic_message_errc::no_such_field, "ops-no-field", "set_field_by_name accepts an unknown name");
    { // every name finds the field it belongs to and no other
      auto &fds = fs().msgs[at.model->d].fields;
      auto &x = c.pick(fds);
      std::string js = camel(x.name), odd = c.coin() ? x.name + "_" : x.name.substr(0, x.name.size() - 1);
      for (auto &q : {x.name, js, odd}) {
        const field_descriptor_t *byname = nullptr, *byjson = nullptr;
        for (auto &y : fds) {
          if (y.name == q) byname = at.m.field_descriptor_by_number(y.number);
          if (camel(y.name) == q) byjson = at.m.field_descriptor_by_number(y.number);
        }
        c.check(at.m.field_descriptor_by_name(q) == byname && at.m.cref().field_descriptor_by_name(q) == byname && at.m.field_by_name(q).has_value() == (byname != nullptr), "ops-lookup", "field_descriptor_by_name(" + q + ")");
        c.check(at.m.field_descriptor_by_json_name(q) == byjson && at.m.cref().field_descriptor_by_json_name(q) == byjson, "ops-lookup", "field_descriptor_by_json_name(" + q + ")");
      }
    }
    c.check(!at.m.field_by_number(0u).has_value() && !at.m.cref().field_by_number(0u).has_value(), "ops-no-field", "field_by_number accepts an unknown number");
  }

  void msg(At &at, field_mref f, message_field_mref r, size_t i, const ref::FieldDesc &fd, const std::string &name) {
    auto &m = *at.model;
    switch (c.weighted({4, 4, 2, 3, 3, 2})) {
    case 0: {
      bool def = c.chance(1, 4);
      note(name + (def ? ".set_as_default()" : ".emplace()"));
      if (def) r.set_as_default();
      else (void)r.emplace();
      ref::Val v;
      v.msg = std::make_shared<ref::Msg>();
      v.msg->d = fd.sub;
      v.msg->f.resize(fs().msgs[fd.sub].fields.size());
      put(m, i, v);
      break;
    }
    case 1: { // set from a message of the type: copies
      auto o = other(fd.sub);
      unsigned how = (unsigned)c.draw(2);
      note(name + (how ? " untyped set" : ".set") + " to a message");
      if (how == 0) expect_ok(r.set(o.m->cref()), "message set");
      else if (how == 1) expect_ok(f.set(o.m->cref()), "message set");
      else c.check(at.m.set_field_by_number((uint32_t)fd.number, *o.m).has_value(), "ops-error", last + " fails");
      ref::Val v;
      v.msg = std::make_shared<ref::Msg>(deep(o.model));
      put(m, i, v);
      break; // the source is gone
    }
    case 2: {
      if (c.coin()) { wrong_type(at, f, fd, name); break; }
      int d2 = c.pick(fx.set.roots);
      if (d2 == fd.sub) break;
      auto o = other(d2);
      note(name + ".set to a message of another type");
      auto e = r.set(o.m->cref());
      c.check(!e.has_value() && e.error() == dynamic_message_errc::wrong_message_type, "ops-wrong-message", last + " is accepted");
      break;
    }
    case 3: do_reset(at, f, r, i, name); break;
    default: copy_from(at, f, r, i, name); break;
    }
  }
  ref::Val blank(int d) {
    ref::Val v;
    v.msg = std::make_shared<ref::Msg>();
    v.msg->d = d;
    v.msg->f.resize(fs().msgs[d].fields.size());
    return v;
  }
  void rep_msg(At &at, field_mref f, repeated_message_field_mref r, size_t i, const ref::FieldDesc &fd, const std::string &name) {
    auto &m = *at.model;
    auto &v = m.f[i].v;
    switch (c.weighted({5, 2, 2, 2, 2, 2, 1})) {
    case 0: {
      note(name + ".emplace_back()");
      auto e = r.emplace_back();
      auto nv = blank(fd.sub);
      auto &ed = fs().msgs[fd.sub];
      if (fx.set.msgs[fd.sub].map_entry) { // an entry gets its parts by number
        for (size_t k = 0; k < 2; ++k) {
          auto x = value(ed.fields[k]);
          if (ref::is_msg_type(ed.fields[k].type)) {
            (void)e.typed_ref_by_number<message_field_mref>((uint32_t)(k + 1))->emplace();
            x = blank(ed.fields[k].sub);
          } else
            as_cpp(ed.fields[k], x, [&](auto y) { c.check(e.set_field_by_number((uint32_t)(k + 1), y).has_value(), "ops-entry", name + ": part of an entry"); });
          put(*nv.msg, k, x);
        }
      }
      v.push_back(nv);
      break;
    }
    case 1: {
      size_t n = c.draw(v.size() + 3);
      note(name + ".resize(" + std::to_string(n) + ")");
      r.resize(n);
      while (v.size() > n) v.pop_back();
      while (v.size() < n) v.push_back(blank(fd.sub));
      break;
    }
    case 2: {
      size_t n = c.draw(v.size() + 8);
      note(name + ".reserve(" + std::to_string(n) + ")");
      r.reserve(n);
      c.check(r.capacity() >= n, "ops-reserve", name + ": capacity after reserve");
      break;
    }
    case 3: {
      if (c.coin()) { note(name + ".clear()"); r.clear(); }
      else { unsigned how = (unsigned)c.draw(2); note(name + " reset"); if (how == 0) r.reset(); else if (how == 1) f.reset(); else at.m.clear_field(f.descriptor()); }
      v.clear();
      break;
    }
    case 4: copy_from(at, f, r, i, name); break;
    case 5: {
      bool thrown = false;
      size_t k = v.size() + c.draw(3);
      note(name + ".at(" + std::to_string(k) + ")");
      try { (void)r.at(k); } catch (std::out_of_range &) { thrown = true; }
      c.check(thrown, "ops-at", last + " does not throw");
      break;
    }
    default: { // set from a range of messages
      std::vector<Other> os;
      std::vector<message_value_mref> src;
      size_t n = c.draw(3);
      for (size_t k = 0; k < n; ++k) { os.push_back(other(fd.sub)); src.push_back(*os.back().m); }
      if (c.chance(1, 4)) { // one of another type: refused, and nothing changes
        int d = (int)c.draw(fs().msgs.size() - 1);
        if (d != fd.sub && !fx.set.msgs[d].map_entry) {
          os.push_back(other(d));
          src.insert(src.begin() + c.draw(src.size()), *os.back().m);
          note(name + ".set(range of " + std::to_string(n) + " and one of another type)");
          auto e = r.set(src);
          c.check(!e.has_value() && e.error() == dynamic_message_errc::wrong_message_type, "ops-wrong-message", last + " is accepted");
          return;
        }
      }
      note(name + ".set(range of " + std::to_string(n) + ")");
      expect_ok(r.set(src), "set of a range");
      v.clear();
      for (auto &o : os) { ref::Val x; x.msg = std::make_shared<ref::Msg>(deep(o.model)); v.push_back(x); }
    }
    }
  }
  template <class R> void rep(At &at, field_mref f, R r, size_t i, const ref::FieldDesc &fd, const std::string &name) {
    auto &m = *at.model;
    auto &v = m.f[i].v;
    auto assign = [&](size_t k, const ref::Val &x) {
      if constexpr (is_rep_enum_ref<R>) r[k].set((int32_t)x.num);
      else if constexpr (std::is_same_v<R, repeated_string_field_mref>) { if (c.coin()) { std::string t = x.str; r[k].set(std::string_view(t)); } else r[k].adopt(kept(x.str)); }
      else if constexpr (std::is_same_v<R, repeated_bytes_field_mref>) { if (c.coin()) { std::string t = x.str; r[k].set(bv(t)); } else r[k].adopt(bv(kept(x.str))); }
      else r[k] = from_num<typename R::value_type>(x.num);
    };
    auto values = [&](size_t n) { std::vector<ref::Val> o; for (size_t k = 0; k < n; ++k) o.push_back(value(fd)); return o; };
    switch (c.weighted({6, 3, 2, 3, 3, 3, 3, 2, 2, 1})) {
    case 0: {
      size_t n = 1 + c.draw(3);
      for (size_t k = 0; k < n; ++k) {
        auto x = value(fd);
        note(name + ".push_back(" + (ref::is_len_type(fd.type) ? hex(x.str) : std::to_string(x.num)) + ")");
        if constexpr (is_rep_enum_ref<R>) {
          if (c.coin()) r.push_back(enum_number{(int32_t)x.num});
          else { auto &nv = c.pick(fx.set.enums[fd.sub].values); expect_ok(r.push_back(enum_name{nv.first}), "push_back by name"); x.num = (uint64_t)(int64_t)nv.second; }
        } else if constexpr (std::is_same_v<R, repeated_string_field_mref>) { std::string t = x.str; r.push_back(std::string_view(t)); }
        else if constexpr (std::is_same_v<R, repeated_bytes_field_mref>) { std::string t = x.str; r.push_back(bv(t)); }
        else if (!v.empty() && c.chance(1, 4)) { x = v[0]; r.push_back(r[0]); } // an element of itself
        else r.push_back(from_num<typename R::value_type>(x.num));
        v.push_back(x);
      }
      break;
    }
    case 1: {
      size_t n = c.draw(v.size() + 3);
      note(name + ".resize(" + std::to_string(n) + ")");
      size_t old = v.size();
      r.resize(n);
      v.resize(std::min(n, old));
      if constexpr (std::is_same_v<R, repeated_string_field_mref> || std::is_same_v<R, repeated_bytes_field_mref>) {
        // new strings are empty, whatever the storage held before (new numbers are unspecified and set right away)
        for (size_t k = old; k < n; ++k)
          c.check(r.cref()[k].size() == 0, "ops-resize-new", name + ": element " + std::to_string(k) + " is not empty after resize");
        if (n > old && c.coin()) { v.resize(n); break; }
      }
      for (size_t k = old; k < n; ++k) { auto x = value(fd); assign(k, x); v.push_back(x); }
      break;
    }
    case 2: {
      size_t n = c.draw(v.size() + 8);
      note(name + ".reserve(" + std::to_string(n) + ")");
      r.reserve(n);
      c.check(r.capacity() >= n && r.size() == v.size(), "ops-reserve", name + ": capacity or size after reserve");
      break;
    }
    case 3: {
      if (c.coin()) { note(name + ".clear()"); r.clear(); }
      else { unsigned how = (unsigned)c.draw(2); note(name + " reset"); if (how == 0) r.reset(); else if (how == 1) f.reset(); else at.m.clear_field(f.descriptor()); }
      v.clear();
      break;
    }
    case 4: { // set from a range
      auto vs = values(c.draw(6));
      unsigned how = (unsigned)c.draw(1);
      note(name + (how ? " untyped set" : ".set") + "(range of " + std::to_string(vs.size()) + ")");
      if constexpr (is_rep_enum_ref<R>) {
        std::vector<int32_t> t;
        for (auto &x : vs) t.push_back((int32_t)x.num);
        if (how) expect_ok(f.set(enum_numbers_range{t}), "set of a range");
        else r.set(t);
      } else if constexpr (std::is_same_v<R, repeated_string_field_mref>) {
        std::vector<std::string> t;
        for (auto &x : vs) t.push_back(x.str);
        if (how) expect_ok(f.set(std::vector<std::string_view>(t.begin(), t.end())), "set of a range");
        else r.set(t);
      } else if constexpr (std::is_same_v<R, repeated_bytes_field_mref>) {
        std::vector<bytes_view> t;
        std::vector<std::string> own;
        for (auto &x : vs) own.push_back(x.str);
        for (auto &x : own) t.push_back(bv(x));
        if (how) expect_ok(f.set(t), "set of a range");
        else r.set(t);
      } else {
        using T = typename R::value_type;
        auto t = std::make_unique<T[]>(vs.size());
        for (size_t k = 0; k < vs.size(); ++k) t[k] = from_num<T>(vs[k].num);
        std::span<const T> sp(t.get(), vs.size());
        if (how) expect_ok(f.set(sp), "set of a range");
        else r.set(sp);
      }
      v = vs;
      break;
    }
    case 5: { // adopt
      auto vs = values(c.draw(6));
      note(name + ".adopt(" + std::to_string(vs.size()) + " elements)");
      if constexpr (is_rep_enum_ref<R>) {
        auto t = std::make_shared<std::vector<int32_t>>();
        for (auto &x : vs) t->push_back((int32_t)x.num);
        t->shrink_to_fit();
        keep_any.push_back(t);
        r.adopt(std::span<int32_t>(*t));
      } else if constexpr (std::is_same_v<R, repeated_string_field_mref>) {
        keep_sv.emplace_back();
        for (auto &x : vs) keep_sv.back().push_back(kept(x.str));
        r.adopt(keep_sv.back());
      } else if constexpr (std::is_same_v<R, repeated_bytes_field_mref>) {
        keep_bv.emplace_back();
        for (auto &x : vs) keep_bv.back().push_back(bv(kept(x.str)));
        r.adopt(keep_bv.back());
      } else {
        using T = typename R::value_type;
        std::shared_ptr<T[]> t(new T[vs.size()]);
        for (size_t k = 0; k < vs.size(); ++k) t[k] = from_num<T>(vs[k].num);
        keep_any.push_back(t);
        r.adopt(std::span<T>(t.get(), vs.size()));
      }
      v = vs;
      break;
    }
    case 6: {
      if (v.empty()) return;
      size_t k = c.draw(v.size() - 1);
      auto x = value(fd);
      note(name + "[" + std::to_string(k) + "] = " + (ref::is_len_type(fd.type) ? hex(x.str) : std::to_string(x.num)));
      assign(k, x);
      v[k] = x;
      break;
    }
    case 7: copy_from(at, f, r, i, name); break;
    case 8: {
      bool thrown = false;
      size_t k = v.size() + c.draw(3);
      note(name + ".at(" + std::to_string(k) + ")");
      try { (void)r.at(k); } catch (std::out_of_range &) { thrown = true; }
      c.check(thrown, "ops-at", last + " does not throw");
      if (!v.empty()) (void)r.at(v.size() - 1);
      break;
    }
    default:
      if constexpr (is_rep_enum_ref<R>) { // names
        std::vector<std::string_view> names;
        std::vector<ref::Val> vs;
        size_t n = c.draw(4);
        for (size_t k = 0; k < n; ++k) { auto &nv = c.pick(fx.set.enums[fd.sub].values); names.push_back(nv.first); ref::Val x; x.num = (uint64_t)(int64_t)nv.second; vs.push_back(x); }
        note(name + ".set(names)");
        if (c.chance(1, 3)) {
          names.push_back("no_such_name");
          auto e = r.set(enum_names_range{names});
          c.check(!e.has_value() && e.error() == dynamic_message_errc::invalid_enum_name, "ops-enum-name", name + ": unknown name accepted");
          r.clear(); // what remains is not specified
          v.clear();
        } else {
          expect_ok(c.coin() ? r.set(enum_names_range{names}) : f.set(enum_names_range{names}), "set by names");
          v = vs;
        }
      } else wrong_type(at, f, fd, name);
    }
  }
  void message_op(At &at) {
    auto &m = *at.model;
    switch (c.weighted({2, 2, 1, 2, 3, 2})) {
    case 0: {
      auto o = other(m.d);
      note(at.path + " clone_from a message");
      at.m.clone_from(o.m->cref());
      auto still = walk(*o.m, m.d);
      c.check_f(ref::same(fs(), still, o.model, false), "ops-source", [&] { return last + " changes its source"; });
      m = deep(o.model);
      break;
    }
    case 1: {
      auto o = other(m.d);
      note(at.path + " alias_from a message");
      at.m.alias_from(*o.m);
      m = deep(o.model);
      keep_mr.push_back(std::move(o.mr));
      break;
    }
    case 2: {
      note(at.path + " reset()");
      at.m.reset();
      for (auto &f : m.f) f = ref::FVal{};
      break;
    }
    case 3: { // read replaces
      gen::WCfg w;
      w.max_depth = 3;
      w.map_missing_value = false;
      auto in = gen::wire(c, fx.set.ref, m.d, w);
      if (fx.set.msgs[m.d].map_entry) return;
      note(at.path + " read_binpb " + hex(in));
      ref::Msg want = ref::make(fs(), m.d);
      ref::Decoder dec{fs(), {}};
      auto res = dec.run(want, in);
      bool ok = read_binpb(at.m, in).ok();
      if (res == ref::Res::ok) c.check(ok, "ops-read", last + " fails");
      m = walk(at.m, m.d); // the codec is another property
      break;
    }
    case 4: {
      if (at.m.descriptor().oneofs().empty()) return;
      size_t k = c.draw(at.m.descriptor().oneofs().size() - 1);
      auto &od = at.m.descriptor().oneofs()[(std::ptrdiff_t)k];
      if (od.fields().empty()) return;
      note(at.path + " clear_field(oneof " + std::string(od.proto().name) + ")");
      auto *found = at.m.oneof_descriptor(od.proto().name);
      c.check(found == &od, "ops-oneof-name", "oneof_descriptor does not find " + std::string(od.proto().name));
      at.m.clear_field(od);
      c.check(!at.m.has_oneof(od), "ops-oneof", "a oneof is set after it was cleared");
      for (auto &f : od.fields())
        for (size_t i = 0; i < m.f.size(); ++i)
          if (fs().msgs[m.d].fields[i].number == f.proto().number) m.f[i] = ref::FVal{};
      break;
    }
    default: { // a chain of sets stops at the first failure
      auto &md = fs().msgs[m.d];
      std::vector<size_t> simple;
      for (size_t i = 0; i < md.fields.size(); ++i)
        if (md.fields[i].card == ref::SINGULAR && !ref::is_msg_type(md.fields[i].type)) simple.push_back(i);
      if (simple.empty()) return;
      expected_message_mref chain{at.m};
      bool failed = false;
      std::string text = at.path + " chain";
      for (size_t n = 1 + c.draw(3); n; --n) {
        size_t i = c.pick(simple);
        auto &fd = md.fields[i];
        auto v = value(fd);
        bool bad = c.chance(1, 5);
        text += " " + fd.name + (bad ? "(wrong)" : "");
        auto step = [&](auto x) {
          if (c.coin()) chain = chain.set_field_by_number((uint32_t)fd.number, x);
          else chain = chain.set_field_by_name(fd.name, x);
        };
        if (bad) step(std::vector<double>{1.0});
        else as_cpp(fd, v, step);
        if (bad) failed = true;
        if (!failed) put(m, i, v);
      }
      note(text);
      c.check(chain.has_value() == !failed && chain.done().has_value() == !failed, "ops-chain", "result of " + text);
      if (failed) c.check(chain.error() == dynamic_message_errc::invalid_field_type, "ops-chain", "error of " + text);
    }
    }
  }
};
} // namespace

PBT_PROP(dyn_ops, "at least 4 operations were applied and the message is not empty at the end or a oneof was involved") {
  Fixture fx(c, {});
  int d = c.pick(fx.set.roots);
  c.note("message " + fx.set.msgs[d].full);
  {
    std::pmr::monotonic_buffer_resource mr{&fx.upstream};
    Ops o{c, fx, mr, {}, {}, {}, {}, {}, c.chance(1, 10), ""};
    auto m = fx.make(c, d, mr);
    ref::Msg model = o.walk(m, d);
    for (auto &f : model.f) c.check(!f.present && f.v.empty(), "ops-fresh", "a new message is not empty");
    if (c.chance(1, 3)) {
      gen::WCfg w;
      w.max_depth = 3;
      auto in = gen::wire(c, fx.set.ref, d, w);
      c.note("read_binpb " + hex(in));
      (void)read_binpb(m, in).ok();
      model = o.walk(m, d);
    }
    size_t steps = 0;
    for (; steps < 60 && c.draw(30) != 0; ++steps) {
      auto at = o.descend(m, model, "m");
      if (c.chance(1, 6)) o.message_op(at);
      else o.field_op(at);
      auto got = o.walk(m, d);
      if (o.loose) { // either outcome for the selected member
        auto before = Ops::deep(model);
        if (!ref::same(fx.flat_ref, got, model, false)) o.clear_oneof(*o.loose_msg, o.loose_oneof);
        o.loose = false;
      }
      c.check_f(ref::same(fx.flat_ref, got, model, false), "ops-value", [&] { return "after " + o.last + " the message is\n" + fx.show(got) + "instead of\n" + fx.show(model); });
    }
    bool any = false;
    for (auto &f : model.f) any |= !f.v.empty();
    if (steps >= 4 && any) c.nontrivial();
    c.label(steps < 4 ? "short history" : steps < 20 ? "4-19 operations" : "20+ operations");
    std::string out;
    auto ws = write_binpb(m.cref(), out);
    bool ok = o.utf8_ok(model);
    if (!ok) c.label("invalid UTF-8 in the value");
    c.check(ws.ok() == ok, "ops-write", ok ? "write_binpb fails" : "write_binpb accepts invalid UTF-8");
    if (ok) {
      auto canon = ref::encode(fx.flat_ref, model);
      c.check_f(out == canon, "ops-encoding", [&] { return "of\n" + fx.show(model) + "is " + hex(out) + " instead of " + hex(canon); });
    }
  }
  c.check(fx.upstream.live != 0, "ops-factory-memory", "the factory does not use its resource");
  fx.fac.reset();
  c.check(fx.upstream.live == 0, "ops-leak", "memory of the resource is not released");
}
