// The dynamic message factory and its descriptor pool against the schema model: what the pool
// reports about valid sets, lookups, moves, allocation failures; rejection of inconsistent sets.
#include "dyn.hpp"
extern "C" bool is_utf8(const char *s, size_t n) { return ref::valid_utf8(std::string_view(s, n)); }
using namespace pbt;
using namespace dyn;

struct Failing : Counting {
  size_t fail_at = SIZE_MAX, n = 0;
  void *do_allocate(size_t s, size_t a) override {
    if (n++ == fail_at) throw std::bad_alloc();
    return Counting::do_allocate(s, a);
  }
};
static std::string serialize(const sgen::Set &s, const std::vector<int> &order, const std::vector<std::pair<int, std::string>> &extra = {}) {
  sgen::W set;
  for (int f : order) {
    auto w = sgen::file_w(s, f);
    for (auto &[i, b] : extra)
      if (i == f) w.o += b;
    set.m(1, w);
  }
  return set.o;
}
static std::vector<int> all_files(const sgen::Set &s) {
  std::vector<int> r;
  for (size_t i = 0; i < s.files.size(); ++i) r.push_back((int)i);
  return r;
}
using Made = std::expected<dynamic_message_factory, dynamic_message_errc>;
static Made create_descs(const sgen::Set &s, const std::vector<int> &order, std::vector<std::string> &store, dynamic_message_factory::allocator_type a) {
  for (int f : order) store.push_back(sgen::file_w(s, f).o);
  auto d = [&](size_t i) { return file_descriptor_pb{store[i]}; };
  switch (order.size()) {
  case 1: { distinct_file_descriptor_pb_array<1> x{d(0)}; return dynamic_message_factory::create(x, a); }
  case 2: { distinct_file_descriptor_pb_array<2> x{d(0), d(1)}; return dynamic_message_factory::create(x, a); }
  default: { distinct_file_descriptor_pb_array<3> x{d(0), d(1), d(2)}; return dynamic_message_factory::create(x, a); }
  }
}
static Made create_bytes(Case &c, const std::string &b, dynamic_message_factory::allocator_type a) {
  switch (c.draw(2)) {
  case 0: { std::string copy = b; return dynamic_message_factory::create(copy, a); } // the bytes need not outlive the call
  case 1: { std::vector<std::byte> v((const std::byte *)b.data(), (const std::byte *)b.data() + b.size()); return dynamic_message_factory::create(std::move(v), a); }
  default: { std::unique_ptr<char[]> p(new char[b.size()]); memcpy(p.get(), b.data(), b.size()); return dynamic_message_factory::create(std::span<const char>(p.get(), b.size()), a); }
  }
}

// ---- what the pool says about a set
struct PoolCheck {
  Case &c;
  const sgen::Set &s;
  const descriptor_pool_t &pool;
  void eq(std::string_view a, std::string_view b, const std::string &what) {
    c.check_f(a == b, "pool-name", [&] { return what + " is '" + std::string(a) + "' instead of '" + std::string(b) + "'"; });
  }
  void is(bool a, bool b, const std::string &what) {
    c.check_f(a == b, "pool-fact", [&] { return what + " is " + (a ? "true" : "false"); });
  }
  void num(size_t a, size_t b, const std::string &what) {
    c.check_f(a == b, "pool-count", [&] { return what + " is " + std::to_string(a) + " instead of " + std::to_string(b); });
  }
  void field(const field_descriptor_t &f, const sgen::Field &sf, const ref::FieldDesc &fd, const std::string &n) {
    eq(f.proto().name, sf.name, n + " name");
    eq(f.proto().json_name, sf.json, n + " json name");
    num((size_t)f.proto().number, (size_t)sf.number, n + " number");
    is(f.is_repeated(), fd.card != ref::SINGULAR, n + " is_repeated");
    is(f.is_map_entry(), fd.card == ref::MAP, n + " is_map_entry");
    is(f.is_packed(), fd.packed, n + " is_packed");
    is(f.repeated_expanded(), fd.card != ref::SINGULAR && !fd.packed, n + " repeated_expanded");
    is(f.is_delimited(), fd.type == ref::T_GROUP, n + " is_delimited");
    is(f.requires_utf8_validation(), fd.type == ref::T_STRING && fd.utf8, n + " requires_utf8_validation");
    if (fd.card == ref::SINGULAR) {
      is(f.is_required(), fd.presence == ref::REQUIRED, n + " is_required");
      if (fd.presence != ref::REQUIRED) is(f.explicit_presence(), fd.presence == ref::EXPLICIT, n + " explicit_presence");
    }
    bool m = ref::is_msg_type(fd.type), e = fd.type == ref::T_ENUM;
    is(f.is_message_or_enum(), m || e, n + " is_message_or_enum");
    c.check((f.message_field_type_descriptor() != nullptr) == m && (f.enum_field_type_descriptor() != nullptr) == e, "pool-type", n + " type descriptors");
    if (m) c.check(f.message_field_type_descriptor() == pool.get_message_descriptor(s.msgs[fd.sub].full), "pool-type", n + " refers to the wrong message");
    if (e) c.check(f.enum_field_type_descriptor() == pool.get_enum_descriptor(s.enums[fd.sub].full), "pool-type", n + " refers to the wrong enum");
  }
  void message(int i, const message_descriptor_t &m, const message_descriptor_t *parent, const file_descriptor_t *file) {
    auto &sm = s.msgs[i];
    eq(m.full_name(), sm.full, "message");
    c.check(&m == pool.get_message_descriptor(sm.full), "pool-lookup", sm.full + " is not found under its name");
    c.check(m.parent_message() == parent && m.parent_file() == file, "pool-parent", sm.full + " has the wrong parent");
    is(m.is_map_entry(), sm.map_entry, sm.full + " is_map_entry");
    num(m.fields().size(), sm.fields.size(), sm.full + " number of fields");
    num(m.oneofs().size(), sm.oneofs.size(), sm.full + " number of oneofs");
    num(m.messages().size(), sm.nested.size(), sm.full + " number of nested messages");
    num(m.enums().size(), sm.enums.size(), sm.full + " number of nested enums");
    for (size_t k = 0; k < sm.fields.size(); ++k) {
      auto &f = m.fields()[k];
      c.check(f.parent_message() == &m, "pool-parent", sm.full + "." + sm.fields[k].name + " has the wrong parent");
      field(f, sm.fields[k], s.ref.msgs[i].fields[k], sm.full + "." + sm.fields[k].name);
    }
    for (size_t o = 0; o < sm.oneofs.size(); ++o) {
      auto &od = m.oneofs()[o];
      eq(od.proto().name, sm.oneofs[o], sm.full + " oneof");
      std::vector<const field_descriptor_t *> want, got;
      for (size_t k = 0; k < sm.fields.size(); ++k)
        if (sm.fields[k].oneof == (int)o) want.push_back(&m.fields()[k]);
      for (auto &f : od.fields()) got.push_back(&f);
      c.check(want == got, "pool-oneof", sm.full + " oneof " + sm.oneofs[o] + " has the wrong members");
    }
    for (size_t k = 0; k < sm.nested.size(); ++k) message(sm.nested[k], m.messages()[k], &m, file);
    for (size_t k = 0; k < sm.enums.size(); ++k) enum_(sm.enums[k], m.enums()[k], &m, file);
  }
  void enum_(int i, const enum_descriptor_t &e, const message_descriptor_t *parent, const file_descriptor_t *file) {
    auto &se = s.enums[i];
    eq(e.full_name(), se.full, "enum");
    c.check(&e == pool.get_enum_descriptor(se.full), "pool-lookup", se.full + " is not found under its name");
    c.check(e.parent_message() == parent && e.parent_file() == file, "pool-parent", se.full + " has the wrong parent");
    is(e.is_closed(), se.closed, se.full + " is_closed");
    for (auto &[n, v] : se.values) {
      auto *p = e.value_of(n);
      c.check(p && *p == v, "pool-enum", se.full + " value_of(" + n + ")");
      c.check(e.valid_enum_value(v), "pool-enum", se.full + " valid_enum_value(" + std::to_string(v) + ")");
      auto back = e.name_of(v);
      bool ok = false;
      for (auto &[n2, v2] : se.values) ok |= v2 == v && n2 == back;
      c.check(ok, "pool-enum", se.full + " name_of(" + std::to_string(v) + ")");
    }
    for (int32_t v : {0, 1, 2, 77, -1, INT32_MAX, INT32_MIN}) {
      bool known = s.ref.enums[i].has(v);
      c.check(e.name_of(v).empty() == !known, "pool-enum", se.full + " name_of(" + std::to_string(v) + ")");
      is(e.valid_enum_value(v), known || !se.closed, se.full + " valid_enum_value(" + std::to_string(v) + ")");
    }
    c.check(e.value_of("NO_SUCH_VALUE") == nullptr, "pool-enum", se.full + " knows NO_SUCH_VALUE");
  }
  void run(const std::vector<int> &order) {
    num(pool.files().size(), s.files.size(), "number of files");
    num(pool.messages().size(), s.msgs.size(), "number of messages");
    num(pool.enums().size(), s.enums.size(), "number of enums");
    for (size_t k = 0; k < order.size(); ++k) {
      auto &sf = s.files[order[k]];
      auto *fp = pool.get_file_descriptor(sf.name);
      c.check(fp != nullptr, "pool-lookup", sf.name + " is not found");
      eq(fp->proto().name, sf.name, "file");
      eq(fp->proto().package, sf.package, sf.name + " package");
      c.check(&fp->get_descriptor_pool() == &pool, "pool-lookup", sf.name + " belongs to another pool");
      num(fp->dependencies().size(), sf.deps.size(), sf.name + " number of dependencies");
      for (size_t d = 0; d < sf.deps.size(); ++d) c.check(&fp->dependencies()[d] == pool.get_file_descriptor(s.files[sf.deps[d]].name), "pool-deps", sf.name + " dependency " + std::to_string(d));
      std::vector<int> ms, es;
      for (size_t i = 0; i < s.msgs.size(); ++i)
        if (s.msgs[i].file == order[k] && s.msgs[i].parent < 0) ms.push_back((int)i);
      for (size_t i = 0; i < s.enums.size(); ++i)
        if (s.enums[i].file == order[k] && s.enums[i].parent < 0) es.push_back((int)i);
      num(fp->messages().size(), ms.size(), sf.name + " number of messages");
      num(fp->enums().size(), es.size(), sf.name + " number of enums");
      for (size_t i = 0; i < ms.size(); ++i) message(ms[i], fp->messages()[i], nullptr, fp);
      for (size_t i = 0; i < es.size(); ++i) enum_(es[i], fp->enums()[i], nullptr, fp);
      num(fp->extensions().size(), sf.exts.size(), sf.name + " number of extensions");
      for (size_t i = 0; i < sf.exts.size(); ++i) {
        auto &x = fp->extensions()[i];
        eq(x.proto().name, sf.exts[i].name, sf.name + " extension");
        c.check(x.extendee_descriptor() == pool.get_message_descriptor(sf.exts[i].extendee.substr(1)), "pool-extendee", sf.exts[i].name + " extends the wrong message");
      }
    }
    for (auto n : {"", "nosuch", ".p.M0", "p", "p.", "M", "p.M0.", "f0.proto."})
      c.check(!pool.get_message_descriptor(n) && !pool.get_enum_descriptor(n) && !pool.get_file_descriptor(n), "pool-lookup", std::string("something is found under the name '") + n + "'");
  }
};

PBT_PROP(dyn_factory, "the set declares at least one field or nested type") {
  sgen::Cfg cfg;
  cfg.max_files = 3;
  cfg.required_as_required = true;
  auto s = sgen::schema(c, cfg);
  // custom json names are legal as long as they do not clash
  for (auto &m : s.msgs)
    for (auto &f : m.fields)
      if (!m.map_entry && c.chance(1, 6)) f.json = "custom" + std::to_string(&f - m.fields.data()) + (c.coin() ? "_x" : "");
  auto order = all_files(s);
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.draw(i - 1)]);
  c.note(s.text());
  size_t content = 0;
  for (auto &m : s.msgs) content += m.fields.size() + (m.parent >= 0);
  if (content) c.nontrivial();
  bool arr = c.coin();
  c.label(arr ? "file descriptor array" : "file descriptor set");
  Failing up, other;
  Counting deflt;
  auto *old = std::pmr::set_default_resource(&deflt);
  struct Restore { std::pmr::memory_resource *r; ~Restore() { std::pmr::set_default_resource(r); } } restore{old};
  std::vector<std::string> store;
  auto make = [&](Failing &u) {
    store.clear();
    return arr ? create_descs(s, order, store, &u) : create_bytes(c, serialize(s, order), &u);
  };
  if (c.chance(1, 4)) { // an allocation fails: bad_alloc comes out and nothing is leaked
    c.label("allocation failure");
    size_t total;
    {
      auto f = make(up);
      c.check(f.has_value(), "factory-rejects", "a valid set is rejected");
      total = up.n;
    }
    c.check(up.live == 0, "factory-leak", "destroying a factory leaves " + std::to_string(up.live) + " allocations");
    for (int round = 0; round < 3; ++round) {
      Failing u;
      u.fail_at = c.draw(total - 1);
      bool thrown = false;
      try { auto f = make(u); (void)f; } catch (std::bad_alloc &) { thrown = true; }
      c.check(thrown, "factory-no-throw", "allocation " + std::to_string(u.fail_at) + " fails but create() returns");
      c.check(u.live == 0, "factory-leak", "after a failed allocation " + std::to_string(u.live) + " allocations are left");
    }
    return;
  }
  {
    auto made = make(up);
    c.check(made.has_value(), "factory-rejects", "a valid set is rejected with " + std::to_string(made ? 0 : (int)made.error()));
    dynamic_message_factory f = std::move(*made);
    if (c.coin()) store.assign(store.size(), std::string()); // not referenced by the factory?  only views of the program are kept
    std::pmr::monotonic_buffer_resource mr{&other};
    auto gone = made->get_message(s.msgs[s.roots[0]].full, mr);
    c.check(!gone.has_value() && gone.error() == dynamic_message_errc::unknown_message_name, "factory-moved-from", "a moved-from factory still knows messages");
    if (c.coin()) { // assignment over a factory with the same or another set
      auto made2 = make(other);
      c.check(made2.has_value(), "factory-rejects", "the same set is rejected the second time");
      size_t had = up.live;
      c.check(had > 0, "factory-allocator", "the given allocator is not used");
      f = std::move(*made2);
      c.check(up.live == 0, "factory-leak", "assignment does not release the old factory");
    } else c.check(up.live > 0 && up.total > 0, "factory-allocator", "the given allocator is not used");
    const descriptor_pool_t *pool = nullptr;
    for (size_t i = 0; i < s.msgs.size(); ++i) {
      auto &sm = s.msgs[i];
      auto m = f.get_message(sm.full, mr);
      c.check(m.has_value(), "factory-get-message", sm.full + " is unknown");
      pool = &m->descriptor().parent_file()->get_descriptor_pool();
      c.check(pool->get_message_descriptor(sm.full) == &m->descriptor(), "factory-get-message", sm.full + ": another descriptor");
      auto cm = m->cref();
      for (size_t k = 0; k < sm.fields.size(); ++k) {
        auto *d = &m->descriptor().fields()[k];
        auto &sf = sm.fields[k];
        c.check(m->field_descriptor_by_name(sf.name) == d && m->field_descriptor_by_number((uint32_t)sf.number) == d && m->field_descriptor_by_json_name(sf.json) == d, "factory-field-lookup", sm.full + "." + sf.name);
        c.check(&m->field_by_name(sf.name)->descriptor() == d && &cm.field_by_number((uint32_t)sf.number)->descriptor() == d, "factory-field-lookup", sm.full + "." + sf.name);
        c.check(!cm.field_by_name(sf.name)->has_value(), "factory-fresh", sm.full + "." + sf.name + " of a new message has a value");
        for (auto &q : {sf.name, sf.json}) {
          const field_descriptor_t *byname = nullptr, *byjson = nullptr;
          for (size_t j = 0; j < sm.fields.size(); ++j) {
            if (sm.fields[j].name == q) byname = &m->descriptor().fields()[j];
            if (sm.fields[j].json == q) byjson = &m->descriptor().fields()[j];
          }
          c.check(m->field_descriptor_by_name(q) == byname && m->field_descriptor_by_json_name(q) == byjson, "factory-field-lookup", sm.full + ": lookup of '" + q + "'");
        }
        // neighbours of existing numbers and names
        bool used = false;
        for (auto &x : sm.fields) used |= x.number == sf.number + 1;
        if (!used) c.check(!m->field_descriptor_by_number((uint32_t)sf.number + 1) && m->field_by_number((uint32_t)sf.number + 1).error() == dynamic_message_errc::no_such_field, "factory-field-lookup", sm.full + " has a field " + std::to_string(sf.number + 1));
        c.check(!m->field_descriptor_by_name(sf.name + "x") && cm.field_by_name(sf.name.substr(1)).error() == dynamic_message_errc::no_such_field, "factory-field-lookup", sm.full + " has a field '" + sf.name + "x'");
      }
      for (size_t o = 0; o < sm.oneofs.size(); ++o) {
        auto *od = m->oneof_descriptor(sm.oneofs[o]);
        c.check(od == &m->descriptor().oneofs()[o], "factory-oneof-lookup", sm.full + "." + sm.oneofs[o]);
        c.check(!m->has_oneof(*od), "factory-fresh", sm.full + "." + sm.oneofs[o] + " of a new message has a value");
      }
      c.check(!m->oneof_descriptor("no_such_oneof"), "factory-oneof-lookup", sm.full);
      auto none = f.get_message(sm.full + ".", mr);
      c.check(!none.has_value() && none.error() == dynamic_message_errc::unknown_message_name, "factory-get-message", sm.full + ". is known");
    }
    for (auto &e : s.enums) c.check(!f.get_message(e.full, mr).has_value(), "factory-get-message", "the enum " + e.full + " is a message");
    PoolCheck{c, s, *pool}.run(order);
  }
  c.check(up.live == 0 && other.live == 0, "factory-leak", "memory is left after the factory and the messages are gone");
  c.check(deflt.total == 0, "factory-allocator", "memory comes from the default resource although an allocator is given");
}

// ---- inconsistent sets
PBT_PROP(dyn_factory_bad, "one structural defect was put into a valid set") {
  sgen::Cfg cfg;
  cfg.max_files = 3;
  auto s = sgen::schema(c, cfg);
  auto order = all_files(s);
  std::vector<std::pair<int, std::string>> extra;
  std::string what;
  auto some_msg = [&](bool with_fields) -> int {
    std::vector<int> v;
    for (int r : s.roots)
      if (!with_fields || !s.msgs[r].fields.empty()) v.push_back(r);
    return v.empty() ? -1 : c.pick(v);
  };
  auto some_field = [&](auto pred) -> std::pair<int, int> {
    std::vector<std::pair<int, int>> v;
    for (int r : s.roots)
      for (size_t k = 0; k < s.msgs[r].fields.size(); ++k)
        if (pred(s.msgs[r].fields[k], r)) v.push_back({r, (int)k});
    return v.empty() ? std::pair{-1, -1} : c.pick(v);
  };
  auto any = [](auto &, int) { return true; };
  auto set_field = [&](auto pred, auto edit, const char *w) {
    auto [m, k] = some_field(pred);
    if (m < 0) c.discard();
    auto &f = s.msgs[m].fields[k];
    edit(f, m, k);
    what = std::string(w) + ": " + s.msgs[m].full + "." + f.name;
  };
  unsigned kind = (unsigned)c.draw(27);
  switch (kind) {
  case 0:
    if (s.files.size() < 2) c.discard();
    s.files[1].name = s.files[0].name;
    what = "two files of the same name";
    break;
  case 1: s.files[c.draw(s.files.size() - 1)].name = ""; what = "a file without name"; break;
  case 2: {
    std::vector<int> v;
    for (size_t f = 0; f < s.files.size(); ++f)
      if (!s.files[f].deps.empty()) v.push_back((int)f);
    if (v.empty()) c.discard();
    int d = c.pick(s.files[c.pick(v)].deps);
    order.erase(std::find(order.begin(), order.end(), d));
    what = "the imported file " + s.files[d].name + " is missing";
    break;
  }
  case 3: {
    int a = (int)c.draw(s.files.size() - 1), b = (int)c.draw(s.files.size() - 1);
    if (a > b) std::swap(a, b);
    s.files[a].deps.push_back(b); // later files import all earlier ones
    what = "cyclic import between " + s.files[a].name + " and " + s.files[b].name;
    break;
  }
  case 4: {
    std::vector<int> v;
    for (size_t f = 0; f < s.files.size(); ++f)
      if (s.files[f].syntax == 2023) v.push_back((int)f);
    if (v.empty()) c.discard();
    sgen::W w;
    static const int ed[] = {0, 1, 900, 1002, 9999, 99997};
    int e = ed[c.draw(5)];
    if (e == 900) e = 500;
    w.v(14, (uint64_t)e);
    extra.push_back({c.pick(v), w.o});
    what = "edition " + std::to_string(e);
    break;
  }
  case 5: { int m = some_msg(false); s.msgs[m].name = ""; what = "a message without name"; break; }
  case 6: if (s.enums.empty()) c.discard(); s.enums[c.draw(s.enums.size() - 1)].name = ""; what = "an enum without name"; break;
  case 7: { // a second message of the same full name
    int m = some_msg(false);
    sgen::Message d;
    d.name = s.msgs[m].name;
    d.full = s.msgs[m].full;
    d.file = s.msgs[m].file;
    d.parent = s.msgs[m].parent;
    if (d.parent >= 0) s.msgs[d.parent].nested.push_back((int)s.msgs.size());
    s.msgs.push_back(d);
    what = "two messages " + d.full;
    break;
  }
  case 8: {
    if (s.enums.empty()) c.discard();
    auto d = s.enums[c.draw(s.enums.size() - 1)];
    if (d.parent >= 0) s.msgs[d.parent].enums.push_back((int)s.enums.size());
    s.enums.push_back(d);
    what = "two enums " + d.full;
    break;
  }
  case 9:
    set_field(any, [&](auto &f, int, int) {
      static const int bad[] = {0, -1, 19000, 19999, 19500, 536870912, INT32_MIN, INT32_MAX};
      f.number = c.pick(bad);
    }, "invalid field number");
    break;
  case 10:
    set_field([&](auto &, int r) { return s.msgs[r].fields.size() > 1; }, [&](auto &f, int m, int k) { f.number = s.msgs[m].fields[k ? k - 1 : 1].number; }, "two fields of the same number");
    break;
  case 11:
    set_field([&](auto &, int r) { return s.msgs[r].fields.size() > 1; }, [&](auto &f, int m, int k) { f.name = s.msgs[m].fields[k ? k - 1 : 1].name; }, "two fields of the same name");
    break;
  case 12:
    set_field(any, [&](auto &f, int, int) { static const int bad[] = {0, 19, 20, 100, -1, 255}; f.type = c.pick(bad); }, "invalid field type");
    break;
  case 13:
    set_field(any, [&](auto &f, int, int) { static const int bad[] = {0, 4, 5, -1, 99}; f.label = c.pick(bad); }, "invalid field label");
    break;
  case 14:
    set_field([](auto &f, int) { return f.oneof >= 0; }, [](auto &f, int, int) { f.label = 3; }, "repeated field in a oneof");
    break;
  case 15:
    set_field([](auto &f, int) { return f.oneof >= 0; }, [&](auto &f, int m, int) { f.oneof = c.coin() ? (int)s.msgs[m].oneofs.size() : INT32_MAX; }, "oneof index out of range");
    break;
  case 16: { int m = some_msg(false); s.msgs[m].oneofs.push_back("empty_oneof"); what = "a oneof without members in " + s.msgs[m].full; break; }
  case 17: {
    auto p = [](auto &f, int) { return ref::is_msg_type(f.type); };
    set_field(p, [&](auto &f, int, int) { f.type_name = c.coin() ? ".no.such.Type" : f.type_name.substr(1); }, "unresolved message type");
    break;
  }
  case 18: {
    auto p = [](auto &f, int) { return f.type == ref::T_ENUM; };
    set_field(p, [&](auto &f, int, int) { f.type_name = c.coin() ? ".no.such.Enum" : f.type_name.substr(1); }, "unresolved enum type");
    break;
  }
  case 19: {
    if (s.enums.empty()) c.discard();
    auto p = [](auto &f, int) { return ref::is_msg_type(f.type) && f.label != 3; };
    set_field(p, [&](auto &f, int, int) { f.type_name = "." + s.enums[0].full; }, "a message field of an enum type");
    break;
  }
  case 20: {
    auto p = [](auto &f, int) { return f.type == ref::T_ENUM; };
    set_field(p, [&](auto &f, int, int) { f.type_name = "." + s.msgs[s.roots[0]].full; }, "an enum field of a message type");
    break;
  }
  case 21: {
    std::vector<int> v;
    for (size_t f = 0; f < s.files.size(); ++f)
      if (!s.files[f].exts.empty()) v.push_back((int)f);
    if (v.empty()) c.discard();
    auto &xs = s.files[c.pick(v)].exts;
    auto &x = xs[c.draw(xs.size() - 1)];
    x.extendee = c.coin() ? ".no.such.Message" : x.extendee.substr(1);
    what = "unresolved extendee";
    break;
  }
  case 22: {
    auto p = [](auto &f, int) { return f.type != ref::T_ENUM && f.type != ref::T_STRING && f.type != ref::T_BYTES && f.type != ref::T_BOOL && !ref::is_msg_type(f.type) && f.label != 3; };
    set_field(p, [&](auto &f, int, int) {
      f.has_def = true;
      static const char *bad[] = {"abc", "1x", " 1", "1 ", "--1", "0x", "99999999999999999999999", "."};
      f.def_text = c.pick(bad);
      if ((f.type == ref::T_DOUBLE || f.type == ref::T_FLOAT) && f.def_text[0] == '9') f.def_text = "1e";
      static const int unsig[] = {ref::T_UINT32, ref::T_UINT64, ref::T_FIXED32, ref::T_FIXED64};
      if (std::ranges::count(unsig, f.type) && c.coin()) f.def_text = "-1";
      static const int i32[] = {ref::T_INT32, ref::T_SINT32, ref::T_SFIXED32};
      if (std::ranges::count(i32, f.type) && c.coin()) f.def_text = "2147483648";
      if (f.type == ref::T_UINT32 && c.coin()) f.def_text = "4294967296";
    }, "bad numeric default");
    break;
  }
  case 23:
    set_field([](auto &f, int) { return f.type == ref::T_ENUM && f.label != 3; }, [](auto &f, int, int) { f.has_def = true; f.def_text = "NO_SUCH_VALUE"; }, "unknown enum default");
    break;
  case 24: {
    auto [m, k] = some_field([](auto &f, int) { return f.type == ref::T_ENUM; });
    if (m < 0) c.discard();
    auto &e = s.enums[s.ref.msgs[m].fields[k].sub];
    e.values.clear();
    what = "the enum " + e.full + " has no value";
    break;
  }
  case 25: { // members of a oneof separated by another field
    std::vector<std::pair<int, int>> v; // message, index of a member followed by a member of the same oneof, both not the last field
    for (int r : s.roots)
      for (size_t k = 0; k + 2 < s.msgs[r].fields.size(); ++k) {
        auto &fs = s.msgs[r].fields;
        if (fs[k].oneof >= 0 && fs[k + 1].oneof == fs[k].oneof && fs[k + 2].oneof != fs[k].oneof) v.push_back({r, (int)k});
      }
    if (v.empty()) c.discard();
    auto [m, k] = c.pick(v);
    std::swap(s.msgs[m].fields[k + 1], s.msgs[m].fields[k + 2]);
    what = "members of a oneof of " + s.msgs[m].full + " are not contiguous";
    break;
  }
  case 26: { // json name that is the name (or json name) of another field
    set_field([&](auto &, int r) { return s.msgs[r].fields.size() > 1; }, [&](auto &f, int m, int k) {
      auto &o = s.msgs[m].fields[k ? k - 1 : 1];
      f.json = c.coin() ? o.name : o.json;
    }, "clashing json name");
    break;
  }
  default: { // not a descriptor set at all
    auto b = serialize(s, order);
    static const char *tail[] = {"\x0a\x05" "ab", "\x0a", "\x08\x01", "\x0b", "\x0f", "\x0a\x02\x0a\x05", "\x0a\x02\x08\x01", "\x0a\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01"};
    b += c.pick(tail);
    what = "bytes that are not a descriptor set";
    c.note(what + " " + hex(b));
    c.nontrivial();
    c.label("not a descriptor set");
    Counting up;
    {
      auto r = create_bytes(c, b, &up);
      c.check(!r.has_value() && r.error() == dynamic_message_errc::descriptor_deserialization_error, "factory-accepts", what + (r ? ": accepted" : ": error " + std::to_string((int)r.error())));
    }
    c.check(up.live == 0, "factory-leak", "memory is left after a failure");
    return;
  }
  }
  c.label(what.substr(0, what.find(':')).substr(0, 30));
  c.note(what + "\n" + s.text());
  c.nontrivial();
  for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[c.draw(i - 1)]);
  Counting up;
  {
    std::vector<std::string> store;
    bool arr = extra.empty() && order.size() <= 3 && !order.empty() && c.coin();
    auto r = arr ? create_descs(s, order, store, &up) : create_bytes(c, serialize(s, order, extra), &up);
    c.check(!r.has_value() && r.error() == dynamic_message_errc::schema_validation_error, "factory-accepts", what + (r ? ": accepted" : ": error " + std::to_string((int)r.error())));
  }
  c.check(up.live == 0, "factory-leak", "memory is left after a failure");
}

// ---- arbitrary corruption of descriptor bytes: any outcome, but no crash, leak or hang
PBT_PROP(dyn_factory_fuzz, "the factory accepts the corrupted set or rejects it as a schema error") {
  sgen::Cfg cfg;
  auto s = sgen::schema(c, cfg);
  auto b = s.bytes;
  for (size_t i = 1 + c.draw(2); i; --i) {
    if (b.empty()) break;
    size_t at = c.draw(b.size() - 1);
    switch (c.draw(4)) {
    case 0: b[at] = (char)c.draw(255); break;
    case 1: b[at] ^= (char)(1 << c.draw(7)); break;
    case 2: b.erase(at, 1 + c.draw(3)); break;
    case 3: b.insert(at, b.substr(c.draw(b.size() - 1), c.draw(12))); break;
    default: b[at] = (char)(b[at] + 1); break;
    }
  }
  c.note(hex(b));
  Counting up;
  {
    auto r = create_bytes(c, b, &up);
    if (r.has_value() || r.error() == dynamic_message_errc::schema_validation_error) c.nontrivial();
    c.label(r.has_value() ? "accepted" : r.error() == dynamic_message_errc::schema_validation_error ? "schema error" : "deserialization error");
    if (r.has_value()) {
      std::pmr::monotonic_buffer_resource mr;
      for (auto &m : s.msgs) {
        auto x = r->get_message(m.full, mr);
        if (!x.has_value()) continue;
        for (auto &f : x->descriptor().fields()) (void)x->field_by_number((uint32_t)f.proto().number)->has_value();
        std::vector<std::byte> out;
        (void)write_binpb(x->cref(), out).ok();
      }
    }
  }
  c.check(up.live == 0, "factory-leak", "memory is left");
}
