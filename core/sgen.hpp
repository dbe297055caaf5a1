// Random protobuf schemas: a serialized FileDescriptorSet (as protoc would produce it) together
// with the reference model of the same schema.
#pragma once
#include "gen.hpp"
#include <cmath>
#include <set>

namespace sgen {
using pbt::Case;
using namespace ref;

// ---- a tiny protobuf writer
struct W {
  std::string o;
  W &v(uint32_t n, uint64_t x) { put_varint(o, n << 3); put_varint(o, x); return *this; }
  W &b(uint32_t n, std::string_view x) { put_varint(o, n << 3 | 2); put_varint(o, x.size()); o += x; return *this; }
  W &m(uint32_t n, const W &x) { return b(n, x.o); }
};

struct Features { // resolved
  int presence = 1;  // EXPLICIT 1, IMPLICIT 2, LEGACY_REQUIRED 3
  int enum_type = 1; // OPEN 1, CLOSED 2
  int repeated = 1;  // PACKED 1, EXPANDED 2
  int utf8 = 2;      // VERIFY 2, NONE 3
  int encoding = 1;  // LENGTH_PREFIXED 1, DELIMITED 2
};
struct FSet { // as written
  int presence = 0, enum_type = 0, repeated = 0, utf8 = 0, encoding = 0;
  bool any() const { return presence | enum_type | repeated | utf8 | encoding; }
  W w() const {
    W r;
    if (presence) r.v(1, presence);
    if (enum_type) r.v(2, enum_type);
    if (repeated) r.v(3, repeated);
    if (utf8) r.v(4, utf8);
    if (encoding) r.v(5, encoding);
    return r;
  }
  Features over(Features f) const {
    if (presence) f.presence = presence;
    if (enum_type) f.enum_type = enum_type;
    if (repeated) f.repeated = repeated;
    if (utf8) f.utf8 = utf8;
    if (encoding) f.encoding = encoding;
    return f;
  }
};

struct Field {
  std::string name, json, type_name, def_text;
  int number = 0, label = 1, type = 0, oneof = -1, packed_opt = -1;
  bool proto3_opt = false, has_def = false;
  std::string extendee;
  FSet fs;
  W w() const {
    W r;
    r.b(1, name);
    if (!extendee.empty()) r.b(2, extendee);
    r.v(3, number).v(4, label).v(5, type);
    if (!type_name.empty()) r.b(6, type_name);
    if (has_def) r.b(7, def_text);
    W opt;
    if (packed_opt >= 0) opt.v(2, packed_opt);
    if (fs.any()) opt.m(21, fs.w());
    if (!opt.o.empty()) r.m(8, opt);
    if (oneof >= 0) r.v(9, oneof);
    r.b(10, json);
    if (proto3_opt) r.v(17, 1);
    return r;
  }
};
struct Enum {
  std::string name, full;
  int file, parent; // parent message index or -1
  FSet fs;
  bool closed = false, alias = false;
  std::vector<std::pair<std::string, int32_t>> values;
  W w() const {
    W r;
    r.b(1, name);
    for (auto &[n, v] : values) {
      W e;
      e.b(1, n).v(2, (uint64_t)(int64_t)v);
      r.m(2, e);
    }
    W opt;
    if (alias) opt.v(2, 1);
    if (fs.any()) opt.m(7, fs.w());
    if (!opt.o.empty()) r.m(3, opt);
    return r;
  }
};
struct Message {
  std::string name, full;
  int file, parent;
  bool map_entry = false;
  std::vector<Field> fields;
  std::vector<std::string> oneofs; // synthetic ones last
  size_t real_oneofs = 0;
  std::vector<int> nested, enums;
  std::vector<Field> exts; // extensions declared in its scope
  bool ext_range = false;
};
struct File {
  std::string name, package;
  int syntax; // 2, 3 or 2023
  FSet fs;
  Features ft;
  std::vector<int> deps;
  std::vector<Field> exts;
};
struct Set {
  std::vector<File> files;
  std::vector<Message> msgs;
  std::vector<Enum> enums;
  Schema ref;              // same message / enum indices
  std::vector<int> roots;  // messages that are not map entries
  std::string bytes;       // FileDescriptorSet
  std::string text() const {
    std::string r;
    for (size_t f = 0; f < files.size(); ++f) {
      r += "file " + files[f].name + " package '" + files[f].package + "' " + (files[f].syntax == 2 ? "proto2" : files[f].syntax == 3 ? "proto3" : "edition 2023") + "\n";
      for (size_t e = 0; e < enums.size(); ++e)
        if (enums[e].file == (int)f) {
          r += std::string(enums[e].closed ? " closed" : " open") + " enum " + enums[e].full + " {";
          for (auto &[n, v] : enums[e].values) r += " " + std::to_string(v);
          r += " }\n";
        }
      for (size_t m = 0; m < msgs.size(); ++m)
        if (msgs[m].file == (int)f && !msgs[m].map_entry) {
          r += " message " + msgs[m].full + "\n";
          for (size_t i = 0; i < msgs[m].fields.size(); ++i) {
            auto &fd = ref.msgs[m].fields[i];
            static const char *tn[] = {"", "double", "float", "int64", "uint64", "int32", "fixed64", "fixed32", "bool", "string", "group", "message", "bytes", "uint32", "enum", "sfixed32", "sfixed64", "sint32", "sint64"};
            r += "  " + fd.name + "=" + std::to_string(fd.number) + " " + (fd.card == MAP ? "map" : fd.card == REPEATED ? "repeated" : fd.presence == IMPLICIT ? "implicit" : fd.presence == REQUIRED ? "required" : "optional") + " " + tn[fd.type];
            if (fd.card == MAP) r += std::string("<") + tn[ref.msgs[fd.sub].fields[0].type] + "," + tn[ref.msgs[fd.sub].fields[1].type] + ">";
            else if (is_msg_type(fd.type)) r += " " + ref.msgs[fd.sub].name;
            else if (fd.type == T_ENUM) r += " " + ref.enums[fd.sub].name;
            if (fd.oneof >= 0) r += " oneof" + std::to_string(fd.oneof);
            if (fd.packed) r += " packed";
            if (fd.utf8 && fd.type == T_STRING) r += " utf8";
            if (fd.has_def) r += " default '" + msgs[m].fields[i].def_text + "'";
            r += "\n";
          }
        }
    }
    return r;
  }
};
inline W msg_w(const Set &s, int m) {
  auto &x = s.msgs[m];
  W r;
  r.b(1, x.name);
  for (auto &f : x.fields) r.m(2, f.w());
  for (int n : x.nested) r.m(3, msg_w(s, n));
  for (int e : x.enums) r.m(4, s.enums[e].w());
  for (auto &e : x.exts) r.m(6, e.w());
  if (x.ext_range) {
    W e;
    e.v(1, 1000).v(2, 2000);
    r.m(5, e);
  }
  if (x.map_entry) {
    W o;
    o.v(7, 1);
    r.m(7, o);
  }
  for (auto &o : x.oneofs) {
    W d;
    d.b(1, o);
    r.m(8, d);
  }
  return r;
}
inline W file_w(const Set &s, int f) {
  auto &x = s.files[f];
  W r;
  r.b(1, x.name);
  if (!x.package.empty()) r.b(2, x.package);
  for (int d : x.deps) r.b(3, s.files[d].name);
  for (size_t m = 0; m < s.msgs.size(); ++m)
    if (s.msgs[m].file == f && s.msgs[m].parent < 0) r.m(4, msg_w(s, (int)m));
  for (auto &e : s.enums)
    if (e.file == f && e.parent < 0) r.m(5, e.w());
  for (auto &e : x.exts) r.m(7, e.w());
  if (x.fs.any()) {
    W o;
    o.m(50, x.fs.w());
    r.m(8, o);
  }
  if (x.syntax == 3) r.b(12, "proto3");
  if (x.syntax == 2023) r.b(12, "editions").v(14, 1000);
  return r;
}
struct Cfg {
  int max_files = 2, max_msgs = 3;
  bool required_as_required = false; // false: required fields behave like explicit ones in the reference
  unsigned max_fields = 8;
  bool acyclic_oneofs = false; // no oneof alternative is part of a cycle of two or more messages,
                               // and siblings do not depend on messages nested in each other
  bool names = false; // C++ keywords and other awkward but legal names
  // the first message gets `matrix` extra fields which walk through all (type, form) pairs, schema after schema
  unsigned matrix = 0, matrix_at = 0;
};

inline std::string camel(const std::string &n, bool first_upper = false) {
  std::string r;
  bool up = first_upper;
  for (char ch : n) {
    if (ch == '_') { up = true; continue; }
    r += up && ch >= 'a' && ch <= 'z' ? (char)(ch - 32) : ch;
    up = false;
  }
  return r;
}
inline std::string c_escape(const std::string &s) {
  std::string r;
  for (unsigned char ch : s) {
    switch (ch) {
    case '\n': r += "\\n"; break;
    case '\r': r += "\\r"; break;
    case '\t': r += "\\t"; break;
    case '"': r += "\\\""; break;
    case '\'': r += "\\'"; break;
    case '\\': r += "\\\\"; break;
    default:
      if (ch < 0x20 || ch >= 0x7f) {
        char b[8];
        snprintf(b, sizeof b, "\\%03o", ch);
        r += b;
      } else r += (char)ch;
    }
  }
  return r;
}

class Gen {
  Case &c;
  const Cfg &cfg;
  Set s;
  int uniq = 0;
  bool force_enum = false;                                      // the next enum field uses the first enum
  int force_type = 0;                                           // the type of the next field
  enum Form { ANY = -1, PLAIN, OTHER_PRESENCE, WITH_DEFAULT, REP, REP_OTHER, ONEOF, MAP_STR, MAP_OTHER, FORMS };
  int form = ANY;

public:
  Gen(Case &cc, const Cfg &g) : c(cc), cfg(g) {}

  Set run() {
    size_t nf = 1 + c.draw(cfg.max_files - 1);
    for (size_t f = 0; f < nf; ++f) {
      File fl;
      fl.name = "f" + std::to_string(f) + ".proto";
      static const char *pk[] = {"p", "", "a.b", "a.b.a", "p.q.p", "a"};
      fl.package = f == 1 && c.coin() ? "p" : pk[c.weighted({5, 5, 5, 2, 1, 1})];
      static const int sx[] = {3, 2, 2023};
      fl.syntax = sx[c.draw(2)];
      if (cfg.matrix && f == 0) fl.syntax = sx[cfg.matrix_at % 3];
      if (fl.syntax == 2) fl.ft = {1, 2, 2, 3, 1};
      else if (fl.syntax == 3) fl.ft = {2, 1, 1, 2, 1};
      else {
        if (c.chance(1, 3)) fl.fs.presence = 1 + (int)c.draw(1);
        if (c.chance(1, 4)) fl.fs.enum_type = 1 + (int)c.draw(1);
        if (c.chance(1, 4)) fl.fs.repeated = 1 + (int)c.draw(1);
        if (c.chance(1, 4)) fl.fs.utf8 = 2 + (int)c.draw(1);
        if (c.chance(1, 4)) fl.fs.encoding = 1 + (int)c.draw(1);
        fl.ft = fl.fs.over(Features{});
      }
      for (size_t d = 0; d < f; ++d) fl.deps.push_back((int)d);
      s.files.push_back(fl);
    }
    for (size_t f = 0; f < nf; ++f) {
      size_t nm = 1 + c.draw(cfg.max_msgs - 1);
      for (size_t i = 0; i < nm; ++i) {
        int parent = -1;
        if (i && c.chance(1, 3)) { // nest in an earlier message of the same file
          parent = (int)(s.msgs.size() - 1 - c.draw(i - 1));
        }
        add_message((int)f, message_name((int)f, parent), parent);
      }
      size_t ne = c.draw(2);
      if (f == 0 && ne == 0) ne = 1;
      for (size_t i = 0; i < ne; ++i) {
        int parent = -1;
        if (c.chance(1, 3)) parent = (int)(s.msgs.size() - 1 - c.draw(nm - 1));
        add_enum((int)f, parent);
      }
    }
    size_t n = s.msgs.size(); // map entries are appended while the fields are made
    for (size_t m = 0; m < n; ++m) { s.roots.push_back((int)m); fill(m); }
    if (cfg.acyclic_oneofs) break_oneof_cycles();
    for (size_t f = 0; f < nf; ++f) extensions((int)f);
    if (cfg.acyclic_oneofs) break_nested_cycles();
    W set;
    for (size_t f = 0; f < nf; ++f) set.m(1, file_w(s, (int)f));
    s.bytes = set.o;
    return std::move(s);
  }

private:
  std::string scope(int file, int parent) {
    if (parent >= 0) return s.msgs[parent].full + ".";
    return s.files[file].package.empty() ? "" : s.files[file].package + ".";
  }
  std::string message_name(int file, int parent) {
    if (cfg.names && c.chance(1, 3)) {
      static const char *awk[] = {"class", "struct", "Message", "optional", "Traits", "string", "namespace", "Enum", "int", "hpp_proto", "std", "Class", "tuple", "field_meta", "Any", "Value", "U", "google", "p", "a", "b", "q"};
      std::string n = c.pick(awk);
      if ((n == "std" || n == "Traits") && c.chance(3, 4)) n = "string"; // always refused
      std::string full = scope(file, parent) + n;
      bool used = false;
      for (auto &m : s.msgs) used |= m.full == full;
      for (auto &f : s.files) used |= f.package == full || f.package.starts_with(full + ".");
      if (!used) return n;
    }
    return "M" + std::to_string(s.msgs.size());
  }
  int add_message(int file, const std::string &name, int parent) {
    Message m;
    m.name = name;
    m.full = scope(file, parent) + name;
    m.file = file;
    m.parent = parent;
    MsgDesc d;
    d.name = m.full;
    int idx = (int)s.msgs.size();
    s.msgs.push_back(m);
    s.ref.msgs.push_back(d);
    if (parent >= 0) s.msgs[parent].nested.push_back(idx);
    return idx;
  }
  void add_enum(int file, int parent) {
    Enum e;
    int idx = (int)s.enums.size();
    e.name = "E" + std::to_string(idx);
    e.full = scope(file, parent) + e.name;
    e.file = file;
    e.parent = parent;
    auto &fl = s.files[file];
    const bool shaped = cfg.matrix && idx == 0; // walks through contiguous values, holes and aliases, schema after schema
    const unsigned round = cfg.matrix_at / 3;
    if (fl.syntax == 2023 && c.chance(1, 3)) e.fs.enum_type = 1 + (int)c.draw(1);
    if (shaped && fl.syntax == 2023) e.fs.enum_type = 2 - (int)(round % 2);
    e.closed = e.fs.over(fl.ft).enum_type == 2;
    EnumDesc d;
    d.name = e.full;
    d.closed = e.closed;
    size_t n = 1 + c.draw(5);
    bool cont = c.coin();
    bool small = !cont && c.chance(1, 3); // a few small values with holes and aliases, in any order
    if (small) n += 3;
    if (shaped) {
      static const std::vector<int> shapes[] = {{0, 1, 1, 3}, {0, -2, 2, 2, -2}, {0, 2, 1, 2}, {0, -1, 1}};
      const int shift = e.closed && c.coin() ? (int)c.draw(300) - 150 : 0;
      for (int v : shapes[round % 4]) {
        bool dup = false;
        for (auto &x : e.values) dup |= x.second == v + shift;
        e.alias |= dup;
        e.values.push_back({e.name + "_V" + std::to_string(e.values.size()), v + shift});
        if (!dup) d.values.push_back(v + shift);
      }
      n = 0;
    }
    for (size_t i = 0; i < n; ++i) {
      int32_t v = i == 0 && (!e.closed || c.coin()) ? 0 : cont ? (int32_t)i : small ? (int32_t)c.draw(9) - 4 : (int32_t)gen::rand_u64(c);
      if (i && cont) v = e.values[0].second + (int32_t)i < e.values[0].second ? (int32_t)i : e.values[0].second + (int32_t)i;
      bool dup = false;
      for (auto &x : e.values) dup |= x.second == v;
      if (dup) {
        if (!c.chance(1, 3)) continue;
        e.alias = true;
      }
      e.values.push_back({e.name + "_V" + std::to_string(i), v});
      if (!dup) d.values.push_back(v);
    }
    s.enums.push_back(e);
    s.ref.enums.push_back(d);
    if (parent >= 0) s.msgs[parent].enums.push_back(idx);
  }
  std::string field_name(size_t m) {
    static const char *base[] = {"f", "foo_bar", "x_", "Big", "a1_b", "value"};
    if (cfg.names && c.chance(1, 3)) {
      static const char *awk[] = {"class", "namespace", "int", "default", "operator", "template", "this", "co_await", "requires", "union", "std", "hpp_proto", "value_type", "string", "vector", "optional", "Traits", "message",
                                  "pb_meta", "fields", "size", "begin", "data", "item", "T", "int32_t", "uint8_t", "key", "other", "msg", "get", "set", "char8_t", "bool", "true", "delete", "unknown_fields", "variant"};
      std::string n = c.pick(awk);
      bool used = n == s.msgs[m].name;
      for (auto &x : s.msgs) used |= x.parent == (int)m && x.name == n;
      for (auto &f : s.msgs[m].fields) used |= f.name == n || camel(f.name) == camel(n);
      if (!used) return n;
    }
    std::string n = std::string(c.pick(base)) + std::to_string(++uniq);
    (void)m;
    return n;
  }
  int number(const std::vector<int> &used, bool ext_range) {
    for (;;) {
      int n;
      switch (c.weighted({6, 2, 1, 1})) {
      case 0: n = 1 + (int)c.draw(20); break;
      case 1: n = 1 + (int)c.draw(3000); break;
      case 2: n = 1 + (int)c.draw(536870910); break;
      default: n = 536870911 - (int)c.draw(3);
      }
      if (n >= 19000 && n <= 19999) n = 1;
      if (ext_range && n >= 1000 && n < 2000) n = 1;
      while (std::find(used.begin(), used.end(), n) != used.end()) ++n;
      if (n > 536870911 || (n >= 19000 && n <= 19999) || (ext_range && n >= 1000 && n < 2000)) continue;
      return n;
    }
  }
  // enums / messages visible from a file
  std::vector<int> visible_enums(int file, bool open_only) {
    std::vector<int> r;
    for (size_t i = 0; i < s.enums.size(); ++i)
      if (s.enums[i].file <= file && (!open_only || !s.enums[i].closed)) r.push_back((int)i);
    return r;
  }
  static constexpr int all[] = {T_DOUBLE, T_FLOAT, T_INT64, T_UINT64, T_INT32, T_FIXED64, T_FIXED32, T_BOOL, T_STRING, T_GROUP, T_MESSAGE, T_BYTES, T_UINT32, T_ENUM, T_SFIXED32, T_SFIXED64, T_SINT32, T_SINT64};
  int pick_type(bool msg_ok) {
    static const int t[] = {T_INT32, T_STRING, T_ENUM, T_MESSAGE, T_BYTES, T_BOOL, T_DOUBLE, T_FLOAT, T_INT64, T_UINT64, T_FIXED64, T_FIXED32, T_UINT32, T_SFIXED32, T_SFIXED64, T_SINT32, T_SINT64, T_GROUP};
    if (force_type) return force_type;
    int x = c.chance(1, 4) ? T_MESSAGE : t[c.draw(17)];
    if (!msg_ok && is_msg_type(x)) x = T_INT32;
    return x;
  }
  // chooses the referenced type; may replace the type
  void refer(size_t m, Field &f, FieldDesc &d, bool implicit) {
    auto &msg = s.msgs[m];
    int syntax = s.files[msg.file].syntax;
    if (f.type == T_GROUP && syntax != 2) f.type = T_MESSAGE;
    if (f.type == T_ENUM) {
      auto v = visible_enums(msg.file, syntax == 3 || implicit);
      if (v.empty()) f.type = T_INT32;
      else {
        d.sub = force_enum && v[0] == 0 ? 0 : c.pick(v);
        f.type_name = "." + s.enums[d.sub].full;
      }
    }
    if (is_msg_type(f.type)) {
      std::vector<int> v;
      for (size_t i = 0; i < s.msgs.size(); ++i)
        if (!s.msgs[i].map_entry && s.msgs[i].file <= msg.file) v.push_back((int)i);
      d.sub = c.pick(v);
      f.type_name = "." + s.msgs[d.sub].full;
    }
    d.type = f.type;
  }
  void default_value(Field &f, FieldDesc &d) {
    f.has_def = d.has_def = true;
    char b[64];
    if (f.type == T_STRING) {
      d.def = gen::text(c, 0);
      f.def_text = d.def;
      return;
    }
    if (f.type == T_BYTES) {
      d.def = gen::blob(c, 0);
      f.def_text = c_escape(d.def);
      return;
    }
    if (f.type == T_ENUM) {
      auto &v = c.pick(s.enums[d.sub].values);
      f.def_text = v.first;
      d.def = std::to_string((uint64_t)(int64_t)v.second);
      return;
    }
    uint64_t x = gen::scalar(c, s.ref, d);
    switch (f.type) {
    case T_BOOL: f.def_text = x ? "true" : "false"; break;
    case T_DOUBLE: {
      double v;
      memcpy(&v, &x, 8);
      if (std::isnan(v) || std::fpclassify(v) == FP_SUBNORMAL) { v = 2.5; memcpy(&x, &v, 8); } // upb rejects subnormal defaults
      snprintf(b, sizeof b, "%.17g", v);
      f.def_text = b;
      break;
    }
    case T_FLOAT: {
      float v;
      uint32_t u = (uint32_t)x;
      memcpy(&v, &u, 4);
      if (std::isnan(v) || std::fpclassify(v) == FP_SUBNORMAL) { v = 2.5f; memcpy(&u, &v, 4); x = u; }
      snprintf(b, sizeof b, "%.9g", v);
      f.def_text = b;
      break;
    }
    case T_INT32: case T_SINT32: case T_SFIXED32: case T_INT64: case T_SINT64: case T_SFIXED64: f.def_text = std::to_string((int64_t)x); break;
    default: f.def_text = std::to_string(x);
    }
    d.def = std::to_string(x);
  }
  void push(size_t m, Field f, FieldDesc d) {
    f.json = camel(f.name);
    d.name = f.name;
    d.number = (uint32_t)f.number;
    s.msgs[m].fields.push_back(f);
    s.ref.msgs[m].fields.push_back(d);
  }
  void fill(size_t m) {
    auto syntax = s.files[s.msgs[m].file].syntax;
    auto ft = s.files[s.msgs[m].file].ft;
    std::vector<int> used;
    if (syntax != 3 && (c.chance(1, 4) || (cfg.matrix && m == 0))) s.msgs[m].ext_range = true;
    size_t n = c.draw(c.chance(1, 4) ? 3 : cfg.max_fields);
    auto next_number = [&] { int x = number(used, s.msgs[m].ext_range); used.push_back(x); return x; };
    std::vector<std::pair<size_t, std::string>> synth; // proto3 optional fields
    size_t cells = m == 0 && cfg.matrix ? cfg.matrix + 2 : 0;
    for (size_t i = 0; i < n + cells; ++i) {
      form = ANY;
      force_type = 0;
      if (i >= n) {
        unsigned cell = (unsigned)(((uint64_t)(cfg.matrix_at / 3) * cfg.matrix + (i - n)) * 31 % (18 * FORMS));
        force_type = all[cell % 18];
        form = (int)cell / 18;
      }
      force_enum = cells && i - n >= cfg.matrix && i >= n; // the last two cells use the first enum
      if (force_enum) {
        force_type = T_ENUM;
        form = i - n == cfg.matrix ? PLAIN : REP;
      }
      static const unsigned kinds[] = {0, 0, 0, 1, 1, 2, 3, 3};
      unsigned kind = form != ANY ? kinds[form] : c.weighted({6, 3, 2, 2});
      if (kind == 2) { // a oneof
        int oi = (int)s.msgs[m].oneofs.size();
        s.msgs[m].oneofs.push_back("o" + std::to_string(++uniq));
        for (size_t k = 1 + c.draw(3); k; --k) { // a forced type holds for the first alternative
          Field f;
          FieldDesc d;
          f.name = field_name(m);
          f.number = next_number();
          f.type = pick_type(true);
          force_type = 0;
          f.oneof = oi;
          d.oneof = oi;
          d.presence = EXPLICIT;
          refer(m, f, d, false);
          field_features(f, d, ft, syntax);
          if (syntax != 3 && !is_msg_type(f.type) && c.chance(1, 5)) default_value(f, d);
          push(m, f, d);
        }
        continue;
      }
      if (kind == 3) { // a map
        map_field(m, next_number(), ft, syntax);
        continue;
      }
      Field f;
      FieldDesc d;
      f.name = field_name(m);
      f.number = next_number();
      f.type = pick_type(true);
      if (kind == 1) {
        f.label = 3;
        d.card = REPEATED;
        d.presence = IMPLICIT;
        refer(m, f, d, false);
        field_features(f, d, ft, syntax);
        auto resolved = f.fs.over(ft);
        if (packable(f.type)) {
          if (form == REP_OTHER && syntax == 2023) f.fs.repeated = resolved.repeated == 1 ? 2 : 1, resolved.repeated = f.fs.repeated;
          if (form == REP_OTHER ? syntax != 2023 : form == ANY && syntax != 2023 && c.chance(1, 2)) f.packed_opt = form == REP_OTHER ? syntax == 2 : (int)c.draw(1);
          d.packed = syntax == 2023 ? resolved.repeated == 1 : f.packed_opt >= 0 ? f.packed_opt == 1 : syntax == 3;
        }
        push(m, f, d);
        continue;
      }
      d.presence = syntax == 3 ? IMPLICIT : EXPLICIT;
      bool implicit = syntax == 3;
      if (syntax == 2023) {
        if (form == OTHER_PRESENCE ? true : form != PLAIN && c.chance(1, 3)) {
          f.fs.presence = form == OTHER_PRESENCE ? (ft.presence == 2 || c.chance(1, 3) ? 1 + 2 * (int)c.draw(1) : 2) : 1 + (int)c.draw(2);
          if (f.fs.presence == 2 && is_msg_type(f.type)) f.fs.presence = 1;
        }
        auto r = f.fs.over(ft);
        implicit = r.presence == 2;
        d.presence = implicit ? IMPLICIT : r.presence == 3 ? REQUIRED : EXPLICIT;
      } else if (syntax == 2 && (form == OTHER_PRESENCE || (form == ANY && c.chance(1, 5)))) {
        f.label = 2;
        d.presence = REQUIRED;
      } else if (syntax == 3 && (form == OTHER_PRESENCE || form == WITH_DEFAULT || (form == ANY && c.chance(1, 3)))) {
        f.proto3_opt = true;
        implicit = false;
        d.presence = EXPLICIT;
      }
      refer(m, f, d, implicit);
      if (is_msg_type(f.type) && d.presence == IMPLICIT) d.presence = EXPLICIT;
      if (is_msg_type(f.type) && d.presence == REQUIRED && d.sub >= (int)m) { // no finite message satisfies a cycle of required fields
        d.presence = EXPLICIT;
        if (syntax == 2) f.label = 1; else f.fs.presence = 1;
      }
      if (!cfg.required_as_required && d.presence == REQUIRED) d.presence = EXPLICIT;
      field_features(f, d, ft, syntax);
      if (syntax != 3 && d.presence != IMPLICIT && !is_msg_type(f.type) && (form == WITH_DEFAULT || (form == ANY && c.chance(1, 3)))) default_value(f, d);
      if (f.proto3_opt) synth.push_back({s.msgs[m].fields.size(), "_" + f.name});
      push(m, f, d);
    }
    form = ANY;
    force_type = 0;
    force_enum = false;
    s.msgs[m].real_oneofs = s.msgs[m].oneofs.size();
    for (auto &[i, nm] : synth) {
      s.msgs[m].fields[i].oneof = (int)s.msgs[m].oneofs.size();
      s.msgs[m].oneofs.push_back(nm);
    }
  }
  bool reaches(int from, int to, std::vector<char> &seen) {
    if (from == to) return true;
    if (seen[from]) return false;
    seen[from] = 1;
    for (auto &d : s.ref.msgs[from].fields)
      if (is_msg_type(d.type) && reaches(d.sub, to, seen)) return true;
    return false;
  }
  void break_oneof_cycles() {
    for (size_t m = 0; m < s.msgs.size(); ++m)
      for (size_t i = 0; i < s.msgs[m].fields.size(); ++i) {
        auto &f = s.msgs[m].fields[i];
        auto &d = s.ref.msgs[m].fields[i];
        if (d.oneof < 0 || !is_msg_type(d.type) || d.sub == (int)m) continue;
        std::vector<char> seen(s.msgs.size());
        if (!reaches(d.sub, (int)m, seen)) continue;
        f.type = d.type = T_INT32;
        f.type_name.clear();
        f.fs.encoding = 0;
        d.sub = -1;
      }
  }
  bool inside(int m, int of) { // strictly
    for (m = s.msgs[m].parent; m >= 0; m = s.msgs[m].parent)
      if (m == of) return true;
    return false;
  }
  int by_name(const std::string &type_name) {
    for (size_t i = 0; i < s.msgs.size(); ++i)
      if ("." + s.msgs[i].full == type_name) return (int)i;
    return -1;
  }
  void break_nested_cycles() {
    size_t n = s.msgs.size();
    std::vector<std::set<int>> edges(n); // x to y: something in x has a field whose type is nested in y, a sibling of x
    auto reach = [&](auto &&self, int from, int to, std::vector<char> &seen) -> bool {
      if (from == to) return true;
      if (seen[from]) return false;
      seen[from] = 1;
      for (int e : edges[from])
        if (self(self, e, to, seen)) return true;
      return false;
    };
    auto visit = [&](int m, Field &f) { // a field or extension declared in message m
      if (!is_msg_type(f.type)) return true;
      int t = by_name(f.type_name);
      if (t < 0 || s.msgs[t].map_entry) return true;
      for (int x = m; x >= 0; x = s.msgs[x].parent)
        for (size_t y = 0; y < n; ++y)
          if ((int)y != x && s.msgs[y].parent == s.msgs[x].parent && s.msgs[y].file == s.msgs[x].file && inside(t, (int)y)) {
            std::vector<char> seen(n);
            if (reach(reach, (int)y, x, seen)) return false;
            edges[x].insert((int)y);
          }
      return true;
    };
    for (size_t m = 0; m < n; ++m) {
      for (size_t i = 0; i < s.msgs[m].fields.size(); ++i)
        if (auto &f = s.msgs[m].fields[i]; !visit((int)m, f)) {
          auto &d = s.ref.msgs[m].fields[i];
          f.type = d.type = T_INT32;
          f.type_name.clear();
          f.fs.encoding = 0;
          d.sub = -1;
        }
      for (auto &f : s.msgs[m].exts)
        if (!visit((int)m, f)) {
          f.type = T_INT32;
          f.type_name.clear();
          f.fs.encoding = 0;
        }
    }
  }
  // utf8 and message encoding
  void field_features(Field &f, FieldDesc &d, const Features &ft, int syntax) {
    if (syntax == 2023) {
      if (f.type == T_STRING && c.chance(1, 3)) f.fs.utf8 = 2 + (int)c.draw(1);
      if (f.type == T_MESSAGE && c.chance(1, 3)) f.fs.encoding = 1 + (int)c.draw(1);
      if (f.label == 3 && packable(f.type) && c.chance(1, 3)) f.fs.repeated = 1 + (int)c.draw(1);
    }
    auto r = f.fs.over(ft);
    d.utf8 = r.utf8 == 2;
    if (f.type == T_MESSAGE && r.encoding == 2) d.type = T_GROUP;
  }
  void map_field(size_t m, int num, const Features &ft, int syntax) {
    Field f;
    FieldDesc d;
    f.name = field_name(m);
    f.number = num;
    f.label = 3;
    f.type = T_MESSAGE;
    d.card = MAP;
    d.presence = IMPLICIT;
    d.type = T_MESSAGE;
    FSet fs;
    if (syntax == 2023 && c.chance(1, 4)) fs.utf8 = 2 + (int)c.draw(1);
    static const int kt[] = {T_INT32, T_STRING, T_BOOL, T_INT64, T_UINT64, T_FIXED64, T_FIXED32, T_UINT32, T_SFIXED32, T_SFIXED64, T_SINT32, T_SINT64};
    Field k, v;
    FieldDesc kd, vd;
    k.name = "key";
    k.number = 1;
    k.type = kd.type = kt[form == MAP_STR ? 1 : form == MAP_OTHER ? (c.draw(10) + 2) % 12 : c.draw(11)];
    v.name = "value";
    v.number = 2;
    v.type = pick_type(true);
    if (v.type == T_GROUP) v.type = T_MESSAGE;
    if (k.type != T_STRING && v.type != T_STRING) fs.utf8 = 0;
    int e = add_message(s.msgs[m].file, camel(f.name, true) + "Entry", (int)m);
    s.msgs[e].map_entry = s.ref.msgs[e].map_entry = true;
    refer(m, v, vd, false);
    if (v.type == T_ENUM && s.enums[vd.sub].values[0].second != 0) {
      v.type = vd.type = T_SINT32;
      v.type_name.clear();
      vd.sub = -1;
    }
    f.fs = fs;
    if (k.type == T_STRING) k.fs = fs; // protoc copies the features of the map field
    if (v.type == T_STRING) v.fs = fs;
    auto r = fs.over(ft);
    d.utf8 = kd.utf8 = vd.utf8 = r.utf8 == 2;
    d.sub = e;
    kd.presence = vd.presence = EXPLICIT;
    f.type_name = "." + s.msgs[e].full;
    push(e, k, kd);
    push(e, v, vd);
    push(m, f, d);
  }
  void extensions(int file) {
    if (s.files[file].syntax == 3) return;
    auto &fl = s.files[file];
    size_t roots = s.roots.size();
    const unsigned round = cfg.matrix_at / 3;
    for (size_t m = 0; m < roots; ++m) {
      const bool cells = cfg.matrix && m == 0 && file == 0; // these walk through all types, schema after schema
      if (s.msgs[m].ext_range && s.msgs[m].file <= file && (cells || c.chance(2, 3)))
        for (size_t k = cells ? 5 : 1 + c.draw(3); k; --k) {
          Field f;
          FieldDesc d;
          f.name = "ext" + std::to_string(++uniq);
          f.json = camel(f.name);
          f.extendee = "." + s.msgs[m].full;
          f.number = 1000 + uniq;
          f.type = !cells ? pick_type(true) : k == 1 ? T_ENUM : all[(round * 4 + k) * 7 % 18];
          if (cells ? k > 1 && (round + k) % 2 : c.coin()) f.label = 3;
          size_t scope = cells ? (round / 2 + k) % 2 * roots : c.draw(2 * roots); // a message of this file, or the file
          Message *in = scope < roots && s.msgs[scope].file == file ? &s.msgs[scope] : nullptr;
          // the types visible from this file
          if (f.type == T_GROUP && fl.syntax != 2) f.type = T_MESSAGE;
          if (f.type == T_ENUM) {
            auto v = visible_enums(file, false);
            d.sub = cells && k == 1 ? 0 : c.pick(v);
            f.type_name = "." + s.enums[d.sub].full;
          } else if (is_msg_type(f.type)) {
            std::vector<int> v;
            for (size_t i = 0; i < roots; ++i)
              if (s.msgs[i].file <= file) v.push_back((int)i);
            d.sub = c.pick(v);
            f.type_name = "." + s.msgs[d.sub].full;
          }
          d.type = f.type;
          if (f.label == 3 && packable(f.type) && fl.syntax == 2 && c.coin()) f.packed_opt = (int)c.draw(1);
          field_features(f, d, fl.ft, fl.syntax);
          if (f.label == 1 && !is_msg_type(f.type) && c.chance(1, 3) && (fl.ft.presence != 2)) default_value(f, d);
          (in ? in->exts : fl.exts).push_back(f);
        }
    }
  }
};
inline Set schema(Case &c, const Cfg &cfg = {}) {
  Gen g(c, cfg);
  return g.run();
}
} // namespace sgen
