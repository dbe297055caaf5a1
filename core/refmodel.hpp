// Independent reference implementation of the protobuf wire format, written from the public
// encoding specification plus the (documented) deliberate behaviours of hpp-proto.  It shares no
// code with hpp-proto.  Schemas come from text tables produced from the descriptor set by
// tools/schema.py, which resolves features with the upb runtime.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace ref {
enum Type { T_DOUBLE = 1, T_FLOAT, T_INT64, T_UINT64, T_INT32, T_FIXED64, T_FIXED32, T_BOOL, T_STRING, T_GROUP, T_MESSAGE, T_BYTES, T_UINT32, T_ENUM, T_SFIXED32, T_SFIXED64, T_SINT32, T_SINT64 };
enum Card { SINGULAR = 1, REPEATED = 2, MAP = 3 };
enum Presence { IMPLICIT = 0, EXPLICIT = 1, REQUIRED = 2 };

struct EnumDesc {
  std::string name;
  bool closed = false;
  std::vector<int32_t> values;
  bool has(int32_t v) const { return std::find(values.begin(), values.end(), v) != values.end(); }
};
struct FieldDesc {
  uint32_t number = 0;
  std::string name;
  int type = 0;
  int card = 1;
  int presence = 1;
  bool packed = false;
  bool utf8 = true;
  int oneof = -1;
  int sub = -1; // message or enum index
  bool has_def = false;
  std::string def; // raw bytes for strings/bytes; decimal otherwise (see tools/schema.py)
};
struct MsgDesc {
  std::string name;
  bool extendable = false;
  bool map_entry = false;
  std::vector<FieldDesc> fields; // in descriptor order
  std::vector<std::string> ext_names;
  std::vector<FieldDesc> exts;
  std::vector<std::pair<uint32_t, uint32_t>> ext_ranges;
  int find(uint32_t n) const {
    for (size_t i = 0; i < fields.size(); ++i)
      if (fields[i].number == n) return (int)i;
    return -1;
  }
  bool in_ext_range(uint32_t n) const {
    for (auto &r : ext_ranges)
      if (n >= r.first && n < r.second) return true;
    return false;
  }
};
struct Schema {
  std::vector<EnumDesc> enums;
  std::vector<MsgDesc> msgs;
  int msg(const std::string &n) const {
    for (size_t i = 0; i < msgs.size(); ++i)
      if (msgs[i].name == n) return (int)i;
    throw std::runtime_error("no message " + n);
  }
  static std::string unhex(const std::string &h) {
    std::string r;
    for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16);
    return r;
  }
  static Schema parse(std::istream &in) {
    Schema s;
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream ss(line);
      std::string k;
      ss >> k;
      if (k == "E") {
        EnumDesc e;
        int n, c;
        ss >> e.name >> c >> n;
        e.closed = c;
        while (n--) { int32_t v; ss >> v; e.values.push_back(v); }
        s.enums.push_back(e);
      } else if (k == "M") {
        MsgDesc m;
        int nr, me;
        ss >> m.name >> me >> nr;
        m.map_entry = me;
        m.extendable = nr > 0;
        while (nr--) { uint32_t a, b; ss >> a >> b; m.ext_ranges.push_back({a, b}); }
        s.msgs.push_back(m);
      } else if (k == "F" || k == "X") {
        int mi, p, u;
        FieldDesc f;
        std::string def;
        ss >> mi >> f.number >> f.name >> f.type >> f.card >> f.presence >> p >> u >> f.oneof >> f.sub >> def;
        f.packed = p;
        f.utf8 = u;
        f.has_def = def != "-";
        if (f.has_def) f.def = unhex(def.substr(1));
        if (k == "F") s.msgs[mi].fields.push_back(f);
        else s.msgs[mi].exts.push_back(f);
      }
    }
    return s;
  }
  static Schema parse(const std::string &t) {
    std::istringstream ss(t);
    return parse(ss);
  }
};

struct Msg;
struct Val {
  uint64_t num = 0;
  std::string str;
  std::shared_ptr<Msg> msg;
};
struct FVal {
  bool present = false;    // singular
  std::vector<Val> v;      // singular: 1 element; repeated: n; map: k0,v0,k1,v1,... (unique keys)
};
struct Msg {
  int d = -1;
  std::vector<FVal> f;
  // raw unknown records in arrival order: (field number, encoded bytes incl. tags)
  std::vector<std::pair<uint32_t, std::string>> unknown;
};

inline bool is_len_type(int t) { return t == T_STRING || t == T_BYTES; }
inline bool is_msg_type(int t) { return t == T_MESSAGE || t == T_GROUP; }
inline bool packable(int t) { return !is_len_type(t) && !is_msg_type(t); }
inline int wire_of(int t) {
  switch (t) {
  case T_DOUBLE: case T_FIXED64: case T_SFIXED64: return 1;
  case T_FLOAT: case T_FIXED32: case T_SFIXED32: return 5;
  case T_STRING: case T_BYTES: case T_MESSAGE: return 2;
  case T_GROUP: return 3;
  default: return 0;
  }
}

// the value an absent field reads as
inline Val default_of(const Schema &s, const FieldDesc &fd) {
  Val v;
  if (is_len_type(fd.type)) v.str = fd.has_def ? fd.def : std::string();
  else if (fd.has_def) v.num = std::stoull(fd.def);
  else if (fd.type == T_ENUM) v.num = (uint64_t)(int64_t)s.enums[fd.sub].values.at(0);
  return v;
}
inline Msg make(const Schema &s, int d) {
  Msg m;
  m.d = d;
  m.f.resize(s.msgs[d].fields.size());
  for (size_t i = 0; i < m.f.size(); ++i) { // required / implicit fields always hold a value
    auto &fd = s.msgs[d].fields[i];
    if (fd.card == SINGULAR && fd.presence != EXPLICIT && fd.oneof < 0) {
      Val v;
      if (is_msg_type(fd.type)) {
        if (fd.presence == REQUIRED) {
          v.msg = std::make_shared<Msg>(make(s, fd.sub));
          m.f[i].present = true;
          m.f[i].v.push_back(v);
        }
        continue;
      }
      m.f[i].present = fd.presence == REQUIRED;
      v = default_of(s, fd);
      m.f[i].v.push_back(v);
    }
  }
  return m;
}
// only implicitly present proto2 fields (an option of the plugin) have a default other than zero
inline bool val_zero(const FieldDesc &fd, const Val &v) {
  if (fd.presence == IMPLICIT && fd.has_def) return is_len_type(fd.type) ? v.str == fd.def : v.num == std::stoull(fd.def);
  return is_len_type(fd.type) ? v.str.empty() : v.num == 0;
}

// ---------------------------------------------------------------- writing primitives
inline void put_varint(std::string &o, uint64_t v) {
  while (v >= 0x80) { o += (char)(v | 0x80); v >>= 7; }
  o += (char)v;
}
inline size_t varint_len(uint64_t v) { size_t n = 1; while (v >= 0x80) { v >>= 7; ++n; } return n; }
// overlong encoding with exactly n bytes (n >= varint_len(v))
inline void put_varint_long(std::string &o, uint64_t v, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    o += (char)((v & 0x7f) | (i + 1 < n ? 0x80 : 0));
    v >>= 7;
  }
}
inline void put_fixed(std::string &o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o += (char)(v >> (8 * i)); }
inline uint64_t zz32(int32_t v) { return (uint32_t)(((uint32_t)v << 1) ^ (uint32_t)(v >> 31)); }
inline uint64_t zz64(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
// the varint (pre-encoding) of a varint-typed scalar
inline uint64_t to_varint(int t, uint64_t num) {
  if (t == T_SINT32) return zz32((int32_t)num);
  if (t == T_SINT64) return zz64((int64_t)num);
  return num;
}
inline uint64_t from_varint(int t, uint64_t v) {
  switch (t) {
  case T_BOOL: return v != 0;
  case T_INT32: case T_ENUM: return (uint64_t)(int64_t)(int32_t)(uint32_t)v;
  case T_UINT32: return (uint32_t)v;
  case T_SINT32: { uint32_t u = (uint32_t)v; return (uint64_t)(int64_t)(int32_t)((u >> 1) ^ (0u - (u & 1))); }
  case T_SINT64: return (v >> 1) ^ (0 - (v & 1));
  default: return v;
  }
}
inline void put_scalar(std::string &o, int t, uint64_t num) {
  int w = wire_of(t);
  if (w == 0) put_varint(o, to_varint(t, num));
  else if (w == 1) put_fixed(o, num, 8);
  else put_fixed(o, num, 4);
}
// sign-extends / truncates raw fixed-width payloads
inline uint64_t from_fixed(int t, uint64_t raw) {
  if (t == T_SFIXED32) return (uint64_t)(int64_t)(int32_t)(uint32_t)raw;
  return raw;
}

// ---------------------------------------------------------------- canonical encoder
inline std::string encode(const Schema &s, const Msg &m);
inline void put_tag(std::string &o, uint32_t n, int w) { put_varint(o, ((uint64_t)n << 3) | (unsigned)w); }
inline void encode_one(const Schema &s, std::string &o, const FieldDesc &fd, const Val &v) {
  put_tag(o, fd.number, wire_of(fd.type));
  if (fd.type == T_GROUP) {
    o += encode(s, *v.msg);
    put_tag(o, fd.number, 4);
  } else if (fd.type == T_MESSAGE) {
    auto b = encode(s, *v.msg);
    put_varint(o, b.size());
    o += b;
  } else if (is_len_type(fd.type)) {
    put_varint(o, v.str.size());
    o += v.str;
  } else put_scalar(o, fd.type, v.num);
}
// One token per record; a packed list is one token.
inline void encode_tokens(const Schema &s, const Msg &m, std::vector<std::string> &toks) {
  auto &md = s.msgs[m.d];
  for (size_t i = 0; i < md.fields.size(); ++i) {
    auto &fd = md.fields[i];
    auto &fv = m.f[i];
    if (fd.card == SINGULAR) {
      bool emit = fv.present;
      if (fd.oneof < 0 && fd.presence == IMPLICIT) emit = !fv.v.empty() && (is_msg_type(fd.type) ? fv.present : !val_zero(fd, fv.v[0]));
      if (!emit) continue;
      std::string o;
      encode_one(s, o, fd, fv.v[0]);
      toks.push_back(o);
    } else if (fd.card == REPEATED) {
      if (fv.v.empty()) continue;
      if (fd.packed) {
        std::string b, o;
        for (auto &v : fv.v) put_scalar(b, fd.type, v.num);
        put_tag(o, fd.number, 2);
        put_varint(o, b.size());
        toks.push_back(o + b);
      } else
        for (auto &v : fv.v) {
          std::string o;
          encode_one(s, o, fd, v);
          toks.push_back(o);
        }
    } else {
      auto &ed = s.msgs[fd.sub];
      for (size_t k = 0; k + 1 < fv.v.size(); k += 2) {
        std::string b, o;
        encode_one(s, b, ed.fields[0], fv.v[k]);
        encode_one(s, b, ed.fields[1], fv.v[k + 1]);
        put_tag(o, fd.number, 2);
        put_varint(o, b.size());
        toks.push_back(o + b);
      }
    }
  }
  for (auto &u : m.unknown) toks.push_back(u.second);
}
inline std::string encode(const Schema &s, const Msg &m) {
  std::vector<std::string> t;
  encode_tokens(s, m, t);
  std::string o;
  for (auto &x : t) o += x;
  return o;
}

// ---------------------------------------------------------------- decoder
enum class Res { ok, bad, unspecified };
struct Opts {
  int depth_limit = 100; // number of nested messages (the root is free)
  bool closed_map = false; // decide map entries with an unrecognised closed enum value (otherwise unspecified)
  bool utf8 = true;
};
struct Reader {
  const unsigned char *p, *e;
  bool bad = false;      // malformed
  bool unspec = false;   // behaviour deliberately left open by the property
  const char *why = "";
  uint64_t varint() {
    uint64_t v = 0;
    for (int i = 0; i < 10; ++i) {
      if (p == e) { fail("truncated varint"); return 0; }
      unsigned char b = *p++;
      if (i == 9 && (b & 0x7e)) unspec = true; // bits beyond 64
      v |= (uint64_t)(b & 0x7f) << (7 * i);
      if (!(b & 0x80)) return v;
    }
    fail("varint longer than 10 bytes");
    return 0;
  }
  uint64_t fixed(int n) {
    if (e - p < n) { fail("truncated fixed"); return 0; }
    uint64_t v = 0;
    for (int i = 0; i < n; ++i) v |= (uint64_t)p[i] << (8 * i);
    p += n;
    return v;
  }
  // a tag; an overlong tag of more than 5 bytes or a tag above 32 bits has no agreed meaning
  uint32_t tag() {
    const unsigned char *b = p;
    uint64_t v = varint();
    if (bad) { if (p - b > 5) {} return 0; }
    if (p - b > 5 || v > 0xffffffffu) unspec = true;
    if ((v >> 3) == 0) { fail("field number 0"); return 0; }
    return (uint32_t)v;
  }
  uint64_t len() {
    const unsigned char *b = p;
    uint64_t v = varint();
    if (bad) return 0;
    if (v > (uint64_t)(e - p)) { fail("length beyond input"); return 0; }
    if (p - b > 9) { fail("overlong length"); return 0; } // hpp-proto rejects lengths of 10+ bytes
    if (p - b > 5) unspec = true;
    return v;
  }
  void fail(const char *w) { if (!bad) { bad = true; why = w; } }
};

inline bool valid_utf8(std::string_view s) {
  auto *p = (const unsigned char *)s.data(), *e = p + s.size();
  while (p < e) {
    unsigned char c = *p;
    if (c < 0x80) { ++p; continue; }
    int n;
    uint32_t cp;
    if ((c & 0xe0) == 0xc0) { n = 1; cp = c & 0x1f; }
    else if ((c & 0xf0) == 0xe0) { n = 2; cp = c & 0x0f; }
    else if ((c & 0xf8) == 0xf0) { n = 3; cp = c & 0x07; }
    else return false;
    if (e - p <= n) return false;
    for (int i = 1; i <= n; ++i) {
      if ((p[i] & 0xc0) != 0x80) return false;
      cp = cp << 6 | (p[i] & 0x3f);
    }
    static const uint32_t mn[] = {0, 0x80, 0x800, 0x10000};
    if (cp < mn[n] || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) return false;
    p += n + 1;
  }
  return true;
}

struct Decoder {
  const Schema &s;
  Opts o;
  Reader r{};
  bool depth_exceeded = false;
  int max_depth = 0;

  // skips one unknown field whose tag has been read
  void skip(uint32_t tag, int depth) {
    switch (tag & 7) {
    case 0: r.varint(); break;
    case 1: r.fixed(8); break;
    case 2: { auto n = r.len(); if (!r.bad) r.p += n; break; }
    case 3: {
      if (depth + 1 > o.depth_limit) { depth_exceeded = true; r.fail("too deep"); return; }
      max_depth = std::max(max_depth, depth + 1);
      for (;;) {
        if (r.p == r.e) { r.fail("unterminated group"); return; }
        uint32_t t = r.tag();
        if (r.bad) return;
        if ((t & 7) == 4) {
          if ((t >> 3) != (tag >> 3)) r.fail("mismatched end group");
          return;
        }
        skip(t, depth + 1);
        if (r.bad) return;
      }
    }
    case 5: r.fixed(4); break;
    default: r.fail(((tag & 7) == 4) ? "stray end group" : "wire type 6/7");
    }
  }
  void clear_oneof(Msg &m, int oneof, size_t except) {
    auto &md = s.msgs[m.d];
    for (size_t i = 0; i < md.fields.size(); ++i)
      if (i != except && md.fields[i].card == SINGULAR && md.fields[i].oneof == oneof) m.f[i] = FVal{};
  }
  bool scalar(const FieldDesc &fd, int wire, Val &v) { // reads one scalar
    if (wire == 0) {
      auto raw = r.varint();
      v.num = from_varint(fd.type, raw);
      // which bits of an unrecognised value of a closed enum survive beyond the lower 32 is nowhere defined
      if (raw != v.num && !r.bad && unknown_enum(fd, v.num)) r.unspec = true;
    } else if (wire == 1) v.num = from_fixed(fd.type, r.fixed(8));
    else v.num = from_fixed(fd.type, r.fixed(4));
    return !r.bad;
  }
  void add_unknown_enum(Msg &m, const FieldDesc &fd, int64_t v) {
    std::string raw;
    put_tag(raw, fd.number, 0);
    put_varint(raw, (uint64_t)v);
    m.unknown.push_back({fd.number, raw});
  }
  bool unknown_enum(const FieldDesc &fd, uint64_t num) {
    return fd.type == T_ENUM && s.enums[fd.sub].closed && !s.enums[fd.sub].has((int32_t)num);
  }
  bool sub(Msg &m, const FieldDesc &fd, int depth) { // body of a message field, tag already read
    if (depth + 1 > o.depth_limit) { depth_exceeded = true; r.fail("too deep"); return false; }
    max_depth = std::max(max_depth, depth + 1);
    if (fd.type == T_GROUP) return body(m, depth + 1, fd.number);
    auto n = r.len();
    if (r.bad) return false;
    auto *save = r.e;
    r.e = r.p + n;
    body(m, depth + 1, 0);
    r.e = save;
    return !r.bad;
  }
  bool map_entry(Msg &m, size_t fi, int depth, const unsigned char *start) {
    auto &fd = s.msgs[m.d].fields[fi];
    auto &ed = s.msgs[fd.sub];
    if (depth + 1 > o.depth_limit) { depth_exceeded = true; r.fail("too deep"); return false; }
    max_depth = std::max(max_depth, depth + 1);
    auto n = r.len();
    if (r.bad) return false;
    auto *save = r.e;
    r.e = r.p + n;
    Msg entry = make(s, fd.sub);
    int nk = 0, nv = 0, other = 0;
    bool key_first = true, first = true, long_key = false;
    if (n == 0) { r.fail("empty map entry"); r.e = save; return false; } // deliberate
    while (r.p < r.e && !r.bad) {
      auto *tp = r.p;
      uint32_t t = r.tag();
      if (r.bad) break;
      uint32_t num = t >> 3;
      if (first && num == 1 && r.p - tp > 1) long_key = true; // "starts with the key tag" is only defined for its canonical form
      if (first && num != 1) key_first = false;
      first = false;
      if (num == 1) ++nk; else if (num == 2) ++nv; else ++other;
      if (num == 1 || num == 2) {
        int idx = (int)num - 1;
        field(entry, idx, t, depth + 1, r.p);
      } else skip(t, depth + 1);
    }
    if (!r.bad && r.p != r.e) r.fail("map entry overrun");
    bool inner_bad = r.bad;
    r.e = save;
    if (!key_first) { r.bad = false; r.fail("map entry does not start with its key"); return false; } // deliberate
    if (nk != 1 || nv > 1 || other || long_key) { r.unspec = true; }
    if (inner_bad) return false;
    Val k = entry.f[0].v.empty() ? Val{} : entry.f[0].v[0];
    Val v = entry.f[1].v.empty() ? Val{} : entry.f[1].v[0];
    auto &vd = ed.fields[1];
    if (!entry.unknown.empty()) { // unknown closed enum value: the whole entry is unknown
      m.unknown.push_back({fd.number, std::string((const char *)start, (const char *)r.p)});
      if (!o.closed_map) r.unspec = true;
      return true;
    }
    if (is_msg_type(vd.type) && !v.msg) v.msg = std::make_shared<Msg>(make(s, vd.sub));
    if (vd.type == T_ENUM && nv == 0) v.num = (uint64_t)(int64_t)s.enums[vd.sub].values[0];
    map_put(m.f[fi], ed, k, v);
    return true;
  }
  static void map_put(FVal &f, const MsgDesc &ed, const Val &k, const Val &v) {
    for (size_t i = 0; i + 1 < f.v.size(); i += 2)
      if (is_len_type(ed.fields[0].type) ? f.v[i].str == k.str : f.v[i].num == k.num) {
        f.v[i + 1] = v;
        return;
      }
    f.v.push_back(k);
    f.v.push_back(v);
  }
  // start: first byte of the tag
  void field(Msg &m, int fi, uint32_t tag, int depth, const unsigned char *start) {
    auto &fd = s.msgs[m.d].fields[fi];
    int wire = tag & 7;
    auto &fv = m.f[fi];
    if (fd.card == MAP) {
      if (wire != 2) { r.fail("wire type mismatch"); return; }
      map_entry(m, fi, depth, start);
      return;
    }
    if (fd.card == REPEATED && packable(fd.type) && wire == 2) {
      auto n = r.len();
      if (r.bad) return;
      auto *save = r.e;
      r.e = r.p + n;
      while (r.p < r.e && !r.bad) {
        Val v;
        if (!scalar(fd, wire_of(fd.type), v)) break;
        if (unknown_enum(fd, v.num)) add_unknown_enum(m, fd, (int64_t)v.num);
        else fv.v.push_back(v);
      }
      r.e = save;
      return;
    }
    if (wire != wire_of(fd.type)) { r.fail("wire type mismatch"); return; } // deliberate
    Val v;
    if (is_msg_type(fd.type)) {
      if (fd.card == REPEATED) {
        v.msg = std::make_shared<Msg>(make(s, fd.sub));
        if (sub(*v.msg, fd, depth)) fv.v.push_back(v);
        return;
      }
      if (fd.oneof >= 0) clear_oneof(m, fd.oneof, fi);
      if (fv.v.empty()) {
        v.msg = std::make_shared<Msg>(make(s, fd.sub));
        fv.v.push_back(v);
      }
      fv.present = true;
      sub(*fv.v[0].msg, fd, depth);
      return;
    }
    if (is_len_type(fd.type)) {
      auto n = r.len();
      if (r.bad) return;
      v.str.assign((const char *)r.p, n);
      r.p += n;
      if (fd.type == T_STRING && fd.utf8 && o.utf8 && !valid_utf8(v.str)) { r.fail("invalid UTF-8"); return; }
    } else if (!scalar(fd, wire, v)) return;
    if (unknown_enum(fd, v.num)) { add_unknown_enum(m, fd, (int64_t)v.num); return; }
    if (fd.card == REPEATED) { fv.v.push_back(v); return; }
    if (fd.oneof >= 0) clear_oneof(m, fd.oneof, fi);
    fv.present = true;
    fv.v.assign(1, v);
  }
  bool body(Msg &m, int depth, uint32_t group) {
    while (r.p < r.e) {
      auto *start = r.p;
      uint32_t t = r.tag();
      if (r.bad) return false;
      uint32_t num = t >> 3;
      int wire = t & 7;
      if (wire == 4) {
        if (group && num == group) return true;
        r.fail("unexpected end group");
        return false;
      }
      int fi = s.msgs[m.d].find(num);
      if (fi >= 0) field(m, fi, t, depth, start);
      else {
        skip(t, depth);
        if (!r.bad) m.unknown.push_back({num, std::string((const char *)start, (const char *)r.p)});
      }
      if (r.bad) return false;
    }
    if (group) { r.fail("unterminated group"); return false; }
    return true;
  }
  Res run(Msg &m, std::string_view in) {
    r.p = (const unsigned char *)in.data();
    r.e = r.p + in.size();
    body(m, 0, 0);
    if (r.unspec) return Res::unspecified;
    return r.bad ? Res::bad : Res::ok;
  }
};

// ---------------------------------------------------------------- comparison / printing
inline std::string dump(const Schema &s, const Msg &m, bool with_unknown, int ind = 0);
inline std::string dump_val(const Schema &s, const FieldDesc &fd, const Val &v, bool wu, int ind) {
  if (is_msg_type(fd.type)) return v.msg ? "{\n" + dump(s, *v.msg, wu, ind + 1) + std::string(ind * 2, ' ') + "}" : "{null}";
  if (is_len_type(fd.type)) {
    static const char *d = "0123456789abcdef";
    std::string r = "x'";
    for (unsigned char c : v.str) { r += d[c >> 4]; r += d[c & 15]; }
    return r + "'";
  }
  switch (fd.type) {
  case T_INT32: case T_INT64: case T_SINT32: case T_SINT64: case T_SFIXED32: case T_SFIXED64: case T_ENUM: return std::to_string((int64_t)v.num);
  case T_DOUBLE: { double x; memcpy(&x, &v.num, 8); char b[64]; snprintf(b, sizeof b, "%a(0x%llx)", x, (unsigned long long)v.num); return b; }
  case T_FLOAT: { float x; uint32_t u = (uint32_t)v.num; memcpy(&x, &u, 4); char b[64]; snprintf(b, sizeof b, "%a(0x%x)", x, u); return b; }
  default: return std::to_string(v.num);
  }
}
inline std::string dump(const Schema &s, const Msg &m, bool wu, int ind) {
  std::string o, pad(ind * 2, ' ');
  auto &md = s.msgs[m.d];
  for (size_t i = 0; i < md.fields.size(); ++i) {
    auto &fd = md.fields[i];
    auto &fv = m.f[i];
    if (fd.card == SINGULAR) {
      bool show = fv.present;
      if (fd.oneof < 0 && fd.presence == IMPLICIT && !is_msg_type(fd.type)) show = !fv.v.empty() && !val_zero(fd, fv.v[0]);
      if (show) o += pad + fd.name + ": " + dump_val(s, fd, fv.v[0], wu, ind) + "\n";
    } else if (fd.card == REPEATED) {
      for (auto &v : fv.v) o += pad + fd.name + "[]: " + dump_val(s, fd, v, wu, ind) + "\n";
    } else {
      std::vector<std::string> es;
      for (size_t k = 0; k + 1 < fv.v.size(); k += 2)
        es.push_back(pad + fd.name + "[" + dump_val(s, s.msgs[fd.sub].fields[0], fv.v[k], wu, ind) + "]: " + dump_val(s, s.msgs[fd.sub].fields[1], fv.v[k + 1], wu, ind) + "\n");
      std::sort(es.begin(), es.end());
      for (auto &e : es) o += e;
    }
  }
  if ((wu || md.extendable) && !m.unknown.empty()) {
    std::vector<std::string> us;
    if (md.extendable) {
      std::map<uint32_t, std::string> by;
      for (auto &u : m.unknown) by[u.first] += u.second;
      for (auto &[k, v] : by) us.push_back(v);
    } else {
      std::string all;
      for (auto &u : m.unknown) all += u.second;
      us.push_back(all);
    }
    for (auto &u : us) {
      FieldDesc b;
      b.type = T_BYTES;
      Val v;
      v.str = u;
      o += pad + "<unknown>: " + dump_val(s, b, v, wu, ind) + "\n";
    }
  }
  return o;
}
// Removes everything a message without unknown-field storage cannot hold.
inline bool same(const Schema &s, const Msg &a, const Msg &b, bool wu) { return dump(s, a, wu) == dump(s, b, wu); }

// Splits an encoded message into its top-level records (empty on malformed input).
inline bool split(std::string_view in, std::vector<std::string> &toks) {
  Schema dummy;
  Decoder d{dummy, {}};
  d.o.depth_limit = 100000;
  d.r.p = (const unsigned char *)in.data();
  d.r.e = d.r.p + in.size();
  while (d.r.p < d.r.e) {
    auto *st = d.r.p;
    uint32_t t = d.r.tag();
    if (d.r.bad) return false;
    d.skip(t, 0);
    if (d.r.bad) return false;
    toks.push_back(std::string((const char *)st, (const char *)d.r.p));
  }
  return true;
}
} // namespace ref
