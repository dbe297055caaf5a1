// Structured generators over refmodel schemas: message values and wire byte strings.
#pragma once
#include "pbt.hpp"
#include "refmodel.hpp"

namespace gen {
using pbt::Case;
using ref::FieldDesc;
using ref::Msg;
using ref::Schema;
using ref::Val;

struct Cfg {
  bool bad_utf8 = false;     // may produce invalid UTF-8 in string fields
  unsigned big = 40;         // 1/big of the strings are "long"
  int max_depth = 4;
  bool empty_required = false;
};

inline uint64_t rand_u64(Case &c) { // magnitude-uniform with boundary bias
  switch (c.weighted({3, 4, 3, 1})) {
  case 0: return c.draw(3);
  case 1: {
    unsigned bits = (unsigned)c.draw(63) + 1;
    return c.draw(bits == 64 ? UINT64_MAX : ((1ULL << bits) - 1));
  }
  case 2: { // near 2^(k) boundaries, 7-bit group boundaries and signed ones included
    unsigned k = (unsigned)c.draw(64);
    uint64_t b = k == 64 ? 0 : 1ULL << k;
    return b + c.draw(2) - 1;
  }
  default: return ~c.draw(300);
  }
}
inline uint64_t scalar(Case &c, const Schema &s, const FieldDesc &fd) {
  using namespace ref;
  switch (fd.type) {
  case T_BOOL: return c.draw(1);
  case T_ENUM: {
    auto &e = s.enums[fd.sub];
    if (e.closed || c.chance(3, 4)) return (uint64_t)(int64_t)c.pick(e.values);
    return (uint64_t)(int64_t)(int32_t)rand_u64(c);
  }
  case T_DOUBLE: {
    static const double sp[] = {0.0, 1.0, -1.0, 1e308, 5e-324, -0.0, 1.0 / 0.0, -1.0 / 0.0};
    uint64_t u;
    if (c.coin()) { double d = c.pick(sp); memcpy(&u, &d, 8); return u; }
    if (c.chance(1, 16)) return 0x7ff8000000000000ULL | c.draw(0xff);
    u = rand_u64(c);
    return u;
  }
  case T_FLOAT: {
    static const float sp[] = {0.0f, 1.0f, -1.0f, 3e38f, 1e-45f, -0.0f, 1.0f / 0.0f, -1.0f / 0.0f};
    uint32_t u;
    if (c.coin()) { float d = c.pick(sp); memcpy(&u, &d, 4); return u; }
    if (c.chance(1, 16)) return 0x7fc00000U | c.draw(0xff);
    u = (uint32_t)rand_u64(c);
    if ((u & 0x7f800000U) == 0x7f800000U && (u & 0x7fffffU)) u |= 0x400000; // no signalling NaN
    return u;
  }
  case T_INT32: case T_SINT32: case T_SFIXED32: return (uint64_t)(int64_t)(int32_t)(uint32_t)rand_u64(c);
  case T_UINT32: case T_FIXED32: return (uint32_t)rand_u64(c);
  default: return rand_u64(c);
  }
}
inline void put_cp(std::string &o, uint32_t cp) {
  if (cp < 0x80) o += (char)cp;
  else if (cp < 0x800) { o += (char)(0xc0 | cp >> 6); o += (char)(0x80 | (cp & 63)); }
  else if (cp < 0x10000) { o += (char)(0xe0 | cp >> 12); o += (char)(0x80 | ((cp >> 6) & 63)); o += (char)(0x80 | (cp & 63)); }
  else { o += (char)(0xf0 | cp >> 18); o += (char)(0x80 | ((cp >> 12) & 63)); o += (char)(0x80 | ((cp >> 6) & 63)); o += (char)(0x80 | (cp & 63)); }
}
inline size_t len(Case &c, unsigned big) {
  if (big && c.chance(1, big)) {
    switch (c.weighted({24, 18, 6, 1})) {
    case 0: return 120 + c.draw(20);
    case 1: return c.draw(600);
    case 2: return 16370 + c.draw(40);
    default: return 65500 + c.draw(60);
    }
  }
  return c.draw(c.coin() ? 3 : 20);
}
inline std::string text(Case &c, unsigned big) {
  size_t n = len(c, big);
  std::string o;
  unsigned mode = c.weighted({5, 2, 1});
  if (n > 64) { // long strings: few choices
    uint32_t cp = mode ? 0x20ac : 'a';
    while (o.size() < n) put_cp(o, cp);
    if (c.coin()) o[0] = 'Z';
    if (!ref::valid_utf8(o)) o[0] = 'a', o = "a" + o.substr(ref::valid_utf8(o) ? 1 : 3);
    return o;
  }
  for (size_t i = 0; i < n; ++i) {
    if (mode == 0) o += (char)('a' + c.draw(25));
    else if (mode == 1) put_cp(o, (uint32_t)c.draw(0x7f));
    else {
      static const uint32_t cps[] = {'a', 0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, '"', '\\', '\n'};
      put_cp(o, c.pick(cps));
    }
  }
  return o;
}
inline std::string blob(Case &c, unsigned big) {
  size_t n = len(c, big);
  std::string o;
  if (n > 64) {
    o.assign(n, (char)c.draw(255));
    return o;
  }
  for (size_t i = 0; i < n; ++i) o += (char)c.draw(255);
  return o;
}
inline std::string bad_text(Case &c) {
  static const std::vector<std::string> bads = {"\x80", "\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\xf0\x9f\x98", "\xc3", "\xf8\x88\x80\x80\x80", "\xe0\x80\x80"};
  std::string o = text(c, 0);
  size_t at = o.empty() ? 0 : c.draw(o.size());
  o.insert(at, c.pick(bads));
  return o;
}
inline Msg message(Case &c, const Schema &s, int d, const Cfg &cfg, int depth = 0);
inline Val value(Case &c, const Schema &s, const FieldDesc &fd, const Cfg &cfg, int depth) {
  Val v;
  if (ref::is_msg_type(fd.type)) v.msg = std::make_shared<Msg>(message(c, s, fd.sub, cfg, depth + 1));
  else if (fd.type == ref::T_STRING) v.str = cfg.bad_utf8 && c.chance(1, 6) ? bad_text(c) : text(c, cfg.big);
  else if (fd.type == ref::T_BYTES) v.str = blob(c, cfg.big);
  else v.num = scalar(c, s, fd);
  return v;
}
inline size_t count(Case &c, const FieldDesc &fd) {
  switch (c.weighted({6, 3, 1})) {
  case 0: return 1 + c.draw(1);
  case 1: return 1 + c.draw(6);
  default: return ref::packable(fd.type) && fd.card == ref::REPEATED ? 1 + c.draw(180) : 1 + c.draw(12);
  }
}
inline Msg message(Case &c, const Schema &s, int d, const Cfg &cfg, int depth) {
  Msg m = ref::make(s, d);
  auto &md = s.msgs[d];
  size_t n = md.fields.size();
  if (n == 0) return m;
  auto set = [&](size_t i) {
    auto &fd = md.fields[i];
    auto &fv = m.f[i];
    if (ref::is_msg_type(fd.type) && depth >= cfg.max_depth) return;
    if (fd.card == ref::MAP && ref::is_msg_type(s.msgs[fd.sub].fields[1].type) && depth >= cfg.max_depth) return;
    if (fd.card == ref::SINGULAR) {
      if (fd.oneof >= 0)
        for (size_t k = 0; k < n; ++k)
          if (k != i && md.fields[k].card == ref::SINGULAR && md.fields[k].oneof == fd.oneof) m.f[k] = ref::FVal{};
      fv.present = true;
      fv.v.assign(1, value(c, s, fd, cfg, depth));
    } else if (fd.card == ref::REPEATED) {
      size_t k = count(c, fd);
      while (k--) fv.v.push_back(value(c, s, fd, cfg, depth));
    } else {
      auto &ed = s.msgs[fd.sub];
      size_t k = count(c, fd);
      while (k--) {
        Val key = value(c, s, ed.fields[0], cfg, depth);
        Val val = value(c, s, ed.fields[1], cfg, depth);
        if (ed.fields[1].type == ref::T_ENUM && s.enums[ed.fields[1].sub].closed && !s.enums[ed.fields[1].sub].has((int32_t)val.num)) val.num = 0;
        ref::Decoder::map_put(fv, ed, key, val);
      }
    }
  };
  // required message fields: give their content a chance; others chosen one by one
  unsigned k;
  switch (c.weighted({5, 3, 1})) {
  case 0: k = (unsigned)c.draw(3); break;
  case 1: k = (unsigned)c.draw(8); break;
  default: k = depth == 0 ? (unsigned)n : 2; break;
  }
  if (k == n) {
    for (size_t i = 0; i < n; ++i) set(i);
  } else
    while (k--) set(c.draw(n - 1));
  return m;
}

// ---------------------------------------------------------------- wire strings
struct WCfg {
  bool overlong = true;        // non-minimal varints in tags, lengths and values
  bool unknown = true;         // unknown fields
  bool unknown_enum = true;    // unrecognised values of closed enums
  bool wide_values = true;     // varints wider than the field's type
  bool split = true;           // repeated occurrences of singular fields / split packed
  bool alt_packing = true;
  bool map_missing_value = true;
  bool map_closed_unknown = false;
  bool groups_unknown = true;
  unsigned big = 60;
  int max_depth = 4;
  bool bad_utf8 = false;
  bool canon_tag = false;
  uint32_t max_field = (1u << 29) - 1;
};
inline void varint(Case &c, std::string &o, uint64_t v, const WCfg &w, size_t max_len = 10) {
  size_t n = ref::varint_len(v);
  if (w.overlong && n < max_len && c.chance(1, 12)) n += 1 + c.draw(max_len - n - 1);
  ref::put_varint_long(o, v, n);
}
inline void tag(Case &c, std::string &o, uint32_t num, int wire, const WCfg &w) {
  if (w.canon_tag) ref::put_tag(o, num, wire);
  else varint(c, o, ((uint64_t)num << 3) | wire, w, 5);
}
inline std::string wire(Case &c, const Schema &s, int d, const WCfg &w, int depth = 0);
inline void scalar_bytes(Case &c, const Schema &s, std::string &o, const FieldDesc &fd, const WCfg &w) {
  int wt = ref::wire_of(fd.type);
  uint64_t num = scalar(c, s, fd);
  if (fd.type == ref::T_ENUM && w.unknown_enum && s.enums[fd.sub].closed && c.chance(1, 4)) num = (uint64_t)(int64_t)(int32_t)rand_u64(c);
  if (wt == 1) { ref::put_fixed(o, num, 8); return; }
  if (wt == 5) { ref::put_fixed(o, num, 4); return; }
  uint64_t v = ref::to_varint(fd.type, num);
  bool closed = fd.type == ref::T_ENUM && s.enums[fd.sub].closed;
  if (w.wide_values && !closed && c.chance(1, 16)) {
    if (fd.type == ref::T_BOOL) v = rand_u64(c);
    else if (fd.type != ref::T_INT64 && fd.type != ref::T_UINT64 && fd.type != ref::T_SINT64) v = (v & 0xffffffffu) | (rand_u64(c) << 32);
  }
  if (closed) ref::put_varint(o, v);
  else varint(c, o, v, w);
}
inline void unknown_field(Case &c, std::string &o, uint32_t num, const WCfg &w, int depth) {
  switch (c.weighted({4, 2, 3, 2, 2})) {
  case 0: tag(c, o, num, 0, w); varint(c, o, rand_u64(c), w); break;
  case 1: tag(c, o, num, 1, w); ref::put_fixed(o, rand_u64(c), 8); break;
  case 2: { tag(c, o, num, 2, w); auto b = blob(c, w.big); varint(c, o, b.size(), w, 5); o += b; break; }
  case 3: tag(c, o, num, 5, w); ref::put_fixed(o, rand_u64(c), 4); break;
  default: {
    if (!w.groups_unknown || depth > 4) { tag(c, o, num, 0, w); o += '\1'; break; }
    tag(c, o, num, 3, w);
    for (auto k = c.draw(2); k; --k) unknown_field(c, o, 1 + (uint32_t)c.draw(40), w, depth + 1);
    tag(c, o, num, 4, w);
  }
  }
}
inline uint32_t unknown_number(Case &c, const Schema &s, int d, const WCfg &w) {
  for (int i = 0; i < 20; ++i) {
    uint32_t n;
    switch (c.weighted({3, 3, 2, s.msgs[d].fields.empty() ? 0u : 2u})) {
    case 0: n = 60 + (uint32_t)c.draw(40); break;
    case 1: n = 1 + (uint32_t)c.draw(3000); break;
    case 2: n = 1 + (uint32_t)c.draw(w.max_field - 1); break;
    default: n = (uint32_t)c.pick(s.msgs[d].fields).number ^ (1u << c.draw(28)); break; // one bit away from a known number
    }
    if (n == 0 || n > w.max_field) continue;
    if (s.msgs[d].find(n) < 0) return n;
  }
  return 536870911 <= w.max_field ? 536870911 : w.max_field;
}
inline void record(Case &c, const Schema &s, std::string &o, const FieldDesc &fd, const WCfg &w, int depth) {
  using namespace ref;
  if (fd.card == MAP) {
    auto &ed = s.msgs[fd.sub];
    std::string b;
    bool with_val = !(w.map_missing_value && c.chance(1, 10));
    WCfg kw = w;
    kw.unknown_enum = w.map_closed_unknown;
    kw.canon_tag = true;
    record(c, s, b, ed.fields[0], kw, depth);
    kw.canon_tag = w.canon_tag;
    if (with_val) record(c, s, b, ed.fields[1], kw, depth);
    tag(c, o, fd.number, 2, w);
    varint(c, o, b.size(), w, 5);
    o += b;
    return;
  }
  if (fd.card == REPEATED && packable(fd.type)) {
    bool packed = fd.packed;
    if (w.alt_packing && c.chance(1, 4)) packed = !packed;
    if (packed) {
      std::string b;
      size_t n = w.split && c.chance(1, 10) ? 0 : count(c, fd);
      while (n--) scalar_bytes(c, s, b, fd, w);
      tag(c, o, fd.number, 2, w);
      varint(c, o, b.size(), w, 5);
      o += b;
      return;
    }
  }
  if (is_msg_type(fd.type)) {
    auto b = wire(c, s, fd.sub, w, depth + 1);
    if (fd.type == T_GROUP) {
      tag(c, o, fd.number, 3, w);
      o += b;
      tag(c, o, fd.number, 4, w);
    } else {
      tag(c, o, fd.number, 2, w);
      varint(c, o, b.size(), w, 5);
      o += b;
    }
    return;
  }
  if (is_len_type(fd.type)) {
    tag(c, o, fd.number, 2, w);
    auto b = fd.type == T_STRING ? (w.bad_utf8 && c.chance(1, 8) ? bad_text(c) : text(c, w.big)) : blob(c, w.big);
    varint(c, o, b.size(), w, 5);
    o += b;
    return;
  }
  tag(c, o, fd.number, wire_of(fd.type), w);
  scalar_bytes(c, s, o, fd, w);
}
inline std::string wire(Case &c, const Schema &s, int d, const WCfg &w, int depth) {
  std::string o;
  auto &md = s.msgs[d];
  unsigned k;
  switch (c.weighted({4, 4, 1})) {
  case 0: k = (unsigned)c.draw(2); break;
  case 1: k = (unsigned)c.draw(6); break;
  default: k = depth == 0 ? 20 : 3; break;
  }
  int last = -1;
  if (depth == 0 && (w.unknown || !md.fields.empty()) && c.chance(1, 100)) { // a long run of records of one number
    unsigned run = 10 + (unsigned)c.draw(140);
    if (w.unknown && c.coin()) {
      auto num = unknown_number(c, s, d, w);
      bool fixed = c.chance(1, 4);
      while (run--) {
        tag(c, o, num, fixed ? 5 : 0, w);
        if (fixed) ref::put_fixed(o, rand_u64(c), 4);
        else varint(c, o, rand_u64(c), w);
      }
    } else if (!md.fields.empty()) {
      auto &fd = c.pick(md.fields);
      if (!ref::is_msg_type(fd.type) && fd.card != ref::MAP && (w.split || fd.card == ref::REPEATED))
        while (run--) record(c, s, o, fd, w, depth);
    }
  }
  while (k--) {
    if ((w.unknown && c.chance(1, 8)) || md.fields.empty()) {
      if (!w.unknown) break;
      if (md.extendable && !md.exts.empty() && c.chance(2, 3)) record(c, s, o, c.pick(md.exts), w, depth);
      else unknown_field(c, o, unknown_number(c, s, d, w), w, depth);
      continue;
    }
    int i = last >= 0 && w.split && c.chance(1, 4) ? last : (int)c.draw(md.fields.size() - 1);
    auto &fd = md.fields[i];
    bool m = ref::is_msg_type(fd.type) || (fd.card == ref::MAP && ref::is_msg_type(s.msgs[fd.sub].fields[1].type));
    if (m && depth >= w.max_depth) continue;
    last = i;
    record(c, s, o, fd, w, depth);
  }
  return o;
}

// ---------------------------------------------------------------- nesting
// can a chain of messages below d be extended without end?
inline bool endless(const Schema &s, int d) {
  std::vector<int> todo{d};
  std::vector<bool> seen(s.msgs.size());
  seen[d] = true;
  while (!todo.empty()) {
    int x = todo.back();
    todo.pop_back();
    for (auto &f : s.msgs[x].fields)
      if (f.sub >= 0 && (f.card == ref::MAP || ref::is_msg_type(f.type))) {
        if (f.sub == d) return true;
        if (!seen[f.sub]) { seen[f.sub] = true; todo.push_back(f.sub); }
      }
  }
  return false;
}
// an encoding of a message of type d with (at least) k levels below it, through any kind of field
inline std::string deep(Case &c, const Schema &s, int d, int k, const WCfg &w, bool groups) {
  using namespace ref;
  std::string o;
  auto &md = s.msgs[d];
  auto extra = [&] {
    if (!c.chance(1, 10)) return;
    WCfg x = w;
    x.max_depth = 0;
    x.split = false;
    for (auto &f : md.fields)
      if (!is_msg_type(f.type) && f.card == SINGULAR && f.oneof < 0 && c.chance(1, 3)) record(c, s, o, f, x, 0);
  };
  extra();
  if (k > 0) {
    std::vector<const FieldDesc *> best, any;
    for (auto &f : md.fields) {
      bool is_map = f.card == MAP, is_msg = is_msg_type(f.type);
      if (!is_map && !is_msg) continue;
      int to = is_map ? s.msgs[f.sub].fields[1].sub : f.sub;
      bool more = is_map ? is_msg_type(s.msgs[f.sub].fields[1].type) : true;
      if (k == 1 || (more && k == 2)) any.push_back(&f);
      else if (more && endless(s, to)) best.push_back(&f);
      else if (more) any.push_back(&f);
    }
    if (best.empty()) best = any;
    if (best.empty() || (groups && c.chance(1, 12))) {
      if (groups) { // unknown groups all the way
        std::vector<uint32_t> nums;
        for (int i = 0; i < k; ++i) {
          nums.push_back(i == 0 ? unknown_number(c, s, d, w) : 1 + (uint32_t)c.draw(30));
          put_tag(o, nums.back(), 3);
        }
        while (!nums.empty()) { put_tag(o, nums.back(), 4); nums.pop_back(); }
      }
    } else {
      auto &f = *best[c.draw(best.size() - 1)];
      if (f.card == MAP) {
        auto &ed = s.msgs[f.sub];
        std::string b;
        WCfg x = w;
        x.canon_tag = true;
        x.max_depth = 0;
        record(c, s, b, ed.fields[0], x, 0);
        if (is_msg_type(ed.fields[1].type)) {
          auto v = deep(c, s, ed.fields[1].sub, k - 2, w, groups);
          put_tag(b, 2, 2);
          put_varint(b, v.size());
          b += v;
        } else record(c, s, b, ed.fields[1], x, 0);
        put_tag(o, f.number, 2);
        put_varint(o, b.size());
        o += b;
      } else {
        auto b = deep(c, s, f.sub, k - 1, w, groups);
        if (f.type == T_GROUP) {
          put_tag(o, f.number, 3);
          o += b;
          put_tag(o, f.number, 4);
        } else {
          put_tag(o, f.number, 2);
          put_varint(o, b.size());
          o += b;
        }
      }
    }
  }
  return o;
}

// ---------------------------------------------------------------- mutations
inline void mutate(Case &c, std::string &b) {
  unsigned n = 1 + (unsigned)c.draw(2);
  while (n--) {
    switch (c.weighted({4, 4, 2, 2, 2, 1, 1})) {
    case 0: if (!b.empty()) b.resize(c.draw(b.size() - 1)); break;
    case 1: if (!b.empty()) { size_t i = c.draw(b.size() - 1); b[i] = (char)(b[i] ^ (1 << c.draw(7))); } break;
    case 2: b.insert(c.draw(b.size()), 1, (char)c.draw(255)); break;
    case 3: if (!b.empty()) b.erase(c.draw(b.size() - 1), 1 + c.draw(3)); break;
    case 4: if (!b.empty()) { static const unsigned char v[] = {0, 0x7f, 0x80, 0xff, 0xfe, 1}; b[c.draw(b.size() - 1)] = (char)c.pick(v); } break;
    case 5: { size_t at = c.draw(b.size()); static const unsigned char t[] = {0x0b, 0x0c, 0x14, 0x13, 0x06, 0x07, 0x00}; b.insert(at, 1, (char)c.pick(t)); break; }
    case 6: { size_t at = c.draw(b.size()); std::string v; ref::put_varint_long(v, c.coin() ? ~0ULL : rand_u64(c), 5 + c.draw(7)); b.insert(at, v); break; }
    }
  }
}
// appends a record that must not be accepted, at the top level or inside unknown groups
// appends something malformed: at the top level, in unknown groups or inside messages nested in b
inline void malform(Case &c, std::string &b, const ref::Schema &s, int root, const WCfg &w) {
  using namespace ref;
  std::vector<const FieldDesc *> path; // of message (or map to message) fields
  int d = root;
  while (path.size() < 4 && c.chance(2, 5)) {
    std::vector<const FieldDesc *> can;
    for (auto &f : s.msgs[d].fields)
      if (is_msg_type(f.card == MAP ? s.msgs[f.sub].fields[1].type : f.type)) can.push_back(&f);
    if (can.empty()) break;
    path.push_back(c.pick(can));
    d = path.back()->card == MAP ? s.msgs[path.back()->sub].fields[1].sub : path.back()->sub;
  }
  std::string bad;
  bool open = false; // nothing may follow it in its message
  switch (c.weighted({4, 2, 2, 2, 2, 2, 3})) {
  case 0: { // field number zero
    unsigned wire = (unsigned)c.draw(5);
    put_varint_long(bad, wire, 1 + c.draw(2));
    if (wire == 1) put_fixed(bad, rand_u64(c), 8);
    else if (wire == 2) { auto x = blob(c, 20); put_varint(bad, x.size()); bad += x; }
    else if (wire == 5) put_fixed(bad, rand_u64(c), 4);
    else if (wire == 3) put_varint(bad, 4);
    else put_varint(bad, rand_u64(c));
    break;
  }
  case 1: tag(c, bad, unknown_number(c, s, d, w), 6 + (int)c.draw(1), w); put_varint(bad, c.draw(300)); break;
  case 2: tag(c, bad, unknown_number(c, s, d, w), 4, w); break;
  case 3: { // length beyond the end
    tag(c, bad, unknown_number(c, s, d, w), 2, w);
    auto x = blob(c, 20);
    static const uint64_t more[] = {1, 2, 7, 100, 70000, 0x7fffffff - 64, 0x80000000ull, 0xffffff00ull};
    put_varint(bad, x.size() + c.pick(more));
    bad += x;
    open = true;
    break;
  }
  case 4: { // varint of more than ten bytes
    tag(c, bad, unknown_number(c, s, d, w), 0, w);
    bad.append(10 + c.draw(3), (char)0x80);
    bad += '\1';
    break;
  }
  case 5: { // group closed by another number, or not at all
    auto n = unknown_number(c, s, d, w);
    tag(c, bad, n, 3, w);
    if (c.coin()) unknown_field(c, bad, 1 + (uint32_t)c.draw(40), w, 3);
    if (c.coin()) { tag(c, bad, n == 1 ? 2 : n - 1, 4, w); }
    else open = true;
    break;
  }
  default: { // a record that is cut short; what follows its message may look like the rest of it
    if (c.coin() || s.msgs[d].fields.empty()) unknown_field(c, bad, unknown_number(c, s, d, w), w, 3);
    else record(c, s, bad, c.pick(s.msgs[d].fields), w, w.max_depth);
    if (!bad.empty()) bad.resize(c.coin() ? bad.size() - 1 : c.draw(bad.size() - 1));
    open = true;
  }
  }
  if (!open)
    for (auto k = c.draw(3); k; --k) {
      auto n = unknown_number(c, s, d, w);
      std::string g;
      tag(c, g, n, 3, w);
      if (c.coin()) unknown_field(c, g, 1 + (uint32_t)c.draw(40), w, 3);
      g += bad;
      if (c.coin()) unknown_field(c, g, 1 + (uint32_t)c.draw(40), w, 3);
      tag(c, g, n, 4, w);
      bad = g;
    }
  auto follow = [&](int m) {
    if (c.coin()) return;
    if (c.coin()) unknown_field(c, bad, unknown_number(c, s, m, w), w, 3);
    else bad += wire(c, s, m, w, w.max_depth);
  };
  if (!open) follow(d);
  for (size_t i = path.size(); i--;) {
    auto &f = *path[i];
    if (c.chance(1, 3)) bad = wire(c, s, d, w, w.max_depth) + bad;
    d = i ? (path[i - 1]->card == MAP ? s.msgs[path[i - 1]->sub].fields[1].sub : path[i - 1]->sub) : root;
    std::string o;
    if (f.card == MAP) {
      auto &ed = s.msgs[f.sub];
      std::string e;
      WCfg kw = w;
      kw.canon_tag = true;
      record(c, s, e, ed.fields[0], kw, w.max_depth);
      put_tag(e, 2, 2);
      varint(c, e, bad.size(), w, 5);
      bad = e + bad;
    }
    bool group = f.card != MAP && f.type == T_GROUP;
    tag(c, o, f.number, group ? 3 : 2, w);
    if (!group) varint(c, o, bad.size(), w, 5);
    bad = o + bad;
    if (group) tag(c, bad, f.number, 4, w);
    follow(d);
  }
  b += bad;
}
} // namespace gen
