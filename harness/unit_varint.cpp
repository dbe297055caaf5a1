// V01: the varint primitives against a reference LEB128 codec.
#include "pbt.hpp"
#include <hpp_proto/binpb/varint.hpp>
#include <optional>
using namespace hpp_proto;

namespace {
struct Ref {
  static std::string enc(uint64_t v) {
    std::string s;
    do {
      unsigned char b = v & 0x7f;
      v >>= 7;
      s.push_back(char(b | (v ? 0x80 : 0)));
    } while (v);
    return s;
  }
  // value and length, or nothing when 10 bytes do not end it
  static std::optional<std::pair<uint64_t, size_t>> dec(std::string_view s) {
    uint64_t v = 0;
    for (size_t i = 0; i < 10; ++i) {
      uint64_t b = (unsigned char)s[i];
      if (i < 9 || true) v |= i * 7 < 64 ? (b & 0x7f) << (i * 7) : 0;
      if (!(b & 0x80)) return std::make_pair(v, i + 1);
    }
    return {};
  }
  static uint64_t zz(int64_t v) { return (uint64_t(v) << 1) ^ (v < 0 ? ~uint64_t(0) : 0); }
  static int64_t unzz(uint64_t v) { return int64_t((v >> 1) ^ (0 - (v & 1))); }
  static uint32_t zz32(int32_t v) { return (uint32_t(v) << 1) ^ (v < 0 ? ~uint32_t(0) : 0); }
  static int32_t unzz32(uint32_t v) { return int32_t((v >> 1) ^ (0 - (v & 1))); }
};

uint64_t some_u64(pbt::Case &c) {
  switch (c.weighted({3, 4, 3, 2, 2})) {
  case 0: return c.draw(300);
  case 1: { // around a power of two
    uint64_t b = uint64_t(1) << c.draw(63);
    return b + uint64_t(c.range(-2, 2));
  }
  case 2: return c.draw(UINT64_MAX) >> c.draw(63);
  case 3: return uint64_t(0) - (c.draw(UINT64_MAX) >> c.draw(63));
  default: { // around a multiple of 7 bits
    unsigned k = 7 * unsigned(c.draw(9));
    return (k >= 64 ? 0 : (uint64_t(1) << k)) - c.draw(1);
  }
  }
}

template <class V> uint64_t ref_wire(typename V::value_type v) {
  using T = typename V::value_type;
  if constexpr (V::encoding == varint_encoding::zig_zag) {
    if constexpr (sizeof(T) == 4) return Ref::zz32(v);
    else return Ref::zz(v);
  } else if constexpr (std::is_same_v<T, int32_t>) return uint64_t(int64_t(v));
  else return uint64_t(v);
}
template <class V> typename V::value_type ref_value(uint64_t w) {
  using T = typename V::value_type;
  if constexpr (V::encoding == varint_encoding::zig_zag) {
    if constexpr (sizeof(T) == 4) return Ref::unzz32(uint32_t(w));
    else return Ref::unzz(w);
  } else return static_cast<T>(w);
}

template <class V, class Byte> void pack_one(pbt::Case &c, const char *name) {
  using T = typename V::value_type;
  T v = static_cast<T>(some_u64(c));
  std::string want = Ref::enc(ref_wire<V>(v));
  c.note(std::string(name) + " value=" + std::to_string(v) + " expected=" + pbt::hex(want));
  if (want.size() > 1) c.nontrivial();
  c.label("bytes" + std::to_string(want.size()));
  c.check_f(V{v}.encode_size() == want.size(), "varint-size", [&] { return std::string(name) + " encode_size " + std::to_string(V{v}.encode_size()) + " for " + std::to_string(v); });
  Byte buf[12];
  memset(buf, 0x5a, sizeof buf);
  Byte *e = unchecked_pack_varint(V{v}, buf);
  std::string got(reinterpret_cast<char *>(buf), size_t(e - buf));
  c.check_f(got == want, "varint-pack", [&] { return std::string(name) + " of " + std::to_string(v) + " packed to " + pbt::hex(got) + ", expected " + pbt::hex(want); });
  for (size_t i = got.size(); i < sizeof buf; ++i) c.check(reinterpret_cast<unsigned char *>(buf)[i] == 0x5a, "varint-overwrite", "bytes behind the varint were written");
  // and back, with anything behind it
  Byte in[24];
  for (auto &b : in) b = Byte(c.draw(255));
  memcpy(in, got.data(), got.size());
  std::span<const Byte> s(in, 20);
  V item{};
  auto p = unchecked_parse_varint(s, item);
  c.check_f(p == s.data() + got.size() && item.value == v, "varint-roundtrip", [&] { return std::string(name) + " " + std::to_string(v) + " parsed as " + std::to_string(item.value) + " using " + std::to_string(p - s.data()) + " bytes"; });
}

// ten readable bytes that are a varint of any length, overlong and unterminated ones included
std::string some_varint_bytes(pbt::Case &c) {
  std::string s;
  switch (c.weighted({3, 3, 2, 1})) {
  case 0: s = Ref::enc(some_u64(c)); break;
  case 1: { // overlong
    s = Ref::enc(some_u64(c));
    while (s.size() < 10 && c.chance(3, 4)) {
      s.back() = char(s.back() | 0x80);
      s.push_back(0);
    }
    break;
  }
  case 2: { // any payload bits, length chosen
    size_t n = size_t(c.range(1, 11)), only = c.coin() ? n : c.draw(n - 1); // every byte, or one of them only
    for (size_t i = 0; i < n; ++i) {
      unsigned b = only < n && i != only ? 0 : c.chance(1, 3) ? (c.coin() ? 0 : 1u << c.draw(6)) : (unsigned)c.draw(127);
      s.push_back(char(b | (i + 1 < n ? 0x80 : 0)));
    }
    break;
  }
  default:
    for (int i = 0; i < 12; ++i) s.push_back(char(c.draw(255)));
  }
  while (s.size() < 20) s.push_back(char(c.draw(255)));
  return s;
}
template <class V, class Byte> void parse_one(pbt::Case &c, const char *name) {
  std::string s = some_varint_bytes(c);
  auto want = Ref::dec(s);
  c.note(std::string(name) + " bytes=" + pbt::hex(s.substr(0, 12)));
  if (!want || want->second > 1) c.nontrivial();
  c.label(want ? "len" + std::to_string(want->second) : "unterminated");
  Byte in[24];
  memcpy(in, s.data(), s.size());
  std::span<const Byte> r(in, s.size());
  V item{};
  auto p = unchecked_parse_varint(r, item);
  if (!want) {
    c.check(p > r.data() + r.size(), "varint-unterminated", "an unterminated varint was accepted");
    return;
  }
  auto v = ref_value<V>(want->first);
  c.check_f(p == r.data() + want->second && item.value == v, "varint-parse", [&] {
    return std::string(name) + " " + pbt::hex(s.substr(0, 12)) + " parsed as " + std::to_string(item.value) + " using " + std::to_string(p - r.data()) + " bytes, expected " + std::to_string(v) + " using " + std::to_string(want->second);
  });
}
template <class Bool, class Byte> void parse_bool(pbt::Case &c) {
  std::string s = some_varint_bytes(c);
  auto want = Ref::dec(s);
  c.note("bool bytes=" + pbt::hex(s.substr(0, 12)));
  if (!want || want->second > 1) c.nontrivial();
  c.label("bool");
  Byte in[24];
  memcpy(in, s.data(), s.size());
  std::span<const Byte> r(in, s.size());
  Bool item = bool(c.coin());
  auto p = unchecked_parse_bool(r, item);
  if (!want) {
    c.check(p > r.data() + r.size(), "varint-unterminated", "an unterminated varint was accepted as bool");
    return;
  }
  unsigned char raw;
  memcpy(&raw, &item, 1);
  c.check_f(p == r.data() + want->second && raw == (want->first != 0), "varint-bool", [&] { return "bool " + pbt::hex(s.substr(0, 12)) + " parsed as " + std::to_string(raw) + " using " + std::to_string(p - r.data()) + " bytes"; });
}
} // namespace

#define EACH(F)                                                                                                        \
  switch (c.draw(8)) {                                                                                                 \
  case 0: F<vuint64_t, std::byte>(c, "uint64"); break;                                                                 \
  case 1: F<vint64_t, char>(c, "int64"); break;                                                                        \
  case 2: F<vuint32_t, std::byte>(c, "uint32"); break;                                                                 \
  case 3: F<vint32_t, std::byte>(c, "int32"); break;                                                                   \
  case 4: F<vsint64_t, std::byte>(c, "sint64"); break;                                                                 \
  case 5: F<vsint32_t, unsigned char>(c, "sint32"); break;                                                             \
  case 6: F<vint32_t, char>(c, "int32/char"); break;                                                                   \
  case 7: F<vuint64_t, unsigned char>(c, "uint64/uchar"); break;                                                       \
  default: F<vint64_t, std::byte>(c, "int64/byte"); break;                                                             \
  }

PBT_PROP(varint_pack, "the value needs more than one byte") { EACH(pack_one) }
PBT_PROP(varint_parse, "the varint has more than one byte or does not end") {
  if (c.chance(1, 5)) {
    if (c.coin()) parse_bool<bool, std::byte>(c);
    else parse_bool<boolean, char>(c);
    return;
  }
  EACH(parse_one)
}
