// J01, J02: the text forms of bytes, Timestamp, Duration and FieldMask.
#include "pbt.hpp"
#include <cassert>
#include <charconv>
#include <deque>
#include <hpp_proto/json.hpp>
#include <hpp_proto/binpb/util.hpp>
#include <hpp_proto/field_types.hpp>
#include <hpp_proto/binpb.hpp>
#include <hpp_proto/json/base64.hpp>
#include <hpp_proto/json/duration_codec.hpp>
#include <hpp_proto/json/field_mask_codec.hpp>
#include <hpp_proto/json/timestamp_codec.hpp>
#include <memory_resource>
#include <optional>

extern "C" bool is_utf8(const char *, size_t) { return true; }
using namespace pbt;
namespace {
struct Time { int64_t seconds = 0; int32_t nanos = 0; bool operator==(const Time &) const = default; };
template <class S, class V> struct Mask { V paths; };
using OwnMask = Mask<std::string, std::vector<std::string>>;
using ViewMask = Mask<std::string_view, hpp_proto::equality_comparable_span<const std::string_view>>;
std::string show(const Time &t) { return std::to_string(t.seconds) + "s " + std::to_string(t.nanos) + "ns"; }

// ------------------------------------------------------------------ base64
constexpr std::string_view A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
std::string ref64(std::string_view s) {
  std::string r;
  uint32_t acc = 0;
  int bits = 0;
  for (unsigned char c : s) {
    acc = acc << 8 | c;
    for (bits += 8; bits >= 6; bits -= 6) r += A64[acc >> (bits - 6) & 63];
  }
  if (bits) r += A64[acc << (6 - bits) & 63];
  while (r.size() % 4) r += '=';
  return r;
}
// 1: the bytes, 0: not base64, -1: another flavour of base64 (URL alphabet, padding left out)
int ref64_decode(std::string_view t, std::string &out) {
  auto body = t;
  size_t pad = 0;
  while (body.ends_with('=') && pad < 2) { body.remove_suffix(1); ++pad; }
  bool url = false;
  uint32_t acc = 0;
  int bits = 0;
  for (char ch : body) {
    auto i = A64.find(ch);
    if (i == A64.npos) {
      if (ch != '-' && ch != '_') return 0;
      url = true;
      i = 62;
    }
    acc = acc << 6 | (uint32_t)i;
    bits += 6;
    if (bits >= 8) { out += (char)(acc >> (bits - 8)); bits -= 8; }
  }
  if (body.size() % 4 == 1) return 0;
  if (t.size() % 4) return pad ? 0 : -1;
  if ((body.size() + pad) % 4 || (pad && body.size() % 4 == 0)) return 0;
  return url ? -1 : 1;
}
std::string some_bytes(Case &c) {
  std::string s;
  size_t n = c.weighted({4, 3, 1}) == 0 ? c.draw(8) : c.draw(120);
  if (c.chance(1, 60)) n = 1000 + c.draw(3000);
  int kind = (int)c.draw(3);
  for (size_t i = 0; i < n; ++i) s += (char)(kind == 0 ? c.draw(255) : kind == 1 ? 0xff - c.draw(3) : kind == 2 ? c.draw(2) : (i * 37 + n));
  return s;
}
template <class F> void text_decodes(Case &c, std::string_view t, F &&f) {
  // exactly as many bytes as there are, so that ASan sees a read past the end
  std::vector<char> exact(t.begin(), t.end());
  f(std::string_view(exact.data(), exact.size()));
  (void)c;
}

// ------------------------------------------------------------------ civil time
int64_t days_from_civil(int64_t y, int m, int d) { // counted year by year and month by month, from 0001-01-01
  static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334};
  auto leap = [](int64_t v) { return v % 4 == 0 && (v % 100 != 0 || v % 400 == 0); };
  int64_t p = y - 1;
  return p * 365 + p / 4 - p / 100 + p / 400 + cum[m - 1] + (m > 2 && leap(y)) + d - 1 - 719162;
}
int month_len(int64_t y, int m) {
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return len[m - 1] + (m == 2 && y % 4 == 0 && (y % 100 != 0 || y % 400 == 0));
}
std::optional<int64_t> digits(std::string_view s, size_t min, size_t max) {
  if (s.size() < min || s.size() > max) return {};
  int64_t v = 0;
  for (char ch : s) {
    if (ch < '0' || ch > '9') return {};
    v = v * 10 + (ch - '0');
  }
  return v;
}
std::optional<int32_t> fraction(std::string_view s) {
  auto v = digits(s, 1, 9);
  if (!v) return {};
  for (size_t i = s.size(); i < 9; ++i) *v *= 10;
  return (int32_t)*v;
}
// the value of yyyy-mm-ddThh:mm:ss[.fraction]Z
std::optional<Time> ref_timestamp(std::string_view s) {
  if (s.size() < 20 || s.back() != 'Z') return {};
  s.remove_suffix(1);
  if (s[4] != '-' || s[7] != '-' || s[10] != 'T' || s[13] != ':' || s[16] != ':') return {};
  auto y = digits(s.substr(0, 4), 4, 4), mo = digits(s.substr(5, 2), 2, 2), d = digits(s.substr(8, 2), 2, 2), h = digits(s.substr(11, 2), 2, 2),
       mi = digits(s.substr(14, 2), 2, 2), se = digits(s.substr(17, 2), 2, 2);
  if (!y || !mo || !d || !h || !mi || !se) return {};
  if (*y < 1 || *mo < 1 || *mo > 12 || *d < 1 || *d > month_len(*y, (int)*mo) || *h > 23 || *mi > 59 || *se > 59) return {};
  Time t;
  t.seconds = days_from_civil(*y, (int)*mo, (int)*d) * 86400 + *h * 3600 + *mi * 60 + *se;
  if (s.size() > 19) {
    if (s[19] != '.') return {};
    auto n = fraction(s.substr(20));
    if (!n) return {};
    t.nanos = *n;
  }
  return t;
}
std::string frac_text(int32_t n) {
  if (!n) return "";
  char b[16];
  snprintf(b, sizeof b, "%09d", n);
  std::string s(b);
  if (s.ends_with("000000")) s.resize(3);
  else if (s.ends_with("000")) s.resize(6);
  return "." + s;
}
std::string ref_timestamp_text(Time t) {
  int64_t day = t.seconds / 86400, rest = t.seconds % 86400;
  if (rest < 0) { rest += 86400; --day; }
  int64_t y = 1970 + day / 366;
  while (y > 1 && days_from_civil(y, 1, 1) > day) --y;
  while (days_from_civil(y + 1, 1, 1) <= day) ++y;
  int m = 12;
  while (days_from_civil(y, m, 1) > day) --m;
  char b[64];
  snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", (int)y, m, (int)(day - days_from_civil(y, m, 1) + 1), (int)(rest / 3600), (int)(rest / 60 % 60), (int)(rest % 60));
  return b + frac_text(t.nanos) + "Z";
}
constexpr int64_t TMIN = -62135596800, TMAX = 253402300799, DMAX = 315576000000;
std::optional<Time> ref_duration(std::string_view s) {
  if (!s.ends_with('s')) return {};
  s.remove_suffix(1);
  bool neg = s.starts_with('-');
  if (neg) s.remove_prefix(1);
  auto dot = s.find('.');
  auto whole = s.substr(0, dot);
  while (whole.size() > 1 && whole[0] == '0') whole.remove_prefix(1);
  auto v = digits(whole, 1, 18);
  if (!v || *v > DMAX) return {};
  Time t{*v, 0};
  if (dot != s.npos) {
    auto n = fraction(s.substr(dot + 1));
    if (!n) return {};
    t.nanos = *n;
  }
  if (neg) { t.seconds = -t.seconds; t.nanos = -t.nanos; }
  return t;
}
int32_t some_nanos(Case &c) {
  switch (c.draw(5)) {
  case 0: return 0;
  case 1: return (int32_t)c.draw(999) * 1000000;
  case 2: return (int32_t)c.draw(999999) * 1000;
  case 3: return (int32_t)c.draw(999999999);
  case 4: return 999999999 - (int32_t)c.draw(2);
  default: return (int32_t)c.draw(3);
  }
}
int64_t some_seconds(Case &c, int64_t lo, int64_t hi) {
  switch (c.draw(7)) {
  case 0: return (int64_t)c.draw(200000) - 100000;
  case 6:
  case 7: return c.draw(6) - (int64_t)c.draw(3);
  case 1: return hi - (int64_t)c.draw(5) + 2;
  case 2: return lo + (int64_t)c.draw(5) - 2;
  case 3: return days_from_civil((int64_t)c.draw(9997) + 1, 1 + (int)c.draw(11), 1) * 86400 + (int64_t)c.draw(4) - 2; // around a month's start
  case 4: return c.coin() ? INT64_MIN + (int64_t)c.draw(2) : INT64_MAX - (int64_t)c.draw(2);
  default: return lo + (int64_t)(c.draw((uint64_t)(hi - lo)));
  }
}
std::string mutate(Case &c, std::string s) {
  static const char alphabet[] = "0123456789-+:.TZs =,aA/\0tz\x80";
  for (size_t k = c.weighted({2, 5, 2, 1}); k; --k) {
    size_t at = s.empty() ? 0 : c.draw(s.size() - 1);
    size_t kind = c.weighted({4, 4, 3});
    char ch = kind == 0 ? (char)('0' + c.draw(9)) : kind == 1 ? alphabet[c.draw(sizeof alphabet - 2)] : (char)c.draw(255);
    switch (c.draw(3)) {
    case 0: if (!s.empty()) s[at] = ch; break;
    case 1: s.insert(s.begin() + at, ch); break;
    case 2: if (!s.empty()) s.erase(at, 1); break;
    default: if (s.size() > 1) { size_t b = c.draw(s.size() - 1); s.insert(b, s.substr(at, 1 + c.draw(2))); }
    }
  }
  return s;
}
template <class Codec> void time_codec(Case &c, const char *what, int64_t lo, int64_t hi, bool dur, auto &&parse, auto &&print) {
  hpp_proto::pb_context<> ctx;
  Time t{some_seconds(c, lo, hi), some_nanos(c)};
  if (c.chance(1, 8)) t.nanos = c.coin() ? 1000000000 + (int32_t)c.draw(1) : INT32_MIN + (int32_t)c.draw(2);
  if (dur ? t.seconds < 0 || (t.seconds == 0 && c.coin()) : c.chance(1, 20)) t.nanos = t.nanos == INT32_MIN ? t.nanos : -t.nanos;
  if (dur && c.chance(1, 10)) t.nanos = -(t.nanos / 2);
  bool ok = t.seconds >= lo && t.seconds <= hi && t.nanos <= 999999999 && (dur ? t.nanos >= -999999999 && (t.seconds == 0 || t.nanos == 0 || (t.seconds > 0) == (t.nanos > 0)) : t.nanos >= 0);
  c.note(std::string(what) + " " + show(t));
  std::vector<char> buf(Codec::max_encode_size(t));
  int64_t n = Codec::encode(t, std::span<char>(buf));
  std::string text;
  if (!ok) {
    c.check(n < 0, "json-range", std::string(what) + " " + show(t) + " is out of range but was written");
    text = print(Time{dur ? t.seconds % 1000 : t.seconds % 100000, 500});
    c.label("out of range");
  } else {
    text = print(t);
    c.check(n >= 0 && (size_t)n <= buf.size(), "json-encode", std::string(what) + " " + show(t) + " cannot be written");
    c.check_f(std::string_view(buf.data(), (size_t)n) == text, "json-text", [&] { return std::string(what) + " " + show(t) + " is written as " + std::string(buf.data(), (size_t)n) + " instead of " + text; });
    Time back{7, 7};
    text_decodes(c, text, [&](std::string_view s) { c.check(Codec::decode(s, back, ctx), "json-decode", std::string(what) + " " + text + " is rejected"); });
    c.check_f(back == t, "json-roundtrip", [&] { return std::string(what) + " " + text + " is read as " + show(back); });
  }
  auto bad = mutate(c, text);
  auto want = parse(std::string_view(bad));
  c.note("text " + hex(bad, 80));
  if (bad != text) c.nontrivial();
  c.label(want ? "mutated text valid" : "mutated text invalid");
  // forms of RFC 3339 and of the JSON mapping that the library may or may not take
  if (!dur && !want && (bad.find_first_of("tz+ ") != bad.npos || std::count(bad.begin(), bad.end(), '-') > 2)) {
    bool sign = false; // a sign within a number is never right
    for (size_t i = 0; i + 1 < bad.size() && i < 19; ++i) sign |= (bad[i] == '-' || bad[i] == '+') && i != 4 && i != 7;
    for (size_t i = 20; i + 1 < bad.size() && !sign; ++i) sign |= bad[i] == '-' && bad[i - 1] == '.';
    if (!sign) return;
  }
  Time got{7, 7};
  text_decodes(c, bad, [&](std::string_view s) {
    bool r = Codec::decode(s, got, ctx);
    c.check_f(r == want.has_value(), "json-accept", [&] { return std::string(what) + " text \"" + bad + "\" is " + (r ? "accepted as " + show(got) : "rejected") + (want ? ", it means " + show(*want) : ", it is malformed"); });
    if (r) c.check_f(got == *want, "json-value", [&] { return std::string(what) + " text \"" + bad + "\" is read as " + show(got) + " instead of " + show(*want); });
  });
}
std::string unescape(Case &c, std::string_view s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char ch = (unsigned char)s[i];
    c.check(ch >= 0x20 && ch != '"', "json-escape", "an unescaped character " + std::to_string(ch) + " in the text of a JSON string");
    if (ch != '\\') { r += (char)ch; continue; }
    c.check(++i < s.size(), "json-escape", "a lone backslash ends the text");
    switch (s[i]) {
    case 'b': r += '\b'; break;
    case 'f': r += '\f'; break;
    case 'n': r += '\n'; break;
    case 'r': r += '\r'; break;
    case 't': r += '\t'; break;
    case '"': case '\\': case '/': r += s[i]; break;
    case 'u': {
      c.check(i + 4 < s.size(), "json-escape", "an incomplete \\u escape");
      unsigned v = 0;
      auto x = std::from_chars(s.data() + i + 1, s.data() + i + 5, v, 16);
      c.check(x.ptr == s.data() + i + 5 && v < 128, "json-escape", "a bad \\u escape");
      r += (char)v;
      i += 4;
      break;
    }
    default: c.fail("json-escape", "an unknown escape sequence");
    }
  }
  return r;
}
} // namespace

PBT_PROP(base64, "at least 3 bytes, or text that is not what encoding gives") {
  auto s = some_bytes(c);
  auto want = ref64(s);
  c.note("bytes " + hex(s, 60));
  if (s.size() >= 3) c.nontrivial();
  auto encode = [&](const auto &src, const char *how) {
    std::vector<char> out(hpp_proto::base64::max_encode_size(src));
    int64_t n = hpp_proto::base64::encode(src, std::span<char>(out));
    c.check_f(n >= 0 && std::string_view(out.data(), (size_t)n) == want, "base64-encode", [&] { return std::string(how) + ": encoded as " + std::string(out.data(), (size_t)std::max<int64_t>(n, 0)) + " instead of " + want; });
  };
  // sources that end where their allocation ends
  std::vector<std::byte> b;
  b.reserve(s.size());
  for (char ch : s) b.push_back((std::byte)ch);
  b.shrink_to_fit();
  encode(b, "bytes");
  encode(std::vector<char>(s.begin(), s.end()), "chars");
  encode(std::span<const std::byte>(b), "span");
  std::string text = c.coin() ? want : mutate(c, want);
  if (c.chance(1, 4) && !text.empty()) for (size_t k = c.draw(3); k-- && k < text.size();) text[text.size() - 1 - k] = "=A/=\n"[c.draw(4)];
  if (text != want) c.nontrivial();
  c.note("text " + hex(text, 90));
  std::string ref;
  int ok = ref64_decode(text, ref);
  c.label(ok > 0 ? (text == want ? "canonical text" : "other valid text") : ok ? "other flavour" : "invalid text");
  auto verify = [&](bool r, const auto &got, const char *how) {
    if (ok < 0) return;
    c.check_f(r == (ok == 1), "base64-accept", [&] { return std::string(how) + ": text " + text + (r ? " is accepted" : " is rejected"); });
    if (r) c.check_f(std::ranges::equal(got, ref, [](auto x, auto y) { return (char)x == (char)y; }), "base64-decode", [&] { return std::string(how) + ": text " + text + " decodes to " + std::to_string(got.size()) + " bytes, not to " + hex(ref); });
  };
  std::vector<char> exact(text.begin(), text.end());
  std::string_view sv(exact.data(), exact.size());
  {
    hpp_proto::pb_context<> ctx;
    std::vector<std::byte> out(c.draw(6));
    bool r = hpp_proto::base64::decode(sv, out, ctx);
    verify(r, out, "bytes");
    std::string str("old");
    r = hpp_proto::base64::decode(sv, str, ctx);
    verify(r, str, "string");
  }
  {
    std::pmr::monotonic_buffer_resource mr;
    hpp_proto::pb_context ctx{hpp_proto::alloc_from(mr)};
    hpp_proto::equality_comparable_span<const std::byte> out;
    bool r = hpp_proto::base64::decode(sv, out, ctx);
    verify(r, out, "view");
  }
}
PBT_PROP(timestamp, "the text differs from the canonical text of a value") {
  time_codec<hpp_proto::timestamp_codec>(c, "Timestamp", TMIN, TMAX, false, ref_timestamp, ref_timestamp_text);
}
PBT_PROP(duration, "the text differs from the canonical text of a value") {
  time_codec<hpp_proto::duration_codec>(c, "Duration", -DMAX, DMAX, true, ref_duration, [](Time t) {
    bool neg = t.seconds < 0 || t.nanos < 0;
    return (neg ? "-" : "") + std::to_string(t.seconds < 0 ? -t.seconds : t.seconds) + frac_text(t.nanos < 0 ? -t.nanos : t.nanos) + "s";
  });
}
PBT_PROP(field_mask, "two or more paths, or a path with a character that is escaped") {
  OwnMask m;
  std::string joined;
  bool special = false;
  for (size_t n = c.draw(4), i = 0; i < n; ++i) {
    std::string p;
    for (size_t k = c.draw(6) + (n == 1); k; --k) {
      char ch = c.chance(2, 3) ? (char)('a' + c.draw(25)) : (char)c.draw(255);
      if (ch == ',') ch = '.';
      special |= (unsigned char)ch < 0x20 || ch == '"' || ch == '\\';
      p += ch;
    }
    joined += (i ? "," : "") + p;
    m.paths.push_back(p);
  }
  c.note("paths " + hex(joined, 80));
  if (m.paths.size() > 1 || special) c.nontrivial();
  std::vector<char> buf(hpp_proto::field_mask_codec::max_encode_size(m));
  auto n = hpp_proto::field_mask_codec::encode(m, std::span<char>(buf));
  c.check(n >= 0 && (size_t)n <= buf.size(), "mask-size", "the text is longer than max_encode_size");
  auto text = unescape(c, std::string_view(buf.data(), (size_t)n));
  c.check_f(text == joined, "mask-text", [&] { return "written as " + hex(text) + " instead of " + hex(joined); });
  OwnMask back;
  back.paths = {"old", "x", "y", "z", "w", "v"};
  back.paths.resize(c.draw(6));
  hpp_proto::pb_context<> ctx;
  c.check(hpp_proto::field_mask_codec::decode(joined, back, ctx) && back.paths == m.paths, "mask-decode", "read as " + std::to_string(back.paths.size()) + " paths instead of " + std::to_string(m.paths.size()));
  std::pmr::monotonic_buffer_resource mr;
  hpp_proto::pb_context actx{hpp_proto::alloc_from(mr)};
  ViewMask v;
  bool r;
  {
    auto tmp = std::make_unique<std::string>(joined);
    r = hpp_proto::field_mask_codec::decode(*tmp, v, actx);
  } // the view must not refer to the text
  c.check(r && std::ranges::equal(v.paths, m.paths), "mask-decode", "read as " + std::to_string(v.paths.size()) + " paths by a non-owning mask");
  std::vector<char> buf2(hpp_proto::field_mask_codec::max_encode_size(v));
  auto n2 = hpp_proto::field_mask_codec::encode(v, std::span<char>(buf2));
  c.check(n2 == n && buf2 == buf, "mask-text", "a non-owning mask is written differently");
}
