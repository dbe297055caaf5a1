// The few helpers of glaze (not installed here) that the text codecs of hpp_proto/json/ use.
#pragma once
#include <array>
#include <charconv>
#include <cstddef>
#include <cstdint>
#include <string_view>
namespace glz {
inline constexpr std::array<uint16_t, 256> char_escape_table = [] {
  std::array<uint16_t, 256> t{};
  auto set = [&](char c, char e) { t[static_cast<unsigned char>(c)] = static_cast<uint16_t>('\\' | (static_cast<unsigned>(e) << 8)); };
  set('\b', 'b'); set('\f', 'f'); set('\n', 'n'); set('\r', 'r'); set('\t', 't'); set('"', '"'); set('\\', '\\');
  return t;
}();
template <class I> char *to_chars(char *it, I v) { return std::to_chars(it, it + 24, v).ptr; }
template <auto C, class B> void dump(B &&b, size_t &ix) { b[ix++] = C; }
} // namespace glz
