// Property-based testing engine: every random decision of a test case is one entry of a
// "choice sequence".  A case can be driven by a seeded RNG, by a recorded sequence (replay and
// shrinking) or by raw bytes (libFuzzer).  Cases run in forked workers, so crashes, sanitizer
// reports and hangs are ordinary failures and are shrunk like any other.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 0xcbf29ce484222325ULL) {
  auto *c = static_cast<const unsigned char *>(p);
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 0x100000001b3ULL;
  uint64_t s = h;
  return splitmix(s);
}

struct Failure {
  std::string sig, msg;
};
struct Discard {};
inline char *live_notes = nullptr;

constexpr size_t kMsg = 1u << 16;
constexpr size_t kMaxChoices = 1u << 19;
struct Slot { // shared between a worker (or shrink child) and the parent
  volatile uint64_t case_index;
  volatile uint64_t case_start_ms;
  volatile uint64_t n_choices;
  volatile uint32_t state; // 0 idle, 1 running, 2 failed(Failure), 3 finished, 4 discarded
  char sig[512];
  char msg[kMsg];
  char notes[kMsg]; // what the case noted so far, for cases that crash
  uint64_t choices[kMaxChoices];
};

class Source {
public:
  enum class Mode { random, replay, bytes };
  Source(uint64_t seed, Slot *slot) : mode_(Mode::random), rng_(seed), slot_(slot) { reset(); }
  Source(const std::vector<uint64_t> *replay, Slot *slot) : mode_(Mode::replay), replay_(replay), slot_(slot) { reset(); }
  Source(const uint8_t *b, size_t n, Slot *slot) : mode_(Mode::bytes), b_(b), e_(b + n), slot_(slot) { reset(); }
  // uniform in [0, max]; 0 must always be the simplest choice
  uint64_t draw(uint64_t max) {
    uint64_t v = 0;
    if (count_ >= kMaxChoices) throw Discard{};
    switch (mode_) {
    case Mode::random: {
      uint64_t r = splitmix(rng_);
      v = max == UINT64_MAX ? r : (max == 0 ? 0 : static_cast<uint64_t>((static_cast<unsigned __int128>(r) * (static_cast<unsigned __int128>(max) + 1)) >> 64));
      break;
    }
    case Mode::replay:
      v = count_ < replay_->size() ? (*replay_)[count_] : 0;
      if (v > max) v = max == 0 ? 0 : v % (max + 1);
      break;
    case Mode::bytes: {
      if (max == 0) break;
      int nb = 1;
      while (nb < 8 && (max >> (8 * nb)) != 0) ++nb;
      for (int i = 0; i < nb; ++i) v |= static_cast<uint64_t>(b_ < e_ ? *b_++ : 0) << (8 * i);
      if (v > max) v = v % (max + 1);
      break;
    }
    }
    if (slot_) {
      slot_->choices[count_] = v;
      slot_->n_choices = count_ + 1;
    }
    ++count_;
    hash_ = hash_bytes(&v, 8, hash_);
    return v;
  }
  bool exhausted() const {
    return mode_ == Mode::bytes ? b_ >= e_ : mode_ == Mode::replay ? count_ >= replay_->size() : false;
  }
  uint64_t hash() const { return hash_; }
  size_t count() const { return count_; }

private:
  void reset() {
    if (slot_) slot_->n_choices = 0;
  }
  Mode mode_;
  uint64_t rng_ = 0;
  const std::vector<uint64_t> *replay_ = nullptr;
  const uint8_t *b_ = nullptr, *e_ = nullptr;
  Slot *slot_;
  size_t count_ = 0;
  uint64_t hash_ = 0x1234567;
};

struct Stats {
  uint64_t cases = 0, discarded = 0, nontrivial = 0;
  std::map<std::string, uint64_t> labels;
  std::map<std::string, uint64_t> known; // known finding signature -> hits
  std::vector<uint64_t> hashes;          // of non-trivial cases
  std::vector<std::string> samples;
};

class Case {
public:
  Case(Source &s, Stats *st, bool verbose) : src(s), stats_(st), verbose_(verbose) {}
  Source &src;
  // ---- drawing -------------------------------------------------------------------------
  uint64_t draw(uint64_t max) { return src.draw(max); }
  // integer in [lo, hi], simplest = lo
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo))); }
  // true with probability num/den; false is the simplest
  bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
  bool coin() { return draw(1) != 0; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size() - 1)]; }
  template <class T, size_t N> const T &pick(const T (&v)[N]) { return v[draw(N - 1)]; }
  // weighted choice, index 0 simplest
  unsigned weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0;
    for (auto x : w) tot += x;
    uint64_t r = draw(tot - 1);
    unsigned i = 0;
    for (auto x : w) {
      if (r < x) return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  // ---- reporting -----------------------------------------------------------------------
  void label(const std::string &l) {
    if (stats_) ++stats_->labels[l];
  }
  void nontrivial() { nontrivial_ = true; }
  bool is_nontrivial() const { return nontrivial_; }
  void note(const std::string &s) {
    if (verbose_ || want_sample) desc_ += s + "\n";
    if (live_notes) { // the buffer is kMsg bytes
      size_t l = strlen(live_notes);
      if (l + s.size() + 2 < kMsg) memcpy(live_notes + l, (s + "\n").c_str(), s.size() + 2);
    }
  }
  bool verbose() const { return verbose_ || want_sample; }
  bool want_sample = false;
  const std::string &desc() const { return desc_; }
  [[noreturn]] void fail(const std::string &sig, const std::string &msg) { throw Failure{sig, msg}; }
  void check(bool ok, const std::string &sig, const std::string &msg = "") {
    if (!ok) throw Failure{sig, msg};
  }
  template <class F> void check_f(bool ok, const std::string &sig, F &&f) {
    if (!ok) throw Failure{sig, f()};
  }
  void discard() { throw Discard{}; }

private:
  Stats *stats_;
  bool verbose_;
  bool nontrivial_ = false;
  std::string desc_;
};

using PropFn = std::function<void(Case &)>;
struct Prop {
  std::string name;
  PropFn fn;
  std::string rule; // what counts as a non-trivial case
};
std::vector<Prop> &registry();
struct Reg {
  Reg(const char *n, const char *rule, PropFn f) { registry().push_back({n, std::move(f), rule}); }
};
#define PBT_PROP(ident, rule)                                                                                          \
  static void prop_##ident(::pbt::Case &c);                                                                            \
  static ::pbt::Reg reg_##ident(#ident, rule, prop_##ident);                                                           \
  static void prop_##ident([[maybe_unused]] ::pbt::Case &c)

// ---- small helpers -----------------------------------------------------------------------
inline std::string hex(std::string_view s, size_t limit = 400) {
  static const char *d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < s.size() && i < limit; ++i) {
    r += d[(unsigned char)s[i] >> 4];
    r += d[(unsigned char)s[i] & 15];
  }
  if (s.size() > limit) r += "...(" + std::to_string(s.size()) + " bytes)";
  return r;
}
} // namespace pbt
