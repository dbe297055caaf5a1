// Properties of the binary codec of generated messages, over the (message, traits) table.
#include "ops.hpp"
#include <cstring>

extern "C" bool is_utf8(const char *s, size_t n) { return ref::valid_utf8(std::string_view(s, n)); }

#ifdef KS_RUNTIME_TABLE // the schema was generated at run time
#include <fstream>
static ref::Schema load_schema() {
  std::ifstream f(getenv("KS_TABLE"));
  return ref::Schema::parse(f);
}
#else
#include "ks.tbl.hpp"
static ref::Schema load_schema() { return ref::Schema::parse(kSchemaTable); }
#endif
namespace ops {
std::vector<Entry> &table() {
  static std::vector<Entry> t;
  return t;
}
const ref::Schema &schema() {
  static ref::Schema s = load_schema();
  return s;
}
} // namespace ops
namespace ad {
const ref::Schema &schema() { return ops::schema(); }
} // namespace ad

using namespace pbt;
using ops::Entry;
using ops::Out;
static const ref::Schema &S() { return ops::schema(); }

template <class F> static const Entry &pick(Case &c, F &&has) {
  static std::vector<const Entry *> v = [&] {
    std::vector<const Entry *> r;
    for (auto &e : ops::table())
      if (has(e)) r.push_back(&e);
    std::sort(r.begin(), r.end(), [](auto *a, auto *b) { return std::tie(a->msg, a->trait) < std::tie(b->msg, b->trait); });
    return r;
  }();
  if (v.empty()) throw std::runtime_error("no entries");
  return *v[c.draw(v.size() - 1)];
}
static std::string who(const Entry &e) { return e.msg + "<" + e.trait + ">"; }
static std::string show(const ref::Msg &m) { return ref::dump(S(), m, true); }

// drops unknown data a traits class cannot keep
static void strip_unknown(ref::Msg &m, bool keep) {
  if (!keep && !S().msgs[m.d].extendable) m.unknown.clear();
  for (auto &fv : m.f)
    for (auto &v : fv.v)
      if (v.msg) strip_unknown(*v.msg, keep);
}
static bool has_nan(const ref::Msg &m) {
  auto &md = S().msgs[m.d];
  for (size_t i = 0; i < m.f.size(); ++i) {
    auto &fd = md.fields[i];
    auto isnan_ = [&](int type, const ref::Val &v) {
      if (type == ref::T_DOUBLE) return (v.num & 0x7ff0000000000000ULL) == 0x7ff0000000000000ULL && (v.num & 0xfffffffffffffULL);
      if (type == ref::T_FLOAT) return (v.num & 0x7f800000U) == 0x7f800000U && (v.num & 0x7fffffU) != 0;
      return false;
    };
    for (size_t k = 0; k < m.f[i].v.size(); ++k) {
      auto &v = m.f[i].v[k];
      if (v.msg && has_nan(*v.msg)) return true;
      int t = fd.card == ref::MAP ? S().msgs[fd.sub].fields[k & 1].type : fd.type;
      if (isnan_(t, v)) return true;
    }
  }
  return false;
}
// adds unknown fields at random places of the tree
static void add_unknown(Case &c, ref::Msg &m, bool keep) {
  if (keep || S().msgs[m.d].extendable) {
    gen::WCfg w;
    w.overlong = false;
    size_t n = c.draw(2);
    while (n--) {
      auto num = gen::unknown_number(c, S(), m.d, w);
      if (S().msgs[m.d].extendable && !S().msgs[m.d].in_ext_range(num)) num = 100 + num % 100;
      if (S().msgs[m.d].find(num) >= 0) continue;
      std::string raw;
      gen::unknown_field(c, raw, num, w, 0);
      m.unknown.push_back({num, raw});
    }
  }
  for (auto &fv : m.f)
    for (auto &v : fv.v)
      if (v.msg && c.chance(1, 3)) add_unknown(c, *v.msg, keep);
}
static ref::Msg gen_value(Case &c, const Entry &e, bool unknown) {
  gen::Cfg cfg;
  auto m = gen::message(c, S(), e.d, cfg);
  if (unknown && c.chance(1, 3)) add_unknown(c, m, e.keep);
  return m;
}
static void classify(Case &c, const Entry &e, const std::string &enc) {
  c.label("traits " + e.trait);
  c.label(enc.empty() ? "encoding empty" : enc.size() < 16 ? "encoding <16 B" : enc.size() < 128 ? "encoding 16..127 B" : enc.size() < 16384 ? "encoding 128..16383 B" : "encoding >=16 KiB");
  if (enc.size() >= 4) c.nontrivial();
}

PBT_PROP(roundtrip, "the value encodes to at least 4 bytes") {
  auto &e = pick(c, [](auto &e) { return (bool)e.roundtrip; });
  auto v = gen_value(c, e, true);
  auto r = e.roundtrip(v);
  c.note(who(e) + "\n" + show(v) + "encoding: " + hex(r.bytes));
  classify(c, e, r.bytes);
  c.check(r.ec == 0, "roundtrip-status", who(e) + ": " + r.note + " failed with errc " + std::to_string(r.ec));
  c.check_f(ref::same(S(), r.msg, v, true), "roundtrip-value", [&] { return who(e) + ": read back\n" + show(r.msg) + "instead of\n" + show(v); });
  if (!r.eq && r.note == "operator== is false" && has_nan(v)) return;
  c.check(r.eq, "roundtrip-equal", who(e) + ": " + r.note);
}

// the encoding, checked record by record against the canonical one
static void check_encoding(Case &c, const std::string &w, const ref::Msg &v, const std::string &bytes, const char *sig) {
  ref::Msg back = ref::make(S(), v.d);
  ref::Decoder d{S(), {}};
  d.o.depth_limit = 100000;
  d.o.utf8 = false;
  auto res = d.run(back, bytes);
  c.check_f(res == ref::Res::ok, std::string(sig) + "-undecodable", [&] { return w + ": output is not a valid encoding (" + d.r.why + "): " + hex(bytes); });
  c.check_f(ref::same(S(), back, v, true), std::string(sig) + "-value", [&] { return w + ": output decodes to\n" + show(back) + "instead of\n" + show(v); });
  std::vector<std::string> got, want;
  bool ok = ref::split(bytes, got);
  ref::encode_tokens(S(), v, want);
  std::vector<std::string> want2; // unknown blobs may hold several records
  for (auto &t : want) ref::split(t, want2);
  auto head = [](std::vector<std::string> &t) {
    std::vector<std::pair<std::string, size_t>> r;
    for (auto &x : t) {
      size_t i = 0;
      while (i + 1 < x.size() && (x[i] & 0x80)) ++i;
      r.push_back({x.substr(0, i + 1), x.size()});
    }
    std::sort(r.begin(), r.end());
    return r;
  };
  c.check_f(ok && head(got) == head(want2), std::string(sig) + "-records", [&] {
    std::string s = w + ": records differ from the canonical encoding\n got:";
    for (auto &t : got) s += " " + hex(t, 60);
    s += "\n want:";
    for (auto &t : want2) s += " " + hex(t, 60);
    return s;
  });
}
PBT_PROP(encode, "the value encodes to at least 4 bytes") {
  auto &e = pick(c, [](auto &e) { return (bool)e.write; });
  auto v = gen_value(c, e, true);
  auto r = e.write(v);
  c.note(who(e) + "\n" + show(v) + "encoding: " + hex(r.bytes));
  classify(c, e, r.bytes);
  c.check(r.ec == 0, "encode-status", who(e) + ": write failed with errc " + std::to_string(r.ec));
  check_encoding(c, who(e), v, r.bytes, "encode");
}

static ref::Res expected(const Entry &e, std::string_view in, ref::Msg &out, const char **why = nullptr, int *depth = nullptr) {
  out = ref::make(S(), e.d);
  ref::Decoder d{S(), {}};
  auto r = d.run(out, in);
  if (why) *why = d.r.why;
  if (depth) *depth = d.max_depth;
  strip_unknown(out, e.keep);
  return r;
}
static void compare_read(Case &c, const Entry &e, ref::Res res, const ref::Msg &want, const char *why, const Out &got, std::string_view in, const std::string &sig) {
  if (res == ref::Res::unspecified) return;
  if (res == ref::Res::bad) {
    c.check_f(got.ec != 0, sig + "-accepted", [&] { return who(e) + ": accepted malformed input (" + why + "): " + hex(in) + "\nas\n" + show(got.msg); });
    return;
  }
  c.check_f(got.ec == 0, sig + "-rejected", [&] { return who(e) + ": rejected valid input with errc " + std::to_string(got.ec) + ": " + hex(in) + "\nmeaning\n" + show(want); });
  c.check_f(ref::same(S(), got.msg, want, true), sig + "-value", [&] { return who(e) + ": " + hex(in) + "\nread as\n" + show(got.msg) + "instead of\n" + show(want); });
}
PBT_PROP(decode, "the input has at least 4 bytes and decodes to a message with content") {
  auto &e = pick(c, [](auto &e) { return (bool)e.read; });
  gen::WCfg w;
  auto in = gen::wire(c, S(), e.d, w);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  c.note(who(e) + " input " + hex(in) + "\n" + show(want));
  c.label("traits " + e.trait);
  c.label(res == ref::Res::ok ? "valid" : res == ref::Res::bad ? "invalid" : "unspecified");
  if (in.size() >= 4 && res == ref::Res::ok && !show(want).empty()) c.nontrivial();
  compare_read(c, e, res, want, why, e.read(in), in, "decode");
  if (c.chance(1, 3)) { // reading into an object that already holds something gives the same result
    auto old = gen_value(c, e, false);
    compare_read(c, e, res, want, why, e.read_into(in, old), in, "decode-reuse");
  }
}
PBT_PROP(malformed, "the reference decoder rejects the input") {
  auto &e = pick(c, [](auto &e) { return (bool)e.read; });
  gen::WCfg w;
  std::string in;
  if (c.chance(1, 12)) in = gen::blob(c, 0);
  else in = gen::wire(c, S(), e.d, w);
  if (c.chance(2, 5)) gen::malform(c, in, S(), e.d, w);
  else gen::mutate(c, in);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  c.note(who(e) + " input " + hex(in) + (res == ref::Res::bad ? std::string("\nmalformed: ") + why : ""));
  c.label(res == ref::Res::ok ? "still valid" : res == ref::Res::bad ? std::string("malformed: ") + why : "unspecified");
  if (res == ref::Res::bad) c.nontrivial();
  compare_read(c, e, res, want, why, e.read(in), in, "malformed");
}
PBT_PROP(rewrite, "the input carries unknown fields or unknown enum values") {
  auto &e = pick(c, [](auto &e) { return (bool)e.rewrite && (e.keep || S().msgs[e.d].extendable); });
  gen::WCfg w;
  auto in = gen::wire(c, S(), e.d, w);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  if (res != ref::Res::ok) c.discard();
  std::function<bool(const ref::Msg &)> unk = [&](const ref::Msg &m) {
    if (!m.unknown.empty()) return true;
    for (auto &f : m.f) for (auto &v : f.v) if (v.msg && unk(*v.msg)) return true;
    return false;
  };
  c.note(who(e) + " input " + hex(in) + "\n" + show(want));
  c.label("traits " + e.trait);
  if (unk(want)) c.nontrivial();
  auto r = e.rewrite(in);
  compare_read(c, e, res, want, why, r, in, "unknown-read");
  ref::Msg again;
  auto res2 = expected(e, r.bytes, again, &why);
  c.check_f(res2 == ref::Res::ok, "unknown-reencode", [&] { return who(e) + ": re-encoding is malformed (" + why + "): " + hex(r.bytes) + "\ninput " + hex(in); });
  c.check_f(ref::same(S(), again, want, true), "unknown-lost", [&] { return who(e) + ": input " + hex(in) + "\nre-encoded as " + hex(r.bytes) + "\nwhich means\n" + show(again) + "instead of\n" + show(want); });
}

// ---------------------------------------------------------------- chunked and padded input
static std::vector<std::string> cut(Case &c, const std::string &in, std::string &desc) {
  std::vector<size_t> cuts;
  switch (c.weighted({3, 2, 2, 1})) {
  case 0: for (auto k = c.draw(3); k; --k) cuts.push_back(c.draw(in.size())); break;
  case 1: for (auto k = c.draw(20); k; --k) cuts.push_back(c.draw(in.size())); break;
  case 2: { size_t s = 1 + c.draw(40); for (size_t i = s; i < in.size(); i += s) cuts.push_back(i); break; }
  default: { size_t a = c.draw(in.size()); for (size_t i = 0; i < 30 && a + i <= in.size(); ++i) cuts.push_back(a + i); }
  }
  std::sort(cuts.begin(), cuts.end());
  std::vector<std::string> segs;
  size_t p = 0;
  for (auto x : cuts) { segs.push_back(in.substr(p, x - p)); p = x; }
  segs.push_back(in.substr(p));
  for (auto k = c.draw(2); k; --k) segs.insert(segs.begin() + c.draw(segs.size()), std::string());
  for (auto &s : segs) desc += (desc.empty() ? "" : "|") + std::to_string(s.size());
  return segs;
}
PBT_PROP(utf8, "the input holds at least one string that is not valid UTF-8") {
  auto &e = pick(c, [](auto &e) { return (bool)e.read && (bool)e.write; });
  if (c.coin()) {
    gen::WCfg w;
    w.bad_utf8 = true;
    w.unknown = c.coin();
    auto in = gen::wire(c, S(), e.d, w);
    ref::Msg want;
    const char *why = "";
    auto res = expected(e, in, want, &why);
    c.note(who(e) + " read " + hex(in) + (res == ref::Res::bad ? std::string("\nbad: ") + why : ""));
    c.label(std::string("read ") + (res == ref::Res::bad ? why : "accepted"));
    bool raw_bad = !ref::valid_utf8(in);
    if (res == ref::Res::bad || raw_bad) c.nontrivial();
    compare_read(c, e, res, want, why, e.read(in), in, "utf8-read");
    if (e.read_padded) compare_read(c, e, res, want, why, e.read_padded(in), in, "utf8-read-padded");
    if (e.read_chunks) {
      std::string d;
      auto segs = cut(c, in, d);
      c.note("segments " + d);
      compare_read(c, e, res, want, why, e.read_chunks(segs, 0), in, "utf8-read-segmented");
    }
  } else {
    gen::Cfg cfg;
    cfg.bad_utf8 = true;
    auto v = gen::message(c, S(), e.d, cfg);
    auto enc = ref::encode(S(), v);
    ref::Msg tmp;
    const char *why = "";
    auto res = expected(e, enc, tmp, &why);
    c.note(who(e) + " write\n" + show(v));
    c.label(std::string("write ") + (res == ref::Res::bad ? why : "accepted"));
    if (res == ref::Res::bad) c.nontrivial();
    auto r = e.write(v);
    if (res == ref::Res::bad) c.check(r.ec != 0, "utf8-write-accepted", who(e) + ": wrote a string field that is not UTF-8");
    else {
      c.check(r.ec == 0, "utf8-write-rejected", who(e) + ": refused to write valid content, errc " + std::to_string(r.ec));
      check_encoding(c, who(e), v, r.bytes, "utf8-write");
    }
  }
}

PBT_PROP(chunked, "the input is cut inside at least one record") {
  auto &e = pick(c, [](auto &e) { return (bool)e.read_chunks; });
  gen::WCfg w;
  w.big = 12;
  auto in = gen::wire(c, S(), e.d, w);
  if (c.chance(1, 4)) gen::mutate(c, in);
  else if (c.chance(1, 6)) gen::malform(c, in, S(), e.d, w);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  std::string d;
  auto segs = cut(c, in, d);
  c.note(who(e) + " input " + hex(in) + "\nsegments " + d);
  c.label(res == ref::Res::ok ? "valid" : res == ref::Res::bad ? "malformed" : "unspecified");
  c.label(segs.size() == 1 ? "1 segment" : segs.size() < 5 ? "2-4 segments" : "5+ segments");
  if (segs.size() > 1 && in.size() > 2) c.nontrivial();
  auto whole = e.read(in);
  auto got = e.read_chunks(segs, (int)c.draw(1));
  compare_read(c, e, res, want, why, got, in + "", "chunked");
  // differential: whatever contiguous reading does, segmented reading does too
  c.check_f((whole.ec == 0) == (got.ec == 0), "chunked-differs", [&] { return who(e) + ": contiguous errc " + std::to_string(whole.ec) + ", segmented errc " + std::to_string(got.ec) + " for " + hex(in) + " cut " + d; });
  if (whole.ec == 0) c.check_f(ref::same(S(), whole.msg, got.msg, true), "chunked-differs", [&] { return who(e) + ": " + hex(in) + " cut " + d + "\nread as\n" + show(got.msg) + "instead of\n" + show(whole.msg); });
}
PBT_PROP(padded, "the input has at least 4 bytes") {
  auto &e = pick(c, [](auto &e) { return (bool)e.read_padded; });
  gen::WCfg w;
  w.big = 20;
  auto in = gen::wire(c, S(), e.d, w);
  if (c.chance(1, 4)) gen::mutate(c, in);
  else if (c.chance(1, 6)) gen::malform(c, in, S(), e.d, w);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  c.note(who(e) + " input " + hex(in));
  c.label(res == ref::Res::ok ? "valid" : res == ref::Res::bad ? std::string("malformed ") + why : "unspecified");
  if (in.size() >= 4) c.nontrivial();
  auto got = e.read_padded(in);
  compare_read(c, e, res, want, why, got, in, "padded");
  auto whole = e.read(in);
  c.check_f((whole.ec == 0) == (got.ec == 0), "padded-differs", [&] { return who(e) + ": plain errc " + std::to_string(whole.ec) + ", padded errc " + std::to_string(got.ec) + " for " + hex(in); });
}

// ---------------------------------------------------------------- gRPC byte buffers
PBT_PROP(grpc_read, "the encoding is spread over at least two slices") {
  auto &e = pick(c, [](auto &e) { return (bool)e.grpc_read; });
  gen::WCfg w;
  w.big = 12;
  auto in = gen::wire(c, S(), e.d, w);
  if (c.chance(1, 5)) gen::mutate(c, in);
  else if (c.chance(1, 8)) gen::malform(c, in, S(), e.d, w);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  std::string d;
  auto segs = in.empty() && c.coin() ? std::vector<std::string>{} : cut(c, in, d);
  if (in.size() > 300 && c.chance(1, 4)) { // enough slices to need more than the buffer on the stack
    segs.clear();
    for (auto ch : in) segs.emplace_back(1, ch);
    d = "one byte each";
  }
  auto old = gen_value(c, e, false);
  bool reuse = c.coin();
  int how = (int)c.draw(15);
  if ((how & 3) == 3) how -= 3;
  c.note(who(e) + " input " + hex(in) + "\nslices " + d + " call " + std::to_string(how));
  c.label(res == ref::Res::ok ? "valid" : res == ref::Res::bad ? "malformed" : "unspecified");
  c.label(segs.empty() ? "no slice" : segs.size() == 1 ? "1 slice" : segs.size() < 20 ? "2-19 slices" : "20+ slices");
  if (segs.size() > 1 && in.size() > 2) c.nontrivial();
  auto got = e.grpc_read(segs, how, reuse ? &old : nullptr);
  compare_read(c, e, res, want, why, got, in, "grpc-read");
  if (res == ref::Res::bad) c.check(got.ec == 13, "grpc-read-status", who(e) + ": the status code of a failed read is " + std::to_string(got.ec) + ", not INTERNAL");
  c.check(got.note.empty(), "grpc-read-buffer", who(e) + ": " + got.note);
}
PBT_PROP(grpc_write, "the encoding is longer than one slice of the sink, or at least 4 bytes long") {
  auto &e = pick(c, [](auto &e) { return (bool)e.grpc_write; });
  gen::Cfg cfg;
  cfg.bad_utf8 = c.chance(1, 8);
  auto v = gen::message(c, S(), e.d, cfg);
  if (!cfg.bad_utf8 && c.chance(1, 3)) add_unknown(c, v, e.keep);
  if (c.chance(1, 40)) { // blow one string or bytes field up to around a multiple of the chunk size
    auto &md = S().msgs[v.d];
    std::vector<ref::Val *> vals;
    for (size_t i = 0; i < v.f.size(); ++i)
      if (md.fields[i].card != ref::MAP && (md.fields[i].type == ref::T_STRING || md.fields[i].type == ref::T_BYTES))
        for (auto &x : v.f[i].v) vals.push_back(&x);
    if (!vals.empty()) {
      auto *x = vals[c.draw(vals.size() - 1)];
      size_t n = (1 + c.draw(2)) * 1048576 - 60 + c.draw(80);
      x->str.resize(n);
      for (size_t i = 0; i < n; ++i) x->str[i] = (char)('a' + i % 23);
    }
  }
  auto enc = ref::encode(S(), v);
  ref::Msg tmp;
  auto res = expected(e, enc, tmp);
  int how = (int)c.draw(14);
  std::string junk = c.coin() ? "previous contents" : "";
  std::vector<size_t> sizes;
  c.note(who(e) + " call " + std::to_string(how) + "\n" + (enc.size() < 2000 ? show(v) : std::to_string(enc.size()) + " bytes"));
  c.label("traits " + e.trait);
  c.label(enc.size() > 2097152 ? "over 2 MiB" : enc.size() > 1048576 ? "over 1 MiB" : "small");
  static const char *modes[] = {"default mode", "adaptive", "contiguous", "chunked", "chunked, cache resource"};
  c.label(modes[how % 5]);
  if (enc.size() >= 4) c.nontrivial();
  auto r = e.grpc_write(v, how, junk, sizes);
  if (res == ref::Res::bad) {
    c.label("not valid UTF-8");
    c.check(r.ec == 13, "grpc-write-accepted", who(e) + ": a string field that is not UTF-8 gives status " + std::to_string(r.ec) + " instead of INTERNAL");
    return;
  }
  c.check(r.ec == 0, "grpc-write-rejected", who(e) + ": write failed with status " + std::to_string(r.ec));
  c.check(r.note.empty(), "grpc-write-buffer", who(e) + ": " + r.note);
  if (enc.size() > 100000) { // too long to analyse record by record
    ref::Msg back;
    c.check(expected(e, r.bytes, back) == ref::Res::ok && ref::same(S(), back, v, true), "grpc-write-value", who(e) + ": the " + std::to_string(r.bytes.size()) + " bytes written do not hold the message");
  } else check_encoding(c, who(e), v, r.bytes, "grpc-write");
  if (how % 5 == 2) c.check(sizes.size() <= 1, "grpc-write-contiguous", who(e) + ": contiguous mode gave " + std::to_string(sizes.size()) + " slices");
}

// ---------------------------------------------------------------- output modes
PBT_PROP(output_modes, "the encoding is longer than one output chunk or written through several APIs") {
  auto &e = pick(c, [](auto &e) { return (bool)e.write_mode; });
  auto v = gen_value(c, e, true);
  auto base = e.write(v);
  c.check(base.ec == 0, "encode-status", who(e) + ": write failed");
  c.note(who(e) + "\n" + show(v) + "encoding: " + hex(base.bytes));
  classify(c, e, base.bytes);
  auto same = [&](const Out &o, const std::string &what) {
    c.check(o.ec == 0, "mode-status", who(e) + ": " + what + " failed with errc " + std::to_string(o.ec));
    c.check(o.eq, "mode-contract", who(e) + ": " + what + ": " + o.note);
    c.check_f(o.bytes == base.bytes, "mode-bytes", [&] { return who(e) + ": " + what + " wrote " + hex(o.bytes) + " instead of " + hex(base.bytes); });
  };
  std::vector<size_t> sizes;
  size_t k = 1 + c.draw(3);
  while (k--) sizes.push_back(1 + (c.chance(1, 3) ? c.draw(300) : c.draw(24)));
  bool vary = c.coin();
  int mode = (int)c.draw(5);
  std::string what = "sink mode " + std::to_string(mode) + " chunks";
  for (auto s : sizes) what += " " + std::to_string(s);
  c.label("sink mode " + std::to_string(mode));
  c.note(what);
  if (base.bytes.size() > sizes[0]) c.nontrivial();
  bool roomy = c.chance(1, 3);
  if (roomy) c.label("roomy sink");
  same(e.write_mode(v, mode, sizes, vary, roomy, SIZE_MAX), what);
  if (!base.bytes.empty() && c.chance(1, 3)) {
    size_t limit = c.draw(base.bytes.size() - 1);
    auto o = e.write_mode(v, mode, sizes, vary, roomy, limit);
    c.label("full sink");
    c.check(o.ec != 0, "sink-full", who(e) + ": " + what + ": reported success although the sink only took " + std::to_string(limit) + " bytes");
  }
  auto pre = gen::blob(c, 30);
  auto ap = e.append(v, pre);
  c.check(ap.ec == 0, "append-status", who(e) + ": append failed");
  c.check_f(ap.bytes == pre + base.bytes, "append-bytes", [&] { return who(e) + ": append to " + hex(pre) + " gave " + hex(ap.bytes) + " instead of prefix + " + hex(base.bytes); });
  int kind = (int)c.draw(6);
  same(e.write_as(v, kind, pre), "buffer kind " + std::to_string(kind));
}

// ---------------------------------------------------------------- merge
PBT_PROP(merge, "both operands encode to at least 2 bytes") {
  auto &e = pick(c, [](auto &e) { return (bool)e.merge; });
  gen::WCfg w;
  w.wide_values = false;
  auto a = gen::wire(c, S(), e.d, w), b = gen::wire(c, S(), e.d, w);
  if (c.chance(1, 8)) b = a;
  ref::Msg ma, mb, want;
  if (expected(e, a, ma) != ref::Res::ok || expected(e, b, mb) != ref::Res::ok) c.discard();
  // concatenation of the encodings of the two values (not of the raw inputs): required fields are always present
  auto ea = ref::encode(S(), ma), eb = ref::encode(S(), mb);
  const char *why = "";
  if (expected(e, ea + eb, want, &why) != ref::Res::ok) c.discard();
  bool rv = c.coin();
  c.note(who(e) + (rv ? " rvalue" : " lvalue") + "\na = " + hex(a) + "\nb = " + hex(b) + "\nwant\n" + show(want));
  c.label("traits " + e.trait);
  if (a.size() >= 2 && b.size() >= 2) c.nontrivial();
  auto r = e.merge(a, b, rv);
  if (r.ec == -1) c.discard();
  c.check(r.eq, "merge-source", who(e) + ": " + r.note);
  c.check_f(ref::same(S(), r.msg, want, true), "merge-value", [&] { return who(e) + (rv ? " rvalue" : " lvalue") + ": a=" + hex(a) + " b=" + hex(b) + "\nmerged\n" + show(r.msg) + "instead of\n" + show(want); });
}

// ---------------------------------------------------------------- recursion limit
static const int kLimits[] = {100, 0, 1, 3, 12};
static std::string deep_input(Case &c, const Entry &e, int limit, bool groups) {
  gen::WCfg w;
  w.unknown = groups;
  int k;
  switch (c.weighted({6, 2, 1})) {
  case 0: k = std::max(0, limit - 1 + (int)c.draw(2)); break;
  case 1: k = (int)c.draw((uint64_t)limit + 4); break;
  default: k = limit + 1 + (int)c.draw(400); break;
  }
  return gen::deep(c, S(), e.d, k, w, groups);
}
static ref::Res limited(const Entry &e, std::string_view in, int limit, ref::Msg &out, int &depth, const char *&why) {
  ref::Decoder d{S(), {}};
  d.o.depth_limit = limit;
  out = ref::make(S(), e.d);
  auto r = d.run(out, in);
  depth = d.max_depth;
  why = d.r.why;
  return r;
}
PBT_PROP(depth_read, "the nesting is within two levels of the limit, or beyond it") {
  auto &e = pick(c, [](auto &e) { return (bool)e.read_lim; });
  int lim = (int)c.draw(4), limit = kLimits[lim];
  auto in = deep_input(c, e, limit, true);
  ref::Msg want, tmp;
  int depth, full;
  const char *why = "", *why2 = "";
  auto res = limited(e, in, limit, want, depth, why);
  auto all = limited(e, in, 100000, tmp, full, why2);
  strip_unknown(want, e.keep);
  int how = (int)c.draw(1);
  std::string d;
  std::vector<std::string> segs{in}, first;
  if (how) segs = cut(c, in, d);
  bool reuse = c.chance(1, 3);
  if (reuse) {
    auto b = deep_input(c, e, limit, true);
    if (c.chance(1, 4)) gen::mutate(c, b);
    first.push_back(b);
    if (how) { std::string d2; first = cut(c, b, d2); }
  }
  c.note(who(e) + " limit " + std::to_string(limit) + ", nesting " + std::to_string(full) + (how ? " segments " + d : "") + "\ninput " + hex(in));
  c.label("limit " + std::to_string(limit));
  c.label(full > limit ? "too deep" : full == limit ? "at the limit" : "below the limit");
  if (reuse) c.label("context used before"), c.note("context used before for " + hex([&] { std::string s; for (auto &x : first) s += x; return s; }()));
  if (full + 1 >= limit && all == ref::Res::ok) c.nontrivial();
  auto got = e.read_lim(segs, lim, how, reuse ? &first : nullptr);
  compare_read(c, e, res, want, why, got, in, full > limit && all == ref::Res::ok ? "depth-read-beyond" : "depth-read");
  c.check(got.note.empty(), "depth-read-api", who(e) + ": " + got.note);
}
PBT_PROP(depth_write, "the nesting is within two levels of the limit, or beyond it") {
  auto &e = pick(c, [](auto &e) { return (bool)e.write_lim; });
  int lim = (int)c.draw(4), limit = kLimits[lim];
  auto value = [&](ref::Msg &v, int &depth) {
    auto in = deep_input(c, e, limit, c.chance(1, 4));
    int full;
    const char *why;
    if (limited(e, in, 100000, v, full, why) != ref::Res::ok) c.discard();
    strip_unknown(v, e.keep);
    ref::Msg plain = v, tmp; // unknown fields are copied, not interpreted
    std::function<void(ref::Msg &)> clone = [&](ref::Msg &m) {
      m.unknown.clear();
      for (auto &f : m.f)
        for (auto &x : f.v)
          if (x.msg) { x.msg = std::make_shared<ref::Msg>(*x.msg); clone(*x.msg); }
    };
    clone(plain);
    if (limited(e, ref::encode(S(), plain), 100000, tmp, depth, why) != ref::Res::ok) c.discard();
  };
  ref::Msg v, before;
  int depth, d2;
  value(v, depth);
  bool reuse = c.chance(1, 3);
  if (reuse) value(before, d2);
  int how = (int)c.draw(2);
  std::vector<size_t> chunks{1 + c.draw(60)};
  c.note(who(e) + " limit " + std::to_string(limit) + ", nesting " + std::to_string(depth) + (reuse ? ", context used before for nesting " + std::to_string(d2) : "") + (how == 0 ? " buffer" : how == 1 ? " sink" : " sink, chunked mode") + "\n" + show(v));
  c.label("limit " + std::to_string(limit));
  c.label(depth > limit ? "too deep" : depth == limit ? "at the limit" : "below the limit");
  if (depth + 1 >= limit) c.nontrivial();
  auto r = e.write_lim(v, lim, how, chunks, reuse ? &before : nullptr);
  if (depth > limit) c.check(r.ec != 0, "depth-write-beyond", who(e) + ": wrote a message deeper than the limit");
  else {
    c.check(r.ec == 0, "depth-write", who(e) + ": write failed with errc " + std::to_string(r.ec));
    check_encoding(c, who(e), v, r.bytes, "depth-write");
  }
}

// ---------------------------------------------------------------- memory
using Mem = Entry::Mem;
using Fail = Entry::Fail;
// runs f without failures, then with a failure at one of the allocations it made
template <class F> static void with_failures(Case &c, const std::string &what, bool may_fail, F f) {
  auto settle = [&](Fail fail) {
    Mem r = f(fail);
    if (r.leaked) r = f(fail); // the first call may have initialised something
    return r;
  };
  auto dry = settle({});
  auto nums = [](const Mem &m) { return "operator new " + std::to_string(m.global) + ", default resource " + std::to_string(m.def) + ", alloc_from " + std::to_string(m.a) + ", cache_alloc_from " + std::to_string(m.b); };
  c.note("allocations: " + nums(dry));
  c.check_f(dry.note.empty(), "memory-result", [&] { return what + ": " + dry.note; });
  c.check(!dry.threw, "memory-throw", what + ": std::bad_alloc without a reason");
  c.check(dry.leaked == 0, "memory-leak", what + ": " + std::to_string(dry.leaked) + " blocks leaked");
  (void)may_fail;
  Fail fail;
  std::vector<std::pair<uint64_t *, uint64_t>> where;
  if (dry.global) where.push_back({&fail.global, dry.global});
  if (dry.def) where.push_back({&fail.def, dry.def});
  if (dry.a) where.push_back({&fail.a, dry.a});
  if (dry.b) where.push_back({&fail.b, dry.b});
  if (where.empty()) return;
  auto [at, n] = where[c.draw(where.size() - 1)];
  *at = 1 + c.draw(n - 1);
  const char *name = at == &fail.global ? "operator new" : at == &fail.def ? "default resource" : at == &fail.a ? "alloc_from" : "cache_alloc_from";
  c.note(std::string("failing: allocation ") + std::to_string(*at) + " of " + name);
  c.label(std::string("failure of ") + name);
  c.nontrivial();
  auto r = settle(fail);
  c.check_f(r.note.empty(), "failure-result", [&] { return what + ": after the failure: " + r.note; });
  c.check(r.threw, "failure-lost", what + ": allocation " + std::to_string(*at) + " of " + name + " failed without std::bad_alloc (errc " + std::to_string(r.ec) + ")");
  c.check(r.leaked == 0, "failure-leak", what + ": " + std::to_string(r.leaked) + " blocks leaked after a failed allocation");
}
static bool pmr_trait(const Entry &e) { return e.trait.find("pmr") != std::string::npos; }
PBT_PROP(alloc_read, "an allocation fails in the middle of the call") {
  auto &e = pick(c, [](auto &e) { return (bool)e.alloc_read; });
  gen::WCfg w;
  w.big = 40;
  auto in = gen::wire(c, S(), e.d, w);
  bool broken = c.chance(1, 6);
  if (broken) gen::mutate(c, in);
  ref::Msg want;
  auto res = expected(e, in, want);
  if (res == ref::Res::unspecified) c.discard();
  int how = (int)c.draw(7);
  std::vector<std::string> segs{in};
  std::string d;
  if (how & 1) segs = cut(c, in, d);
  ref::Msg old;
  if (how & 4) old = gen_value(c, e, false);
  c.note(who(e) + (how & 1 ? " segments " + d : "") + (how & 2 ? " with cache_alloc_from" : "") + (how & 4 ? " into a used object" : "") + " input " + hex(in));
  with_failures(c, who(e), true, [&](Fail f) {
    auto r = e.alloc_read(segs, want, old, how, f);
    if (r.note.empty() && !r.threw && (r.ec == 0) != (res == ref::Res::ok)) r.note = "errc " + std::to_string(r.ec);
    if (!e.owning && r.global) r.note = "reading a non-owning message used operator new " + std::to_string(r.global) + " times";
    if (r.note.empty() && (how & 2) && r.def && !pmr_trait(e)) r.note = "the default resource is used although cache_alloc_from is given";
    if (r.note.empty() && !(how & 1) && (r.b || (r.def && !pmr_trait(e)))) r.note = "temporary memory is used for contiguous input";
    return r;
  });
}
PBT_PROP(alloc_write, "an allocation fails in the middle of the call") {
  auto &e = pick(c, [](auto &e) { return (bool)e.alloc_write; });
  auto v = gen_value(c, e, true);
  int how = (int)c.draw(4);
  size_t chunk = 1 + c.draw(c.coin() ? 15 : 4000);
  auto whole = e.write(v);
  if (whole.ec) c.discard();
  c.note(who(e) + " variant " + std::to_string(how) + " chunk " + std::to_string(chunk) + "\n" + show(v));
  with_failures(c, who(e), true, [&](Fail f) {
    auto r = e.alloc_write(v, whole.bytes, how, chunk, f);
    if (r.note.empty() && !r.threw && r.ec) r.note = "errc " + std::to_string(r.ec);
    if (how != 0 && r.global) r.note = "writing used operator new " + std::to_string(r.global) + " times";
    if (r.note.empty() && (how == 1 || how == 4) && r.def) r.note = "the default resource is used although cache_alloc_from is given";
    if (r.note.empty() && how == 3 && r.a > 1) r.note = "the output was allocated " + std::to_string(r.a) + " times";
    return r;
  });
}
PBT_PROP(alloc_modify, "an allocation fails in the middle of the call") {
  auto &e = pick(c, [](auto &e) { return (bool)e.alloc_modify; });
  gen::WCfg w;
  auto x = gen::wire(c, S(), e.d, w), y = gen::wire(c, S(), e.d, w);
  ref::Msg mx, my, want;
  if (expected(e, x, mx) != ref::Res::ok || expected(e, y, my) != ref::Res::ok) c.discard();
  auto ex = ref::encode(S(), mx), ey = ref::encode(S(), my);
  int how = (int)c.draw(3);
  if (how < 2) { if (expected(e, ex + ey, want) != ref::Res::ok) c.discard(); }
  else want = my;
  static const char *names[] = {"merge", "merge from a temporary", "copy construction", "copy assignment"};
  c.note(who(e) + " " + names[how] + "\n" + show(mx) + "from\n" + show(my));
  c.label(names[how]);
  with_failures(c, who(e) + " " + names[how], true, [&](Fail f) { return e.alloc_modify(mx, my, want, how, f); });
}

// ---------------------------------------------------------------- Any
PBT_PROP(any_pack, "the message has content") {
  auto &e = pick(c, [](auto &e) { return (bool)e.pack_any; });
  auto v = gen_value(c, e, true);
  int how = (int)c.draw(3);
  std::string url;
  auto r = e.pack_any(v, url, how);
  c.note(who(e) + " variant " + std::to_string(how) + "\n" + show(v));
  if (!r.bytes.empty()) c.nontrivial();
  c.check(r.ec == 0, "any-pack", who(e) + ": errc " + std::to_string(r.ec));
  c.check(url == "type.googleapis.com/" + e.msg, "any-url", who(e) + ": type_url is " + url);
  check_encoding(c, who(e), v, r.bytes, "any-pack");
}
PBT_PROP(any_unpack, "the type url names the message, or nearly does") {
  auto &e = pick(c, [](auto &e) { return (bool)e.unpack_any; });
  gen::WCfg w;
  auto in = gen::wire(c, S(), e.d, w);
  if (c.chance(1, 6)) gen::mutate(c, in);
  std::string url;
  switch (c.weighted({6, 3, 2, 2, 1})) {
  case 0: url = "type.googleapis.com/" + e.msg; break;
  case 1: url = c.pick(std::vector<std::string>{"", "a", "a/b", "http://x.y:1/z", "/", "type.googleapis.com", "//"}) + "/" + e.msg; break;
  case 2: url = c.coin() ? e.msg : "type.googleapis.com/" + e.msg; if (c.coin() && !url.empty()) url.erase(c.draw(url.size() - 1), 1); break;
  case 3: url = "type.googleapis.com/" + e.msg; url.insert(c.draw(url.size()), 1, c.pick(std::vector<char>{'/', '.', 'a', '\0', ' '})); break;
  default: { auto &o = pick(c, [](auto &e) { return (bool)e.unpack_any; }); url = "type.googleapis.com/" + o.msg; }
  }
  auto slash = url.rfind('/');
  bool names = slash != std::string::npos && url.substr(slash + 1) == e.msg;
  int how = (int)c.draw(7);
  ref::Msg old;
  if (how & 2) old = gen_value(c, e, false);
  ref::Msg want;
  const char *why = "";
  auto res = expected(e, in, want, &why);
  c.note(who(e) + " variant " + std::to_string(how) + " url " + url + " value " + hex(in));
  c.label(names ? "names the message" : "names something else");
  c.nontrivial();
  auto r = e.unpack_any(url, in, old, how);
  if (!names) c.check(r.ec == (int)std::errc::invalid_argument, "any-wrong-type", who(e) + ": url " + url + " gives errc " + std::to_string(r.ec));
  else compare_read(c, e, res, want, why, r, in, "any-unpack");
}
