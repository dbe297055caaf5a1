#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace pbt {
std::vector<Prop> &registry() {
  static std::vector<Prop> r;
  return r;
}
static uint64_t now_ms() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static const Prop *find(const std::string &n) {
  for (auto &p : registry())
    if (p.name == n) return &p;
  return nullptr;
}
static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c == '\n') r += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
} // namespace pbt
using namespace pbt;

#ifdef PBT_FUZZER
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static const Prop *p = find(getenv("PBT_PROP"));
  static Stats st;
  if (!p) abort();
  Source s(data, size, nullptr);
  Case c(s, &st, false);
  try {
    p->fn(c);
  } catch (const Failure &f) {
    fprintf(stderr, "PBT failure %s: %s\n", f.sig.c_str(), f.msg.c_str());
    abort();
  } catch (const Discard &) {
    return -1;
  }
  st.labels.clear();
  return 0;
}
#else

static Slot *new_slot() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return static_cast<Slot *>(p);
}
struct Outcome {
  int kind = 0; // 0 pass/discard, 1 Failure, 2 crash, 3 hang, 4 unexpected exception
  std::string sig, msg, desc;
  std::vector<uint64_t> choices;
};
static unsigned g_timeout_s = 20;
static std::string g_tmp = "/tmp";

static void run_case(const Prop &p, Source &src, Slot *slot, Stats *st, bool verbose, std::string *desc, bool sample,
                     const std::set<std::string> *known) {
  Case c(src, st, verbose);
  c.want_sample = sample;
  auto set = [&](const std::string &sig, const std::string &m) {
    snprintf(slot->sig, sizeof slot->sig, "%s", sig.c_str());
    std::string full = m;
    if (!c.desc().empty()) full += "\n--- case ---\n" + c.desc();
    snprintf(slot->msg, sizeof slot->msg, "%s", full.c_str());
  };
  bool discarded = false;
  try {
    slot->state = 1;
    p.fn(c);
  } catch (const Failure &f) {
    if (known && known->count(f.sig)) {
      if (st) ++st->known[f.sig];
      discarded = true;
    } else {
      set(f.sig, f.msg);
      slot->state = 2;
      return;
    }
  } catch (const Discard &) {
    discarded = true;
  } catch (const std::exception &e) {
    set(std::string("exception:") + typeid(e).name(), std::string("unexpected exception: ") + e.what());
    slot->state = 2;
    return;
  }
  slot->state = discarded ? 4 : 3;
  if (st) {
    ++st->cases;
    if (discarded) ++st->discarded;
    else if (c.is_nontrivial()) {
      ++st->nontrivial;
      st->hashes.push_back(src.hash());
    }
  }
  if (desc) *desc = c.desc();
}

static std::string tail_file(const std::string &path, size_t n = 6000) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  auto s = ss.str();
  return s.size() > n ? s.substr(0, n) : s;
}
// Runs one choice sequence in a forked child.
static Outcome run_forked(const Prop &p, const std::vector<uint64_t> &choices, Slot *slot, bool verbose) {
  Outcome o;
  slot->state = 0;
  slot->n_choices = 0;
  slot->sig[0] = slot->msg[0] = slot->notes[0] = 0;
  std::string err = g_tmp + "/pbt_err." + std::to_string(getpid());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
    Source s(&choices, slot);
    if (verbose) live_notes = slot->notes;
    run_case(p, s, slot, nullptr, verbose, nullptr, false, nullptr);
    _exit(0);
  }
  uint64_t t0 = now_ms();
  int stt = 0;
  useconds_t nap = 200;
  for (;;) {
    pid_t r = waitpid(pid, &stt, WNOHANG);
    if (r == pid) break;
    if (now_ms() - t0 > g_timeout_s * 1000ULL) {
      kill(pid, SIGKILL);
      waitpid(pid, &stt, 0);
      o.kind = 3;
      o.sig = "hang";
      o.msg = "case did not finish within " + std::to_string(g_timeout_s) + " s\n--- case so far ---\n" + slot->notes;
      break;
    }
    usleep(nap);
    if (nap < 5000) nap *= 2;
  }
  o.choices.assign(slot->choices, slot->choices + slot->n_choices);
  if (o.kind == 0) {
    if (slot->state == 2) { o.kind = 1; o.sig = slot->sig; o.msg = slot->msg; }
    else if (slot->state == 1 || !(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
      o.kind = 2;
      o.sig = "crash";
      o.msg = (WIFSIGNALED(stt) ? "killed by signal " + std::to_string(WTERMSIG(stt)) : "exit code " + std::to_string(WEXITSTATUS(stt))) + "\n" + tail_file(err) + "\n--- case so far ---\n" + slot->notes;
    }
  }
  unlink(err.c_str());
  return o;
}
static bool same_kind(const Outcome &a, const Outcome &b) {
  return a.kind == b.kind && (a.kind != 1 || a.sig == b.sig);
}
static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static Outcome shrink(const Prop &p, Outcome best, Slot *slot, unsigned budget_s) {
  uint64_t end = now_ms() + budget_s * 1000ULL;
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (now_ms() > end) return false;
    Outcome o = run_forked(p, cand, slot, false);
    if (!same_kind(o, best)) return false;
    if (!simpler(o.choices, best.choices)) {
      if (!simpler(cand, best.choices)) return false;
      o.choices = cand;
    }
    best = std::move(o);
    return true;
  };
  bool progress = true;
  while (progress && now_ms() < end) {
    progress = false;
    for (size_t blk = std::max<size_t>(1, best.choices.size() / 2); blk >= 1 && now_ms() < end; blk = blk / 2) {
      for (size_t i = 0; i + blk <= best.choices.size() && now_ms() < end;) {
        auto c = best.choices;
        c.erase(c.begin() + i, c.begin() + i + blk);
        if (attempt(c)) progress = true;
        else i += blk;
      }
      if (blk == 1) break;
    }
    for (size_t blk = std::max<size_t>(1, best.choices.size() / 4); blk >= 1 && now_ms() < end; blk = blk / 2) {
      for (size_t i = 0; i + blk <= best.choices.size() && now_ms() < end; i += blk) {
        auto c = best.choices;
        bool any = false;
        for (size_t k = i; k < i + blk; ++k) { any |= c[k] != 0; c[k] = 0; }
        if (any && attempt(c)) progress = true;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < best.choices.size() && now_ms() < end; ++i) {
      uint64_t lo = 0, hi = best.choices[i];
      while (lo < hi && now_ms() < end) { // binary search towards zero
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = best.choices;
        c[i] = mid;
        if (attempt(c)) { progress = true; if (i >= best.choices.size()) break; hi = std::min(mid, best.choices[i]); }
        else lo = mid + 1;
      }
    }
  }
  return best;
}
static void worker(const Prop &p, uint64_t seed, uint64_t w, uint64_t W, uint64_t n, Slot *slot, const std::string &out,
                   uint64_t deadline, const std::set<std::string> &known) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int fd = open((out + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
  Stats st;
  int code = 0;
  uint64_t ph = hash_bytes(p.name.data(), p.name.size());
  for (uint64_t i = w; i < n; i += W) {
    if (now_ms() > deadline) break;
    slot->case_index = i;
    slot->case_start_ms = now_ms();
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL ^ ph ^ (i * 0xD1B54A32D192ED03ULL);
    splitmix(s);
    Source src(s, slot);
    bool sample = i / W >= 5 && st.samples.size() < 3;
    std::string d;
    run_case(p, src, slot, &st, false, &d, sample, &known);
    if (slot->state == 2) { code = 77; break; }
    if (sample && !d.empty()) st.samples.push_back(d.substr(0, 1500));
  }
  std::ofstream f(out, std::ios::binary);
  f << st.cases << ' ' << st.discarded << ' ' << st.nontrivial << '\n' << st.labels.size() << '\n';
  for (auto &[k, v] : st.labels) f << v << ' ' << k << '\n';
  f << st.known.size() << '\n';
  for (auto &[k, v] : st.known) f << v << ' ' << k << '\n';
  f << st.samples.size() << '\n';
  for (auto &s : st.samples) f << s.size() << '\n' << s << '\n';
  std::ofstream h(out + ".h", std::ios::binary);
  h.write(reinterpret_cast<const char *>(st.hashes.data()), st.hashes.size() * 8);
  f.close();
  h.close();
  _exit(code);
}

int main(int argc, char **argv) {
  std::string prop, out, replay_dir = ".", replay, replay_bytes, known_file;
  uint64_t seed = 1, n = 1000, W = 8, max_s = 120, shrink_s = 40, retries = 1;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx();
    else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--n") n = strtoull(nx().c_str(), 0, 10);
    else if (a == "--workers") W = strtoull(nx().c_str(), 0, 10);
    else if (a == "--out") out = nx();
    else if (a == "--replay-dir") replay_dir = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--replay-bytes") replay_bytes = nx();
    else if (a == "--known") known_file = nx();
    else if (a == "--max-seconds") max_s = strtoull(nx().c_str(), 0, 10);
    else if (a == "--retries") retries = std::max<uint64_t>(1, strtoull(nx().c_str(), 0, 10));
    else if (a == "--shrink-seconds") shrink_s = strtoull(nx().c_str(), 0, 10);
    else if (a == "--timeout") g_timeout_s = strtoul(nx().c_str(), 0, 10);
    else if (a == "--tmp") g_tmp = nx();
    else if (a == "--list") { for (auto &p : registry()) printf("%s\n", p.name.c_str()); return 0; }
    else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
  }
  const Prop *p = find(prop);
  if (!p) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 3; }
  std::set<std::string> known;
  if (!known_file.empty()) {
    std::ifstream f(known_file);
    std::string l;
    while (std::getline(f, l)) if (!l.empty()) known.insert(l);
  }
  Slot *slot = new_slot();
  if (!replay.empty()) { // file: one choice per line after a line "choices:"
    std::ifstream f(replay);
    std::string l;
    std::vector<uint64_t> ch;
    bool on = false;
    while (std::getline(f, l)) {
      if (on) { std::stringstream ss(l); uint64_t v; while (ss >> v) ch.push_back(v); }
      else if (l == "choices:") on = true;
    }
    auto o = run_forked(*p, ch, slot, true);
    for (uint64_t k = 1; k < retries && o.kind == 0; ++k) o = run_forked(*p, ch, slot, true);
    printf("%s\n%s\n%s\n", o.kind ? "FAIL" : "PASS", o.sig.c_str(), o.msg.c_str());
    return o.kind ? 1 : 0;
  }
  std::vector<Outcome> fails;
  uint64_t t0 = now_ms();
  Stats tot;
  std::vector<uint64_t> hashes;
  bool truncated = false;
  if (!replay_bytes.empty()) { // crash file of the libFuzzer build: recover the choices
    std::ifstream f(replay_bytes, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string b = ss.str();
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      Source s(reinterpret_cast<const uint8_t *>(b.data()), b.size(), slot);
      run_case(*p, s, slot, nullptr, false, nullptr, false, nullptr);
      _exit(0);
    }
    int stt;
    uint64_t tb = now_ms();
    while (waitpid(pid, &stt, WNOHANG) == 0) {
      if (now_ms() - tb > g_timeout_s * 1000ULL) { kill(pid, SIGKILL); waitpid(pid, &stt, 0); break; }
      usleep(1000);
    }
    std::vector<uint64_t> ch(slot->choices, slot->choices + slot->n_choices);
    auto o = run_forked(*p, ch, slot, false);
    tot.cases = 1;
    if (o.kind) fails.push_back(o);
  } else {
    std::vector<Slot *> slots;
    std::vector<pid_t> pids;
    std::vector<std::string> outs;
    uint64_t deadline = t0 + max_s * 1000;
    for (uint64_t w = 0; w < W; ++w) {
      slots.push_back(new_slot());
      outs.push_back(g_tmp + "/pbt_w." + std::to_string(getpid()) + "." + std::to_string(w));
      fflush(nullptr);
      pid_t pid = fork();
      if (pid == 0) worker(*p, seed, w, W, n, slots[w], outs[w], deadline, known);
      pids.push_back(pid);
    }
    size_t live = W;
    bool stop = false;
    while (live) {
      for (uint64_t w = 0; w < W; ++w) {
        if (pids[w] < 0) continue;
        int stt;
        pid_t r = waitpid(pids[w], &stt, WNOHANG);
        bool hung = false;
        if (r == 0 && slots[w]->state == 1 && now_ms() > slots[w]->case_start_ms + g_timeout_s * 1000ULL) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &stt, 0);
          hung = true;
        }
        if (r == 0 && !hung && stop) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], &stt, 0);
          pids[w] = -1; --live;
          continue;
        }
        if (r == 0 && !hung) continue;
        pids[w] = -1;
        --live;
        bool ok = !hung && WIFEXITED(stt) && WEXITSTATUS(stt) == 0;
        if (!ok) {
          Outcome o;
          o.choices.assign(slots[w]->choices, slots[w]->choices + slots[w]->n_choices);
          if (hung) { o.kind = 3; o.sig = "hang"; }
          else if (slots[w]->state == 2) { o.kind = 1; o.sig = slots[w]->sig; o.msg = slots[w]->msg; }
          else { o.kind = 2; o.sig = "crash"; o.msg = tail_file(outs[w] + ".err"); }
          fails.push_back(o);
          stop = true;
        }
        std::ifstream f(outs[w], std::ios::binary);
        uint64_t a = 0, b = 0, c = 0, k = 0;
        if (f >> a >> b >> c >> k) {
          tot.cases += a; tot.discarded += b; tot.nontrivial += c;
          for (; k; --k) { uint64_t v; std::string s; f >> v; f.get(); std::getline(f, s); tot.labels[s] += v; }
          f >> k;
          for (; k; --k) { uint64_t v; std::string s; f >> v; f.get(); std::getline(f, s); tot.known[s] += v; }
          f >> k;
          for (; k; --k) { size_t len; f >> len; f.get(); std::string s(len, 0); f.read(s.data(), len); if (tot.samples.size() < 8) tot.samples.push_back(s); }
          std::ifstream h(outs[w] + ".h", std::ios::binary);
          uint64_t hv;
          while (h.read(reinterpret_cast<char *>(&hv), 8)) hashes.push_back(hv);
        }
        unlink(outs[w].c_str());
        unlink((outs[w] + ".h").c_str());
        unlink((outs[w] + ".err").c_str());
      }
      usleep(2000);
    }
    truncated = now_ms() >= deadline;
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  // ---- confirm and shrink ----
  std::string vio;
  std::string vmsg, vsig;
  unsigned flaky = 0;
  for (auto &f : fails) {
    // a failure may depend on the schedule: run the case again and again (--retries)
    Outcome first = run_forked(*p, f.choices, slot, false);
    uint64_t tries = 1;
    for (; tries < retries && first.kind == 0; ++tries) {
      first = run_forked(*p, f.choices, slot, false);
    }
    if (first.kind == 0) { ++flaky; fprintf(stderr, "not reproduced: %s %s\n", f.sig.c_str(), f.msg.c_str()); continue; }
    Outcome best = shrink(*p, first, slot, shrink_s);
    bool solid = true;
    Outcome last;
    for (int k = 0; k < 3 && solid; ++k) {
      last = run_forked(*p, best.choices, slot, true);
      solid = same_kind(last, best);
    }
    if (!solid && retries > 1) {
      best = last = first;
      last.msg += "\n(depends on the schedule: failed again after " + std::to_string(tries) + " runs of the same case)";
      solid = true;
    }
    if (!solid) { ++flaky; fprintf(stderr, "flaky: %s %s\n", best.sig.c_str(), best.msg.c_str()); continue; }
    mkdir(replay_dir.c_str(), 0755);
    vio = replay_dir + "/" + prop + "-" + std::to_string(seed) + ".replay";
    std::ofstream r(vio);
    r << "property-function: " << prop << "\nsignature: " << last.sig << "\n" << last.msg << "\nchoices:\n";
    for (auto v : best.choices) r << v << '\n';
    vsig = last.sig;
    vmsg = last.msg;
    break;
  }
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"prop\":" << jstr(prop) << ",\"rule\":" << jstr(p->rule) << ",\"seed\":" << seed << ",\"cases\":" << tot.cases << ",\"discarded\":" << tot.discarded
      << ",\"nontrivial\":" << tot.nontrivial << ",\"distinct_nontrivial\":" << hashes.size() << ",\"truncated\":" << (truncated ? "true" : "false")
      << ",\"flaky\":" << flaky << ",\"wall_ms\":" << (now_ms() - t0) << ",\"labels\":{";
    bool c = false;
    for (auto &[k, v] : tot.labels) { f << (c ? "," : "") << jstr(k) << ":" << v; c = true; }
    f << "},\"known\":{";
    c = false;
    for (auto &[k, v] : tot.known) { f << (c ? "," : "") << jstr(k) << ":" << v; c = true; }
    f << "},\"samples\":[";
    c = false;
    for (auto &s : tot.samples) { f << (c ? "," : "") << jstr(s); c = true; }
    f << "],\"replay\":" << jstr(vio) << ",\"signature\":" << jstr(vsig) << ",\"message\":" << jstr(vmsg) << "}\n";
  }
  if (!vio.empty()) {
    printf("FAIL %s sig=%s replay=%s\n%s\n", prop.c_str(), vsig.c_str(), vio.c_str(), vmsg.substr(0, 4000).c_str());
    return 1;
  }
  printf("OK %s cases=%llu nontrivial=%llu distinct=%zu discarded=%llu wall=%llums%s\n", prop.c_str(), (unsigned long long)tot.cases,
         (unsigned long long)tot.nontrivial, hashes.size(), (unsigned long long)tot.discarded, (unsigned long long)(now_ms() - t0),
         truncated ? " (time cap)" : "");
  return 0;
}
#endif
