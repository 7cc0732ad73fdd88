#include "engine.h"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>

namespace vp {

// ------------------------------------------------------------------ choices
namespace {
uint64_t SplitMix(uint64_t* s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

const size_t kMaxRecord = 1 << 16;
const size_t kMessage = 4096;
const size_t kSample = 6144;

struct Isolated {          // shared between parent and an isolated child
  volatile int verdict;    // 0 none, 1 pass, 2 discard, 3 failure
  volatile size_t size;    // recorded choices
  uint64_t record[kMaxRecord];
  char message[kMessage];
  char trace[1 << 18];
};
Isolated* g_shared_record = nullptr;  // set in isolated children only
}  // namespace

uint64_t Case::Raw() {
  uint64_t v;
  if (seeded_) {
    v = SplitMix(&state_);
  } else {
    v = pos_ < replay_.size() ? replay_[pos_] : 0;
    pos_++;
  }
  if (record_.size() >= kMaxRecord) throw Discard{};
  record_.push_back(v);
  if (g_shared_record != nullptr) {
    g_shared_record->record[record_.size() - 1] = v;
    g_shared_record->size = record_.size();
  }
  return v;
}

// The trace is shared as it grows, so that it survives a crash.
void Case::AddTrace(const std::string& text) {
  trace_ += text + "\n";
  if (g_shared_record != nullptr)
    std::snprintf(g_shared_record->trace, sizeof g_shared_record->trace, "%s", trace_.c_str());
}

int64_t Case::Int(int64_t lo, int64_t hi) {
  const uint64_t span = static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1;
  uint64_t r = Raw();
  if (span == 0) {
    Mix(r);
    return static_cast<int64_t>(r);
  }
  const uint64_t k = r % span;
  record_.back() = k;
  if (g_shared_record != nullptr) g_shared_record->record[record_.size() - 1] = k;
  Mix(k + 0x1234567);
  return lo + static_cast<int64_t>(k);
}

bool Case::Chance(int num, int den) {
  return Int(0, den - 1) >= den - num;
}

double Case::Real(double lo, double hi, double simple) {
  const uint64_t r = Raw();
  double v;
  if (r == 0) {
    v = simple;
  } else {
    const unsigned mode = static_cast<unsigned>(r & 7);
    const uint64_t k = r >> 3;
    double f;
    if (mode == 0) {
      f = static_cast<double>(k % 17) / 16.0;
    } else if (mode == 1) {
      f = static_cast<double>(k % 1025) / 1024.0;
    } else if (mode == 2 && Coincide(k, lo, hi, simple, &v)) {
      return Keep(v);
    } else {
      f = static_cast<double>(k >> 8) / static_cast<double>((1ULL << 53) - 1);
      if (f > 1) f = 1;
    }
    v = lo + (hi - lo) * f;
    if (mode == 1 && (hi - lo) > 4) v = std::round(v);
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  }
  return Keep(v);
}

// One value in eight has to do with those drawn before: equal, opposite, or
// nearly equal ones, or the simple value.  Few of these arise by chance, and
// shortcuts for equal inputs go wrong exactly there.
bool Case::Coincide(uint64_t k, double lo, double hi, double simple, double* v) const {
  const uint64_t kind = k & 7, index = k >> 3;
  if (kind == 7) {
    *v = simple;
    return true;
  }
  if (pool_.empty()) return false;
  double x = pool_[static_cast<size_t>(index % pool_.size())];
  if (kind == 5) x = -x;
  if (kind == 6) {
    static const double kNear[6] = {1e-9, -1e-9, 1e-5, -1e-5, 1e-3, -1e-3};
    x *= 1 + kNear[(index >> 32) % 6];
  }
  if (!(lo <= x && x <= hi)) return false;
  *v = x;
  return true;
}

double Case::Keep(double v) {
  uint64_t bits;
  std::memcpy(&bits, &v, sizeof bits);
  Mix(bits);
  if (pool_.size() < 24) pool_.push_back(v);
  else pool_[static_cast<size_t>(hash_ % 24)] = v;
  return v;
}

double Case::LogReal(double lo, double hi, double simple) {
  const uint64_t r = Raw();
  double v;
  if (r == 0) {
    v = simple;
  } else if ((r & 15) == 2 && Coincide(r >> 4, lo, hi, simple, &v)) {
    return Keep(v);
  } else {
    const double f = static_cast<double>(r >> 11) / static_cast<double>(1ULL << 53);
    v = std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * f);
    if ((r & 15) == 3) {  // two significant digits
      const double unit = std::pow(10, std::floor(std::log10(v)) - 1);
      v = std::round(v / unit) * unit;
    }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
  }
  return Keep(v);
}

// --------------------------------------------------------------------- main
namespace {

struct Outcome {
  enum Kind { kPass, kDiscard, kFail, kCrash, kHang } kind = kPass;
  std::string message;
  std::vector<uint64_t> record;
  std::string trace;
  bool failed() const { return kind == kFail || kind == kCrash || kind == kHang; }
};

const int kCpuSeconds = 40;       // per case, CPU time of the process
const int kExitHang = 78;
const int kExitFailure = 79;

void OnHang(int) { _exit(kExitHang); }

void ArmCpuTimer(int seconds) {
  struct itimerval t;
  std::memset(&t, 0, sizeof t);
  t.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &t, nullptr);
}

// Runs one case in this process.
Outcome RunHere(const Law& law, Case* c) {
  Outcome o;
  try {
    law.run(*c);
    o.kind = Outcome::kPass;
  } catch (const Discard&) {
    o.kind = Outcome::kDiscard;
  } catch (const Failure& f) {
    o.kind = Outcome::kFail;
    o.message = f.message;
  } catch (const std::exception& e) {
    o.kind = Outcome::kFail;
    o.message = std::string("uncaught exception from the code under test: ") + e.what();
  }
  return o;
}

Isolated* NewIsolated() {
  void* p = mmap(nullptr, sizeof(Isolated), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
  return static_cast<Isolated*>(p);
}

std::string ReadTail(const std::string& path, size_t limit) {
  std::ifstream f(path, std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (s.size() > limit) s = s.substr(0, limit);
  return s;
}

// Runs one case in a forked child.
Outcome RunIsolated(const Law& law, const Case& prototype, bool tracing,
                    Isolated* sh, const std::string& stderr_path) {
  sh->verdict = 0;
  sh->size = 0;
  sh->message[0] = 0;
  sh->trace[0] = 0;
  std::cout.flush();
  const pid_t pid = fork();
  if (pid == 0) {
    const int fd = open(stderr_path.empty() ? "/dev/null" : stderr_path.c_str(),
                        O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    signal(SIGPROF, OnHang);
    ArmCpuTimer(kCpuSeconds);
    g_shared_record = sh;
    Case c = prototype;
    c.set_tracing(tracing);
    Outcome o = RunHere(law, &c);
    std::snprintf(sh->message, kMessage, "%s", o.message.c_str());
    std::snprintf(sh->trace, sizeof sh->trace, "%s", c.trace().c_str());
    sh->verdict = o.kind == Outcome::kPass ? 1 : o.kind == Outcome::kDiscard ? 2 : 3;
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  Outcome o;
  o.record.assign(sh->record, sh->record + sh->size);
  o.trace = sh->trace;
  o.message = sh->message;
  if (WIFEXITED(status) && WEXITSTATUS(status) == kExitHang) {
    o.kind = Outcome::kHang;
    o.message = Cat("did not finish within ", kCpuSeconds, " s of CPU time");
  } else if (sh->verdict == 1) {
    o.kind = Outcome::kPass;
  } else if (sh->verdict == 2) {
    o.kind = Outcome::kDiscard;
  } else if (sh->verdict == 3) {
    o.kind = Outcome::kFail;
  } else {
    o.kind = Outcome::kCrash;
    o.message = WIFSIGNALED(status)
                    ? Cat("the code under test was killed by signal ", WTERMSIG(status))
                    : Cat("the code under test aborted (memory error or undefined "
                          "behaviour), exit ", WEXITSTATUS(status));
    if (!stderr_path.empty()) {
      o.message += "\n" + ReadTail(stderr_path, 3000);
    }
  }
  return o;
}

struct LawCount {
  volatile long evaluations, nontrivial, discards, passes;
};
const size_t kMaxLaws = 64;
const size_t kMaxHashes = 1 << 21;
const int kSamplesPerLaw = 2;

struct WorkerShared {
  volatile int law;
  volatile long index;
  volatile int failed;
  LawCount counts[kMaxLaws];
  int samples_n[kMaxLaws];
  char samples[kMaxLaws][kSamplesPerLaw][kSample];
  volatile size_t hashes_n;
  uint64_t hashes[kMaxHashes];
};

uint64_t CaseSeed(uint64_t seed, const std::string& law, long index) {
  uint64_t h = seed * 0x9e3779b97f4a7c15ULL + 0x632be59bd9b4e019ULL;
  for (char ch : law) h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ULL;
  h ^= static_cast<uint64_t>(index) * 0xd6e8feb86659fd93ULL;
  SplitMix(&h);
  return SplitMix(&h);
}

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"') o += "\\\"";
    else if (ch == '\\') o += "\\\\";
    else if (ch == '\n') o += "\\n";
    else if (ch == '\t') o += "\\t";
    else if (ch < 0x20 || ch >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else o += static_cast<char>(ch);
  }
  return o;
}

double Now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch()).count();
}

// Shrinks a failing choice list.
std::vector<uint64_t> Shrink(const Law& law, std::vector<uint64_t> best,
                             Isolated* sh, double seconds) {
  const double end = Now() + seconds;
  long tries = 0;
  auto fails = [&](const std::vector<uint64_t>& v, std::vector<uint64_t>* used) {
    tries++;
    Outcome o = RunIsolated(law, Case(v), false, sh, "");
    if (!o.failed()) return false;
    *used = v;
    // drops choices that were never consumed, and trailing zeros
    if (o.record.size() < used->size()) used->resize(o.record.size());
    while (!used->empty() && used->back() == 0) used->pop_back();
    return true;
  };
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    // deletes chunks
    for (size_t chunk : {64u, 32u, 16u, 8u, 6u, 5u, 4u, 3u, 2u, 1u}) {
      for (size_t i = 0; i + chunk <= best.size() && Now() < end;) {
        std::vector<uint64_t> v = best, used;
        v.erase(v.begin() + i, v.begin() + i + chunk);
        if (fails(v, &used) && better(used, best)) {
          best = used;
          progress = true;
        } else {
          i += chunk > 4 ? chunk / 2 : 1;
        }
      }
    }
    // zeroes and lowers elements
    for (size_t i = 0; i < best.size() && Now() < end; i++) {
      if (best[i] == 0) continue;
      std::vector<uint64_t> v = best, used;
      v[i] = 0;
      if (fails(v, &used) && better(used, best)) { best = used; progress = true; continue; }
      // common small values, then simple real grids, then bisection
      bool done = false;
      for (uint64_t t : {1ull, 2ull, 3ull, 4ull, 5ull, 8ull, 16ull, 24ull, 32ull, 40ull, 48ull, 56ull,
                         64ull, 72ull, 80ull, 96ull, 104ull, 112ull, 128ull, 9ull, 4097ull}) {
        if (t >= best[i]) continue;
        v = best;
        v[i] = t;
        if (fails(v, &used) && better(used, best)) { best = used; progress = true; done = true; break; }
      }
      if (done) continue;
      for (int shift = 32; shift >= 1 && i < best.size() && Now() < end; shift /= 2) {
        v = best;
        v[i] = best[i] >> shift;
        if (v[i] != best[i] && fails(v, &used) && better(used, best)) {
          best = used;
          progress = true;
        }
      }
    }
  }
  return best;
}

bool LoadReplay(const std::string& path, std::string* law, std::vector<uint64_t>* choices) {
  std::ifstream f(path);
  if (!f) return false;
  std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  size_t p = s.find("\"law\": \"");
  if (p == std::string::npos) return false;
  p += 8;
  *law = s.substr(p, s.find('"', p) - p);
  p = s.find("\"choices\": [");
  if (p == std::string::npos) return false;
  p += 12;
  const size_t e = s.find(']', p);
  std::stringstream ss(s.substr(p, e - p));
  std::string item;
  while (std::getline(ss, item, ',')) {
    if (item.find_first_of("0123456789") == std::string::npos) continue;
    choices->push_back(std::stoull(item));
  }
  return true;
}

std::set<std::string> LoadKnown(const std::string& path, const std::string& property) {
  // one JSON object per line: {"kind":"known-finding","property":"P01","probe":"...", ...}
  std::set<std::string> ids;
  std::ifstream f(path);
  std::string line;
  auto field = [](const std::string& l, const std::string& key) {
    size_t p = l.find("\"" + key + "\"");
    if (p == std::string::npos) return std::string();
    p = l.find('"', l.find(':', p));
    if (p == std::string::npos) return std::string();
    return l.substr(p + 1, l.find('"', p + 1) - p - 1);
  };
  while (std::getline(f, line)) {
    if (field(line, "kind") == "known-finding" && field(line, "property") == property)
      ids.insert(field(line, "probe"));
  }
  return ids;
}

// Runs a probe in a child, so that a crash is a failure as well.
std::string RunProbe(const Probe& probe, Isolated* sh) {
  Law law;
  law.name = probe.id;
  law.run = [&](Case& c) {
    const std::string what = probe.fails();
    if (!what.empty()) c.Fail(what);
  };
  Outcome o = RunIsolated(law, Case(uint64_t{1}), false, sh, "");
  return o.failed() ? (o.message.empty() ? "failed" : o.message) : "";
}

}  // namespace

int Main(int argc, char** argv) {
  std::map<std::string, std::string> arg;
  for (int i = 1; i + 1 < argc; i += 2) arg[argv[i]] = argv[i + 1];
  auto get = [&](const char* key, const std::string& d) {
    return arg.count(key) ? arg[key] : d;
  };
  const std::string tier = get("--tier", "quick");
  const uint64_t seed = std::stoull(get("--seed", "1"));
  const std::string evidence = get("--evidence", "");
  const std::string replay_dir = get("--replaydir", ".");
  const std::string only_law = get("--law", "");
  const std::string replay = get("--replay", "");
  const std::string known_path = get("--known", "");
  const double scale = std::stod(get("--scale", "1"));
  const double budget = std::stod(get("--budget", tier == "quick" ? "420" : "720"));
  const int n_workers = std::stoi(get("--workers", "8"));

  Property property = MakeProperty();
  if (property.laws.size() > kMaxLaws) { std::cerr << "too many laws\n"; return 3; }
  Isolated* sh = NewIsolated();

  if (!replay.empty()) {
    std::string name;
    std::vector<uint64_t> choices;
    if (!LoadReplay(replay, &name, &choices)) {
      std::cerr << "cannot read replay file " << replay << "\n";
      return 3;
    }
    for (const Law& law : property.laws) {
      if (law.name != name) continue;
      Outcome o = RunIsolated(law, Case(choices), true, sh, replay + ".stderr");
      std::cout << o.trace;
      if (o.failed()) {
        std::cout << "FAILED " << property.id << "/" << name << ": " << o.message << "\n";
        std::cout << "VIOLATION property=" << property.id << " replay=" << replay << std::endl;
        return 1;
      }
      unlink((replay + ".stderr").c_str());
      std::cout << (o.kind == Outcome::kDiscard ? "case rejected by the generator\n"
                                                : "the case passes\n");
      return 0;
    }
    std::cerr << "no law named " << name << "\n";
    return 3;
  }

  const double start = Now();
  const std::set<std::string> known = LoadKnown(known_path, property.id);

  // ---- random search, W forked workers ----
  std::vector<WorkerShared*> ws;
  for (int w = 0; w < n_workers; w++) {
    void* p = mmap(nullptr, sizeof(WorkerShared), PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); return 3; }
    ws.push_back(static_cast<WorkerShared*>(p));
  }
  std::vector<long> totals;
  for (const Law& law : property.laws) {
    long n = static_cast<long>((tier == "quick" ? law.quick : law.thorough) * scale);
    if (!only_law.empty() && law.name != only_law) n = 0;
    totals.push_back(n);
  }
  volatile int* stop = static_cast<volatile int*>(
      mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *stop = 0;
  std::cout.flush();
  const int kRounds = 8;
  std::vector<pid_t> pids;
  for (int w = 0; w < n_workers; w++) {
    const pid_t pid = fork();
    if (pid == 0) {
      const int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
      signal(SIGPROF, OnHang);
      WorkerShared* me = ws[w];
      for (int round = 0; round < kRounds; round++) {
        for (size_t l = 0; l < property.laws.size(); l++) {
          const Law& law = property.laws[l];
          const long lo = totals[l] * round / kRounds;
          const long hi = totals[l] * (round + 1) / kRounds;
          for (long i = lo; i < hi; i++) {
            if (i % n_workers != w) continue;
            if (*stop != 0) _exit(0);
            if (Now() - start > budget) _exit(0);
            me->law = static_cast<int>(l);
            me->index = i;
            ArmCpuTimer(kCpuSeconds);
            Case c(CaseSeed(seed, law.name, i));
            const bool sampling = me->samples_n[l] < kSamplesPerLaw;
            c.set_tracing(sampling);
            Outcome o = RunHere(law, &c);
            if (o.kind == Outcome::kFail) {
              me->failed = 1;
              *stop = 1;
              _exit(kExitFailure);
            }
            LawCount& k = me->counts[l];
            k.evaluations = k.evaluations + 1;
            if (o.kind == Outcome::kDiscard) {
              k.discards = k.discards + 1;
              continue;
            }
            k.passes = k.passes + 1;
            if (c.nontrivial()) {
              k.nontrivial = k.nontrivial + 1;
              if (me->hashes_n < kMaxHashes) {
                uint64_t h = c.hash() ^ (l * 0x9e3779b97f4a7c15ULL);
                me->hashes[me->hashes_n] = h;
                me->hashes_n = me->hashes_n + 1;
              }
              if (sampling) {
                std::snprintf(me->samples[l][me->samples_n[l]], kSample, "%s",
                              c.trace().substr(0, kSample - 1).c_str());
                me->samples_n[l]++;
              }
            }
          }
        }
      }
      _exit(0);
    }
    pids.push_back(pid);
  }
  // waits; the first abnormal end stops the others
  std::vector<int> bad;
  for (size_t left = pids.size(); left > 0; left--) {
    int status = 0;
    const pid_t pid = waitpid(-1, &status, 0);
    const int w = static_cast<int>(std::find(pids.begin(), pids.end(), pid) - pids.begin());
    if (w == static_cast<int>(pids.size())) { left++; continue; }
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      bad.push_back(w);
      *stop = 1;
    }
  }

  // ---- counts ----
  long evaluations = 0, nontrivial = 0, discards = 0;
  std::vector<uint64_t> hashes;
  for (auto* w : ws) {
    for (size_t l = 0; l < property.laws.size(); l++) {
      evaluations += w->counts[l].evaluations;
      nontrivial += w->counts[l].nontrivial;
      discards += w->counts[l].discards;
    }
    hashes.insert(hashes.end(), w->hashes, w->hashes + w->hashes_n);
  }
  std::sort(hashes.begin(), hashes.end());
  hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
  std::ostringstream per_law;
  for (size_t l = 0; l < property.laws.size(); l++) {
    long e = 0, n = 0, d = 0;
    for (auto* w : ws) {
      e += w->counts[l].evaluations;
      n += w->counts[l].nontrivial;
      d += w->counts[l].discards;
    }
    std::cout << property.id << "/" << property.laws[l].name << ": " << e << " of "
              << totals[l] << " cases, " << n << " non-trivial, " << d << " rejected\n";
    per_law << (l ? "; " : "") << property.laws[l].name << " (" << e << " cases, " << n
            << " non-trivial, " << d << " rejected): " << property.laws[l].rule;
  }

  // ---- failures ----
  int violations = 0;
  std::vector<std::string> unconfirmed;
  std::sort(bad.begin(), bad.end());
  std::set<int> laws_reported;
  for (int w : bad) {
    const int l = ws[w]->law;
    const long i = ws[w]->index;
    if (laws_reported.count(l)) continue;
    const Law& law = property.laws[l];
    mkdir(replay_dir.c_str(), 0755);
    const std::string path = Cat(replay_dir, "/", property.id, "-", law.name, "-", seed, "-", i, ".json");
    Case original(CaseSeed(seed, law.name, i));
    Outcome first = RunIsolated(law, original, true, sh, path + ".stderr");
    int repeats = 0;
    for (int k = 0; k < 3; k++)
      repeats += RunIsolated(law, original, false, sh, "").failed() ? 1 : 0;
    if (!first.failed() || repeats != 3) {
      unconfirmed.push_back(Cat(law.name, " case ", i, ": failed in the search but ", repeats,
                                " of 3 times when replayed"));
      continue;
    }
    std::vector<uint64_t> choices = first.record;
    if (first.kind != Outcome::kHang) {
      std::vector<uint64_t> small =
          Shrink(law, first.record, sh, tier == "quick" ? 20 : 60);
      int again = 0;
      for (int k = 0; k < 3; k++)
        again += RunIsolated(law, Case(small), false, sh, "").failed() ? 1 : 0;
      if (again == 3) choices = small;
    }
    Outcome last = RunIsolated(law, Case(choices), true, sh, path + ".stderr");
    if (!last.failed()) last = first;
    std::ofstream f(path);
    f << "{\"property\": \"" << property.id << "\", \"law\": \"" << law.name
      << "\",\n \"seed\": " << seed << ", \"case\": " << i << ",\n \"message\": \""
      << JsonEscape(last.message) << "\",\n \"trace\": \"" << JsonEscape(last.trace)
      << "\",\n \"choices\": [";
    for (size_t k = 0; k < choices.size(); k++) f << (k ? "," : "") << choices[k];
    f << "]}\n";
    f.close();
    std::cout << last.trace;
    std::cout << "FAILED " << property.id << "/" << law.name << ": " << last.message << "\n";
    std::cout << "VIOLATION property=" << property.id << " replay=" << path << std::endl;
    laws_reported.insert(l);
    violations++;
  }
  for (const std::string& u : unconfirmed) std::cout << "NOT CONFIRMED: " << u << "\n";

  // ---- known findings ----
  for (const Probe& probe : property.probes) {
    const std::string what = RunProbe(probe, sh);
    if (what.empty()) continue;
    if (known.count(probe.id)) {
      std::cout << "KNOWN-FINDING: property=" << property.id << " " << probe.id << ": "
                << what.substr(0, what.find('\n')) << std::endl;
    } else {
      mkdir(replay_dir.c_str(), 0755);
      const std::string path = Cat(replay_dir, "/", property.id, "-probe-", probe.id, ".json");
      std::ofstream f(path);
      f << "{\"property\": \"" << property.id << "\", \"probe\": \"" << probe.id
        << "\", \"message\": \"" << JsonEscape(what) << "\"}\n";
      std::cout << "FAILED " << property.id << "/" << probe.id << ": " << what << "\n";
      std::cout << "VIOLATION property=" << property.id << " replay=" << path << std::endl;
      violations++;
    }
  }

  // ---- evidence ----
  const double wall = Now() - start;
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": \"" << property.id << "\",\n \"tier\": \"" << tier
      << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
      << "  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": "
      << hashes.size() << ",\n  \"nontrivial\": " << nontrivial << ",\n  \"rejected\": " << discards
      << ",\n  \"rule\": \"" << JsonEscape(per_law.str()) << "\",\n  \"samples\": [";
    bool first = true;
    for (size_t l = 0; l < property.laws.size(); l++) {
      int n = 0;
      for (auto* w : ws) {
        for (int k = 0; k < w->samples_n[l] && n < kSamplesPerLaw; k++, n++) {
          f << (first ? "\n" : ",\n") << "   \"" << JsonEscape(property.laws[l].name) << ": "
            << JsonEscape(std::string(w->samples[l][k]).substr(0, 1500)) << "\"";
          first = false;
        }
      }
    }
    f << "]\n },\n \"assumptions\": [";
    for (size_t k = 0; k < property.assumptions.size(); k++)
      f << (k ? ", " : "") << "\"" << JsonEscape(property.assumptions[k]) << "\"";
    f << "],\n \"unconfirmed\": [";
    for (size_t k = 0; k < unconfirmed.size(); k++)
      f << (k ? ", " : "") << "\"" << JsonEscape(unconfirmed[k]) << "\"";
    f << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
  }
  std::cout << property.id << ": " << evaluations << " cases, " << hashes.size()
            << " distinct non-trivial, " << violations << " violations, " << wall << " s\n";
  return violations > 0 ? 1 : 0;
}

}  // namespace vp

int main(int argc, char** argv) { return vp::Main(argc, argv); }
