// Property-based testing engine: choice-sequence generators, integrated
// shrinking, forked workers, replay files, evidence counters.
//
// A "law" is a function Case& -> void.  Every random decision goes through the
// Case, which records it as a 64-bit choice.  A failing case is therefore a
// list of choices; shrinking edits that list (delete / lower) and re-runs the
// law, and the shrunk list is the replay file.
#ifndef VERIF_ENGINE_H_
#define VERIF_ENGINE_H_

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace vp {

struct Failure {
  std::string message;
};
struct Discard {};

class Case {
 public:
  explicit Case(uint64_t seed) : seeded_(true), state_(seed) {}
  explicit Case(const std::vector<uint64_t>& choices)
      : seeded_(false), state_(0), replay_(choices) {}

  // ---- generators (0 is always the simplest choice) ----
  uint64_t Raw();
  // integer in [lo, hi]; shrinks towards lo
  int64_t Int(int64_t lo, int64_t hi);
  // real in [lo, hi]; shrinks towards `simple`
  double Real(double lo, double hi, double simple);
  double Real(double lo, double hi) { return Real(lo, hi, lo); }
  // log-uniform real in [lo, hi] (lo > 0)
  double LogReal(double lo, double hi, double simple);
  // true with probability num/den; shrinks towards false
  bool Chance(int num, int den);
  bool Bool() { return Int(0, 1) == 1; }
  template <typename T>
  const T& Pick(const std::vector<T>& v) {
    return v[static_cast<size_t>(Int(0, static_cast<int64_t>(v.size()) - 1))];
  }
  template <typename T>
  T PickOf(std::initializer_list<T> l) {
    std::vector<T> v(l);
    const T t = v[static_cast<size_t>(Int(0, static_cast<int64_t>(v.size()) - 1))];
    if constexpr (std::is_same<T, double>::value) pool_.push_back(t);
    return t;
  }

  // ---- verdicts ----
  [[noreturn]] void Fail(const std::string& message) { throw Failure{message}; }
  [[noreturn]] void Reject() { throw Discard{}; }
  void NonTrivial(bool is = true) { if (is) nontrivial_ = true; }

  // ---- trace ----
  void Note(const std::string& text) {
    if (tracing_) AddTrace(text);
  }
  bool tracing() const { return tracing_; }
  void set_tracing(bool t) { tracing_ = t; }
  const std::string& trace() const { return trace_; }

  const std::vector<uint64_t>& record() const { return record_; }
  bool nontrivial() const { return nontrivial_; }
  uint64_t hash() const { return hash_; }

 private:
  void AddTrace(const std::string& text);
  void Mix(uint64_t v) {
    hash_ ^= v + 0x9e3779b97f4a7c15ULL + (hash_ << 6) + (hash_ >> 2);
    hash_ *= 0xff51afd7ed558ccdULL;
    hash_ ^= hash_ >> 29;
  }
  bool Coincide(uint64_t k, double lo, double hi, double simple, double* v) const;
  double Keep(double v);
  std::vector<double> pool_;
  bool seeded_;
  uint64_t state_;
  std::vector<uint64_t> replay_;
  size_t pos_ = 0;
  std::vector<uint64_t> record_;
  bool nontrivial_ = false;
  bool tracing_ = false;
  std::string trace_;
  uint64_t hash_ = 1469598103934665603ULL;
};

struct Law {
  std::string name;
  std::string rule;      // when does a case count as non-trivial
  long quick;            // number of generated cases, quick tier
  long thorough;         // number of generated cases, thorough tier
  std::function<void(Case&)> run;
};

// A known finding: a fixed scenario.  `fails` returns a description when the
// defect is still present, "" when it is gone.
struct Probe {
  std::string id;
  std::function<std::string()> fails;
};

struct Property {
  std::string id;
  std::vector<std::string> assumptions;
  std::vector<Law> laws;
  std::vector<Probe> probes;
};

// Implemented by every property file.
Property MakeProperty();

int Main(int argc, char** argv);

// ---- formatting and comparison helpers ----
inline std::string S(double v) {
  char b[64];
  std::snprintf(b, sizeof b, "%.17g", v);
  return b;
}
inline std::string S(int v) { return std::to_string(v); }
inline std::string S(long v) { return std::to_string(v); }
inline std::string S(size_t v) { return std::to_string(v); }
inline std::string S(bool v) { return v ? "true" : "false"; }
inline std::string S(const std::string& v) { return "\"" + v + "\""; }
inline std::string S(const char* v) { return v; }
inline void CatInto(std::ostringstream&) {}
template <typename T, typename... R>
void CatInto(std::ostringstream& o, const T& t, const R&... r) {
  o << t;
  CatInto(o, r...);
}
struct Num {
  std::string s;
};
inline std::ostream& operator<<(std::ostream& o, const Num& n) { return o << n.s; }
inline Num N(double v) { return Num{S(v)}; }
template <typename... A>
std::string Cat(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  CatInto(o, a...);
  return o.str();
}

inline bool Finite(double v) { return std::isfinite(v); }
// |a-b| <= atol + rtol*max(|a|,|b|); false for NaN
inline bool Near(double a, double b, double atol, double rtol) {
  if (!std::isfinite(a) || !std::isfinite(b)) return false;
  return std::fabs(a - b) <= atol + rtol * std::fmax(std::fabs(a), std::fabs(b));
}
inline void CheckNear(Case& c, const char* what, double actual, double expected,
                      double atol, double rtol) {
  if (!Near(actual, expected, atol, rtol))
    c.Fail(Cat(what, ": got ", actual, ", expected ", expected, " (atol ", atol,
               ", rtol ", rtol, ")"));
}
inline void Check(Case& c, bool ok, const std::string& what) {
  if (!ok) c.Fail(what);
}

}  // namespace vp

#endif  // VERIF_ENGINE_H_
