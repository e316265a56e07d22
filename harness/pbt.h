// A small property-based testing engine.
//
// A check ("sub-property") is a function that draws a case from a stream of choices and throws
// `Failure` if the property does not hold for it. All randomness of a case comes from the choice
// stream, so a case is replayed by replaying the choices, and shrunk by shrinking them (the engine
// deletes and reduces choices while the case still fails). Cases run in forked worker processes,
// so that crashes, failed assertions, sanitizer reports and endless loops are failures of the case
// and not of the harness.
#ifndef PPV_PBT_H_
#define PPV_PBT_H_

#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace ppv {

// ---------------------------------------------------------------------------------------------

/** Thrown when the property does not hold for the current case. */
struct Failure {
  std::string msg;
};

/** Thrown when the current case is outside the domain of the property. */
struct Discard {};

[[noreturn]] void fail(const std::string& msg);
[[noreturn]] void discard();

/** Streams its arguments into a string. */
template <typename... T>
std::string cat(const T&... args) {
  std::ostringstream ss;
  ss.precision(12);
  (ss << ... << args);
  return ss.str();
}

#define PPV_CHECK(cond, ...) \
  do { if (!(cond)) { ::ppv::fail(::ppv::cat("[" #cond "] " __VA_OPT__(,) __VA_ARGS__)); } } while (0)

/** A printable version of a string (non-printable bytes are escaped). */
std::string quoted(const std::string& s);

// ---------------------------------------------------------------------------------------------

/** The storage of a choice sequence; lives in shared memory, so it survives a crash. */
struct ChoiceBuf {
  static constexpr size_t CAP = 1u << 18;
  uint64_t n = 0;
  uint64_t v[CAP];
};

/** The source of all choices of a case. The choice 0 is always the "simplest" one. */
class Gen {
 public:
  Gen(uint64_t seed, ChoiceBuf* rec);
  Gen(const std::vector<uint64_t>& replay, ChoiceBuf* rec);

  /** A choice in [0, n). */
  uint64_t below(uint64_t n);

  /** A choice in [lo, hi], shrinking towards lo. */
  int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(hi - lo + 1)); }

  /** A choice in [lo, hi], shrinking towards 0 (which must be included). */
  int64_t around(int64_t lo, int64_t hi);

  /** A choice in [lo, hi] that prefers small values (geometric-like), shrinking towards lo. */
  int64_t small(int64_t lo, int64_t hi);

  /** As small(), but once in a while (1 %) much more than hi, up to `most` (default: 12 times hi). */
  int64_t many(int64_t lo, int64_t hi, int64_t most = 0);

  /** True with a probability of num/den; shrinks towards false. */
  bool chance(int num, int den = 100) { return below(den) >= static_cast<uint64_t>(den - num); }

  template <typename T>
  const T& pick(const std::vector<T>& xs) { return xs[below(xs.size())]; }

  /** Chooses an index according to weights. */
  size_t weighted(const std::vector<int>& weights);

  /** The number of choices drawn so far. */
  size_t drawn() const { return _rec->n; }

 private:
  uint64_t next();
  bool _replaying;
  uint64_t _s[4];
  std::vector<uint64_t> _replay;
  ChoiceBuf* _rec;
};

// ---------------------------------------------------------------------------------------------

/** What a case reports about itself. */
class Rec {
 public:
  bool isNontrivial = false;
  std::string key;
  std::set<std::string> labels;
  std::string shown;
  bool wantShown = false;

  /** Declares the case non-trivial. */
  void nontrivial(bool v = true) { isNontrivial = isNontrivial || v; }
  /** Adds to the identity of the case; by default, the identity is given by the choices. */
  void label(const std::string& l, bool on = true) { if (on) { labels.insert(l); } }
  /** Sets the human-readable form of the case (a sample for the evidence, and the replay file). */
  void show(const std::string& s) { if (shown.size() < 6000) { shown += s; } }
  template <typename F>
  void showIf(F f) { if (wantShown) { show(f()); } }
};

typedef std::function<void(Gen&, Rec&)> CheckFn;

struct Sub {
  std::string prop;  // The property, e.g., "C01".
  std::string name;  // The name of the sub-check.
  std::string rule;  // How cases are made and what makes one non-trivial.
  int64_t quick;     // The number of cases in the quick tier.
  int64_t thorough;  // The number of cases in the thorough tier.
  CheckFn fn;
  int cpuSeconds = 60;  // The CPU time after which a case counts as not terminating.
};

/** Registers a check. */
struct Register {
  Register(const std::string& prop, const std::string& name, int64_t quick, int64_t thorough,
      const std::string& rule, CheckFn fn, int cpuSeconds = 60);
};

/**
 * A plain regression check of one specific, formerly (or still) failing input. It bypasses the
 * generators. If it fails, it is a violation, unless it is listed in the known-findings file.
 */
struct Regress {
  std::string prop;
  std::string name;
  std::function<void()> fn;
};

struct RegisterRegress {
  RegisterRegress(const std::string& prop, const std::string& name, std::function<void()> fn);
};

/** A directory for scratch files; private to the worker process, and removed at the end. */
std::string scratchDir();

/** Returns the tier of the current run. */
bool isThorough();

int pbtMain(int argc, char** argv);

}  // namespace ppv

#define PPV_CONCAT_(a, b) a##b
#define PPV_CONCAT(a, b) PPV_CONCAT_(a, b)
#define PPV_PROP(prop, name, quick, thorough, rule) \
  static void PPV_CONCAT(ppvfn_, __LINE__)(::ppv::Gen& g, ::ppv::Rec& r); \
  static ::ppv::Register PPV_CONCAT(ppvreg_, __LINE__)(prop, name, quick, thorough, rule, \
      PPV_CONCAT(ppvfn_, __LINE__)); \
  static void PPV_CONCAT(ppvfn_, __LINE__)([[maybe_unused]] ::ppv::Gen& g, \
      [[maybe_unused]] ::ppv::Rec& r)

#define PPV_REGRESS(prop, name) \
  static void PPV_CONCAT(ppvrgfn_, __LINE__)(); \
  static ::ppv::RegisterRegress PPV_CONCAT(ppvrgreg_, __LINE__)(prop, name, \
      PPV_CONCAT(ppvrgfn_, __LINE__)); \
  static void PPV_CONCAT(ppvrgfn_, __LINE__)()

#endif  // PPV_PBT_H_
