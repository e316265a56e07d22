#include "./pbt.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>

namespace ppv {

using std::string;
using std::vector;

// ---------------------------------------------------------------------------------------------

void fail(const string& msg) { throw Failure{msg}; }
void discard() { throw Discard{}; }

string quoted(const string& s) {
  string r = "\"";
  char buf[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\'; r += c;
    } else if (c == '\n') {
      r += "\\n";
    } else if (c < 0x20 || c == 0x7f) {
      snprintf(buf, sizeof(buf), "\\x%02x", c);
      r += buf;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

// ---------------------------------------------------------------------------------------------

static uint64_t splitmix(uint64_t* x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

Gen::Gen(uint64_t seed, ChoiceBuf* rec) : _replaying(false), _rec(rec) {
  for (auto& s : _s) { s = splitmix(&seed); }
  _rec->n = 0;
}

Gen::Gen(const vector<uint64_t>& replay, ChoiceBuf* rec)
    : _replaying(true), _s{}, _replay(replay), _rec(rec) {
  _rec->n = 0;
}

uint64_t Gen::next() {
  auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
  uint64_t result = rotl(_s[1] * 5, 7) * 9;
  uint64_t t = _s[1] << 17;
  _s[2] ^= _s[0]; _s[3] ^= _s[1]; _s[1] ^= _s[2]; _s[0] ^= _s[3];
  _s[2] ^= t;
  _s[3] = rotl(_s[3], 45);
  return result;
}

uint64_t Gen::below(uint64_t n) {
  if (n == 0) { n = 1; }
  if (_rec->n >= ChoiceBuf::CAP) { throw Discard{}; }
  uint64_t v;
  if (_replaying) {
    v = _rec->n < _replay.size() ? _replay[_rec->n] : 0;
    if (v >= n) { v = n - 1; }
  } else {
    v = n == 1 ? 0 : next() % n;
  }
  _rec->v[_rec->n++] = v;
  return v;
}

int64_t Gen::around(int64_t lo, int64_t hi) {
  // 0 -> 0, 1 -> -1, 2 -> 1, ... as long as possible.
  uint64_t v = below(hi - lo + 1);
  int64_t m = std::min(-lo, hi);
  if (v <= static_cast<uint64_t>(2 * m)) {
    return (v & 1) ? -static_cast<int64_t>((v + 1) / 2) : static_cast<int64_t>(v / 2);
  }
  int64_t rest = static_cast<int64_t>(v) - 2 * m;
  return hi > -lo ? m + rest : -m - rest;
}

int64_t Gen::small(int64_t lo, int64_t hi) {
  uint64_t n = hi - lo + 1;
  uint64_t c = below(4);
  uint64_t cap = n;
  if (c == 0) { cap = std::min<uint64_t>(n, 3); }
  if (c == 1) { cap = std::min<uint64_t>(n, 8); }
  if (c == 2) { cap = std::min<uint64_t>(n, std::max<uint64_t>(8, n / 4)); }
  return lo + static_cast<int64_t>(below(cap));
}

int64_t Gen::many(int64_t lo, int64_t hi, int64_t most) {
  if (chance(1)) { return range(lo, most ? most : 12 * hi); }
  return small(lo, hi);
}

size_t Gen::weighted(const vector<int>& weights) {
  int64_t sum = 0;
  for (int w : weights) { sum += w; }
  int64_t v = below(sum);
  for (size_t i = 0; i < weights.size(); i++) {
    v -= weights[i];
    if (v < 0) { return i; }
  }
  return 0;
}

// ---------------------------------------------------------------------------------------------

static vector<Sub>& subs() {
  static vector<Sub> s;
  return s;
}

Register::Register(const string& prop, const string& name, int64_t quick, int64_t thorough,
    const string& rule, CheckFn fn, int cpuSeconds) {
  subs().push_back(Sub{prop, name, rule, quick, thorough, fn, cpuSeconds});
}

static vector<Regress>& regresses() {
  static vector<Regress> s;
  return s;
}

RegisterRegress::RegisterRegress(const string& prop, const string& name, std::function<void()> fn) {
  regresses().push_back(Regress{prop, name, fn});
}

/** Wraps a regression check into a check without choices. */
static Sub regressSub(const Regress& r) {
  auto fn = r.fn;
  return Sub{r.prop, "regress:" + r.name, "", 1, 1, [fn](Gen&, Rec&) { fn(); }, 60};
}

static bool thorough = false;
bool isThorough() { return thorough; }

// ---------------------------------------------------------------------------------------------

enum State : int { IDLE = 0, RUNNING = 1, FAILED = 2, TIMEOUT = 3, PASSED = 4, DISCARDED = 5 };

struct Slot {
  volatile int state;
  volatile int64_t caseIndex;
  volatile int64_t evaluations;
  char msg[8192];
  char shown[8192];
  ChoiceBuf choices;
};

static Slot* newSlot() {
  void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(70); }
  return static_cast<Slot*>(p);
}

static string rootScratch;
static string myScratch;

string scratchDir() {
  if (myScratch.empty()) {
    myScratch = rootScratch + "/w" + std::to_string(getpid());
    mkdir(myScratch.c_str(), 0700);
  }
  return myScratch;
}

static void removeTree(const string& path) {
  // Only ever called for directories below the scratch directory created by this process.
  if (rootScratch.size() < 12 || path.compare(0, rootScratch.size(), rootScratch) != 0) { return; }
  DIR* d = opendir(path.c_str());
  if (!d) { return; }
  while (dirent* e = readdir(d)) {
    string n = e->d_name;
    if (n == "." || n == "..") { continue; }
    string p = path + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      removeTree(p);
    } else {
      unlink(p.c_str());
    }
  }
  closedir(d);
  rmdir(path.c_str());
}

static Slot* currentSlot = nullptr;

static void onCpuTimeout(int) {
  if (currentSlot) { currentSlot->state = TIMEOUT; }
  _exit(3);
}

static void armTimer(int seconds) {
  struct itimerval tv = {};
  tv.it_value.tv_sec = seconds;
  setitimer(ITIMER_PROF, &tv, nullptr);
}

static void setMsg(Slot* s, const string& msg) {
  size_t n = std::min(msg.size(), sizeof(s->msg) - 1);
  memcpy(s->msg, msg.data(), n);
  s->msg[n] = 0;
}

static void setShown(Slot* s, const string& msg) {
  size_t n = std::min(msg.size(), sizeof(s->shown) - 1);
  memcpy(s->shown, msg.data(), n);
  s->shown[n] = 0;
}

/** Runs one case in the current process. */
static State runCase(const Sub& sub, Gen* gen, Rec* rec, Slot* slot) {
  State st;
  try {
    slot->state = RUNNING;
    srand(1);
    sub.fn(*gen, *rec);
    st = PASSED;
  } catch (const Failure& f) {
    setMsg(slot, f.msg);
    setShown(slot, rec->shown);
    st = FAILED;
  } catch (const Discard&) {
    st = DISCARDED;
  } catch (const std::exception& e) {
    setMsg(slot, string("uncaught exception: ") + e.what());
    setShown(slot, rec->shown);
    st = FAILED;
  }
  slot->state = st;
  return st;
}

static void childSetup(Slot* slot, const string& stderrPath) {
  currentSlot = slot;
  myScratch = "";
  signal(SIGPROF, onCpuTimeout);
  int fd = open("/dev/null", O_RDWR);
  dup2(fd, 0);
  dup2(fd, 1);
  int efd = open(stderrPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (efd >= 0) { dup2(efd, 2); }
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
}

static int64_t residentMb() {
  std::ifstream f("/proc/self/statm");
  int64_t size = 0, resident = 0;
  f >> size >> resident;
  return resident * 4096 >> 20;
}

static string readFile(const string& path, size_t cap = 1 << 20) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  string s = ss.str();
  return s.size() > cap ? s.substr(0, cap) : s;
}

/** Extracts the telling lines of what a crashed case printed to stderr. */
static string crashSummary(const string& err) {
  std::istringstream in(err);
  string line;
  string res;
  int n = 0;
  while (std::getline(in, line) && n < 14) {
    if (line.find("runtime error") != string::npos || line.find("ERROR: ") != string::npos
        || line.find("Assertion") != string::npos || line.find("terminate called") != string::npos
        || line.find("what():") != string::npos || line.find("SUMMARY") != string::npos
        || (line.find("    #") != string::npos && n > 0 && n < 10)) {
      res += line.substr(0, 300) + "\n";
      n++;
    }
  }
  return res.empty() ? err.substr(0, 600) : res;
}

static string describeStatus(int status) {
  if (WIFSIGNALED(status)) {
    return string("killed by signal ") + strsignal(WTERMSIG(status));
  }
  return "exited with status " + std::to_string(WEXITSTATUS(status));
}

/** Runs one case (given by choices or a seed) in a forked process. */
struct Outcome {
  bool failed = false;
  string msg;
  string shown;
  vector<uint64_t> choices;
  bool discarded = false;
  bool timedOut = false;
};

static Outcome runForked(const Sub& sub, const vector<uint64_t>* choices, uint64_t seed, Slot* slot,
    bool show) {
  slot->state = IDLE;
  slot->msg[0] = 0;
  slot->shown[0] = 0;
  slot->choices.n = 0;
  string errPath = rootScratch + "/single.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup(slot, errPath);
    armTimer(sub.cpuSeconds);
    Rec rec;
    rec.wantShown = show;
    if (choices) {
      Gen gen(*choices, &slot->choices);
      runCase(sub, &gen, &rec, slot);
    } else {
      Gen gen(seed, &slot->choices);
      runCase(sub, &gen, &rec, slot);
    }
    if (show) { setShown(slot, rec.shown); }
    _exit(slot->state == FAILED ? 2 : 0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  removeTree(rootScratch + "/w" + std::to_string(pid));
  Outcome o;
  o.choices.assign(slot->choices.v, slot->choices.v + slot->choices.n);
  o.shown = slot->shown;
  switch (slot->state) {
    case PASSED:
      break;
    case DISCARDED:
      o.discarded = true;
      break;
    case FAILED:
      o.failed = true;
      o.msg = slot->msg;
      break;
    case TIMEOUT:
      o.failed = true;
      o.timedOut = true;
      o.msg = "the case did not terminate within " + std::to_string(sub.cpuSeconds)
          + " s of CPU time";
      break;
    default:
      o.failed = true;
      o.msg = "the process " + describeStatus(status) + ":\n" + crashSummary(readFile(errPath));
  }
  return o;
}

// ---------------------------------------------------------------------------------------------
// Shrinking.

static double now() {
  return std::chrono::duration<double>(
      std::chrono::steady_clock::now().time_since_epoch()).count();
}

static Outcome shrink(const Sub& sub, Outcome best, Slot* slot, double budget, int* attempts) {
  double end = now() + budget;
  auto better = [](const vector<uint64_t>& a, const vector<uint64_t>& b) {
    if (a.size() != b.size()) { return a.size() < b.size(); }
    return a < b;
  };
  auto attempt = [&](const vector<uint64_t>& cand) {
    if (now() > end) { return false; }
    (*attempts)++;
    Outcome o = runForked(sub, &cand, 0, slot, false);
    // A case that fails otherwise must not turn into one that does not terminate (and is slow).
    if (o.failed && o.timedOut == best.timedOut && better(o.choices, best.choices)) {
      best = o;
      return true;
    }
    return false;
  };
  bool improved = true;
  while (improved && now() < end) {
    improved = false;
    // Delete blocks.
    for (size_t size : { size_t(1024), size_t(256), size_t(64), size_t(32), size_t(16), size_t(8),
          size_t(4), size_t(3), size_t(2), size_t(1) }) {
      if (size > best.choices.size()) { continue; }
      for (size_t i = best.choices.size(); i >= size && now() < end; ) {
        size_t start = i - size;
        vector<uint64_t> c = best.choices;
        c.erase(c.begin() + start, c.begin() + start + size);
        if (attempt(c)) {
          improved = true;
          i = std::min(i, best.choices.size());
        } else {
          // Try also to lower the choice before the deleted block (often a length).
          if (start > 0 && best.choices[start - 1] > 0) {
            c = best.choices;
            c[start - 1]--;
            c.erase(c.begin() + start, c.begin() + start + size);
            if (attempt(c)) { improved = true; i = std::min(i, best.choices.size()); continue; }
          }
          i = i > size / 2 + 1 && size > 1 ? i - (size / 2 > 0 ? size / 2 : 1) : i - 1;
          if (i < size) { break; }
        }
      }
    }
    // Zero blocks.
    for (size_t size : { size_t(64), size_t(16), size_t(4) }) {
      for (size_t i = 0; i + size <= best.choices.size() && now() < end; i += size) {
        vector<uint64_t> c = best.choices;
        bool changed = false;
        for (size_t k = i; k < i + size; k++) { changed |= c[k] != 0; c[k] = 0; }
        if (changed && attempt(c)) { improved = true; }
      }
    }
    // Reduce single choices.
    for (size_t i = 0; i < best.choices.size() && now() < end; i++) {
      if (best.choices[i] == 0) { continue; }
      vector<uint64_t> c = best.choices;
      c[i] = 0;
      if (attempt(c)) { improved = true; continue; }
      uint64_t lo = 0;
      while (i < best.choices.size() && best.choices[i] > lo + 1 && now() < end) {
        uint64_t mid = lo + (best.choices[i] - lo) / 2;
        c = best.choices;
        c[i] = mid;
        if (attempt(c)) { improved = true; } else { lo = mid; }
      }
    }
  }
  return best;
}

// ---------------------------------------------------------------------------------------------
// JSON helpers.

static string jsonStr(const string& s) {
  string r = "\"";
  char buf[8];
  // Replace everything that is not valid UTF-8.
  for (size_t i = 0; i < s.size(); ) {
    unsigned char c = s[i];
    size_t len = c < 0x80 ? 1 : (c >> 5) == 6 ? 2 : (c >> 4) == 14 ? 3 : (c >> 3) == 30 ? 4 : 0;
    bool ok = len > 0 && i + len <= s.size();
    for (size_t k = 1; ok && k < len; k++) { ok = (static_cast<unsigned char>(s[i + k]) >> 6) == 2; }
    if (ok && len > 1) {  // Overlong forms, surrogates, and code points that are too large.
      unsigned cp = c & (0x7f >> len);
      for (size_t k = 1; k < len; k++) { cp = cp << 6 | (static_cast<unsigned char>(s[i + k]) & 0x3f); }
      ok = cp >= (len == 2 ? 0x80u : len == 3 ? 0x800u : 0x10000u) && cp <= 0x10ffff && (cp < 0xd800 || cp > 0xdfff);
    }
    if (!ok) {
      snprintf(buf, sizeof(buf), "<%02x>", c);
      r += buf;
      i++;
      continue;
    }
    if (len == 1) {
      if (c == '"' || c == '\\') {
        r += '\\'; r += c;
      } else if (c < 0x20 || c == 0x7f) {
        snprintf(buf, sizeof(buf), "\\u%04x", c);
        r += buf;
      } else {
        r += c;
      }
    } else {
      r += s.substr(i, len);
    }
    i += len;
  }
  return r + "\"";
}

static uint64_t hashOf(const uint64_t* v, size_t n) {
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; i++) {
    h = (h ^ v[i]) * 1099511628211ull;
    h ^= h >> 29;
  }
  return h;
}

static uint64_t hashStr(const string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
  return h;
}

static uint64_t caseSeed(const Sub& sub, uint64_t seed, int64_t i) {
  uint64_t x = hashStr(sub.prop + "/" + sub.name) ^ (seed * 0x9e3779b97f4a7c15ull);
  splitmix(&x);
  x ^= static_cast<uint64_t>(i) * 0xd1342543de82ef95ull;
  return splitmix(&x);
}

struct SubResult {
  int64_t evaluations = 0;
  int64_t discarded = 0;
  std::unordered_set<uint64_t> nontrivial;
  std::map<string, int64_t> labels;
  vector<string> samples;
  bool violated = false;
  string replayPath;
  bool capped = false;
  double wall = 0;
  string message;
  int64_t shrinkAttempts = 0;
  bool flaky = false;
};

/**
 * Replays all cases that a worker has run up to (and including) the given one in one process. For
 * failures that need the state that earlier cases leave behind.
 */
static Outcome runHistory(const Sub& sub, uint64_t seed, int64_t from, int64_t step, int64_t to,
    Slot* slot) {
  slot->state = IDLE;
  slot->msg[0] = 0;
  slot->shown[0] = 0;
  slot->choices.n = 0;
  slot->caseIndex = -1;
  string errPath = rootScratch + "/single.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    childSetup(slot, errPath);
    for (int64_t i = from; i <= to; i += step) {
      slot->caseIndex = i;
      Rec rec;
      rec.wantShown = i == to;
      Gen gen(caseSeed(sub, seed, i), &slot->choices);
      armTimer(sub.cpuSeconds);
      if (runCase(sub, &gen, &rec, slot) == FAILED) { _exit(2); }
    }
    _exit(0);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  removeTree(rootScratch + "/w" + std::to_string(pid));
  Outcome o;
  o.shown = slot->shown;
  o.choices.assign(slot->choices.v, slot->choices.v + slot->choices.n);
  if (slot->state == FAILED) {
    o.failed = true;
    o.msg = slot->msg;
  } else if (slot->state == RUNNING || slot->state == TIMEOUT) {
    o.failed = true;
    o.msg = "the process " + describeStatus(status) + ":\n" + crashSummary(readFile(errPath));
  }
  if (slot->caseIndex != to) { o.failed = false; }
  return o;
}

static void writeReplay(const string& path, const Sub& sub, const Outcome& o, uint64_t seed,
    int64_t index, int64_t from = -1, int64_t step = 0) {
  std::ofstream f(path);
  f << "{\n \"property\": " << jsonStr(sub.prop) << ",\n \"check\": " << jsonStr(sub.name)
    << ",\n \"seed\": " << seed << ",\n \"case\": " << index;
  if (from >= 0) { f << ",\n \"history_from\": " << from << ",\n \"history_step\": " << step; }
  f << ",\n \"message\": "
    << jsonStr(o.msg) << ",\n \"shown\": " << jsonStr(o.shown) << ",\n \"choices\": [";
  for (size_t i = 0; i < o.choices.size(); i++) {
    f << (i ? "," : "") << o.choices[i];
  }
  f << "]\n}\n";
}

static SubResult runSub(const Sub& sub, uint64_t seed, int64_t numCases, int numWorkers,
    double deadline, const string& replayDir) {
  SubResult res;
  double start = now();
  int64_t* stopAt = static_cast<int64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *stopAt = numCases;
  if (numCases < numWorkers) { numWorkers = static_cast<int>(numCases); }
  vector<Slot*> slots;
  vector<pid_t> pids;
  fflush(stdout);
  // The tested code may leak, so a worker that has grown too much is replaced by a new one.
  vector<int64_t> startAt(numWorkers);
  vector<int> parts(numWorkers, 0);
  const int REPLACE = 77;
  auto resPath = [&](int w, int part) {
    return rootScratch + "/" + std::to_string(w) + "." + std::to_string(part) + ".res";
  };
  for (int w = 0; w < numWorkers; w++) {
    slots.push_back(newSlot());
    pids.push_back(-1);
    startAt[w] = w;
  }
  auto spawn = [&](int w) {
    Slot* slot = slots[w];
    int part = parts[w]++;
    int64_t start = startAt[w];
    pid_t pid = fork();
    if (pid == 0) {
      bool replace = false;
      childSetup(slot, rootScratch + "/" + std::to_string(w) + ".err");
      std::map<string, int64_t> labels;
      vector<uint64_t> keys;
      vector<std::pair<int64_t, string>> samples;
      int64_t discarded = 0;
      bool capped = false;
      State last = PASSED;
      int64_t i = start;
      int count = 0;
      for (; i < *static_cast<volatile int64_t*>(stopAt); i += numWorkers) {
        if (now() > deadline) { capped = true; break; }
        if (++count % 256 == 0 && residentMb() > 1200) { replace = true; break; }
        slot->caseIndex = i;
        Rec rec;
        // Show a few cases: early, and (so that big ones appear too) some later ones.
        rec.wantShown = samples.size() < 3 && (i < 64 || i % 997 < 8);
        Gen gen(caseSeed(sub, seed, i), &slot->choices);
        armTimer(sub.cpuSeconds);
        last = runCase(sub, &gen, &rec, slot);
        slot->evaluations = slot->evaluations + 1;
        if (last == FAILED) { break; }
        if (last == DISCARDED) { discarded++; continue; }
        for (const auto& l : rec.labels) { labels[l]++; }
        if (rec.isNontrivial && keys.size() < 1000000) {
          keys.push_back(rec.key.empty() ? hashOf(slot->choices.v, slot->choices.n)
              : hashStr(rec.key));
          if (!rec.shown.empty() && rec.wantShown) {
            samples.push_back({ i, rec.shown.substr(0, 1500) });
          }
        }
      }
      armTimer(0);
      std::ofstream f(resPath(w, part), std::ios::binary);
      auto put = [&](int64_t v) { f.write(reinterpret_cast<char*>(&v), sizeof(v)); };
      put(discarded);
      put(capped);
      put(labels.size());
      for (auto& l : labels) { put(l.first.size()); f << l.first; put(l.second); }
      put(keys.size());
      for (uint64_t k : keys) { put(k); }
      put(samples.size());
      for (auto& s : samples) { put(s.first); put(s.second.size()); f << s.second; }
      f.close();
      if (replace) { slot->caseIndex = i; }
      _exit(last == FAILED ? 2 : replace ? REPLACE : 0);
    }
    pids[w] = pid;
  };
  for (int w = 0; w < numWorkers; w++) { spawn(w); }
  // Wait for the workers.
  int64_t failedIndex = -1;
  int failedWorker = -1;
  int failedStatus = 0;
  size_t alive = pids.size();
  while (alive > 0) {
    int status = 0;
    pid_t pid = waitpid(-1, &status, 0);
    if (pid < 0) { break; }
    auto it = std::find(pids.begin(), pids.end(), pid);
    if (it == pids.end()) { continue; }
    int w = static_cast<int>(it - pids.begin());
    if (WIFEXITED(status) && WEXITSTATUS(status) == REPLACE) {
      removeTree(rootScratch + "/w" + std::to_string(pid));
      startAt[w] = slots[w]->caseIndex;
      spawn(w);
      continue;
    }
    pids[w] = -1;
    alive--;
    if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
      int64_t idx = slots[w]->caseIndex;
      if (slots[w]->state == RUNNING) { slots[w]->evaluations = slots[w]->evaluations + 1; }
      if (failedIndex < 0 || idx < failedIndex) {
        failedIndex = idx;
        failedWorker = w;
        failedStatus = status;
      }
      *stopAt = std::min<int64_t>(*stopAt, failedIndex);
    }
    removeTree(rootScratch + "/w" + std::to_string(pid));
  }
  // Collect the results.
  vector<std::pair<int64_t, string>> samples;
  for (int w = 0; w < numWorkers; w++) {
    res.evaluations += slots[w]->evaluations;
   for (int part = 0; part < parts[w]; part++) {
    string path = resPath(w, part);
    std::ifstream f(path, std::ios::binary);
    if (!f.is_open()) { continue; }
    auto get = [&]() { int64_t v = 0; f.read(reinterpret_cast<char*>(&v), sizeof(v)); return v; };
    auto gets = [&]() {
      int64_t n = get();
      string s(std::max<int64_t>(0, std::min<int64_t>(n, 1 << 20)), 0);
      f.read(s.data(), s.size());
      return s;
    };
    res.discarded += get();
    res.capped |= get() != 0;
    for (int64_t n = get(); n > 0 && f; n--) { string l = gets(); res.labels[l] += get(); }
    for (int64_t n = get(); n > 0 && f; n--) { res.nontrivial.insert(get()); }
    for (int64_t n = get(); n > 0 && f; n--) { int64_t i = get(); samples.push_back({ i, gets() }); }
    f.close();
    unlink(path.c_str());
   }
  }
  std::sort(samples.begin(), samples.end());
  for (size_t i = 0; i < samples.size() && i < 3; i++) { res.samples.push_back(samples[i].second); }
  if (samples.size() > 3) { res.samples.push_back(samples.back().second); }

  if (failedIndex >= 0) {
    Slot* slot = slots[failedWorker];
    Outcome o;
    o.failed = true;
    o.choices.assign(slot->choices.v, slot->choices.v + slot->choices.n);
    o.timedOut = slot->state == TIMEOUT;
    o.msg = slot->state == FAILED ? slot->msg : describeStatus(failedStatus) + "\n"
        + crashSummary(readFile(rootScratch + "/" + std::to_string(failedWorker) + ".err"));
    printf("  failing case %lld of %s/%s: %s\n", static_cast<long long>(failedIndex),
        sub.prop.c_str(), sub.name.c_str(), o.msg.substr(0, 1500).c_str());
    fflush(stdout);
    // Does it reproduce in a fresh process?
    Outcome first = runForked(sub, &o.choices, 0, slot, false);
    if (!first.failed) { first = runForked(sub, nullptr, caseSeed(sub, seed, failedIndex), slot, false); }
    if (first.failed) {
      int attempts = 0;
      Outcome small = shrink(sub, first, slot, thorough ? 180 : 60, &attempts);
      res.shrinkAttempts = attempts;
      int again = 0;
      Outcome fin;
      for (int k = 0; k < 3; k++) {
        Outcome x = runForked(sub, &small.choices, 0, slot, true);
        if (x.failed) { again++; fin = x; }
      }
      if (again < 3) {
        // The shrunk case is not stable: fall back to the original one.
        again = 0;
        for (int k = 0; k < 3; k++) {
          Outcome x = runForked(sub, &first.choices, 0, slot, true);
          if (x.failed) { again++; fin = x; }
        }
      }
      if (again == 3) {
        res.violated = true;
        res.message = fin.msg;
        mkdir(replayDir.c_str(), 0755);
        res.replayPath = replayDir + "/" + sub.prop + "-" + sub.name + ".json";
        writeReplay(res.replayPath, sub, fin, seed, failedIndex);
      } else {
        res.flaky = true;
      }
    } else {
      int again = 0;
      Outcome fin;
      for (int k = 0; k < 3; k++) {
        Outcome x = runHistory(sub, seed, startAt[failedWorker], numWorkers, failedIndex, slot);
        if (x.failed) { again++; fin = x; }
      }
      if (again == 3) {
        res.violated = true;
        fin.msg = "(only after earlier cases in the same process) " + fin.msg;
        res.message = fin.msg;
        mkdir(replayDir.c_str(), 0755);
        res.replayPath = replayDir + "/" + sub.prop + "-" + sub.name + ".json";
        writeReplay(res.replayPath, sub, fin, seed, failedIndex, startAt[failedWorker],
            numWorkers);
      } else {
        res.flaky = true;
      }
    }
    if (res.flaky) {
      printf("  the failure did not reproduce in a fresh process: inconclusive\n");
    }
  }
  for (int w = 0; w < numWorkers; w++) {
    unlink((rootScratch + "/" + std::to_string(w) + ".err").c_str());
    munmap(slots[w], sizeof(Slot));
  }
  munmap(stopAt, 4096);
  res.wall = now() - start;
  return res;
}

// ---------------------------------------------------------------------------------------------

struct History { int64_t from = -1; int64_t step = 0; int64_t to = 0; uint64_t seed = 0; };

static bool parseReplay(const string& path, string* prop, string* check, vector<uint64_t>* choices,
    History* hist) {
  string s = readFile(path, 64 << 20);
  auto num = [&](const string& key, int64_t def) {
    size_t p = s.find("\"" + key + "\": ");
    return p == string::npos ? def : static_cast<int64_t>(strtoll(s.c_str() + p + key.size() + 4, 0, 10));
  };
  hist->from = num("history_from", -1);
  hist->step = num("history_step", 0);
  hist->to = num("case", 0);
  hist->seed = num("seed", 0);
  auto str = [&](const string& key) {
    size_t p = s.find("\"" + key + "\": \"");
    if (p == string::npos) { return string(); }
    p += key.size() + 5;
    return s.substr(p, s.find('"', p) - p);
  };
  *prop = str("property");
  *check = str("check");
  size_t p = s.find("\"choices\": [");
  if (p == string::npos) { return false; }
  std::istringstream in(s.substr(p + 12, s.find(']', p) - p - 12));
  string tok;
  while (std::getline(in, tok, ',')) {
    if (!tok.empty()) { choices->push_back(strtoull(tok.c_str(), nullptr, 10)); }
  }
  return true;
}

static int usage() {
  fprintf(stderr, "usage: ppv list | ppv check PROP [--sub NAME] [--seed N] [--tier quick|thorough]"
      " [--evidence FILE] [--replay-dir DIR] [--findings FILE] [--cases N] [--workers N] | ppv replay FILE |"
      " ppv show PROP SUB SEED CASE\n");
  return 64;
}

int pbtMain(int argc, char** argv) {
  if (argc < 2) { return usage(); }
  const char* base = getenv("PPV_SCRATCH");
  string tmpl = string(base ? base : "/tmp") + "/ppv-scratch-XXXXXX";
  vector<char> buf(tmpl.begin(), tmpl.end());
  buf.push_back(0);
  if (!mkdtemp(buf.data())) { perror("mkdtemp"); return 70; }
  rootScratch = buf.data();
  pid_t mainPid = getpid();
  struct Cleanup {
    pid_t pid;
    ~Cleanup() { if (getpid() == pid) { string r = rootScratch; removeTree(r); } }
  } cleanup{mainPid};

  string cmd = argv[1];
  if (cmd == "list") {
    for (const auto& s : subs()) {
      printf("%s %s quick=%lld thorough=%lld\n", s.prop.c_str(), s.name.c_str(),
          static_cast<long long>(s.quick), static_cast<long long>(s.thorough));
    }
    return 0;
  }
  if (cmd == "replay" && argc >= 3) {
    string prop, check;
    vector<uint64_t> choices;
    History hist;
    if (!parseReplay(argv[2], &prop, &check, &choices, &hist)) { return usage(); }
    vector<Sub> all = subs();
    for (const auto& r : regresses()) { all.push_back(regressSub(r)); }
    for (const auto& s : all) {
      if (s.prop == prop && s.name == check) {
        Slot* slot = newSlot();
        Outcome o = hist.from >= 0 ? runHistory(s, hist.seed, hist.from, hist.step, hist.to, slot)
            : runForked(s, &choices, 0, slot, true);
        printf("%s\n%s\n%s\n", o.failed ? "FAILS" : o.discarded ? "DISCARDED" : "PASSES",
            o.msg.c_str(), o.shown.c_str());
        return o.failed ? 1 : 0;
      }
    }
    fprintf(stderr, "no check %s/%s\n", prop.c_str(), check.c_str());
    return 64;
  }
  if (cmd == "show" && argc >= 6) {
    for (const auto& s : subs()) {
      if (s.prop == argv[2] && s.name == argv[3]) {
        Slot* slot = newSlot();
        Outcome o = runForked(s, nullptr, caseSeed(s, strtoull(argv[4], 0, 10),
            strtoll(argv[5], 0, 10)), slot, true);
        printf("%s\n%s\n%s\n(%zu choices)\n", o.failed ? "FAILS" : o.discarded ? "DISCARDED" : "PASSES",
            o.msg.c_str(), o.shown.c_str(), o.choices.size());
        return o.failed ? 1 : 0;
      }
    }
    return 64;
  }
  if (cmd != "check" || argc < 3) { return usage(); }

  string prop = argv[2];
  string onlySub;
  string evidence;
  string findings;
  string replayDir = ".";
  uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
  thorough = getenv("VERIF_TIER") && string(getenv("VERIF_TIER")) == "thorough";
  int64_t cases = -1;
  int workers = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  if (workers < 1) { workers = 1; }
  if (workers > 16) { workers = 16; }
  double wallCap = 0;
  for (int i = 3; i + 1 < argc; i += 2) {
    string a = argv[i];
    string v = argv[i + 1];
    if (a == "--sub") { onlySub = v; }
    else if (a == "--seed") { seed = strtoull(v.c_str(), nullptr, 10); }
    else if (a == "--tier") { thorough = v == "thorough"; }
    else if (a == "--evidence") { evidence = v; }
    else if (a == "--replay-dir") { replayDir = v; }
    else if (a == "--findings") { findings = v; }
    else if (a == "--cases") { cases = strtoll(v.c_str(), nullptr, 10); }
    else if (a == "--workers") { workers = atoi(v.c_str()); }
    else if (a == "--wall") { wallCap = atof(v.c_str()); }
    else { return usage(); }
  }
  if (wallCap <= 0) { wallCap = thorough ? 2400 : 420; }

  vector<const Sub*> mine;
  for (const auto& s : subs()) {
    if (s.prop == prop && (onlySub.empty() || s.name == onlySub)) { mine.push_back(&s); }
  }
  if (mine.empty() && regresses().empty()) { fprintf(stderr, "no checks for %s\n", prop.c_str()); return 64; }

  double start = now();
  int64_t evaluations = 0;
  int64_t nontrivial = 0;
  int violations = 0;
  string rules, samples, detail, violationLines;
  // The plain regression checks: known findings, and inputs that failed before a repair.
  int numRegress = 0;
  string findingLines;
  for (const auto& rg : regresses()) {
    if (rg.prop != prop || !onlySub.empty()) { continue; }
    numRegress++;
    Sub sub = regressSub(rg);
    Slot* slot = newSlot();
    int failures = 0;
    Outcome o;
    for (int k = 0; k < 3; k++) {
      Outcome x = runForked(sub, nullptr, 1, slot, true);
      if (!x.failed) { break; }
      failures++;
      o = x;
    }
    munmap(slot, sizeof(Slot));
    // finding: property=<id> case=<name> <what fails>
    string tag = "finding: property=" + prop + " case=" + rg.name + " ";
    string what;
    std::istringstream fs(findings.empty() ? "" : readFile(findings));
    string line;
    while (std::getline(fs, line)) {
      if (line.compare(0, tag.size(), tag) == 0) { what = line.substr(tag.size()); }
    }
    if (failures == 3) {
      if (!what.empty()) {
        findingLines += "KNOWN-FINDING: property=" + prop + " " + rg.name + ": " + what + "\n";
      } else {
        violations++;
        mkdir(replayDir.c_str(), 0755);
        string path = replayDir + "/" + prop + "-regress-" + rg.name + ".json";
        writeReplay(path, sub, o, seed, 0);
        printf("  regression check %s fails: %s\n", rg.name.c_str(), o.msg.c_str());
        violationLines += "VIOLATION property=" + prop + " replay=" + path + "\n";
      }
    } else if (!what.empty()) {
      printf("note: the known finding %s does not fail any more\n", rg.name.c_str());
    }
  }
  evaluations += numRegress;
  printf("%s", findingLines.c_str());
  for (size_t k = 0; k < mine.size() && (violations == 0 || getenv("PPV_ALL")); k++) {
    const Sub& sub = *mine[k];
    int64_t n = cases >= 0 ? cases : thorough ? sub.thorough : sub.quick;
    double remaining = wallCap - (now() - start);
    double deadline = now() + std::max(5.0, remaining / (mine.size() - k) * 1.5);
    SubResult r = runSub(sub, seed, n, workers, deadline, replayDir);
    evaluations += r.evaluations;
    nontrivial += r.nontrivial.size();
    printf("%s/%s: %lld cases, %zu distinct non-trivial, %lld discarded, %.1f s%s\n",
        sub.prop.c_str(), sub.name.c_str(), static_cast<long long>(r.evaluations),
        r.nontrivial.size(), static_cast<long long>(r.discarded), r.wall,
        r.capped ? " (time budget reached)" : "");
    rules += (rules.empty() ? "" : " | ") + sub.name + ": " + sub.rule;
    for (const auto& s : r.samples) {
      samples += (samples.empty() ? "" : ",\n   ") + jsonStr("[" + sub.name + "] " + s);
    }
    detail += (detail.empty() ? "" : ",\n   ") + jsonStr(sub.name) + ": {\"evaluations\": "
        + std::to_string(r.evaluations) + ", \"distinct_nontrivial\": "
        + std::to_string(r.nontrivial.size()) + ", \"discarded\": " + std::to_string(r.discarded)
        + ", \"wall_s\": " + std::to_string(r.wall) + ", \"time_budget_reached\": "
        + (r.capped ? "true" : "false") + ", \"labels\": {";
    bool firstLabel = true;
    for (const auto& l : r.labels) {
      detail += (firstLabel ? "" : ", ") + jsonStr(l.first) + ": " + std::to_string(l.second);
      firstLabel = false;
      if (onlySub == sub.name || getenv("PPV_LABELS")) {
        printf("    %8lld %s\n", static_cast<long long>(l.second), l.first.c_str());
      }
    }
    detail += "}}";
    if (r.violated) {
      violations++;
      printf("  shrunk (%lld attempts) to: %s\n", static_cast<long long>(r.shrinkAttempts),
          r.message.c_str());
      violationLines += "VIOLATION property=" + prop + " replay=" + r.replayPath + "\n";
      if (!getenv("PPV_ALL")) { break; }
    }
    fflush(stdout);
  }
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": " << jsonStr(prop) << ",\n \"tier\": \""
      << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations
      << ",\n  \"distinct_nontrivial\": " << nontrivial << ",\n  \"rule\": " << jsonStr(rules)
      << ",\n  \"samples\": [\n   " << samples << "\n  ],\n  \"regression_checks\": " << numRegress << ",\n  \"checks\": {\n   " << detail
      << "\n  }\n },\n \"wall_s\": " << now() - start << ",\n \"violations\": " << violations
      << "\n}\n";
  }
  printf("%s", violationLines.c_str());
  fflush(stdout);
  return violations > 0 ? 1 : 0;
}

}  // namespace ppv

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:symbolize=0:allocator_may_return_null=0:detect_stack_use_after_return=0:"
      "max_allocation_size_mb=4000:handle_abort=0:fast_unwind_on_malloc=1:malloc_context_size=0:"
      "detect_odr_violation=0:quarantine_size_mb=16";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:symbolize=0"; }

int main(int argc, char** argv) { return ppv::pbtMain(argc, argv); }
