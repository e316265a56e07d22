// C24: counters and the bounded priority queue, as models over histories of operations.
#include <algorithm>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#include "./pbt.h"
#include "utils/Counter.h"
#include "utils/FixedCapacityPriorityQueue.h"

using std::string;
using std::vector;
using namespace ppv;
using ppp::utils::counter::DoubleCounter;
using ppp::utils::counter::StringCounter;

template <typename C>
static bool throwsRuntimeError(const C& f) {
  try { f(); } catch (const std::runtime_error&) { return true; }
  return false;
}

// _________________________________________________________________________________________________
PPV_PROP("C24", "double-counter", 1500000, 20000000, "histories of increments, decrements to zero and "
    "queries over negative, zero, tiny and large keys, compared to an ordered map after every step; "
    "non-trivial: at least three keys with different counts") {
  int n = static_cast<int>(g.many(0, 25));
  DoubleCounter c;
  std::map<double, unsigned int> model;
  string log;
  bool neg = g.chance(25);
  bool differ = false;
  for (int i = 0; i <= n; i++) {
    if (i > 0) {
      double key;
      switch (g.below(4)) {
        case 0: key = static_cast<double>(g.around(-6, 6)); break;
        case 1: key = static_cast<double>(g.around(-200, 200)) / 10; break;
        case 2: key = 0; break;
        default: key = static_cast<double>(g.around(-90000, 90000)); break;
      }
      if (neg && key > 0) { key = -key; }
      if (g.chance(15) && model.count(key) > 0) {
        c[key] = 0; model[key] = 0;
        log += cat(" c[", key, "]=0");
      } else {
        unsigned int k = static_cast<unsigned int>(g.small(1, 30));
        c[key] += k; model[key] += k;
        log += cat(" c[", key, "]+=", k);
      }
    }
    unsigned int sum = 0, most = 0;
    double mx = 0;
    bool any = false;
    for (const auto& e : model) {
      sum += e.second;
      most = std::max(most, e.second);
      if (e.second > 0) { mx = e.first; any = true; }
      differ = differ || (model.size() >= 3 && e.second > 0 && e.second < most);
    }
    PPV_CHECK(c.sumCounts() == sum, "sum of counts is ", c.sumCounts(), " instead of ", sum, " after",
        log);
    if (!any) {
      PPV_CHECK(throwsRuntimeError([&] { c.mostFreq(); }) && throwsRuntimeError([&] { c.max(); })
          && throwsRuntimeError([&] { c.mostFreqCount(); })
          && throwsRuntimeError([&] { c.mostFreqAndCount(); }), "no error for an empty counter:", log);
    } else {
      double m = c.mostFreq();
      PPV_CHECK(model.count(m) == 1 && model[m] == most, "most frequent is ", m, " after", log);
      PPV_CHECK(c.mostFreqCount() == most, "count of the most frequent is ", c.mostFreqCount(),
          " after", log);
      auto p = c.mostFreqAndCount();
      PPV_CHECK(p.second == most && model.count(p.first) == 1 && model[p.first] == most,
          "most frequent is ", p.first, " with ", p.second, " after", log);
      double actualMax = 0;
      PPV_CHECK(!throwsRuntimeError([&] { actualMax = c.max(); }), "max() fails after", log);
      PPV_CHECK(actualMax == mx, "max is ", actualMax, " instead of ", mx, " after", log);
    }
  }
  r.showIf([&] { return log; });
  r.nontrivial(differ);
  r.label("no positive key", neg && n > 0);
}

// _________________________________________________________________________________________________
PPV_PROP("C24", "string-counter", 1500000, 20000000, "histories of increments, resets and queries over "
    "short strings, compared to an ordered map; non-trivial: at least three keys with different "
    "counts") {
  int n = static_cast<int>(g.many(0, 25));
  StringCounter c;
  std::map<string, unsigned int> model;
  string log;
  bool differ = false;
  for (int i = 0; i <= n; i++) {
    if (i > 0) {
      string key;
      int len = static_cast<int>(g.below(3));
      for (int k = 0; k < len; k++) { key += static_cast<char>('a' + g.below(3)); }
      if (g.chance(15) && model.count(key) > 0) {
        c[key] = 0; model[key] = 0;
        log += " c[" + key + "]=0";
      } else {
        unsigned int k = static_cast<unsigned int>(g.small(1, 30));
        c[key] += k; model[key] += k;
        log += cat(" c[", key, "]+=", k);
      }
    }
    unsigned int sum = 0, most = 0;
    for (const auto& e : model) {
      sum += e.second;
      most = std::max(most, e.second);
      differ = differ || (model.size() >= 3 && e.second > 0 && e.second < most);
    }
    PPV_CHECK(c.sumCounts() == sum, "sum of counts is ", c.sumCounts(), " instead of ", sum, " after",
        log);
    if (most == 0) {
      PPV_CHECK(throwsRuntimeError([&] { c.mostFreq(); })
          && throwsRuntimeError([&] { c.mostFreqCount(); })
          && throwsRuntimeError([&] { c.mostFreqAndCount(); }), "no error for an empty counter:", log);
    } else {
      string m = c.mostFreq();
      PPV_CHECK(model.count(m) == 1 && model[m] == most, "most frequent is ", m, " after", log);
      PPV_CHECK(c.mostFreqCount() == most, c.mostFreqCount(), " after", log);
      auto p = c.mostFreqAndCount();
      PPV_CHECK(p.second == most && model[p.first] == most, "after", log);
    }
  }
  r.showIf([&] { return log; });
  r.nontrivial(differ);
}

// _________________________________________________________________________________________________
PPV_PROP("C24", "bounded-queue", 1500000, 20000000, "histories of pushes, pops, top and sort queries on "
    "queues of capacity 1..7 with either order; model: a sorted list from which the top is removed "
    "before a push when full; non-trivial: the queue overflowed") {
  int cap = static_cast<int>(g.range(1, 7));
  bool greater = g.chance(50);
  auto less = [greater](int a, int b) { return greater ? a > b : a < b; };
  FixedCapacityPriorityQueue<int, std::greater<int>> qg(cap);
  FixedCapacityPriorityQueue<int, std::less<int>> ql(cap);
  vector<int> model;  // Sorted; the top (the "largest" according to the order) is at the end.
  string log = cat("capacity ", cap, greater ? ", smallest on top:" : ", largest on top:");
  int n = static_cast<int>(g.many(0, 30));
  bool overflow = false;
  for (int i = 0; i < n; i++) {
    if (!model.empty() && g.chance(20)) {
      if (greater) { qg.pop(); } else { ql.pop(); }
      model.pop_back();
      log += " pop";
    } else {
      int v = static_cast<int>(g.around(-9, 9));
      if (greater) { qg.push(v); } else { ql.push(v); }
      if (static_cast<int>(model.size()) == cap) { model.pop_back(); overflow = true; }
      model.insert(std::upper_bound(model.begin(), model.end(), v, less), v);
      log += cat(" push ", v);
    }
    size_t size = greater ? qg.size() : ql.size();
    PPV_CHECK(size == model.size(), "size ", size, " instead of ", model.size(), " after ", log);
    if (!model.empty()) {
      int top = greater ? qg.top() : ql.top();
      PPV_CHECK(top == model.back(), "top is ", top, " instead of ", model.back(), " after ", log);
    }
    vector<int> sorted = { 42 };
    if (greater) { qg.sort(std::greater<int>(), &sorted); } else { ql.sort(std::greater<int>(), &sorted); }
    vector<int> expected = model;
    std::sort(expected.begin(), expected.end(), std::greater<int>());
    PPV_CHECK(sorted == expected, "wrong sorted content after ", log);
    size = greater ? qg.size() : ql.size();
    PPV_CHECK(size == model.size(), "sort changed the queue after ", log);
  }
  r.showIf([&] { return log; });
  r.nontrivial(overflow);
}
