// C06: the XY-cut engine, against a reference implementation that works on sorted intervals.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./pbt.h"
#include "Types.h"
#include "utils/XYCut.h"

using std::pair;
using std::set;
using std::string;
using std::vector;
using namespace ppv;
using ppp::types::Cut;
using ppp::types::CutDir;
using ppp::types::PdfElement;
using ppp::types::PdfWord;

namespace {

struct Box { int64_t x1, y1, x2, y2; };

/** The words of a case, with their boxes in tenths. */
struct Words {
  vector<PdfWord*> words;
  vector<PdfElement*> elements;
  std::map<const PdfElement*, Box> box;
  ~Words() { for (auto* w : words) { delete w; } }
  void add(int64_t x, int64_t y, int64_t w, int64_t h) {
    words.push_back(new PdfWord(1, x / 10.0, y / 10.0, (x + w) / 10.0, (y + h) / 10.0, 0, 0));
    elements.push_back(words.back());
    box[words.back()] = { x, y, x + w, y + h };
  }
  string str() const {
    string s;
    for (auto* w : words) {
      const Box& b = box.at(w);
      s += cat("[", b.x1 / 10.0, ",", b.y1 / 10.0, " - ", b.x2 / 10.0, ",", b.y2 / 10.0, "] ");
    }
    return s;
  }
};

/** Random boxes, or boxes in columns and rows (with elements that span columns). */
void genWords(Gen& g, Words* ws, int maxNum) {
  int64_t ox = g.chance(20) ? g.around(-3000, 3000) : 0;
  int64_t oy = g.chance(20) ? g.around(-3000, 3000) : 0;
  if (g.chance(40)) {
    int n = static_cast<int>(g.many(1, maxNum));
    int64_t span = g.chance(50) ? 300 : g.chance(80) ? 60 : 9000;
    for (int i = 0; i < n; i++) {
      ws->add(ox + g.range(0, span), oy + g.range(0, span), g.range(1, span / 3), g.range(1, span / 3));
    }
    return;
  }
  int cols = static_cast<int>(g.range(1, 4));
  int rows = static_cast<int>(g.small(1, 6));
  int64_t scale = g.chance(85) ? 1 : 100;  // Gaps of up to a few hundred points, too.
  int64_t colGap = g.range(1, 60) * scale, rowGap = g.range(1, 40) * scale;
  int64_t y = oy;
  for (int k = 0; k < rows && static_cast<int>(ws->words.size()) < maxNum; k++) {
    if (g.chance(20)) {  // An element that spans (some) columns.
      int64_t from = g.below(cols), to = g.range(from, cols - 1);
      ws->add(ox + from * (100 + colGap), y, (to - from) * (100 + colGap) + 100 - g.small(0, 20), 20);
    } else {
      for (int c = 0; c < cols; c++) {
        if (g.chance(15)) { continue; }
        int64_t extra = g.chance(10) ? g.range(0, 80) : -g.small(0, 60);
        ws->add(ox + c * (100 + colGap) + g.small(0, 10), y + g.small(0, 6), 100 + extra, 20);
      }
    }
    y += 20 + rowGap;
  }
  if (ws->words.empty()) { ws->add(ox, oy, 10, 10); }
  // Shuffle the elements.
  if (g.chance(70)) {
    for (size_t i = ws->elements.size() - 1; i > 0; i--) {
      std::swap(ws->elements[i], ws->elements[i - g.below(i + 1)]);
    }
  }
}

struct RefCut {
  size_t pos;          // The number of elements before the cut.
  int64_t gap;         // In tenths.
  int64_t prevEnd;     // The end of the element before the cut.
  size_t overlapping;  // The number of overlapped elements.
};

/** All candidates for a cut of the elements, sorted by their start in the given dimension. */
vector<RefCut> refCandidates(vector<pair<int64_t, int64_t>> iv, int64_t minGap, int maxOverlapping) {
  std::sort(iv.begin(), iv.end());
  vector<RefCut> res;
  for (size_t i = 1; i < iv.size(); i++) {
    vector<int64_t> ends;
    for (size_t k = 0; k < i; k++) { ends.push_back(iv[k].second); }
    std::sort(ends.rbegin(), ends.rend());
    for (size_t k = 0; k < ends.size() && k <= static_cast<size_t>(maxOverlapping); k++) {
      if (iv[i].first - ends[k] >= minGap) {
        res.push_back({ i, iv[i].first - ends[k], ends[k], k });
        break;
      }
    }
  }
  return res;
}

vector<pair<int64_t, int64_t>> intervals(const Words& ws, const vector<PdfElement*>& els, CutDir dir) {
  vector<pair<int64_t, int64_t>> iv;
  for (auto* e : els) {
    const Box& b = ws.box.at(e);
    if (dir == CutDir::X) { iv.push_back({ b.x1, b.x2 }); } else { iv.push_back({ b.y1, b.y2 }); }
  }
  return iv;
}

set<PdfElement*> asSet(const vector<PdfElement*>& v) { return set<PdfElement*>(v.begin(), v.end()); }

/** Checks one call of the function that chooses cuts. */
void checkCandidates(const Words& ws, const vector<Cut*>& cands, const vector<PdfElement*>& sorted,
    CutDir dir, int64_t minGap, int maxOverlapping) {
  auto iv = intervals(ws, sorted, dir);
  for (size_t i = 1; i < iv.size(); i++) {
    PPV_CHECK(iv[i - 1].first <= iv[i].first, "the elements are not sorted: ", ws.str());
  }
  vector<RefCut> ref = refCandidates(iv, minGap, maxOverlapping);
  auto describe = [&]() {
    string s = "computed cuts:";
    for (auto* c : cands) { s += cat(" ", c->posInElements, "(gap ", dir == CutDir::X ? c->gapWidth
        : c->gapHeight, ", overlapping ", c->overlappingElements.size(), ")"); }
    s += "; expected:";
    for (const auto& c : ref) { s += cat(" ", c.pos, "(gap ", c.gap / 10.0, ", overlapping ",
        c.overlapping, ")"); }
    return s + cat("; direction ", dir == CutDir::X ? "x" : "y", ", min gap ", minGap / 10.0,
        ", max overlapping ", maxOverlapping, ": ", ws.str());
  };
  PPV_CHECK(cands.size() == ref.size(), describe());
  int64_t minX = INT64_MAX, minY = INT64_MAX, maxX = INT64_MIN, maxY = INT64_MIN;
  for (auto* e : sorted) {
    const Box& b = ws.box.at(e);
    minX = std::min(minX, b.x1); minY = std::min(minY, b.y1);
    maxX = std::max(maxX, b.x2); maxY = std::max(maxY, b.y2);
  }
  auto near = [](double a, double b) { return std::fabs(a - b) < 1e-6; };
  for (size_t i = 0; i < ref.size(); i++) {
    const Cut* c = cands[i];
    PPV_CHECK(c->dir == dir, "wrong direction: ", describe());
    PPV_CHECK(c->posInElements == ref[i].pos, describe());
    PPV_CHECK(c->overlappingElements.size() == ref[i].overlapping, describe());
    PPV_CHECK(!c->isChosen, "a candidate is chosen from the start: ", describe());
    PPV_CHECK(c->pageNum == 1, "wrong page of a cut: ", describe());
    double mid = (ref[i].prevEnd + ref[i].gap / 2.0) / 10.0;
    if (dir == CutDir::X) {
      PPV_CHECK(near(c->gapWidth, ref[i].gap / 10.0), describe());
      PPV_CHECK(near(c->x1, mid) && near(c->x2, mid), "the cut is not in the middle of the gap: at ",
          c->x1, ", ", describe());
      PPV_CHECK(near(c->y1, minY / 10.0) && near(c->y2, maxY / 10.0), "the cut ranges from ", c->y1,
          " to ", c->y2, ", expected ", minY / 10.0, " to ", maxY / 10.0, ": ", describe());
    } else {
      PPV_CHECK(near(c->gapHeight, ref[i].gap / 10.0), describe());
      PPV_CHECK(near(c->y1, mid) && near(c->y2, mid), "the cut is not in the middle of the gap: at ",
          c->y1, ", ", describe());
      PPV_CHECK(near(c->x1, minX / 10.0) && near(c->x2, maxX / 10.0), "the cut ranges from ", c->x1,
          " to ", c->x2, ", expected ", minX / 10.0, " to ", maxX / 10.0, ": ", describe());
    }
    // The elements next to the gap, and those that the cut overlaps.
    PPV_CHECK(c->elementBefore && c->elementAfter, "a cut without neighbours: ", describe());
    int64_t after = dir == CutDir::X ? ws.box.at(c->elementAfter).x1 : ws.box.at(c->elementAfter).y1;
    int64_t before = dir == CutDir::X ? ws.box.at(c->elementBefore).x2
        : ws.box.at(c->elementBefore).y2;
    PPV_CHECK(after - before == ref[i].gap, "the neighbours of a cut do not have the given gap: ",
        describe());
    PPV_CHECK(c->elementAfter == sorted[c->posInElements], "wrong element after a cut: ", describe());
    set<PdfElement*> previous(sorted.begin(), sorted.begin() + c->posInElements);
    set<PdfElement*> overlapping(c->overlappingElements.begin(), c->overlappingElements.end());
    PPV_CHECK(overlapping.size() == c->overlappingElements.size(), "duplicate overlapping elements: ",
        describe());
    for (auto* e : overlapping) {
      PPV_CHECK(previous.count(e), "an overlapping element starts after the cut: ", describe());
      int64_t end = dir == CutDir::X ? ws.box.at(e).x2 : ws.box.at(e).y2;
      PPV_CHECK(end > after - minGap, "an element that does not reach the gap counts as overlapping: ",
          describe());
    }
  }
}

/** Chooses a subset of the candidates as a function of their positions (bit mask). */
struct Chooser {
  uint64_t mask;
  bool choose(size_t pos, int64_t gap) const { return (mask >> ((pos * 7 + gap) % 61)) & 1; }
};

}  // namespace

// _________________________________________________________________________________________________
PPV_PROP("C06", "single-cuts", 400000, 8000000, "random sets of boxes (soups, or columns and rows "
    "with spanning and overlong elements, also at negative coordinates), random minimum gaps and "
    "numbers of allowed overlapping elements, and a random choice among the candidates; the "
    "candidates, their geometry, the groups and the result are compared to an interval model; "
    "non-trivial: at least one cut is chosen and one candidate is not chosen or overlaps") {
  Words ws;
  genWords(g, &ws, 24);
  int64_t minGap = g.small(1, 60);
  int maxOverlapping = static_cast<int>(g.small(0, 3));
  Chooser chooser{ g.chance(30) ? ~0ull : g.chance(10) ? 0 : (g.below(1u << 31) << 30) | g.below(1u << 30) };
  r.showIf([&] { return cat("min gap ", minGap / 10.0, ", max overlapping ", maxOverlapping, ": ",
      ws.str()); });
  bool anyChosen = false, anyOther = false;
  for (CutDir dir : { CutDir::X, CutDir::Y }) {
    int calls = 0;
    vector<PdfElement*> sortedSeen;
    vector<size_t> chosen;
    vector<Cut*> given;
    auto choose = [&](const vector<Cut*>& cands, const vector<PdfElement*>& els, bool silent) {
      calls++;
      PPV_CHECK(silent == true, "the silent flag is not passed on");
      PPV_CHECK(asSet(els) == asSet(ws.elements) && els.size() == ws.elements.size(),
          "not all elements are passed: ", ws.str());
      checkCandidates(ws, cands, els, dir, minGap, dir == CutDir::X ? maxOverlapping : 0);
      sortedSeen = els;
      given = cands;
      for (auto* c : cands) {
        int64_t gap = std::llround((dir == CutDir::X ? c->gapWidth : c->gapHeight) * 10);
        c->isChosen = chooser.choose(c->posInElements, gap);
        if (c->isChosen) { chosen.push_back(c->posInElements); }
        anyOther = anyOther || !c->isChosen || !c->overlappingElements.empty();
      }
    };
    vector<vector<PdfElement*>> groups;
    vector<Cut*> cuts;
    bool withResults = !g.chance(10);
    vector<PdfElement*> input = ws.elements;
    bool ok = dir == CutDir::X
        ? ppp::utils::xCut(input, minGap / 10.0, maxOverlapping, choose, true,
            withResults ? &groups : nullptr, withResults ? &cuts : nullptr)
        : ppp::utils::yCut(input, minGap / 10.0, choose, true, withResults ? &groups : nullptr,
            withResults ? &cuts : nullptr);
    PPV_CHECK(calls == 1, "the function that chooses cuts was called ", calls, " times");
    PPV_CHECK(ok == !chosen.empty(), "returned ", ok, " with ", chosen.size(), " chosen cuts: ",
        ws.str());
    anyChosen = anyChosen || ok;
    if (withResults) {
      PPV_CHECK(cuts == given, "the result cuts are not the candidates: ", ws.str());
      vector<size_t> bounds = { 0 };
      bounds.insert(bounds.end(), chosen.begin(), chosen.end());
      bounds.push_back(sortedSeen.size());
      PPV_CHECK(groups.size() + 1 == bounds.size(), groups.size(), " groups for ", chosen.size(),
          " chosen cuts: ", ws.str());
      for (size_t i = 0; i < groups.size(); i++) {
        set<PdfElement*> expected(sortedSeen.begin() + bounds[i], sortedSeen.begin() + bounds[i + 1]);
        PPV_CHECK(asSet(groups[i]) == expected && groups[i].size() == expected.size(), "group ", i,
            " does not consist of the elements between the cuts: ", ws.str());
      }
    }
    for (auto* c : given) { delete c; }
  }
  r.nontrivial(anyChosen && anyOther);
  r.label("max overlapping > 0", maxOverlapping > 0);
}

namespace {

/** The recursive division, as documented: x-cuts and y-cuts alternate. */
struct RefXY {
  const Words& ws;
  int64_t minX, minY;
  int maxOverlapping;
  Chooser cx, cy;
  vector<vector<PdfElement*>> groups;
  size_t numCandidates = 0;

  bool cut(const vector<PdfElement*>& els, CutDir dir, vector<vector<PdfElement*>>* out) {
    vector<PdfElement*> s = els;
    std::sort(s.begin(), s.end(), [&](PdfElement* a, PdfElement* b) {
      const Box& p = ws.box.at(a); const Box& q = ws.box.at(b);
      return dir == CutDir::X ? p.x1 < q.x1 : p.y1 < q.y1;
    });
    auto cands = refCandidates(intervals(ws, s, dir), dir == CutDir::X ? minX : minY,
        dir == CutDir::X ? maxOverlapping : 0);
    numCandidates += cands.size();
    size_t prev = 0;
    for (const auto& c : cands) {
      if (!(dir == CutDir::X ? cx : cy).choose(c.pos, c.gap)) { continue; }
      out->push_back(vector<PdfElement*>(s.begin() + prev, s.begin() + c.pos));
      prev = c.pos;
    }
    out->push_back(vector<PdfElement*>(s.begin() + prev, s.end()));
    return prev > 0;
  }

  void divide(const vector<PdfElement*>& els) {
    vector<vector<PdfElement*>> xs;
    bool byX = cut(els, CutDir::X, &xs);
    for (const auto& x : xs) {
      vector<vector<PdfElement*>> ys;
      if (!cut(x, CutDir::Y, &ys)) { groups.push_back(x); continue; }
      for (const auto& y : ys) { divide(y); }
    }
    (void)byX;
  }
};

}  // namespace

// _________________________________________________________________________________________________
PPV_PROP("C06", "recursive", 250000, 5000000, "random sets of boxes without equal left or upper edges "
    "are divided recursively with a random (position-dependent) choice of cuts; the groups, their "
    "order, and the number of candidates are compared to a recursive model; non-trivial: at least "
    "three groups") {
  Words ws;
  genWords(g, &ws, 24);
  // Make the left and upper edges distinct, so that the order of the elements is defined.
  set<int64_t> xs, ys;
  for (auto* e : ws.elements) {
    Box& b = ws.box[e];
    while (!xs.insert(b.x1).second) { b.x1++; b.x2 = std::max(b.x2, b.x1 + 1); }
    while (!ys.insert(b.y1).second) { b.y1++; b.y2 = std::max(b.y2, b.y1 + 1); }
    e->pos->leftX = b.x1 / 10.0; e->pos->rightX = b.x2 / 10.0;
    e->pos->upperY = b.y1 / 10.0; e->pos->lowerY = b.y2 / 10.0;
  }
  int64_t minX = g.small(1, 60), minY = g.small(1, 40);
  int maxOverlapping = static_cast<int>(g.small(0, 2));
  auto mask = [&] { return g.chance(60) ? ~0ull : (g.below(1u << 31) << 30) | g.below(1u << 30); };
  Chooser cx{ mask() }, cy{ mask() };
  r.showIf([&] { return cat("min gaps ", minX / 10.0, ", ", minY / 10.0, ", max overlapping ",
      maxOverlapping, ": ", ws.str()); });
  bool silent = g.chance(50);
  auto chooseWith = [&](const Chooser& ch, CutDir dir) {
    return [&ch, dir, silent, &ws, minX, minY, maxOverlapping](const vector<Cut*>& cands,
        const vector<PdfElement*>& els, bool s) {
      PPV_CHECK(s == silent, "the silent flag is not passed on");
      checkCandidates(ws, cands, els, dir, dir == CutDir::X ? minX : minY,
          dir == CutDir::X ? maxOverlapping : 0);
      for (auto* c : cands) {
        c->isChosen = ch.choose(c->posInElements,
            std::llround((dir == CutDir::X ? c->gapWidth : c->gapHeight) * 10));
      }
    };
  };
  vector<vector<PdfElement*>> groups;
  vector<Cut*> cuts;
  ppp::utils::xyCut(ws.elements, minX / 10.0, minY / 10.0, maxOverlapping,
      chooseWith(cx, CutDir::X), chooseWith(cy, CutDir::Y), silent, &groups, &cuts);
  RefXY ref{ ws, minX, minY, maxOverlapping, cx, cy, {}, 0 };
  ref.divide(ws.elements);
  auto str = [&](const vector<vector<PdfElement*>>& gs) {
    string s;
    for (const auto& x : gs) {
      s += "{";
      for (auto* e : x) { s += cat(" ", ws.box.at(e).x1 / 10.0, ",", ws.box.at(e).y1 / 10.0); }
      s += " } ";
    }
    return s;
  };
  PPV_CHECK(groups.size() == ref.groups.size(), "groups ", str(groups), ", expected ",
      str(ref.groups), ": ", ws.str());
  for (size_t i = 0; i < groups.size(); i++) {
    PPV_CHECK(asSet(groups[i]) == asSet(ref.groups[i]) && groups[i].size() == ref.groups[i].size(),
        "groups ", str(groups), ", expected ", str(ref.groups), ": ", ws.str());
  }
  PPV_CHECK(cuts.size() == ref.numCandidates, cuts.size(), " cuts reported, expected ",
      ref.numCandidates, ": ", ws.str());
  set<Cut*> unique(cuts.begin(), cuts.end());
  PPV_CHECK(unique.size() == cuts.size(), "a cut is reported twice");
  for (auto* c : cuts) { delete c; }
  r.nontrivial(groups.size() >= 3);
}
