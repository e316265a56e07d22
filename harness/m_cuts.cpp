// C11: page segmentation, C13: reading order. Both cut a page recursively; here are the rules by
// which they choose the cuts.
#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "PageSegmentation.h"
#include "ReadingOrderDetection.h"
#include "Types.h"
#include "cppflow/cppflow.h"

using ppp::types::PdfElement;
using ppp::types::PdfFigure;
using ppp::types::PdfGraphic;
using ppp::types::PdfPage;
using ppp::types::PdfShape;
using ppp::types::PdfTextBlock;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using ppp::types::SemanticRole;
using std::map;
using std::set;
using std::string;
using std::vector;
using namespace ppv;

namespace {

/** An element of a page. */
struct El {
  int64_t x1, y1, x2, y2;  // In tenths.
  char kind = 'w';         // (w)ord, (f)igure, (s)hape, (g)raphic, (b)lock.
  int rank = -1;
  int rot = 0, wMode = 0;
  SemanticRole role = SemanticRole::OTHER;
  PdfElement* e = nullptr;
};

typedef vector<const El*> Els;

/** A position between two elements of a sorted list at which the list can be cut. */
struct Cand {
  size_t pos;
  const El* before;
  const El* after;
  int64_t gap, extent, min, max;
  Els overlapping;
  bool chosen = false;
};

typedef std::function<void(vector<Cand>&, const Els&)> Choose;

Els sorted(Els els, bool x) {
  std::stable_sort(els.begin(), els.end(), [x](const El* a, const El* b) {
    return x ? a->x1 < b->x1 : a->y1 < b->y1;
  });
  return els;
}

/** The candidates; minGap2 is twice the minimum gap (in tenths), to stay with integers. */
vector<Cand> candidates(const Els& els, bool x, int64_t minGap2, size_t maxOverlaps) {
  vector<Cand> res;
  int64_t min = INT64_MAX, max = INT64_MIN;
  for (auto* e : els) {
    min = std::min(min, x ? e->y1 : e->x1);
    max = std::max(max, x ? e->y2 : e->x2);
  }
  for (size_t i = 1; i < els.size(); i++) {
    Els prev(els.begin(), els.begin() + i);
    std::stable_sort(prev.begin(), prev.end(), [x](const El* a, const El* b) {
      return x ? a->x2 > b->x2 : a->y2 > b->y2;
    });
    for (size_t k = 0; k <= maxOverlaps && k < prev.size(); k++) {
      int64_t gap = x ? els[i]->x1 - prev[k]->x2 : els[i]->y1 - prev[k]->y2;
      if (2 * gap < minGap2) { continue; }
      res.push_back({ i, prev[k], els[i], gap, max - min, min, max,
          Els(prev.begin(), prev.begin() + k), false });
      break;
    }
  }
  return res;
}

/** Cuts the elements; returns one group if no cut was chosen. */
vector<Els> cut(const Els& elements, bool x, int64_t minGap2, size_t maxOverlaps, const Choose& choose) {
  if (elements.empty()) { return {}; }
  Els els = sorted(elements, x);
  vector<Cand> cs = candidates(els, x, minGap2, maxOverlaps);
  choose(cs, els);
  vector<Els> res;
  size_t prev = 0;
  for (auto& c : cs) {
    if (!c.chosen) { continue; }
    res.push_back(Els(els.begin() + prev, els.begin() + c.pos));
    prev = c.pos;
  }
  res.push_back(Els(els.begin() + prev, els.end()));
  return res;
}

void recurse(const Els& els, int64_t minX2, int64_t minY2, size_t maxOverlaps, const Choose& chooseX,
    const Choose& chooseY, vector<Els>* res) {
  vector<Els> xs = cut(els, true, minX2, maxOverlaps, chooseX);
  for (auto& x : xs) {
    vector<Els> ys = cut(x, false, minY2, 0, chooseY);
    if (ys.size() <= 1) {
      if (!x.empty()) { res->push_back(x); }
      continue;
    }
    for (auto& y : ys) { recurse(y, minX2, minY2, maxOverlaps, chooseX, chooseY, res); }
  }
}

string show(const vector<El>& els) {
  string s;
  for (size_t i = 0; i < els.size(); i++) {
    auto& e = els[i];
    s += cat(i, ":", e.kind, e.kind == 'w' ? cat(e.rank) : "", "[", e.x1 / 10.0, ",", e.y1 / 10.0,
        " - ", e.x2 / 10.0, ",", e.y2 / 10.0, "]");
    if (e.rot || e.wMode) { s += cat("rot", e.rot, "/", e.wMode); }
    if (e.role != SemanticRole::OTHER) { s += cat("role", static_cast<int>(e.role)); }
    s += " ";
  }
  return s;
}

/** Makes all edges different, such that the order of the elements is determined. */
void separate(vector<El>* els) {
  set<int64_t> x1, x2, y1, y2;
  for (auto& e : *els) {
    while (x1.count(e.x1)) { e.x1++; }
    if (e.x2 < e.x1) { e.x2 = e.x1; }
    while (x2.count(e.x2)) { e.x2++; }
    while (y1.count(e.y1)) { e.y1++; }
    if (e.y2 < e.y1) { e.y2 = e.y1; }
    while (y2.count(e.y2)) { e.y2++; }
    x1.insert(e.x1);
    x2.insert(e.x2);
    y1.insert(e.y1);
    y2.insert(e.y2);
  }
}

PdfElement* makeNonText(Doc* d, PdfPage* page, El* el) {
  PdfElement* e;
  if (el->kind == 'f') { auto* f = new PdfFigure(); page->figures.push_back(f); e = f; }
  else if (el->kind == 's') { auto* f = new PdfShape(); page->shapes.push_back(f); e = f; }
  else { auto* f = new PdfGraphic(); page->graphics.push_back(f); e = f; }
  e->id = cat("x-", d->nextId++);
  e->doc = d->doc;
  e->pos->pageNum = page->pageNum;
  e->pos->leftX = tenths(el->x1);
  e->pos->upperY = tenths(el->y1);
  e->pos->rightX = tenths(el->x2);
  e->pos->lowerY = tenths(el->y2);
  return e;
}

string groupsStr(const vector<vector<int>>& groups) {
  string s;
  for (auto& g : groups) {
    s += "(";
    for (int i : g) { s += cat(i, " "); }
    s += ")";
  }
  return s;
}

}  // namespace

// =================================================================================================

namespace {

const int64_t CW = 50, CH = 100;  // The average size of a character (in tenths).

/** A region with text in one or more columns, with rows of words. */
void genRegion(Gen& g, int64_t x1, int64_t x2, int64_t* y, int* rank, vector<El>* els, size_t maxNum) {
  int numColumns = 1 + static_cast<int>(g.weighted({ 40, 50, 15 }));
  int64_t gutter = g.chance(70) ? g.range(60, 300) : g.range(10, 120);
  int64_t width = (x2 - x1 - gutter * (numColumns - 1)) / numColumns;
  bool slim = g.chance(20);
  int rows = static_cast<int>(g.small(1, 8));
  int64_t top = *y, maxY = *y;
  for (int c = 0; c < numColumns; c++) {
    int64_t left = x1 + c * (width + gutter), right = left + width;
    if (slim && c > 0) { left = right - g.range(300, 700); }
    int64_t yy = top;
    if (g.chance(10)) {
      El f{ left, yy, g.chance(50) ? right : left + g.range(50, 2000), yy + g.range(10, 1000) };
      f.kind = "fsg"[g.below(3)];
      if (g.chance(15)) { f.y2 = f.y1; }
      if (g.chance(10)) { f.x2 = f.x1; }
      els->push_back(f);
      yy = f.y2 + g.range(0, 60);
    }
    for (int r = 0; r < rows; r++) {
      int64_t x = left + (g.chance(20) ? g.range(0, 200) : 0);
      while (x < right - 20 && els->size() < maxNum) {
        int64_t w = std::min<int64_t>(g.chance(50) ? g.range(60, 500) : right - x, right - x);
        if (g.chance(3)) { w += g.range(0, 600); }  // Beyond the column.
        El e{ x, yy, x + w, yy + 100 };
        e.rank = (*rank)++;
        els->push_back(e);
        x += w + g.range(20, 60);
      }
      yy += 100 + (g.chance(10) ? g.range(0, 200) : 10 + g.range(0, 15));
    }
    if (g.chance(20)) { yy += g.range(0, 200); }
    maxY = std::max(maxY, yy);
    // In row-major order, the words of a row are contiguous.
    if (g.chance(10)) { (*rank)--; }
  }
  *y = maxY + g.range(0, 200);
}

}  // namespace

PPV_PROP("C11", "segments", 100000, 3000000, "pages of regions with one to three columns (slim ones, "
    "narrow gutters, text beyond the columns, contiguous words at the gutter, figures, shapes, "
    "graphics); the segments are compared to a reference implementation of the documented rules; "
    "non-trivial: at least two segments and an x-cut candidate that is not chosen") {
  ppp::config::PageSegmentationConfig config;
  config.overlappingMinNumElements = g.chance(50) ? 500 : g.range(1, 12);
  Doc d;
  d.doc->avgCharWidth = CW / 10.0;
  d.doc->avgCharHeight = CH / 10.0;
  int64_t wordDistance = g.range(10, 60);
  d.doc->mostFreqWordDistance = tenths(wordDistance);
  vector<vector<El>> pages;
  int numPages = g.chance(10) ? 2 : 1;
  int rank = 0;
  for (int p = 0; p < numPages; p++) {
    vector<El> els;
    int64_t y = g.chance(10) ? -1500 : 600, x = g.chance(10) ? -2000 : 600;
    int n = static_cast<int>(g.many(0, 4));
    for (int i = 0; i < n; i++) { genRegion(g, x, x + 4000, &y, &rank, &els, 60); }
    separate(&els);
    if (els.size() > 1 && g.chance(20)) { std::swap(els[0], els[g.below(els.size())]); }
    if (g.chance(5)) {  // A page without text.
      for (auto& e : els) { e.kind = e.kind == 'w' ? "fsg"[g.below(3)] : e.kind; }
    }
    pages.push_back(els);
  }
  r.showIf([&] {
    string s = cat("word distance ", wordDistance / 10.0, ", overlaps from ", config.overlappingMinNumElements, " elements; ");
    for (auto& p : pages) { s += "page: " + show(p); }
    return s;
  });
  for (auto& els : pages) {
    PdfPage* page = d.addPage();
    for (auto& e : els) {
      if (e.kind == 'w') {
        PdfWord* w = d.newWord(page, "x", e.x1, e.y1, e.x2, e.y2, 100, "A");
        w->rank = e.rank;
        page->words.push_back(w);
        e.e = w;
      } else {
        e.e = makeNonText(&d, page, &e);
      }
    }
  }
  ppp::modules::PageSegmentation(d.doc, &config).process();

  int64_t notChosen = 0, overlappingChosen = 0;
  const int64_t minX2 = 4 * wordDistance, minY2 = 40;
  Choose chooseX = [&](vector<Cand>& cs, const Els& els) {
    const Cand* prev = nullptr;
    for (auto& c : cs) {
      notChosen++;
      bool ok = c.overlapping.empty() || els.size() >= config.overlappingMinNumElements;
      for (auto* o : c.overlapping) {
        ok = ok && o->y1 - c.min >= 5 * CH && c.max - o->y2 >= 5 * CH;
      }
      ok = ok && !(c.gap < 2 * CW && c.extent < 6 * CH);
      for (size_t i = c.pos; i < els.size(); i++) {
        if (c.before->kind != 'w' || els[i]->kind != 'w') { continue; }
        if (c.before->rank + 1 != els[i]->rank) { continue; }
        int64_t o = std::min(c.before->y2, els[i]->y2) - std::max(c.before->y1, els[i]->y1);
        int64_t h = std::min(c.before->y2 - c.before->y1, els[i]->y2 - els[i]->y1);
        ok = ok && !(o > 0 && h > 0 && 10 * o >= h);
      }
      int64_t right = INT64_MIN;
      for (size_t i = c.pos; i < els.size(); i++) { right = std::max(right, els[i]->x2); }
      ok = ok && c.before->x2 - (prev ? prev->after->x1 : els[0]->x1) >= 10 * CW;
      ok = ok && right - c.after->x1 >= 10 * CW;
      if (!ok) { continue; }
      c.chosen = true;
      notChosen--;
      overlappingChosen += !c.overlapping.empty();
      prev = &c;
    }
  };
  Choose chooseY = [&](vector<Cand>& cs, const Els& els) {
    // The borders of the elements count as cuts, too.
    vector<size_t> at = { 0 };
    for (auto& c : cs) { at.push_back(c.pos); }
    at.push_back(els.size());
    int64_t saved = notChosen;
    for (size_t i = 0; !cs.empty() && i < at.size(); i++) {
      size_t partner = i;
      for (size_t j = i + 1; j < at.size(); j++) {
        Els between(els.begin() + at[i], els.begin() + at[j]);
        if (cut(between, true, minX2, 1, chooseX).size() <= 1) { break; }
        partner = j;
      }
      if (partner == i) { continue; }
      if (i > 0) { cs[i - 1].chosen = true; }
      if (partner <= cs.size()) { cs[partner - 1].chosen = true; }
      i = partner;
    }
    notChosen = saved;
  };
  set<string> ids;
  for (size_t p = 0; p < pages.size(); p++) {
    auto& els = pages[p];
    PdfPage* page = d.doc->pages[p];
    map<const PdfElement*, int> index;
    Els all;
    for (size_t i = 0; i < els.size(); i++) {
      index[els[i].e] = static_cast<int>(i);
      all.push_back(&els[i]);
    }
    vector<Els> expected;
    notChosen = 0;
    recurse(all, minX2, minY2, 1, chooseX, chooseY, &expected);
    vector<vector<int>> exp, act;
    for (auto& x : expected) {
      exp.push_back({});
      for (auto* e : x) { exp.back().push_back(static_cast<int>(e - els.data())); }
      std::sort(exp.back().begin(), exp.back().end());
    }
    for (auto* s : page->segments) {
      act.push_back({});
      PPV_CHECK(!s->elements.empty(), "an empty segment");
      int64_t x1 = INT64_MAX, y1 = INT64_MAX, x2 = INT64_MIN, y2 = INT64_MIN;
      for (auto* e : s->elements) {
        PPV_CHECK(index.count(e), "a segment contains an unknown element");
        int i = index[e];
        act.back().push_back(i);
        x1 = std::min(x1, els[i].x1);
        y1 = std::min(y1, els[i].y1);
        x2 = std::max(x2, els[i].x2);
        y2 = std::max(y2, els[i].y2);
      }
      std::sort(act.back().begin(), act.back().end());
      PPV_CHECK(s->pos->leftX == tenths(x1) && s->pos->upperY == tenths(y1) && s->pos->rightX == tenths(x2)
          && s->pos->lowerY == tenths(y2), "the box of a segment is ", boxStr(s->pos));
      PPV_CHECK(s->doc == d.doc && s->pos->pageNum == page->pageNum, "wrong page or document");
      PPV_CHECK(!s->id.empty() && ids.insert(s->id).second, "the id of a segment is not unique");
    }
    PPV_CHECK(exp == act, "page ", p + 1, ": the segments should be ", groupsStr(exp), " but are ",
        groupsStr(act));
    r.nontrivial(exp.size() > 1 && notChosen > 0);
    r.label("several segments", exp.size() > 1);
    r.label("rejected x-cuts", notChosen > 0);
    r.label("cut through an element", overlappingChosen > 0);
  }
}

// =================================================================================================

namespace {

void addBlock(Doc* d, PdfPage* page, El* el) {
  auto* b = new PdfTextBlock();
  b->id = cat("block-", d->nextId++);
  b->doc = d->doc;
  b->text = "x";
  b->fontName = "A";
  b->fontSize = 10;
  b->role = el->role;
  b->pos->pageNum = page->pageNum;
  b->pos->leftX = tenths(el->x1);
  b->pos->upperY = tenths(el->y1);
  b->pos->rightX = tenths(el->x2);
  b->pos->lowerY = tenths(el->y2);
  b->pos->rotation = el->rot;
  b->pos->wMode = el->wMode;
  page->blocks.push_back(b);
  el->e = b;
}

/** Lets the (fake) model predict the given roles. */
struct Roles {
  explicit Roles(const vector<int>& roles) {
    _saved = cppflow::hook();
    cppflow::hook() = [roles](const cppflow::Call& c) {
      vector<float> out;
      for (int64_t r = 0; r < c.wordsRows; r++) {
        for (int k = 0; k < 14; k++) { out.push_back(k == roles.at(r) ? 0.6f : 0.4f / 13); }
      }
      return out;
    };
  }
  ~Roles() { cppflow::hook() = _saved; }
  cppflow::Hook _saved;
};

const ppp::config::SemanticRolesPredictionConfig& rolesConfig() {
  static const ppp::config::SemanticRolesPredictionConfig config = [] {
    ppp::config::SemanticRolesPredictionConfig c;
    c.modelsDir = PPV_REPO_DIR "/resources/models/2021-08-30_model-3K-documents";
    return c;
  }();
  return config;
}

ppp::modules::ReadingOrderDetection* newDetection(Doc* d) {
  static const ppp::config::ReadingOrderDetectionConfig config;
  return new ppp::modules::ReadingOrderDetection(d->doc, &config, &rolesConfig());
}

SemanticRole genRole(Gen& g) {
  return static_cast<SemanticRole>(g.chance(40) ? g.below(14) : static_cast<int>(SemanticRole::PARAGRAPH));
}

}  // namespace

PPV_PROP("C13", "rules", 20000, 600000, "pages of blocks (with roles, some rotated), figures and shapes "
    "at random and column-like positions, also negative ones; the order of the blocks is compared "
    "to a reference implementation of the documented rules; non-trivial: the order of at least "
    "four blocks changes") {
  initPoppler();
  Doc d;
  d.addFont("A");
  d.doc->avgCharWidth = 5;
  d.doc->avgCharHeight = 10;
  vector<vector<El>> pages;
  vector<int> roles;
  int numPages = g.chance(10) ? 2 : 1;
  for (int p = 0; p < numPages; p++) {
    vector<El> els;
    int n = static_cast<int>(g.many(0, 14));
    int64_t x0 = g.chance(15) ? -2500 : 500, y0 = g.chance(15) ? -3500 : 500;
    bool grid = g.chance(70);
    for (int i = 0; i < n; i++) {
      El e{};
      if (grid) {
        int64_t c = g.range(0, 2), w = g.chance(20) ? 3 - c : 1;
        e.x1 = x0 + c * 1700 + g.around(-20, 60);
        e.x2 = e.x1 + w * 1700 - g.range(50, 400);
        e.y1 = y0 + g.range(0, 9) * 500 + g.around(-50, 50);
        e.y2 = e.y1 + g.range(1, 3) * 480 - g.range(0, 450);
      } else {
        e.x1 = x0 + g.range(0, 5000);
        e.x2 = e.x1 + g.range(10, 2500);
        e.y1 = y0 + g.range(0, 7000);
        e.y2 = e.y1 + g.range(10, 1500);
      }
      e.kind = "bfsg"[g.weighted({ 80, 8, 8, 0 })];
      if (e.kind == 'b') {
        e.role = genRole(g);
        if (g.chance(4)) { e.rot = 1; }
        if (g.chance(2)) { e.wMode = 1; }
      } else if (e.kind == 's' && g.chance(50)) {  // A rule or a dot.
        if (g.chance(60)) { e.y2 = e.y1; }
        if (g.chance(40)) { e.x2 = e.x1; }
      }
      els.push_back(e);
    }
    separate(&els);
    pages.push_back(els);
  }
  r.showIf([&] { string s; for (auto& p : pages) { s += "page: " + show(p); } return s; });
  for (auto& els : pages) {
    PdfPage* page = d.addPage();
    for (auto& e : els) {
      if (e.kind == 'b') { addBlock(&d, page, &e); roles.push_back(static_cast<int>(e.role)); }
      else { e.e = makeNonText(&d, page, &e); }
    }
  }
  Roles hook(roles);
  std::unique_ptr<ppp::modules::ReadingOrderDetection> rod(newDetection(&d));
  rod->process();

  for (size_t p = 0; p < pages.size(); p++) {
    auto& els = pages[p];
    Els all;
    int64_t minX = INT64_MAX, minY = INT64_MAX, maxX = INT64_MIN, maxY = INT64_MIN;
    map<const PdfElement*, int> index;
    vector<int> original;
    for (auto& e : els) {
      if (e.kind == 'g') { continue; }
      all.push_back(&e);
      index[e.e] = static_cast<int>(&e - els.data());
      if (e.kind == 'b') { original.push_back(index[e.e]); }
      minX = std::min(minX, e.x1);
      minY = std::min(minY, e.y1);
      maxX = std::max(maxX, e.x2);
      maxY = std::max(maxY, e.y2);
    }
    // Whether a border lies exactly on the middle of the page is a matter of rounding.
    for (auto* e : all) {
      if (e->kind == 'b') { continue; }
      if (2 * e->x1 == minX + maxX || 2 * e->x2 == minX + maxX || 2 * e->y1 == minY + maxY
          || 2 * e->y2 == minY + maxY) { discard(); }
    }
    Choose chooseAll = [](vector<Cand>& cs, const Els&) { for (auto& c : cs) { c.chosen = true; } };
    Choose primaryX = [&](vector<Cand>& cs, const Els&) {
      for (auto& c : cs) {
        auto special = [&](const El* e) {
          if (e->kind == 'b') { return e->rot != 0 || e->wMode != 0; }
          return e->y2 - e->y1 > 10 * 100 && 2 * e->y1 < minY + maxY && 2 * e->y2 > minY + maxY;
        };
        c.chosen = special(c.before) || special(c.after);
      }
    };
    Choose primaryY = [&](vector<Cand>& cs, const Els&) {
      for (auto& c : cs) {
        for (auto role : { SemanticRole::TITLE, SemanticRole::AUTHOR_INFO, SemanticRole::MARGINAL }) {
          auto has = [&](const El* e) { return e->kind == 'b' && e->role == role; };
          c.chosen = c.chosen || has(c.before) != has(c.after);
        }
        for (auto* e : { c.before, c.after }) {
          c.chosen = c.chosen || (e->kind != 'b' && e->x2 - e->x1 > 10 * 50
              && 2 * e->x1 < minX + maxX && 2 * e->x2 > minX + maxX);
        }
      }
    };
    Choose chooseY = [&](vector<Cand>& cs, const Els& es) {
      if (cs.empty()) { return; }
      auto divisible = [&](size_t from, size_t to) {
        return cut(Els(es.begin() + from, es.begin() + to), true, 0, 0, chooseAll).size() > 1;
      };
      size_t first = 0, last = cs.size() - 1;
      for (size_t i = 0; i < cs.size(); i++) {
        if (divisible(cs[i].pos, es.size())) { cs[i].chosen = true; last = i; break; }
      }
      for (size_t i = last + 1; i-- > 0; ) {
        if (divisible(0, cs[i].pos)) { cs[i].chosen = true; first = i; break; }
      }
      for (size_t i = first; i < last; i++) {
        for (size_t j = last; j > i; j--) {
          if (!divisible(cs[i].pos, cs[j].pos)) { continue; }
          cs[i].chosen = cs[j].chosen = true;
          i = j;
          break;
        }
      }
    };
    vector<Els> groups;
    for (auto& px : cut(all, true, 0, 0, primaryX)) {
      for (auto& py : cut(px, false, 0, 0, primaryY)) {
        recurse(py, 0, 0, 0, chooseAll, chooseY, &groups);
      }
    }
    vector<int> exp, act;
    for (auto& group : groups) {
      for (auto* e : sorted(group, false)) {
        if (e->kind == 'b') { exp.push_back(static_cast<int>(e - els.data())); }
      }
    }
    for (auto* b : d.doc->pages[p]->blocks) {
      PPV_CHECK(index.count(b), "an unknown block");
      act.push_back(index[b]);
      PPV_CHECK(b->role == els[index[b]].role, "block ", index[b], " has the role ",
          static_cast<int>(b->role));
    }
    PPV_CHECK(exp == act, "page ", p + 1, ": the order should be ", groupsStr({ exp }), " but is ",
        groupsStr({ act }));
    r.nontrivial(exp.size() >= 4 && exp != original);
  }
}

PPV_PROP("C13", "columns", 15000, 400000, "pages with a title over the whole width, authors, a body "
    "of two or three columns of blocks, a footer, and a rotated note in the margin, given in any "
    "order; the blocks are read in the natural order: title, authors, the first column from top to "
    "bottom, the next column, ...; non-trivial: at least six blocks in other than the "
    "natural order") {
  initPoppler();
  Doc d;
  d.addFont("A");
  d.doc->avgCharWidth = 5;
  d.doc->avgCharHeight = 10;
  vector<El> els;  // In the natural order.
  int64_t x = g.chance(15) ? -2500 : 600, y = g.chance(15) ? -4000 : 600, width = 4800;
  int64_t x0 = x, y0 = y;
  auto block = [&](int64_t x1, int64_t x2, int64_t h, SemanticRole role) {
    El e{ x1, y, x2, y + h };
    e.kind = 'b';
    e.role = role;
    els.push_back(e);
    y += h + g.range(20, 300);
  };
  if (g.chance(30)) { block(x + 2000, x + 2500, 90, SemanticRole::MARGINAL); }
  if (g.chance(60)) { block(x + g.range(0, 1000), x + width - g.range(0, 1000), 200, SemanticRole::TITLE); }
  int numRegions = static_cast<int>(g.many(1, 3));
  for (int i = 0; i < numRegions; i++) {
    int64_t top = y, bottom = y;
    int numColumns = 1 + static_cast<int>(g.below(3));
    int64_t w = width / numColumns;
    int64_t gutter = g.range(60, 300);
    for (int c = 0; c < numColumns; c++) {
      y = top;
      int numBlocks = static_cast<int>(g.many(1, 4));
      for (int b = 0; b < numBlocks; b++) {
        block(x + c * w + (g.chance(20) ? g.range(0, 200) : 0), x + (c + 1) * w - gutter,
            g.range(100, 900), SemanticRole::PARAGRAPH);
      }
      bottom = std::max(bottom, y);
    }
    y = bottom;
    // Two regions of columns are separated by text over the whole width.
    if (i + 1 < numRegions) {
      block(x, x + width - 10, g.range(100, 300), SemanticRole::PARAGRAPH);
    }
  }
  if (g.chance(30)) { block(x + 2300, x + 2500, 90, SemanticRole::MARGINAL); }
  if (g.chance(15)) {
    // A rotated note at the left margin is read first.
    El e{ x0 - 500, y0 + 900, x0 - 200, y0 + 3000 };
    e.kind = 'b';
    e.rot = 1;
    e.role = SemanticRole::OTHER;
    els.insert(els.begin(), e);
  }
  separate(&els);
  vector<size_t> order;
  for (size_t i = 0; i < els.size(); i++) { order.push_back(i); }
  for (size_t i = els.size(); i-- > 1; ) { std::swap(order[i], order[g.below(i + 1)]); }
  r.showIf([&] { return show(els); });
  PdfPage* page = d.addPage();
  vector<int> roles;
  for (size_t i : order) { addBlock(&d, page, &els[i]); roles.push_back(static_cast<int>(els[i].role)); }
  Roles hook(roles);
  std::unique_ptr<ppp::modules::ReadingOrderDetection> rod(newDetection(&d));
  rod->process();
  PPV_CHECK(page->blocks.size() == els.size(), "there are ", page->blocks.size(), " blocks instead of ", els.size());
  map<const PdfElement*, int> index;
  for (size_t i = 0; i < els.size(); i++) { index[els[i].e] = static_cast<int>(i); }
  vector<int> act;
  for (auto* b : page->blocks) { act.push_back(index[b]); }
  for (size_t i = 0; i < els.size(); i++) {
    PPV_CHECK(act[i] == static_cast<int>(i), "the blocks are read in the order ", groupsStr({ act }));
  }
  r.nontrivial(els.size() >= 6 && !std::is_sorted(order.begin(), order.end()));
}
