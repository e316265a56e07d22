// C08: text lines, and their hierarchy.
#include <algorithm>
#include <climits>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "TextLinesDetection.h"
#include "Types.h"

using ppp::config::TextLinesDetectionConfig;
using ppp::modules::TextLinesDetection;
using ppp::types::PdfCharacter;
using ppp::types::PdfElement;
using ppp::types::PdfFigure;
using ppp::types::PdfPage;
using ppp::types::PdfPageSegment;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using std::map;
using std::set;
using std::string;
using std::vector;
using namespace ppv;

namespace {

struct W {
  string text;
  int64_t x1, y1, x2, y2;
  int rot = 0, wMode = 0;
  int part = -1;      // The index of the operator to which the word is attached.
  PdfWord* word = nullptr;
};

struct L {
  vector<size_t> words;
  int64_t x1, y1, x2, y2;
};

void update(L* l, const vector<W>& ws) {
  std::sort(l->words.begin(), l->words.end(), [&](size_t a, size_t b) { return ws[a].x1 < ws[b].x1; });
  l->x1 = l->y1 = INT64_MAX;
  l->x2 = l->y2 = INT64_MIN;
  for (size_t i : l->words) {
    l->x1 = std::min(l->x1, ws[i].x1);
    l->y1 = std::min(l->y1, ws[i].y1);
    l->x2 = std::max(l->x2, ws[i].x2);
    l->y2 = std::max(l->y2, ws[i].y2);
  }
}

PdfPageSegment* addSegment(Doc* d, PdfPage* page, const vector<PdfElement*>& elements) {
  auto* s = new PdfPageSegment();
  s->id = cat("segment-", d->nextId++);
  s->doc = d->doc;
  s->pos->pageNum = page->pageNum;
  s->pos->leftX = s->pos->upperY = 1e9;
  s->pos->rightX = s->pos->lowerY = -1e9;
  for (auto* e : elements) {
    s->pos->leftX = std::min(s->pos->leftX, e->pos->leftX);
    s->pos->upperY = std::min(s->pos->upperY, e->pos->upperY);
    s->pos->rightX = std::max(s->pos->rightX, e->pos->rightX);
    s->pos->lowerY = std::max(s->pos->lowerY, e->pos->lowerY);
  }
  s->elements = elements;
  page->segments.push_back(s);
  return s;
}

const int64_t AVG_CHAR_WIDTH = 497;  // In hundredths; never a multiple of a tenth.

vector<W> genWords(Gen& g, int64_t x0, int64_t y0) {
  vector<W> ws;
  set<int64_t> usedX;
  int numRows = static_cast<int>(g.many(1, 6));
  int64_t y = y0;
  bool rotated = g.chance(8), vertical = g.chance(8);
  for (int row = 0; row < numRows; row++) {
    int64_t h = g.chance(20) ? g.range(20, 100) * 2 : 100;
    int64_t x = x0 + g.around(0, 5) * 60;
    int n = static_cast<int>(g.many(1, 6));
    int wMode = vertical ? static_cast<int>(g.below(2)) : 0;
    for (int i = 0; i < n; i++) {
      W w;
      w.wMode = wMode;
      w.text = g.pick(vector<string>{ "a", "word", "x1", "\xc3\xa4\xc3\xb6", "=", "of" });
      int64_t wd = g.range(10, 200);
      int64_t dy = 0, hh = h;
      // Words that do not sit exactly on the baseline.
      switch (g.weighted({ 60, 25, 10 })) {
        case 1: dy = g.around(-60, 60) * 2; break;
        case 2: hh = g.range(10, 100) * 2; dy = g.around(-50, 50) * 2; break;
      }
      if (rotated && g.chance(30)) { w.rot = static_cast<int>(g.below(4)); }
      w.y1 = y + dy;
      w.y2 = w.y1 + hh;
      while (usedX.count(x)) { x++; }
      usedX.insert(x);
      w.x1 = x;
      w.x2 = x + wd;
      // Small gaps, gaps around three times the average character width, or large ones.
      switch (g.weighted({ 60, 25, 15 })) {
        case 0: x += wd + g.range(0, 60); break;
        case 1: x += wd + 149 + g.around(-5, 5); break;
        case 2: x += wd + g.around(-150, 700); break;
      }
      ws.push_back(w);
    }
    y += g.chance(15) ? g.around(-100, 200) : 120 + 2 * g.around(0, 20);
  }
  // Operators with limits.
  if (g.chance(20)) {
    size_t op = g.below(ws.size());
    for (size_t i = 0; i < ws.size(); i++) {
      if (i != op && g.chance(25)) { ws[i].part = static_cast<int>(op); ws[i].rot = ws[op].rot; }
    }
  }
  // Not in the reading order.
  if (g.chance(15)) {
    size_t a = g.below(ws.size()), b = g.below(ws.size());
    if (ws[a].part < 0 && ws[b].part < 0) {
      bool isOp = false;
      for (auto& w : ws) { isOp = isOp || (w.part >= 0); }
      if (!isOp) { std::swap(ws[a], ws[b]); }
    }
  }
  return ws;
}

/** The lines of the upright words, as the configuration describes them. */
vector<L> expectedLines(const vector<W>& ws) {
  map<int64_t, L> clusters;
  for (size_t i = 0; i < ws.size(); i++) {
    if (ws[i].part >= 0 || ws[i].rot != 0) { continue; }
    L& l = clusters[ws[i].y2];
    l.words.push_back(i);
    for (size_t j = 0; j < ws.size(); j++) {
      if (ws[j].part == static_cast<int>(i)) { l.words.push_back(j); }
    }
  }
  vector<L> lines;
  set<int64_t> bottoms;
  for (auto& [y, l] : clusters) {
    update(&l, ws);
    if (!bottoms.insert(l.y2).second) { discard(); }  // The order of the lines is not determined.
    lines.push_back(l);
  }
  std::sort(lines.begin(), lines.end(), [](const L& a, const L& b) { return a.y2 < b.y2; });
  while (true) {
    vector<L> merged;
    bool any = false;
    for (auto& l : lines) {
      if (!merged.empty()) {
        L& p = merged.back();
        int64_t gap = p.x1 < l.x1 ? l.x1 - p.x2 : p.x1 - l.x2;
        int64_t o = std::max<int64_t>(0, std::min(p.y2, l.y2) - std::max(p.y1, l.y1));
        int64_t h = std::min(p.y2 - p.y1, l.y2 - l.y1);
        bool near = gap * 10 < 3 * AVG_CHAR_WIDTH;
        if (h > 0 && (near ? 5 * o >= 2 * h : 5 * o >= 4 * h)) {
          p.words.insert(p.words.end(), l.words.begin(), l.words.end());
          update(&p, ws);
          any = true;
          continue;
        }
      }
      merged.push_back(l);
    }
    lines = merged;
    if (!any) { return lines; }
  }
}

string show(const vector<vector<W>>& segments) {
  string s;
  for (auto& ws : segments) {
    s += "segment: ";
    for (size_t i = 0; i < ws.size(); i++) {
      auto& w = ws[i];
      s += cat(i, ":", w.text, "[", w.x1 / 10.0, ",", w.y1 / 10.0, " - ", w.x2 / 10.0, ",", w.y2 / 10.0, "]");
      if (w.rot) { s += cat(" rot ", w.rot); }
      if (w.wMode) { s += cat(" wMode ", w.wMode); }
      if (w.part >= 0) { s += cat(" at ", w.part); }
      s += " ";
    }
  }
  return s;
}

}  // namespace

PPV_PROP("C08", "lines", 40000, 1500000, "pages of segments of words on rows, with words above and below "
    "the rows, gaps around the threshold, operators with limits, negative coordinates, and figures "
    "between the words; the text lines are compared to a model of the documented rules, with "
    "their text, box, font, ranks, neighbours, and the trim box; for rotated words only the partition and the "
    "order is checked; non-trivial: a segment with two lines, one of which has two words from different "
    "heights") {
  static const TextLinesDetectionConfig config;
  Doc d;
  d.doc->avgCharWidth = AVG_CHAR_WIDTH / 100.0;
  vector<vector<W>> segments;
  vector<int> pageOf;
  int numPages = static_cast<int>(g.many(1, 2));
  for (int p = 0; p < numPages; p++) {
    d.addPage();
    int n = static_cast<int>(g.many(0, 3));
    for (int s = 0; s < n; s++) {
      int64_t y0 = g.chance(15) ? -1000 : 500;
      segments.push_back(genWords(g, g.chance(15) ? -700 : 700, y0));
      pageOf.push_back(p);
    }
  }
  vector<PdfPageSegment*> segs;
  for (size_t s = 0; s < segments.size(); s++) {
    PdfPage* page = d.doc->pages[pageOf[s]];
    vector<PdfElement*> elements;
    for (auto& w : segments[s]) {
      int64_t fs = g.pick(vector<int64_t>{ 100, 80, 120 });
      string font = g.pick(vector<string>{ "A", "B" });
      w.word = d.newWord(page, w.text, w.x1, w.y1, w.x2, w.y2, fs, font, w.rot);
      w.word->pos->wMode = w.wMode;
      for (size_t i = 0; i < w.text.size(); i++) {
        PdfCharacter* ch = d.addChar(page, { 'x' }, w.x1, w.y1, w.x2, w.y2, g.chance(20) ? 95 : fs,
            g.chance(20) ? "C" : font, w.rot);
        ch->base = tenths(w.y2 - (g.chance(20) ? 20 : 10));
        w.word->characters.push_back(ch);
      }
      page->words.push_back(w.word);
      elements.push_back(w.word);
    }
    for (auto& w : segments[s]) {
      if (w.part >= 0) {
        w.word->isPartOfStackedMathSymbol = segments[s][w.part].word;
        segments[s][w.part].word->isBaseOfStackedMathSymbol.push_back(w.word);
      }
    }
    if (g.chance(15)) {
      auto* figure = new PdfFigure();
      figure->doc = d.doc;
      figure->pos->leftX = figure->pos->upperY = 10;
      figure->pos->rightX = figure->pos->lowerY = 500;
      page->figures.push_back(figure);
      elements.insert(elements.begin() + g.below(elements.size() + 1), figure);
    }
    segs.push_back(addSegment(&d, page, elements));
  }
  if (g.chance(10) && numPages > 0) {
    segs.push_back(addSegment(&d, d.doc->pages[0], {}));
    segments.push_back({});
  }
  r.showIf([&] { return show(segments); });
  vector<vector<L>> expected;
  for (auto& ws : segments) { expected.push_back(expectedLines(ws)); }
  TextLinesDetection(d.doc, &config).process();

  int rank = 0;
  set<string> ids;
  for (auto* page : d.doc->pages) {
    for (auto* s : page->segments) {
      for (auto* l : s->lines) { PPV_CHECK(l->rank == rank++, "the ranks are not consecutive"); }
    }
  }
  for (size_t s = 0; s < segs.size(); s++) {
    auto& ws = segments[s];
    auto* seg = segs[s];
    map<const PdfWord*, size_t> index;
    for (size_t i = 0; i < ws.size(); i++) { index[ws[i].word] = i; }
    vector<PdfTextLine*> upright;
    set<size_t> seen;
    std::map<int64_t, int> rightX;
    bool figureFirst = false;
    for (auto* e : seg->elements) { figureFirst = figureFirst || dynamic_cast<PdfFigure*>(e); }
    for (auto* l : seg->lines) {
      string what = cat("line ", quoted(l->text), " of segment ", s, ": ");
      PPV_CHECK(!l->words.empty(), what, "no words");
      PPV_CHECK(l->doc == d.doc && l->segment == seg, what, "wrong document or segment");
      PPV_CHECK(l->pos->pageNum == seg->pos->pageNum, what, "wrong page");
      PPV_CHECK(!l->id.empty() && ids.insert(l->id).second, what, "id is not unique");
      if (l->words[0]->pos->rotation == 0) { upright.push_back(l); }
      string text;
      double x1 = 1e9, y1 = 1e9, x2 = -1e9, y2 = -1e9;
      map<string, int> fonts;
      map<double, int> sizes, bases;
      double maxSize = -1;
      bool sameMode = false;
      for (auto* w : l->words) {
        PPV_CHECK(index.count(w) && seen.insert(index[w]).second, what, "wrong words");
        PPV_CHECK(w->line == l, what, "a word does not refer to the line");
        PPV_CHECK(w->pos->rotation == l->pos->rotation, what, "different rotations");
        sameMode = sameMode || w->pos->wMode == l->pos->wMode;
        text += (text.empty() && w == l->words[0] ? "" : " ") + w->text;
        x1 = std::min(x1, w->pos->leftX);
        y1 = std::min(y1, w->pos->upperY);
        x2 = std::max(x2, w->pos->rightX);
        y2 = std::max(y2, w->pos->lowerY);
        for (auto* c : w->characters) {
          fonts[c->fontName]++;
          sizes[c->fontSize]++;
          bases[c->base]++;
          maxSize = std::max(maxSize, c->fontSize);
        }
      }
      PPV_CHECK(sameMode, what, "its writing mode is that of none of its words");
      r.label("vertical", l->pos->wMode);
      PPV_CHECK(l->text == text, what, "the text should be ", quoted(text));
      PPV_CHECK(l->pos->leftX == x1 && l->pos->upperY == y1 && l->pos->rightX == x2
          && l->pos->lowerY == y2, what, "the box is ", boxStr(l->pos));
      auto isMode = [](auto& m, const auto& k) {
        int max = 0;
        for (auto& e : m) { max = std::max(max, e.second); }
        return m.count(k) && m.at(k) == max;
      };
      PPV_CHECK(isMode(fonts, l->fontName), what, "font is ", l->fontName);
      PPV_CHECK(isMode(sizes, l->fontSize), what, "font size is ", l->fontSize);
      PPV_CHECK(isMode(bases, l->base), what, "base is ", l->base);
      PPV_CHECK(l->maxFontSize == maxSize, what, "max font size is ", l->maxFontSize);
      rightX[std::llround(l->pos->getRotRightX())]++;
      r.label("rotated", l->pos->rotation != 0);
    }
    for (size_t i = 0; i < ws.size(); i++) {
      PPV_CHECK(seen.count(i), "word ", i, " of segment ", s, " is in no line");
    }
    // Lines in which all words are on the same baseline are in order in the direction in which the lines follow each
    // other, and their words in the reading direction, for each rotation.
    map<int, double> last;
    for (auto* l : seg->lines) {
      bool pure = true;
      int rot = l->pos->rotation;
      double sign = rot == 0 || rot == 3 ? 1 : -1, base = sign * l->words[0]->pos->getRotLowerY();
      double dir = rot < 2 ? 1 : -1;
      for (size_t i = 0; i < l->words.size(); i++) {
        pure = pure && sign * l->words[i]->pos->getRotLowerY() == base && l->words[i]->isBaseOfStackedMathSymbol.empty() &&
            !l->words[i]->isPartOfStackedMathSymbol;
        PPV_CHECK(i == 0 || dir * l->words[i - 1]->pos->getRotLeftX() <= dir * l->words[i]->pos->getRotLeftX(), "segment ", s,
            ": the words of ", quoted(l->text), " with rotation ", rot, " are not in order");
      }
      if (!pure) { continue; }
      PPV_CHECK(!last.count(rot) || last[rot] < base, "segment ", s, ": the lines with rotation ", rot, " are not in order at ",
          quoted(l->text));
      r.label("rotated lines in order", last.count(rot) && rot);
      last[rot] = base;
    }
    auto& exp = expected[s];
    auto str = [&] {
      string t;
      for (auto& l : exp) {
        t += "(";
        for (size_t i : l.words) { t += cat(i, " "); }
        t += ")";
      }
      t += " got ";
      for (auto* l : upright) {
        t += "(";
        for (auto* w : l->words) { t += cat(index[w], " "); }
        t += ")";
      }
      return t;
    };
    PPV_CHECK(upright.size() == exp.size(), "segment ", s, ": wrong lines, expected ", str());
    for (size_t i = 0; i < exp.size(); i++) {
      PPV_CHECK(upright[i]->words.size() == exp[i].words.size(), "segment ", s,
          ": wrong lines, expected ", str());
      for (size_t k = 0; k < exp[i].words.size(); k++) {
        PPV_CHECK(index[upright[i]->words[k]] == exp[i].words[k], "segment ", s,
            ": wrong lines, expected ", str());
      }
      PPV_CHECK(upright[i]->prevLine == (i ? upright[i - 1] : nullptr)
          && upright[i]->nextLine == (i + 1 < exp.size() ? upright[i + 1] : nullptr), "line ", i,
          " of segment ", s, ": wrong neighbours");
      std::set<int64_t> heights;
      for (size_t k : exp[i].words) { heights.insert(ws[k].y2); }
      r.nontrivial(exp.size() > 1 && heights.size() > 1);
      r.label("merged lines", heights.size() > 1);
    }
    // The trim box.
    if (ws.empty()) { continue; }
    PPV_CHECK(seg->trimLeftX == seg->pos->leftX && seg->trimUpperY == seg->pos->upperY
        && seg->trimLowerY == seg->pos->lowerY, "segment ", s, ": wrong trim box");
    int max = 0;
    for (auto& e : rightX) { max = std::max(max, e.second); }
    // A coordinate with the fraction 0.5 may be rounded to either side.
    if (2 * max >= static_cast<int>(seg->lines.size())) {
      bool ok = false;
      for (auto& e : rightX) {
        ok = ok || (e.second == max && seg->trimRightX == static_cast<double>(e.first));
      }
      PPV_CHECK(ok, "segment ", s, ": trimRightX is ", seg->trimRightX);
    } else {
      PPV_CHECK(seg->trimRightX == seg->pos->rightX, "segment ", s, ": trimRightX is ",
          seg->trimRightX, " instead of ", seg->pos->rightX);
    }
    r.label("trimmed", 2 * max >= static_cast<int>(seg->lines.size()));
    r.label("operator", [&] { for (auto& w : ws) { if (w.part >= 0) { return true; } } return false; }());
  }
}

PPV_PROP("C08", "hierarchy", 50000, 2000000, "pages of segments with one-word lines at a few "
    "indents (with jitter below the tolerance), with small and large distances, columns, and lines "
    "at equal or smaller heights; parents and siblings are compared to the documented definition; "
    "non-trivial: a line with a parent that has a previous sibling") {
  static const TextLinesDetectionConfig config;
  Doc d;
  d.doc->avgCharWidth = AVG_CHAR_WIDTH / 100.0;
  struct Line { int level; int64_t x, y1, y2; PdfTextLine* line; bool skipped = false; int wMode = 0; };
  vector<vector<Line>> pages;
  int numPages = static_cast<int>(g.many(1, 2));
  bool jitter = g.chance(30), vertical = g.chance(10);
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    pages.push_back({});
    int n = static_cast<int>(g.many(1, 3));
    int64_t x0 = g.chance(10) ? -900 : 600, y0 = g.chance(10) ? -600 : 400;
    int64_t y = y0;
    for (int s = 0; s < n; s++) {
      vector<PdfElement*> elements;
      int m = static_cast<int>(g.small(1, 9));
      int64_t y = y0;
      if (s > 0 && g.chance(50)) { y = pages.back().back().y2 + 40; }
      for (int i = 0; i < m; i++) {
        Line l;
        l.level = static_cast<int>(g.below(4));
        l.x = x0 + l.level * 100 + (jitter ? g.around(-20, 20) : 0);
        l.y1 = y;
        l.y2 = y + 100;
        l.wMode = vertical && g.chance(25);
        PdfWord* w = d.newWordWithChars(page, { 'x' }, l.x, l.y1, l.x + 400, l.y2, 100, "A");
        w->pos->wMode = l.wMode;
        page->words.push_back(w);
        elements.push_back(w);
        pages.back().push_back(l);
        // Distances around the threshold (10).
        y += 100 + (g.chance(15) ? 100 + 2 * g.around(-3, 6) : 20);
      }
      addSegment(&d, page, elements);
      x0 += g.chance(50) ? 1000 : 0;
    }
    (void) y;
  }
  r.showIf([&] {
    string s;
    for (auto& p : pages) {
      s += "page: ";
      for (auto& l : p) { s += cat(l.x / 10.0, ",", l.y1 / 10.0, l.wMode ? "v " : " "); }
    }
    return s;
  });
  TextLinesDetection(d.doc, &config).process();
  for (size_t p = 0; p < pages.size(); p++) {
    vector<PdfTextLine*> lines;
    for (auto* s : d.doc->pages[p]->segments) {
      lines.insert(lines.end(), s->lines.begin(), s->lines.end());
    }
    auto& ls = pages[p];
    PPV_CHECK(lines.size() == ls.size(), "expected one line per word");
    for (size_t i = 0; i < ls.size(); i++) {
      ls[i].line = lines[i];
      PPV_CHECK(toTenths(lines[i]->pos->leftX) == ls[i].x && toTenths(lines[i]->pos->upperY) == ls[i].y1,
          "unexpected line ", i);
    }
    vector<int> parent(ls.size(), -1), prev(ls.size(), -1), next(ls.size(), -1);
    size_t start = 0;
    // Levels are relative to the first column; across columns, compare the left edges.
    auto cmp = [](const Line& a, const Line& b) {
      int64_t diff = 10 * (a.x - b.x);
      return diff > AVG_CHAR_WIDTH ? 1 : diff < -AVG_CHAR_WIDTH ? -1 : 0;
    };
    for (size_t i = 0; i < ls.size(); i++) {
      if (i > 0) {
        const Line& a = ls[i - 1].y1 < ls[i].y1 ? ls[i - 1] : ls[i];
        const Line& b = ls[i - 1].y1 < ls[i].y1 ? ls[i] : ls[i - 1];
        // Distances between lines of different writing modes have no meaning.
        if (a.wMode == b.wMode && std::abs(b.y1 - a.y2) > 101) { start = i; }
      }
      for (size_t j = i; j-- > start; ) {
        if (ls[j].skipped || cmp(ls[j], ls[i]) > 0) { continue; }
        bool hidden = false;
        for (size_t k = j + 1; k < i; k++) { hidden = hidden || cmp(ls[k], ls[j]) < 0; }
        if (hidden) { continue; }
        if (ls[j].y2 >= ls[i].y2) { ls[i].skipped = true; break; }
        if (cmp(ls[j], ls[i]) == 0) {
          prev[i] = static_cast<int>(j);
          next[j] = static_cast<int>(i);
          parent[i] = parent[j];
        } else {
          parent[i] = static_cast<int>(j);
        }
        break;
      }
    }
    auto at = [&](int i) { return i < 0 ? nullptr : lines[i]; };
    for (size_t i = 0; i < ls.size(); i++) {
      PPV_CHECK(lines[i]->parentLine == at(parent[i]), "page ", p + 1, ", line ", i,
          ": the parent line should be ", parent[i]);
      PPV_CHECK(lines[i]->prevSiblingLine == at(prev[i]), "page ", p + 1, ", line ", i,
          ": the previous sibling should be ", prev[i]);
      PPV_CHECK(lines[i]->nextSiblingLine == at(next[i]), "page ", p + 1, ", line ", i,
          ": the next sibling should be ", next[i]);
      r.nontrivial(parent[i] >= 0 && prev[i] >= 0);
      r.label("distance larger than the threshold", start > 0);
      r.label("skipped", ls[i].skipped);
    }
  }
}
