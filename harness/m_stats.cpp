// C09: statistics about the text, C29: sub- and superscripts.
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "GlyphsStatisticsCalculation.h"
#include "SubSuperScriptsDetection.h"
#include "TextLinesStatisticsCalculation.h"
#include "Types.h"
#include "WordsStatisticsCalculation.h"

using ppp::types::PdfCharacter;
using ppp::types::PdfPage;
using ppp::types::PdfPageSegment;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using std::map;
using std::string;
using std::vector;
using namespace ppv;

namespace {

/** Checks that a number in the document is (one of) the most frequent ones. */
void checkMode(const map<int64_t, int>& counts, double actual, double byDefault, const string& what) {
  if (counts.empty()) {
    PPV_CHECK(actual == byDefault, what, " is ", actual, " although there is none");
    return;
  }
  int max = 0;
  string all;
  for (auto& [k, n] : counts) {
    max = std::max(max, n);
    all += cat(k / 10.0, " (", n, ") ");
  }
  PPV_CHECK(std::isfinite(actual), what, " is ", actual);
  auto it = counts.find(toTenths(actual));
  PPV_CHECK(it != counts.end() && it->second == max && std::abs(actual - toTenths(actual) / 10.0) < 1e-6,
      what, " is ", actual, ", but the distribution is ", all);
}

const vector<int64_t> SIZES = { 100, 90, 89, 91, 110, 111, 80, 60 };

}  // namespace

PPV_PROP("C09", "characters", 300000, 5000000, "pages of characters with different fonts, sizes "
    "and boxes; averages and most frequent values are compared to a direct computation; "
    "non-trivial: at least two font sizes") {
  static const ppp::config::GlyphsStatisticsCalculationConfig config;
  Doc d;
  int numPages = static_cast<int>(g.many(0, 3));
  map<int64_t, int> sizes;
  map<string, int> names;
  int64_t w = 0, h = 0, n = 0;
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    int num = static_cast<int>(g.many(0, 12));
    for (int i = 0; i < num; i++) {
      int64_t x = g.around(-3000, 6000), y = g.around(-3000, 6000), ww = g.range(0, 200), hh = g.range(0, 200);
      int64_t fs = g.pick(SIZES);
      string name = g.pick(vector<string>{ "A", "B", "", "C" });
      int rot = static_cast<int>(g.weighted({ 80, 5, 5, 5 }));
      d.addChar(page, { 'x' }, x, y, x + ww, y + hh, fs, name, rot);
      sizes[fs]++;
      names[name]++;
      w += ww;
      h += hh;
      n++;
    }
  }
  r.showIf([&] { return cat(n, " characters, ", sizes.size(), " sizes, ", names.size(), " fonts"); });
  ppp::modules::GlyphsStatisticsCalculation(d.doc, &config).process();
  checkMode(sizes, d.doc->mostFreqFontSize, 0, "the most frequent font size");
  int max = 0;
  for (auto& e : names) { max = std::max(max, e.second); }
  PPV_CHECK(n == 0 || names[d.doc->mostFreqFontName] == max, "the most frequent font is ",
      d.doc->mostFreqFontName);
  double aw = n ? w / 10.0 / n : 0, ah = n ? h / 10.0 / n : 0;
  PPV_CHECK(std::abs(d.doc->avgCharWidth - aw) < 1e-6, "avgCharWidth is ", d.doc->avgCharWidth);
  PPV_CHECK(std::abs(d.doc->avgCharHeight - ah) < 1e-6, "avgCharHeight is ", d.doc->avgCharHeight);
  r.nontrivial(sizes.size() > 1);
  r.label("no characters", n == 0);
}

PPV_PROP("C09", "words", 300000, 5000000, "pages of words on rows, with different fonts sizes, gaps, "
    "distances and rotations; the most frequent height, word distance and line distance are "
    "compared to a direct computation with exact numbers; non-trivial: one gap occurs at least "
    "three times and more often than others") {
  static const ppp::config::WordsStatisticsCalculationConfig config;
  Doc d;
  d.doc->mostFreqFontSize = 10;
  int numPages = static_cast<int>(g.many(1, 2));
  map<int64_t, int> heights, gaps, dists;
  int64_t usual = g.range(0, 80), usualDist = g.range(0, 80);
  string shown;
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    int num = static_cast<int>(g.many(0, 14));
    int64_t x = g.chance(10) ? g.around(-2000, 2000) : 700, y = g.chance(10) ? -500 : 700;
    int64_t left = x;
    struct P { int64_t x1, y1, x2, y2, fs; int rot, wm; } prev{};
    for (int i = 0; i < num; i++) {
      P c;
      c.fs = g.chance(25) ? g.pick(SIZES) : 100;
      c.rot = g.chance(3) ? 1 : 0;
      c.wm = g.chance(3) ? 1 : 0;
      int64_t w = g.range(5, 400), h = g.chance(15) ? g.range(0, 150) : 100;
      int64_t dy = g.chance(15) ? g.around(-100, 100) : 0;
      c.x1 = x;
      c.x2 = x + w;
      c.y1 = y + dy;
      c.y2 = c.y1 + h;
      x += w + (g.chance(60) ? usual : g.around(-20, 90));
      if (g.chance(20)) {
        x = left;
        y += 100 + (g.chance(70) ? usualDist : g.around(-50, 100));
      }
      PdfWord* word = d.newWord(page, "x", c.x1, c.y1, c.x2, c.y2, c.fs, "A", c.rot, c.wm);
      page->words.push_back(word);
      shown += cat("[", c.x1 / 10.0, ",", c.y1 / 10.0, " - ", c.x2 / 10.0, ",", c.y2 / 10.0, "] ", c.fs / 10.0, " ");
      if (c.fs >= 90) {
        heights[h]++;
        if (i > 0 && prev.rot == c.rot && prev.wm == c.wm && prev.fs >= 90 && prev.fs <= 110) {
          int64_t o = std::max<int64_t>(0, std::min(c.y2, prev.y2) - std::max(c.y1, prev.y1));
          int64_t m = std::min(c.y2 - c.y1, prev.y2 - prev.y1);
          if (o > 0 && 2 * o >= m) {
            gaps[prev.x1 < c.x1 ? c.x1 - prev.x2 : prev.x1 - c.x2]++;
          }
          if (o == 0) {
            dists[prev.y1 < c.y1 ? c.y1 - prev.y2 : prev.y1 - c.y2]++;
          }
        }
      }
      prev = c;
    }
    shown += "; ";
  }
  r.show(shown);
  ppp::modules::WordsStatisticsCalculation(d.doc, &config).process();
  checkMode(heights, d.doc->mostFreqWordHeight, 0, "the most frequent word height");
  checkMode(gaps, d.doc->mostFreqWordDistance, 0, "the most frequent word distance");
  checkMode(dists, d.doc->mostFreqEstimatedLineDistance, 0, "the estimated line distance");
  r.nontrivial(gaps.size() > 1 && gaps.count(usual) && gaps[usual] > 2);
  r.label("several line distances", dists.size() > 1);
}

namespace {

struct Line { int64_t x1, y1, x2, y2, fs; int rot, wm; PdfTextLine* line; };

}  // namespace

PPV_PROP("C09", "lines", 300000, 5000000, "segments of lines with base boxes, sizes, distances "
    "(also negative ones) and rotations; the most frequent line distances, overall and per font "
    "size, are compared to a direct computation; non-trivial: at least two different distances "
    "and two font sizes") {
  static const ppp::config::TextLinesStatisticsCalculationConfig config;
  Doc d;
  d.doc->mostFreqFontSize = 10;
  map<int64_t, int> dists;
  map<int64_t, map<int64_t, int>> perSize;
  string shown;
  int numPages = static_cast<int>(g.many(1, 2));
  int64_t usual = g.range(0, 80);
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    int n = static_cast<int>(g.many(0, 3));
    for (int s = 0; s < n; s++) {
      auto* seg = new PdfPageSegment();
      seg->doc = d.doc;
      page->segments.push_back(seg);
      int m = static_cast<int>(g.small(0, 8));
      int64_t y = g.chance(15) ? -600 : 600;
      Line prev{};
      for (int i = 0; i < m; i++) {
        Line l{ 600, y, 2000, y + 100, g.chance(30) ? g.pick(SIZES) : 100, g.chance(3) ? 1 : 0,
            g.chance(3) ? 1 : 0, nullptr };
        auto* line = new PdfTextLine(page->pageNum, 60, y / 10.0 - 3, 200, l.y2 / 10.0 + 3, l.rot, l.wm);
        line->doc = d.doc;
        line->segment = seg;
        line->fontSize = tenths(l.fs);
        line->baseBBoxLeftX = 60;
        line->baseBBoxUpperY = tenths(l.y1);
        line->baseBBoxRightX = 200;
        line->baseBBoxLowerY = tenths(l.y2);
        seg->lines.push_back(line);
        shown += cat("[", l.y1 / 10.0, " - ", l.y2 / 10.0, "] ", l.fs / 10.0, " ");
        if (i > 0 && prev.rot == l.rot && prev.wm == l.wm) {
          int64_t dist = std::max<int64_t>(0, l.y1 - prev.y2);
          dists[dist]++;
          if (std::abs(prev.fs - l.fs) <= 10) { perSize[l.fs][dist]++; }
        }
        prev = l;
        y += 100 + (g.chance(65) ? usual : g.around(-200, 100));
      }
      shown += "; ";
    }
  }
  // A difference of exactly the tolerance is not decidable for sizes like 9.1 and 8.1.
  r.show(shown);
  ppp::modules::TextLinesStatisticsCalculation(d.doc, &config).process();
  checkMode(dists, d.doc->mostFreqLineDistance, 0, "the most frequent line distance");
  PPV_CHECK(d.doc->mostFreqLineDistancePerFontSize.size() == perSize.size(), "distances for ",
      d.doc->mostFreqLineDistancePerFontSize.size(), " font sizes instead of ", perSize.size());
  for (auto& [size, dist] : d.doc->mostFreqLineDistancePerFontSize) {
    PPV_CHECK(perSize.count(toTenths(size)), "a line distance for the font size ", size);
    checkMode(perSize[toTenths(size)], dist, 0, cat("the most frequent line distance of ", size));
  }
  r.nontrivial(dists.size() > 1 && perSize.size() > 1);
}

PPV_PROP("C29", "scripts", 800000, 4000000, "lines of characters with sizes and baselines around "
    "the tolerances, at any coordinates; the flags and the base box of each line are compared to "
    "the definition; non-trivial: a line with a sub- or superscript and other characters") {
  static const ppp::config::SubSuperScriptsDetectionConfig config;
  Doc d;
  d.doc->mostFreqFontSize = 10;
  struct C { int64_t x1, y1, x2, y2, fs, base; PdfCharacter* ch; };
  struct Ln { int64_t base; vector<C> chars; PdfTextLine* line; };
  vector<Ln> lines;
  int numPages = static_cast<int>(g.many(1, 2));
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    auto* seg = new PdfPageSegment();
    page->segments.push_back(seg);
    int n = static_cast<int>(g.many(0, 4));
    for (int i = 0; i < n; i++) {
      Ln l;
      int64_t x = g.chance(15) ? -2000 : 700, y = g.chance(15) ? g.around(-1500, 1500) : 700 + i * 120;
      l.base = y + 80;
      l.line = new PdfTextLine(page->pageNum, 0, 0, 600, 100, 0, 0);
      l.line->base = tenths(l.base);
      int m = static_cast<int>(g.small(1, 8));
      int onBase = g.chance(30) ? m - 1 : 0;
      PdfWord* word = nullptr;
      for (int k = 0; k < m; k++) {
        C c;
        c.fs = g.chance(50) ? 100 : g.pick(vector<int64_t>{ 92, 90, 89, 80, 60, 120, 91 });
        if (c.fs == 91) { c.fs = 70; }  // Exactly the tolerance.
        // The line has at least one character on its baseline.
        c.base = k == onBase || g.chance(50) ? l.base : l.base + g.around(-40, 40);
        if (std::abs(c.base - l.base) == 1) { c.base = l.base; }
        c.x1 = x;
        c.x2 = x + g.range(0, 80);
        x = c.x2 + g.around(-5, 40);
        c.y1 = c.base - g.range(0, 100);
        c.y2 = c.base + g.range(0, 30);
        if (!word || g.chance(20)) {
          word = d.newWord(page, "x", c.x1, c.y1, c.x2, c.y2, c.fs, "A");
          page->words.push_back(word);
          l.line->words.push_back(word);
        }
        c.ch = d.addChar(page, { 'x' }, c.x1, c.y1, c.x2, c.y2, c.fs, "A");
        c.ch->base = tenths(c.base);
        word->characters.push_back(c.ch);
        l.chars.push_back(c);
      }
      seg->lines.push_back(l.line);
      lines.push_back(l);
    }
  }
  r.showIf([&] {
    string s;
    for (auto& l : lines) {
      s += cat("line at ", l.base / 10.0, ": ");
      for (auto& c : l.chars) { s += cat(c.fs / 10.0, "@", c.base / 10.0, " "); }
    }
    return s;
  });
  ppp::modules::SubSuperScriptsDetection(d.doc, &config).process();
  for (size_t i = 0; i < lines.size(); i++) {
    auto& l = lines[i];
    int64_t x1 = INT64_MAX, y1 = INT64_MAX, x2 = INT64_MIN, y2 = INT64_MIN;
    int numScripts = 0;
    for (size_t k = 0; k < l.chars.size(); k++) {
      auto& c = l.chars[k];
      bool isSmall = c.fs < 91;
      bool super = isSmall && c.base < l.base - 1, sub = isSmall && c.base > l.base + 1;
      PPV_CHECK(c.ch->isSuperscript == super && c.ch->isSubscript == sub, "line ", i,
          ": character with size ", c.fs / 10.0, " and base ", c.base / 10.0, " is ",
          c.ch->isSuperscript ? "a superscript" : c.ch->isSubscript ? "a subscript" : "no script");
      numScripts += super || sub;
      if (super || sub) { continue; }
      x1 = std::min(x1, c.x1);
      y1 = std::min(y1, c.y1);
      x2 = std::max(x2, c.x2);
      y2 = std::max(y2, c.y2);
    }
    PPV_CHECK(x1 == INT64_MAX || (l.line->baseBBoxLeftX == tenths(x1) && l.line->baseBBoxUpperY == tenths(y1)
        && l.line->baseBBoxRightX == tenths(x2) && l.line->baseBBoxLowerY == tenths(y2)), "line ", i,
        ": the base box is ", l.line->baseBBoxLeftX, " ", l.line->baseBBoxUpperY, " ",
        l.line->baseBBoxRightX, " ", l.line->baseBBoxLowerY);
    r.nontrivial(numScripts > 0 && x1 != INT64_MAX);
  }
}
