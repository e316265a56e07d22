// C12: text blocks.
#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "TextBlocksDetection.h"
#include "Types.h"
#include "utils/TextBlocksDetectionUtils.h"

using ppp::config::TextBlocksDetectionConfig;
using ppp::modules::TextBlocksDetection;
using ppp::types::PdfCharacter;
using ppp::types::PdfFigure;
using ppp::types::PdfPage;
using ppp::types::PdfPageSegment;
using ppp::types::PdfTextBlock;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using ppp::utils::TextBlocksDetectionUtils;
using std::map;
using std::pair;
using std::set;
using std::string;
using std::vector;
using namespace ppv;

// All coordinates are even tenths. The thresholds below are odd (or fractions of) tenths, so that no
// distance ever lies exactly on a threshold.
namespace {

constexpr double CW = 5.05;  // The average width of a character.
constexpr double CWT = 50.5;  // In tenths.

struct Ch { string text; bool sup = false, sub = false; };

struct Wd {
  vector<Ch> chars;
  string text;
  int64_t width = 20;
  string font = "A";
  int64_t fs = 100;
};

struct Ln {
  vector<Wd> words;
  string text;
  int page = 0, seg = 0;
  int64_t x1, y1, x2, y2;
  string font = "A";
  int64_t fs = 100, maxFs = 100;
  int rot = 0, wMode = 0;
  int parent = -1, prevSib = -1, nextSib = -1;
  // Whether the text starts with a label like "(a)", followed by a space.
  bool label = false;
  // What is computed along the way.
  int prev = -1;
  int64_t leftMargin = 0, rightMargin = 0;
  PdfTextLine* line = nullptr;
};

struct Sg {
  int page;
  vector<int> lines;
  int64_t x1, y1, x2, y2, trimX2;
  PdfPageSegment* segment = nullptr;
};

struct Fg { int page; int64_t x1, y1, x2, y2; };

struct Bl {
  vector<int> lines;
  int seg;
  int64_t x1, y1, x2, y2, tx1, ty1, tx2, ty2;
  bool centered;
  int64_t hang;
};

struct Model {
  vector<Ln> lines;
  vector<Sg> segs;
  vector<Fg> figures;
  int numPages = 1;
  string docFont = "A";
  int64_t docFs = 100, docDist = 31, docHeight = 98;
  map<int64_t, int64_t> distPerFs;
  set<string> footnotes;
};

// Weight and whether it is italic.
const map<string, pair<int, bool>> FONTS = {
  { "A", { 400, false } }, { "B", { 700, false } }, { "M", { 500, false } }, { "I", { 400, true } }
};

bool emphasized(const Model& m, const string& font, int64_t fs, const string& text) {
  if (!FONTS.count(m.docFont) || !FONTS.count(font)) { return false; }
  if (fs - m.docFs > 10) { return true; }
  if (fs - m.docFs >= -10) {
    if (FONTS.at(font).first - FONTS.at(m.docFont).first > 100) { return true; }
    if (FONTS.at(font).second) { return true; }
  }
  bool upper = false;
  for (char c : text) {
    if (c >= 'a' && c <= 'z') { return false; }
    upper = upper || (c >= 'A' && c <= 'Z');
  }
  return upper;
}

bool isFormula(const string& s) { return s.find_first_of("=+") != string::npos; }

bool delimited(const string& s) { return !s.empty() && strchr("?!.);", s.back()); }

bool startsUpper(const string& s) { return !s.empty() && s[0] >= 'A' && s[0] <= 'Z'; }

bool startsLower(const string& s) { return !s.empty() && s[0] >= 'a' && s[0] <= 'z'; }

int64_t gap(const Ln& a, const Ln& b) { return a.y1 < b.y1 ? b.y1 - a.y2 : a.y1 - b.y2; }

bool sameFs(int64_t a, int64_t b) { return std::abs(a - b) <= 10; }

bool itemLabel(const Ln& l) {
  if (l.words.empty() || l.words[0].chars.empty()) { return false; }
  const Ch& c = l.words[0].chars[0];
  static const set<string> extra = { "*", "\xe2\x88\x97", "(", ")" };
  bool in = extra.count(c.text) || (c.text.size() == 1
      && ((c.text[0] >= 'a' && c.text[0] <= 'z') || (c.text[0] >= '0' && c.text[0] <= '9')));
  return (c.sup && in) || l.label;
}

bool footnoteLabel(const Ln& l, const set<string>* known) {
  if (l.words.empty()) { return false; }
  string s;
  for (auto& c : l.words[0].chars) {
    if (!c.sup) { break; }
    s += c.text;
  }
  return known ? known->count(s) > 0 : !s.empty();
}

bool firstOfItem(const Model& m, const Ln& l, const set<string>* known) {
  if (l.words.empty()) { return false; }
  bool fn = footnoteLabel(l, known);
  if (!fn && !itemLabel(l)) { return false; }
  if (l.prev >= 0) {
    const Ln& p = m.lines[l.prev];
    if (!itemLabel(p) && p.font == l.font && sameFs(p.fs, l.fs) && gap(p, l) <= 0
        && !delimited(p.text) && std::abs(p.x1 - l.x1) <= CWT) { return false; }
  }
  for (int s : { l.prevSib, l.nextSib }) {
    if (s < 0 || m.lines[s].words.empty()) { continue; }
    const Wd& a = m.lines[s].words[0];
    const Wd& b = l.words[0];
    if (itemLabel(m.lines[s]) && a.font == b.font && sameFs(a.fs, b.fs)) { return true; }
  }
  return fn;
}

bool continuesItem(const Model& m, const Ln& l, const set<string>* known) {
  for (int p = l.parent; p >= 0; p = m.lines[p].parent) {
    if (firstOfItem(m, m.lines[p], known)) { return true; }
  }
  return false;
}

bool hasCapacity(const Model& m, const Ln& l) {
  if (l.prev < 0 || l.words.empty()) { return false; }
  return m.lines[l.prev].rightMargin - l.words[0].width > 2 * CWT;
}

bool centeredLines(const Model& m, const vector<int>& ls) {
  bool large = false;
  int justified = 0;
  for (size_t i = 1; i < ls.size(); i++) {
    const Ln& a = m.lines[ls[i - 1]];
    const Ln& b = m.lines[ls[i]];
    double overlap = std::max<int64_t>(0, std::min(a.x2, b.x2) - std::max(a.x1, b.x1));
    double ratio = overlap / std::min(a.x2 - a.x1, b.x2 - b.x1);
    if (std::fabs(ratio - 0.9899) < 1e-6) { discard(); }
    if (ratio < 0.9899) { return false; }
    int64_t l = std::abs(a.x1 - b.x1), r = std::abs(a.x2 - b.x2);
    if (std::abs(l - r) > 2 * CWT) { return false; }
    if (!isFormula(a.text) && !isFormula(b.text) && (l > 2 * CWT || r > 2 * CWT)) { large = true; }
    else { justified++; }
  }
  return large && justified <= 5;
}

int64_t hangingIndent(const Model& m, const vector<int>& ls) {
  map<int64_t, int> counts;
  int numLarge = 0;
  for (int i : ls) {
    if (m.lines[i].leftMargin < CWT) { continue; }
    counts[m.lines[i].leftMargin]++;
    numLarge++;
  }
  int64_t indent = 0;
  int best = 0;
  for (auto& c : counts) {
    if (c.second > best) { best = c.second; indent = c.first; }
  }
  // The indent of more than half of the indented lines.
  if (2 * best <= numLarge) { return 0; }
  int numLong = 0, lowerNon = 0, lowerInd = 0, numNon = 0, numInd = 0;
  bool firstIndented = false, firstCapacity = false, othersIndented = true;
  for (size_t i = 0; i < ls.size(); i++) {
    const Ln& l = m.lines[ls[i]];
    if (l.text.size() < 3) { continue; }
    numLong++;
    if (std::abs(l.leftMargin - l.rightMargin) <= CWT && l.leftMargin > CWT) { continue; }
    bool non = std::abs(l.leftMargin) <= CWT;
    bool ind = std::abs(l.leftMargin - indent) <= CWT;
    bool lower = startsLower(l.text);
    static const set<string> prefixes = { "van", "von", "de" };
    numNon += non;
    numInd += ind;
    lowerInd += lower && ind;
    lowerNon += lower && non && !prefixes.count(l.words[0].text);
    if (i == 0) { firstIndented = ind; } else { othersIndented = othersIndented && ind; }
    if (i == 1) { firstCapacity = hasCapacity(m, l); }
  }
  if (numInd == 0 || lowerNon > 0) { return 0; }
  if (!firstIndented && !firstCapacity && othersIndented) { return indent; }
  if (numNon >= 10) { return indent; }
  if (numLong >= 4 && lowerInd >= 1) { return indent; }
  return 0;
}

void create(Model* m, const vector<int>& ls, vector<Bl>* blocks) {
  Bl b;
  b.lines = ls;
  b.seg = m->lines[ls[0]].seg;
  const Sg& s = m->segs[b.seg];
  b.x1 = b.y1 = INT64_MAX;
  b.x2 = b.y2 = INT64_MIN;
  for (size_t i = 0; i < ls.size(); i++) {
    Ln& l = m->lines[ls[i]];
    b.x1 = std::min(b.x1, l.x1);
    b.y1 = std::min(b.y1, l.y1);
    b.x2 = std::max(b.x2, l.x2);
    b.y2 = std::max(b.y2, l.y2);
    l.prev = i > 0 ? ls[i - 1] : -1;
  }
  b.tx1 = std::max(b.x1, s.x1);
  b.ty1 = std::max(b.y1, s.y1);
  b.tx2 = std::min(b.x2, s.trimX2);
  b.ty2 = std::min(b.y2, s.y2);
  b.centered = centeredLines(*m, ls);
  int64_t right = b.tx2;
  if (ls.size() == 2 && !blocks->empty() && std::abs((b.x1 - s.x1) - (s.x2 - b.x2)) > CWT) {
    right = std::max(right, blocks->back().tx2);
  }
  for (int i : ls) {
    m->lines[i].leftMargin = m->lines[i].x1 - b.tx1;
    m->lines[i].rightMargin = right - m->lines[i].x2;
  }
  b.hang = hangingIndent(*m, ls);
  blocks->push_back(b);
}

const Fg* figureOf(const Model& m, const Ln& l) {
  for (auto& f : m.figures) {
    if (f.page != l.page) { continue; }
    int64_t ox = std::min(l.x2, f.x2) - std::max(l.x1, f.x1);
    int64_t oy = std::min(l.y2, f.y2) - std::max(l.y1, f.y1);
    if (ox > 0 && oy > 0 && 2 * ox >= l.x2 - l.x1 && 2 * oy >= l.y2 - l.y1) { return &f; }
  }
  return nullptr;
}

bool startsPreliminary(const Model& m, const Ln& l) {
  if (l.prev < 0) { return true; }
  const Ln& p = m.lines[l.prev];
  const Fg* f = figureOf(m, l);
  if (f && f == figureOf(m, p)) { return false; }
  if (p.rot != l.rot || p.wMode != l.wMode) { return true; }
  if (!sameFs(p.fs, l.fs) && !sameFs(p.maxFs, l.maxFs)) { return true; }
  int64_t dist = gap(p, l), expected = std::max<int64_t>(0, m.docDist);
  if (m.distPerFs.count(l.fs)) { expected = std::max(expected, m.distPerFs.at(l.fs)); }
  if (dist <= 0) { return false; }
  if (dist > expected + std::max(10.0, expected / 10.0)) { return true; }
  if (p.prev >= 0 && dist - gap(m.lines[p.prev], p) > m.docHeight / 2.0) { return true; }
  return false;
}

bool inOffset(const Ln& p, const Ln& l) { return p.x1 - l.x1 >= -CWT && p.x1 - l.x1 <= 6 * CWT; }

bool startsBlock(const Model& m, const Bl& b, const Ln& l) {
  if (l.prev < 0) { return true; }
  const Ln& p = m.lines[l.prev];
  if (b.centered) { return firstOfItem(m, l, nullptr); }
  const set<string>* known = &m.footnotes;
  bool prevFirst = firstOfItem(m, p, known), prevCont = continuesItem(m, p, known);
  bool capacity = hasCapacity(m, l);
  if (firstOfItem(m, l, known)) { return true; }
  if (continuesItem(m, l, known)) {
    if (capacity) { return true; }
    if (prevFirst) { return false; }
    return prevCont && !inOffset(p, l);
  }
  if (prevFirst || prevCont) {
    if (capacity) { return true; }
    if (!delimited(p.text) && !startsUpper(l.text)) { return false; }
  }
  if (emphasized(m, p.font, p.fs, p.text) && emphasized(m, l.font, l.fs, l.text) && p.font == l.font
      && sameFs(p.fs, l.fs)) { return false; }
  if (b.hang > 0) {
    auto rel = [&](int64_t v) { return v < b.hang - CWT ? -1 : v > b.hang + CWT ? 1 : 0; };
    int prev = rel(p.leftMargin), curr = rel(l.leftMargin);
    if (curr < 0) { return true; }
    if (prev > 0) { return !inOffset(p, l); }
    return curr > 0 ? true : capacity;
  }
  if (l.leftMargin > 6 * CWT || p.leftMargin > 6 * CWT) { return std::abs(p.x1 - l.x1) > CWT; }
  if (l.leftMargin >= CWT) { return true; }
  return capacity;
}

void collectFootnotes(const Ln& l, set<string>* out) {
  static const set<string> special = { "*", "\xe2\x88\x97", "\xe2\x80\xa0", "\xe2\x80\xa1", "\xc2\xa7",
    "\xe2\x80\x96", "\xc2\xb6", "?" };
  for (auto& w : l.words) {
    size_t i = 0;
    while (i < w.chars.size() && (w.chars[i].sup || w.chars[i].sub)) { i++; }
    string label;
    for (i++; i < w.chars.size(); i++) {
      const Ch& c = w.chars[i];
      if (c.text.empty()) { continue; }
      bool is = special.count(c.text) || (c.sup && isascii(c.text[0]) && isalnum(c.text[0]));
      if (is) { label += c.text; continue; }
      if (!label.empty()) { out->insert(label); }
      label.clear();
    }
    if (!label.empty()) { out->insert(label); }
  }
}

// -------------------------------------------------------------------------------------------------

const vector<string> LABELS = { "\xe2\x80\xa2", "-", "\xe2\x80\x93", "+", "iv.", "XII.", "(ii)", "a.",
  "12.", "(a)", "[12]", "[Smi99]", "a)", "10)", "PACS", "1." };
const vector<string> NO_LABELS = { "Text", "word", "van", "de", "of", "E=mc", "x+1", "ABC", "end.", "(see",
  "more)", "a", "\xc3\xa4" "b", "A.", "(abc)", "100)", "D.", "IT", "Word" };

Wd genWord(Gen& g, bool canBeLabel, bool* label, const string& font, int64_t fs) {
  Wd w;
  w.font = font;
  w.fs = fs;
  *label = canBeLabel && g.chance(50);
  string t = *label ? g.pick(LABELS) : g.pick(NO_LABELS);
  // A superscript prefix.
  if (!*label && g.chance(canBeLabel ? 12 : 3)) {
    int n = static_cast<int>(g.small(1, 2));
    for (int i = 0; i < n; i++) {
      w.chars.push_back({ g.pick(vector<string>{ "1", "2", "a", "*", "\xe2\x88\x97", "\xe2\x80\xa0",
          "\xc2\xa7", "A", "\xce\xb1" }), true, false });
    }
  }
  for (size_t i = 0; i < t.size(); ) {
    size_t n = (t[i] & 0x80) == 0 ? 1 : (t[i] & 0xe0) == 0xc0 ? 2 : 3;
    w.chars.push_back({ t.substr(i, n), false, false });
    i += n;
  }
  // A suffix: a reference to a footnote, or the like.
  if (!*label && g.chance(10)) {
    int n = static_cast<int>(g.small(1, 3));
    for (int i = 0; i < n; i++) {
      int kind = static_cast<int>(g.weighted({ 70, 20, 10 }));
      w.chars.push_back({ g.pick(vector<string>{ "1", "2", "*", "a", ",", "\xe2\x80\xa0", "\xce\xb1",
          "\xe2\x88\x97", "?", "\xce\xb2", "\xc2\xa7", "A" }), kind == 0, kind == 1 });
    }
  }
  for (auto& c : w.chars) { w.text += c.text; }
  w.width = 2 * g.range(5, 150);
  return w;
}

Model genModel(Gen& g) {
  Model m;
  m.numPages = g.chance(15) ? 2 : 1;
  if (g.chance(10)) { m.docFont = g.pick(vector<string>{ "B", "I", "unknown" }); }
  m.docDist = g.pick(vector<int64_t>{ 31, 15, 121, -9, 51 });
  m.docHeight = g.pick(vector<int64_t>{ 98, 62, 150 });
  if (g.chance(30)) { m.distPerFs[100] = g.pick(vector<int64_t>{ 21, 61, 141 }); }
  if (g.chance(20)) { m.distPerFs[123] = g.pick(vector<int64_t>{ 21, 61, 141 }); }
  const vector<int64_t> SIZES = { 100, 80, 95, 104, 123, 141 };
  for (int p = 0; p < m.numPages; p++) {
    int64_t y = g.chance(10) ? -3000 : 400;
    int numSegs = static_cast<int>(g.many(1, 3));
    for (int s = 0; s < numSegs; s++) {
      Sg seg;
      seg.page = p;
      seg.x1 = g.chance(10) ? -2000 : 600 + 2 * g.range(0, 3) * 500;
      int64_t width = 2 * g.range(200, 1200);
      int numLines = static_cast<int>(g.many(1, g.chance(20) ? 22 : 9));
      int style = static_cast<int>(g.weighted({ 30, 20, 20, 15, 15 }));
      string font = g.chance(75) ? "A" : g.pick(vector<string>{ "B", "I", "M", "unknown" });
      int64_t fs = g.chance(75) ? 100 : g.pick(SIZES);
      bool special = g.chance(8);
      vector<int> stack;
      int64_t indent = 2 * g.range(0, 200);
      for (int i = 0; i < numLines; i++) {
        Ln l;
        l.page = p;
        l.seg = static_cast<int>(m.segs.size());
        l.font = g.chance(85) ? font : g.pick(vector<string>{ "A", "B", "I", "M", "unknown" });
        l.fs = g.chance(85) ? fs : g.pick(SIZES);
        l.maxFs = g.chance(85) ? l.fs : std::max(l.fs, g.pick(SIZES));
        if (special && g.chance(15)) { (g.chance(50) ? l.rot : l.wMode) = 1; }
        int n = static_cast<int>(g.small(1, 4));
        for (int k = 0; k < n; k++) {
          bool label = false;
          bool own = g.chance(5);
          l.words.push_back(genWord(g, k == 0 && (style == 3 || g.chance(12)), &label,
              own ? "B" : l.font, own ? g.pick(SIZES) : l.fs));
          if (k == 0) { l.label = label && n > 1; }
          l.text += (k ? " " : "") + l.words.back().text;
        }
        // The position: justified, indented first lines, hanging indents, items, centered.
        int64_t left = 0, right = 0;
        switch (style) {
          case 0: if (g.chance(20)) { left = indent; } break;
          case 1: left = g.chance(60) ? indent : 0; break;
          case 2: left = 2 * g.range(0, 300); right = left + 2 * g.around(-60, 60); break;
          case 3: if (!l.label) { left = g.chance(70) ? indent : 0; } break;
          case 4: left = 2 * g.around(0, 250); break;
        }
        if (g.chance(15)) { left += 2 * g.around(-30, 30); }
        if (style != 2 && g.chance(25)) { right = 2 * g.range(0, 200); }
        l.x1 = seg.x1 + left;
        l.x2 = std::max(l.x1 + 20, seg.x1 + width - right);
        int64_t h = g.chance(85) ? 100 : 2 * g.range(20, 80);
        if (i > 0) {
          switch (g.weighted({ 62, 18, 12, 4, 4 })) {
            case 3: y -= 2 * g.range(20, 70); break;
            case 4: break;  // Exactly no distance.
            case 0: y += 2 * g.range(10, 15); break;
            case 1: y += 2 * g.around(-10, 60); break;
            case 2: y += 2 * ((m.docDist + 10) / 2) + 2 * g.around(-8, 8); break;
          }
        }
        l.y1 = y;
        l.y2 = y + h;
        y += h;
        // The hierarchy of the lines.
        int idx = static_cast<int>(m.lines.size());
        while (!stack.empty() && m.lines[stack.back()].x1 - l.x1 > CWT) { stack.pop_back(); }
        if (!stack.empty() && std::abs(m.lines[stack.back()].x1 - l.x1) <= CWT) {
          l.prevSib = stack.back();
          m.lines[stack.back()].nextSib = idx;
          l.parent = m.lines[stack.back()].parent;
          stack.pop_back();
        } else if (!stack.empty()) {
          l.parent = stack.back();
        }
        stack.push_back(idx);
        l.prev = i > 0 ? idx - 1 : -1;
        seg.lines.push_back(idx);
        m.lines.push_back(l);
      }
      int64_t x2 = INT64_MIN, x1 = INT64_MAX, y1 = INT64_MAX, y2 = INT64_MIN;
      map<int64_t, int> rights;
      for (int i : seg.lines) {
        x1 = std::min(x1, m.lines[i].x1);
        x2 = std::max(x2, m.lines[i].x2);
        y1 = std::min(y1, m.lines[i].y1);
        y2 = std::max(y2, m.lines[i].y2);
        rights[m.lines[i].x2]++;
      }
      seg.x1 = x1;
      seg.x2 = x2;
      seg.y1 = y1;
      seg.y2 = y2;
      seg.trimX2 = x2;
      for (auto& c : rights) {
        if (2 * c.second >= numLines) { seg.trimX2 = c.first; }
      }
      m.segs.push_back(seg);
      if (!special && g.chance(15)) {
        int64_t fy = y1 + 2 * g.range(0, (y2 - y1) / 2);
        m.figures.push_back({ p, x1 - 2 * g.around(-100, 100), fy, x2 + 2 * g.around(-300, 100),
            fy + 2 * g.range(20, 400) });
        if (m.figures.back().x1 >= m.figures.back().x2) { m.figures.pop_back(); }
      }
      y += 2 * g.range(20, 200);
    }
  }
  return m;
}

string show(const Model& m) {
  string s = cat("doc: font ", m.docFont, ", distance ", m.docDist, ", height ", m.docHeight, "\n");
  for (auto& f : m.figures) { s += cat("figure p", f.page + 1, " [", f.x1, ",", f.y1, ",", f.x2, ",", f.y2, "]\n"); }
  for (size_t i = 0; i < m.lines.size(); i++) {
    auto& l = m.lines[i];
    s += cat(i, ": p", l.page + 1, " s", l.seg, " [", l.x1, ",", l.y1, ",", l.x2, ",", l.y2, "] ", l.font, " ", l.fs,
        "/", l.maxFs, " parent ", l.parent, " sib ", l.prevSib, " w ", l.words[0].width, " ", quoted(l.text));
    for (auto& w : l.words) {
      s += " <";
      for (auto& c : w.chars) { s += c.sup ? "^" : c.sub ? "_" : "."; }
      s += ">";
    }
    s += "\n";
  }
  return s;
}

/** Builds the document. */
void build(Model* m, Doc* d) {
  for (auto& f : FONTS) { d->addFont(f.first, f.second.first, f.second.second); }
  d->doc->mostFreqFontName = m->docFont;
  d->doc->mostFreqFontSize = tenths(m->docFs);
  d->doc->mostFreqLineDistance = tenths(m->docDist);
  d->doc->mostFreqWordHeight = tenths(m->docHeight);
  d->doc->avgCharWidth = CW;
  d->doc->avgCharHeight = 9.01;
  for (auto& x : m->distPerFs) { d->doc->mostFreqLineDistancePerFontSize[tenths(x.first)] = tenths(x.second); }
  for (int p = 0; p < m->numPages; p++) { d->addPage(); }
  for (auto& f : m->figures) {
    auto* fig = new PdfFigure();
    fig->id = cat("figure-", d->nextId++);
    fig->doc = d->doc;
    fig->pos->pageNum = f.page + 1;
    fig->pos->leftX = tenths(f.x1);
    fig->pos->upperY = tenths(f.y1);
    fig->pos->rightX = tenths(f.x2);
    fig->pos->lowerY = tenths(f.y2);
    d->doc->pages[f.page]->figures.push_back(fig);
  }
  for (auto& s : m->segs) {
    PdfPage* page = d->doc->pages[s.page];
    auto* seg = new PdfPageSegment();
    s.segment = seg;
    seg->id = cat("segment-", d->nextId++);
    seg->doc = d->doc;
    seg->pos->pageNum = page->pageNum;
    seg->pos->leftX = seg->trimLeftX = tenths(s.x1);
    seg->pos->upperY = seg->trimUpperY = tenths(s.y1);
    seg->pos->rightX = tenths(s.x2);
    seg->trimRightX = tenths(s.trimX2);
    seg->pos->lowerY = seg->trimLowerY = tenths(s.y2);
    page->segments.push_back(seg);
    for (int i : s.lines) {
      Ln& l = m->lines[i];
      auto* line = new PdfTextLine();
      l.line = line;
      line->id = cat("line-", d->nextId++);
      line->doc = d->doc;
      line->segment = seg;
      line->text = l.text;
      line->fontName = l.font;
      line->fontSize = tenths(l.fs);
      line->maxFontSize = tenths(l.maxFs);
      line->pos->pageNum = page->pageNum;
      line->pos->leftX = tenths(l.x1);
      line->pos->upperY = tenths(l.y1);
      line->pos->rightX = tenths(l.x2);
      line->pos->lowerY = tenths(l.y2);
      line->pos->rotation = l.rot;
      line->pos->wMode = l.wMode;
      int64_t x = l.x1;
      for (auto& w : l.words) {
        PdfWord* word = d->newWord(page, w.text, x, l.y1, x + w.width, l.y2, w.fs, w.font, l.rot, l.wMode);
        int64_t k = 0;
        for (auto& c : w.chars) {
          auto* ch = d->addChar(page, { 'x' }, x + k, l.y1, x + k + 1, l.y2, w.fs, w.font, l.rot, l.wMode);
          ch->text = c.text;
          ch->isSuperscript = c.sup;
          ch->isSubscript = c.sub;
          ch->word = word;
          word->characters.push_back(ch);
          k++;
        }
        word->line = line;
        line->words.push_back(word);
        page->words.push_back(word);
        x += w.width + 4;
      }
      seg->lines.push_back(line);
      page->textLines.push_back(line);
    }
  }
  for (auto& l : m->lines) {
    auto at = [&](int i) { return i < 0 ? nullptr : m->lines[i].line; };
    l.line->prevLine = at(l.prev);
    if (l.prev >= 0) { m->lines[l.prev].line->nextLine = l.line; }
    l.line->parentLine = at(l.parent);
    l.line->prevSiblingLine = at(l.prevSib);
    l.line->nextSiblingLine = at(l.nextSib);
  }
}

string groups(const Model& m, const vector<Bl>& blocks, int page) {
  string s;
  for (auto& b : blocks) {
    if (m.segs[b.seg].page != page) { continue; }
    s += "(";
    for (int i : b.lines) { s += cat(i, " "); }
    s += ")";
  }
  return s;
}

const TextBlocksDetectionConfig& blocksConfig() {
  static const TextBlocksDetectionConfig config;
  return config;
}

}  // namespace

PPV_PROP("C12", "blocks", 30000, 600000, "segments of text lines (justified, indented, with hanging "
    "indents, items with labels and footnotes, centered, of different fonts, sizes and rotations, at "
    "distances around the thresholds, some in figures, on one or two pages); the blocks, their "
    "texts, boxes, alignments, indents and margins are compared to a reference implementation of the "
    "documented rules; non-trivial: at least one segment with more than one block and one block with "
    "more than one line") {
  initPoppler();
  Model m = genModel(g);
  r.showIf([&] { return show(m); });
  Doc d;
  build(&m, &d);
  TextBlocksDetection(d.doc, &blocksConfig()).process();

  // The expected blocks.
  vector<vector<Bl>> prelim(m.segs.size()), final(m.numPages);
  for (size_t s = 0; s < m.segs.size(); s++) {
    vector<int> curr;
    for (int i : m.segs[s].lines) {
      if (startsPreliminary(m, m.lines[i]) && !curr.empty()) { create(&m, curr, &prelim[s]); curr.clear(); }
      curr.push_back(i);
    }
    create(&m, curr, &prelim[s]);
  }
  vector<vector<Bl>> prelimCopy = prelim;
  bool usedHang = false, usedCenter = false, usedItem = false;
  for (size_t s = 0; s < m.segs.size(); s++) {
    auto& out = final[m.segs[s].page];
    for (auto& b : prelim[s]) {
      vector<int> curr;
      usedHang = usedHang || b.hang > 0;
      usedCenter = usedCenter || b.centered;
      for (int i : b.lines) {
        collectFootnotes(m.lines[i], &m.footnotes);
        usedItem = usedItem || firstOfItem(m, m.lines[i], &m.footnotes);
        if (startsBlock(m, b, m.lines[i]) && !curr.empty()) { create(&m, curr, &out); curr.clear(); }
        curr.push_back(i);
      }
      create(&m, curr, &out);
    }
  }

  map<const PdfTextLine*, int> index;
  for (size_t i = 0; i < m.lines.size(); i++) { index[m.lines[i].line] = static_cast<int>(i); }
  bool several = false, longer = false;
  set<string> ids;
  for (int p = 0; p < m.numPages; p++) {
    PdfPage* page = d.doc->pages[p];
    string exp = groups(m, final[p], p), act;
    for (auto* b : page->blocks) {
      act += "(";
      for (auto* l : b->lines) {
        PPV_CHECK(index.count(l), "a block contains an unknown line");
        act += cat(index[l], " ");
      }
      act += ")";
    }
    PPV_CHECK(exp == act, "page ", p + 1, ": the blocks should be ", exp, " but are ", act);
    several = several || final[p].size() > static_cast<size_t>(
        std::count_if(m.segs.begin(), m.segs.end(), [&](const Sg& s) { return s.page == p; }));
    for (size_t k = 0; k < final[p].size(); k++) {
      const Bl& e = final[p][k];
      const PdfTextBlock* b = page->blocks[k];
      longer = longer || e.lines.size() > 1;
      string text;
      map<string, int> fonts;
      map<double, int> sizes;
      int maxFont = 0, maxSize = 0;
      for (size_t i = 0; i < e.lines.size(); i++) {
        const Ln& l = m.lines[e.lines[i]];
        text += (i ? " " : "") + l.text;
        maxFont = std::max(maxFont, ++fonts[l.font]);
        maxSize = std::max(maxSize, ++sizes[tenths(l.fs)]);
        PPV_CHECK(l.line->block == b, "line ", e.lines[i], " does not refer to its block");
        PPV_CHECK(l.line->prevLine == (i ? b->lines[i - 1] : nullptr)
            && l.line->nextLine == (i + 1 < b->lines.size() ? b->lines[i + 1] : nullptr),
            "line ", e.lines[i], " has a wrong previous or next line");
        PPV_CHECK(std::fabs(l.line->leftMargin - tenths(l.leftMargin)) < 1e-6
            && std::fabs(l.line->rightMargin - tenths(l.rightMargin)) < 1e-6, "the margins of line ",
            e.lines[i], " should be ", tenths(l.leftMargin), " and ", tenths(l.rightMargin), " but are ",
            l.line->leftMargin, " and ", l.line->rightMargin);
      }
      PPV_CHECK(b->text == text, "the text of block ", k, " is ", quoted(b->text));
      PPV_CHECK(fonts[b->fontName] == maxFont && sizes[b->fontSize] == maxSize, "the font of block ", k, " is ",
          b->fontName, " ", b->fontSize);
      PPV_CHECK(b->pos->leftX == tenths(e.x1) && b->pos->upperY == tenths(e.y1) && b->pos->rightX == tenths(e.x2)
          && b->pos->lowerY == tenths(e.y2), "the box of block ", k, " is ", boxStr(b->pos));
      PPV_CHECK(b->trimLeftX == tenths(e.tx1) && b->trimUpperY == tenths(e.ty1) && b->trimRightX == tenths(e.tx2)
          && b->trimLowerY == tenths(e.ty2), "the trim box of block ", k, " is wrong");
      PPV_CHECK(b->pos->pageNum == p + 1 && b->doc == d.doc && b->segment == m.segs[e.seg].segment,
          "block ", k, " has a wrong page, document or segment");
      PPV_CHECK(b->pos->rotation == m.lines[e.lines[0]].rot && b->pos->wMode == m.lines[e.lines[0]].wMode,
          "block ", k, " has a wrong rotation or writing mode");
      PPV_CHECK(b->isEmphasized == emphasized(m, b->fontName, toTenths(b->fontSize), b->text),
          "block ", k, ": emphasized: ", b->isEmphasized);
      PPV_CHECK(b->isLinesCentered == e.centered, "block ", k, ": centered: ", b->isLinesCentered);
      PPV_CHECK(std::fabs(b->hangingIndent - tenths(e.hang)) < 1e-6, "block ", k, ": hanging indent: ",
          b->hangingIndent, " instead of ", tenths(e.hang));
      PPV_CHECK(b->prevBlock == (k ? page->blocks[k - 1] : nullptr)
          && b->nextBlock == (k + 1 < page->blocks.size() ? page->blocks[k + 1] : nullptr),
          "block ", k, " has a wrong previous or next block");
      PPV_CHECK(b->rank == static_cast<int>(k), "the rank of block ", k, " is ", b->rank);
      PPV_CHECK(!b->id.empty() && ids.insert(b->id).second, "the id of block ", k, " is not unique");
    }
  }
  for (size_t s = 0; s < m.segs.size(); s++) {
    auto& bs = m.segs[s].segment->blocks;
    PPV_CHECK(bs.size() == prelimCopy[s].size(), "segment ", s, " has ", bs.size(),
        " preliminary blocks instead of ", prelimCopy[s].size());
    for (size_t k = 0; k < bs.size(); k++) {
      vector<int> ls;
      for (auto* l : bs[k]->lines) { ls.push_back(index[l]); }
      PPV_CHECK(ls == prelimCopy[s][k].lines, "segment ", s, ": preliminary block ", k, " has wrong lines");
    }
  }
  r.nontrivial(several && longer);
  r.label("several blocks", several);
  r.label("hanging indent", usedHang);
  r.label("centered", usedCenter);
  r.label("items or footnotes", usedItem);
  r.label("figure", !m.figures.empty());
}

PPV_PROP("C12", "footnotes", 200000, 400000, "lines of words with subscripts, superscripts and special "
    "characters; the potential labels of footnotes are compared to a model; non-trivial: there is "
    "at least one label") {
  initPoppler();
  Doc d;
  TextBlocksDetectionUtils utils(&blocksConfig());
  PdfPage* page = d.addPage();
  Ln l;
  int n = static_cast<int>(g.many(0, 4));
  for (int i = 0; i < n; i++) {
    Wd w;
    int k = static_cast<int>(g.small(0, 6));
    for (int j = 0; j < k; j++) {
      int kind = static_cast<int>(g.weighted({ 45, 45, 10 }));
      w.chars.push_back({ g.pick(vector<string>{ "a", "B", "1", "2", ",", "*", "\xe2\x88\x97", "\xe2\x80\xa0",
          "\xe2\x80\xa1", "\xc2\xa7", "\xe2\x80\x96", "\xc2\xb6", "?", "\xc3\xa4", "\xce\xb1", "" }),
          kind == 1, kind == 2 });
      w.text += w.chars.back().text;
    }
    l.words.push_back(w);
  }
  auto* line = new PdfTextLine();
  std::unique_ptr<PdfTextLine> holder(line);
  line->doc = d.doc;
  int64_t x = 0;
  for (auto& w : l.words) {
    PdfWord* word = d.newWord(page, w.text, x, 0, x + 100, 100, 100, "A");
    page->words.push_back(word);
    for (auto& c : w.chars) {
      auto* ch = d.addChar(page, { 'x' }, x, 0, x + 10, 100, 100, "A");
      ch->text = c.text;
      ch->isSuperscript = c.sup;
      ch->isSubscript = c.sub;
      word->characters.push_back(ch);
    }
    line->words.push_back(word);
  }
  r.showIf([&] {
    string s;
    for (auto& w : l.words) {
      for (auto& c : w.chars) { s += (c.sup ? "^" : c.sub ? "_" : "") + c.text; }
      s += " ";
    }
    return s;
  });
  std::unordered_set<string> act;
  utils.computePotentialFootnoteLabels(line, &act);
  set<string> exp;
  collectFootnotes(l, &exp);
  auto str = [](const set<string>& s) { string o; for (auto& x : s) { o += quoted(x) + " "; } return o; };
  set<string> actSet(act.begin(), act.end());
  PPV_CHECK(exp == actSet, "the labels should be ", str(exp), "but are ", str(actSet));
  r.nontrivial(!exp.empty());
}

PPV_REGRESS("C12", "footnote-label-first-byte") {
  initPoppler();
  Doc d;
  TextBlocksDetectionUtils utils(&blocksConfig());
  PdfPage* page = d.addPage();
  auto* line = new PdfTextLine();
  std::unique_ptr<PdfTextLine> holder(line);
  line->doc = d.doc;
  PdfWord* word = d.newWordWithChars(page, { 'a', 0x2019 }, 0, 0, 100, 100, 100, "A");
  page->words.push_back(word);
  line->words.push_back(word);
  std::unordered_set<string> act;
  utils.computePotentialFootnoteLabels(line, &act);
  PPV_CHECK(act.empty(), "a quotation mark is considered to be the label of a footnote");
}
