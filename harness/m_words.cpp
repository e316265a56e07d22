// C07: words, and stacked math symbols.
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "Types.h"
#include "WordsDetection.h"

using ppp::config::WordsDetectionConfig;
using ppp::modules::WordsDetection;
using ppp::types::PdfCharacter;
using ppp::types::PdfPage;
using ppp::types::PdfWord;
using std::set;
using std::string;
using std::vector;
using namespace ppv;

namespace {

struct Ch {
  string text;
  int64_t x1, y1, x2, y2, fs;
  string font;
  int rot = 0, wMode = 0;
  int base = -1;       // The index of the base character, if this is a merged mark.
  string withMark;
  string name;
};

struct ExpWord {
  vector<size_t> chars;
  int64_t x1 = INT64_MAX, y1 = INT64_MAX, x2 = INT64_MIN, y2 = INT64_MIN;
  string text;
  int64_t fs = 0;
};

void add(ExpWord* w, const vector<Ch>& chars, size_t i) {
  const Ch& c = chars[i];
  w->chars.push_back(i);
  w->x1 = std::min(w->x1, c.x1);
  w->y1 = std::min(w->y1, c.y1);
  w->x2 = std::max(w->x2, c.x2);
  w->y2 = std::max(w->y2, c.y2);
  w->text += c.withMark.empty() ? c.text : c.withMark;
  w->fs = std::max(w->fs, c.fs);
}

/** Does character c start a new word behind w? Only decided for upright text. */
bool startsWord(const ExpWord& w, const Ch& last, const Ch& c) {
  if (last.rot != c.rot || last.wMode != c.wMode) { return true; }
  int64_t o = std::min(w.y2, c.y2) - std::max(w.y1, c.y1);
  int64_t h = std::min(w.y2 - w.y1, c.y2 - c.y1);
  if (o <= 0 || h <= 0) { return true; }
  if (2 * o < h) { return true; }
  int64_t gap = c.x1 < w.x1 ? w.x1 - c.x2 : c.x1 > w.x1 ? c.x1 - w.x2 : 0;
  return 20 * gap > 3 * w.fs;
}

string show(const vector<vector<Ch>>& pages) {
  string s;
  for (auto& p : pages) {
    s += "page: ";
    for (auto& c : p) {
      s += cat(quoted(c.text), c.name.empty() ? "" : "/" + c.name, "[", c.x1 / 10.0, ",", c.y1 / 10.0,
          " - ", c.x2 / 10.0, ",", c.y2 / 10.0, "] ", c.font, " ", c.fs / 10.0);
      if (c.rot || c.wMode) { s += cat(" rot ", c.rot, " wmode ", c.wMode); }
      if (c.base >= 0) { s += cat(" mark of ", c.base); }
      s += "; ";
    }
  }
  return s;
}

const vector<string> TEXTS = { "a", "b", "x", "ffi", "\xc3\xa4", "\xe2\x88\x91", "1", "-", "", "\xf0\x9d\x91\xa5" };

/** Characters on lines, with all kinds of gaps and vertical offsets. */
vector<Ch> genChars(Gen& g, int maxNum) {
  vector<Ch> chars;
  int n = static_cast<int>(g.many(0, maxNum));
  int64_t x = g.chance(20) ? g.around(-1500, 1500) : 500;
  int64_t y = g.chance(20) ? g.around(-1500, 1500) : 500;
  int64_t fs = 100, h = 100;
  int rot = 0, wMode = 0;
  for (int i = 0; i < n; i++) {
    Ch c;
    c.text = TEXTS[g.below(TEXTS.size())];
    if (g.chance(8)) { fs = g.range(40, 200); h = fs; }
    if (g.chance(4)) { rot = static_cast<int>(g.below(4)); }
    if (g.chance(3)) { wMode = 1 - wMode; }
    c.fs = fs;
    c.rot = rot;
    c.wMode = wMode;
    c.font = g.chance(15) ? "B" : "A";
    int64_t w = g.chance(3) ? 0 : g.range(20, 90);
    // The gap to the previous character: none, around the threshold, or large.
    switch (g.weighted({ 50, 20, 10, 5, 3 })) {
      case 0: x += g.around(-3, 8); break;
      case 1: x += 3 * fs / 20 + g.around(-3, 3); break;
      case 2: x += g.range(10, 100); break;
      case 3: x = g.around(-1000, 1000) + 500; break;
      case 4: x = x - g.range(0, 200); break;
    }
    int64_t dy = 0;
    switch (g.weighted({ 70, 12, 6 })) {
      case 1: dy = g.around(-h, h); break;
      case 2: y += g.range(50, 150); x = 500; break;
    }
    int64_t hh = g.chance(10) ? g.range(0, 150) : h;
    c.x1 = x;
    c.x2 = x + w;
    c.y1 = y + dy;
    c.y2 = y + dy + hh;
    x += w;
    chars.push_back(c);
    // Marks that were merged with this character.
    if (g.chance(6)) {
      Ch m = c;
      m.text = "\xc2\xb4";
      m.base = static_cast<int>(chars.size()) - 1;
      chars.back().withMark = c.text + "\xcc\x81";
      m.x1 += g.around(-100, 300);
      chars.push_back(m);
    }
  }
  return chars;
}

void build(Doc* d, const vector<vector<Ch>>& pages) {
  for (auto& p : pages) {
    PdfPage* page = d->addPage();
    for (auto& c : p) {
      PdfCharacter* ch = d->addChar(page, { 'x' }, c.x1, c.y1, c.x2, c.y2, c.fs, c.font, c.rot,
          c.wMode);
      ch->text = c.text;
      ch->name = c.name;
    }
    for (size_t i = 0; i < p.size(); i++) {
      if (p[i].base >= 0) {
        PdfCharacter* base = page->characters[p[i].base];
        page->characters[i]->isDiacriticMarkOfBaseChar = base;
        base->isBaseCharOfDiacriticMark = page->characters[i];
        base->textWithDiacriticMark = p[p[i].base].withMark;
      }
    }
  }
}

}  // namespace

PPV_PROP("C07", "words", 300000, 2000000, "pages of characters in any order (gaps around the threshold, "
    "jumps, line breaks, vertical offsets, changing fonts, sizes, rotations and writing modes, "
    "merged marks, negative coordinates); the words are compared to a model, with text, box, font, "
    "font size, order and back references; for rotated text only the invariants are checked; "
    "non-trivial: a page with at least two words, one of them with at least two characters") {
  static const WordsDetectionConfig config;
  initPoppler();
  vector<vector<Ch>> pages;
  int numPages = static_cast<int>(g.many(1, 3));
  for (int p = 0; p < numPages; p++) { pages.push_back(genChars(g, 16)); }
  r.showIf([&] { return show(pages); });
  Doc d;
  build(&d, pages);
  WordsDetection(d.doc, &config).process();

  set<string> ids;
  for (size_t p = 0; p < pages.size(); p++) {
    const vector<Ch>& chars = pages[p];
    PdfPage* page = d.doc->pages[p];
    PPV_CHECK(page->characters.size() == chars.size(), "characters were added or removed");
    std::map<const PdfCharacter*, size_t> index;
    for (size_t i = 0; i < chars.size(); i++) { index[page->characters[i]] = i; }
    // The words of the model. Where the text is rotated, the boundaries are taken from the words.
    set<size_t> starts;
    for (auto* w : page->words) {
      PPV_CHECK(!w->characters.empty() && index.count(w->characters[0]), "a word without characters");
      starts.insert(index[w->characters[0]]);
    }
    vector<ExpWord> exp;
    size_t last = 0;
    for (size_t i = 0; i < chars.size(); i++) {
      if (chars[i].base >= 0) { continue; }
      bool start = exp.empty();
      if (!start) {
        bool free = chars[i].rot == chars[last].rot && chars[i].wMode == chars[last].wMode
            && chars[i].rot != 0;
        start = free ? starts.count(i) > 0 : startsWord(exp.back(), chars[last], chars[i]);
      }
      if (start) { exp.push_back(ExpWord()); }
      add(&exp.back(), chars, i);
      last = i;
    }
    auto str = [&] {
      string s;
      for (auto& w : exp) { s += quoted(w.text) + " "; }
      s += "; got ";
      for (auto* w : page->words) { s += quoted(w->text) + " "; }
      return s;
    };
    PPV_CHECK(page->words.size() == exp.size(), "page ", p + 1, ": expected words ", str());
    for (size_t k = 0; k < exp.size(); k++) {
      const PdfWord* w = page->words[k];
      const ExpWord& e = exp[k];
      string what = cat("word ", k, " of page ", p + 1, " (", quoted(e.text), "): ");
      PPV_CHECK(w->characters.size() == e.chars.size(), what, "wrong characters: expected ", str());
      std::map<string, int> fonts;
      std::map<int64_t, int> sizes;
      int maxFont = 0, maxSize = 0;
      for (size_t i = 0; i < e.chars.size(); i++) {
        const PdfCharacter* ch = page->characters[e.chars[i]];
        PPV_CHECK(w->characters[i] == ch, what, "wrong characters");
        PPV_CHECK(ch->word == w, what, "a character does not refer to the word");
        maxFont = std::max(maxFont, ++fonts[ch->fontName]);
        maxSize = std::max(maxSize, ++sizes[chars[e.chars[i]].fs]);
      }
      const Ch& first = chars[e.chars[0]];
      PPV_CHECK(w->text == e.text, what, "text is ", quoted(w->text));
      PPV_CHECK(w->pos->leftX == e.x1 / 10.0 && w->pos->upperY == e.y1 / 10.0
          && w->pos->rightX == e.x2 / 10.0 && w->pos->lowerY == e.y2 / 10.0, what, "box is ",
          boxStr(w->pos));
      PPV_CHECK(w->pos->pageNum == static_cast<int>(p) + 1 && w->pos->rotation == first.rot
          && w->pos->wMode == first.wMode, what, "wrong page, rotation, or writing mode");
      PPV_CHECK(fonts[w->fontName] == maxFont, what, "font is ", w->fontName);
      PPV_CHECK(sizes[toTenths(w->fontSize)] == maxSize, what, "font size is ", w->fontSize);
      PPV_CHECK(w->rank == static_cast<int>(k), what, "rank is ", w->rank);
      PPV_CHECK(w->doc == d.doc, what, "no reference to the document");
      PPV_CHECK(ids.insert(w->id).second && !w->id.empty(), what, "id is not unique");
      r.nontrivial(exp.size() > 1 && e.chars.size() > 1);
      r.label("merged mark", [&] { for (auto i : e.chars) { if (!chars[i].withMark.empty()) { return true; } } return false; }());
      r.label("negative coordinates", e.x2 < 0 || e.y2 < 0);
    }
    r.label("rotated", [&] { for (auto& c : chars) { if (c.rot) { return true; } } return false; }());
  }
}

PPV_PROP("C07", "stacked-symbols", 300000, 2000000, "sequences of words of different sizes around "
    "operators (by text, by glyph name, by word), with any horizontal overlap, also several "
    "operators on top of each other; the relation between operators and their limits is compared "
    "to a model, and each word belongs to at most one operator; non-trivial: at least one limit is "
    "attached") {
  static const WordsDetectionConfig config;
  initPoppler();
  vector<Ch> chars;
  int n = static_cast<int>(g.many(1, 9));
  int64_t x = g.chance(10) ? -300 : 300, y = 0;
  vector<size_t> startOf;
  vector<bool> isOp;
  vector<int64_t> sizes, x1s, x2s;
  for (int i = 0; i < n; i++) {
    // Each word is on a row of its own, so the words are separated.
    y += 300;
    vector<string> texts = { "i", "=", "0" };
    string name;
    bool op = false;
    size_t named = 0;
    switch (g.weighted({ 50, 25, 8, 8, 5, 4, 4 })) {
      case 6: texts = { "(", "?", ")" }; op = true; name = "integraldisplay"; named = 1; break;
      case 1: texts = { g.pick(vector<string>{ "\xe2\x88\x91", "\xe2\x88\x8f", "\xe2\x88\xab", "\xe2\x8a\x97" }) }; op = true; break;
      case 2: texts = { "?" }; op = true; name = g.pick(vector<string>{ "summationdisplay",
          "productdisplay", "integraldisplay", "circlemultiplydisplay" }); break;
      case 3: { string w = g.pick(vector<string>{ "sup", "lim" }); op = true; texts.clear();
          for (char c : w) { texts.push_back(string(1, c)); } break; }
      case 4: texts = { "l", "i", "m", "e" }; break;
      case 5: texts = { "(", "\xe2\x88\x91" }; op = true; break;
    }
    int64_t fs = g.pick(vector<int64_t>{ 100, 60, 80, 90, 91, 89, 120, 50 });
    int64_t w = g.range(1, 8) * 12;
    int64_t xx = x + g.around(-60, 60);
    startOf.push_back(chars.size());
    for (size_t k = 0; k < texts.size(); k++) {
      Ch c;
      c.text = texts[k];
      c.name = k == named ? name : "";
      c.x1 = xx + w * static_cast<int64_t>(k) / static_cast<int64_t>(texts.size());
      c.x2 = xx + w * static_cast<int64_t>(k + 1) / static_cast<int64_t>(texts.size());
      c.y1 = y;
      c.y2 = y + 100;
      c.fs = fs;
      c.font = "A";
      chars.push_back(c);
    }
    isOp.push_back(op);
    sizes.push_back(fs);
    x1s.push_back(xx);
    x2s.push_back(xx + w);
  }
  r.showIf([&] { return show({ chars }); });
  Doc d;
  build(&d, { chars });
  WordsDetection(d.doc, &config).process();
  auto& words = d.doc->pages[0]->words;
  PPV_CHECK(words.size() == startOf.size(), "wrong number of words: ", words.size());

  vector<int> part(n, -1);
  vector<vector<int>> parts(n);
  for (int i = 0; i < n; i++) {
    if (!isOp[i] || part[i] >= 0) { continue; }
    auto attach = [&](int j) {
      int64_t o = std::min(x2s[i], x2s[j]) - std::max(x1s[i], x1s[j]);
      int64_t w = std::min(x2s[i] - x1s[i], x2s[j] - x1s[j]);
      if (o <= 0 || 2 * o < w || sizes[j] >= sizes[i] - 10) { return false; }
      if (part[j] >= 0 || !parts[j].empty()) { return false; }
      part[j] = i;
      parts[i].push_back(j);
      return true;
    };
    for (int j = i - 1; j >= 0 && attach(j); j--) {}
    for (int j = i + 1; j < n && attach(j); j++) {}
  }
  for (int i = 0; i < n; i++) {
    PPV_CHECK(words[i]->isPartOfStackedMathSymbol == (part[i] < 0 ? nullptr : words[part[i]]),
        "word ", i, " belongs to the wrong word: ", words[i]->isPartOfStackedMathSymbol ?
        words[i]->isPartOfStackedMathSymbol->rank : -1, " instead of ", part[i]);
    vector<const PdfWord*> expected, actual;
    for (int j : parts[i]) { expected.push_back(words[j]); }
    for (auto* w : words[i]->isBaseOfStackedMathSymbol) { actual.push_back(w); }
    std::sort(expected.begin(), expected.end());
    std::sort(actual.begin(), actual.end());
    PPV_CHECK(expected == actual, "word ", i, " has the wrong parts (", actual.size(),
        " instead of ", expected.size(), ")");
    r.nontrivial(!actual.empty());
    r.label("several parts", actual.size() > 1);
  }
}
