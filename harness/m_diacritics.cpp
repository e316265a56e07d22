// C10: diacritical marks are merged with the right base characters, and no text gets lost.
#include <utf8proc.h>

#include <algorithm>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "DiacriticalMarksMerging.h"
#include "Types.h"

using ppp::config::DiacriticalMarksMergingConfig;
using ppp::modules::DiacriticalMarksMerging;
using ppp::types::PdfCharacter;
using ppp::types::PdfPage;
using std::string;
using std::vector;
using namespace ppv;

namespace {

// Spacing characters that represent marks, and the corresponding combining marks. (The documented
// map of the configuration, as a list of its own.)
const std::map<unsigned, unsigned> SPACING = {
  { 0x0022, 0x030B }, { 0x0027, 0x0301 }, { 0x005E, 0x0302 }, { 0x005F, 0x0332 },
  { 0x0060, 0x0300 }, { 0x007E, 0x0303 }, { 0x00A8, 0x0308 }, { 0x00AF, 0x0304 },
  { 0x00B0, 0x030A }, { 0x00B4, 0x0301 }, { 0x00B8, 0x0327 }, { 0x02B2, 0x0321 },
  { 0x02B7, 0x032B }, { 0x02B9, 0x0301 }, { 0x02CC, 0x0329 }, { 0x02BA, 0x030B },
  { 0x02BB, 0x0312 }, { 0x02BC, 0x0313 }, { 0x02BD, 0x0314 }, { 0x02C6, 0x0302 },
  { 0x02C7, 0x030C }, { 0x02C8, 0x030D }, { 0x02C9, 0x0304 }, { 0x02CA, 0x0301 },
  { 0x02CB, 0x0300 }, { 0x02CD, 0x0331 }, { 0x02D4, 0x031D }, { 0x02D5, 0x031E },
  { 0x02D6, 0x031F }, { 0x02D7, 0x0320 }, { 0x02DA, 0x030A }, { 0x02DC, 0x0303 },
  { 0x02DD, 0x030B }, { 0x0384, 0x0301 }, { 0x0485, 0x0314 }, { 0x0486, 0x0313 },
  { 0x0559, 0x0314 }, { 0x055A, 0x0313 }, { 0x204E, 0x0359 } };

/** The combining mark of a character, or 0 if the character is no mark. */
unsigned markOf(const vector<unsigned>& us) {
  if (us.size() != 1) { return 0; }
  auto it = SPACING.find(us[0]);
  unsigned u = it != SPACING.end() ? it->second : us[0];
  return (u >= 0x2b0 && u <= 0x2ff) || (u >= 0x300 && u <= 0x36f) ? u : 0;
}

string nfc(const string& s) {
  uint8_t* out = utf8proc_NFC(reinterpret_cast<const uint8_t*>(s.c_str()));
  if (!out) { return "(not composable)"; }
  string res = reinterpret_cast<char*>(out);
  free(out);
  return res;
}

struct Box { int64_t x1, y1, x2, y2; };

struct Expected {
  vector<unsigned> us;
  Box box;
  int base = -1;
  string merged;  // The text with marks; empty if there are none.
  bool ambiguous = false;
};

/** The larger of the two ratios of the horizontal overlap to the widths. */
double overlap(const Box& a, const Box& b) {
  int64_t o = std::min(a.x2, b.x2) - std::max(a.x1, b.x1);
  int64_t w = std::min(a.x2 - a.x1, b.x2 - b.x1);
  if (o <= 0) { return 0; }
  if (w <= 0) { w = std::max(a.x2 - a.x1, b.x2 - b.x1); }
  return static_cast<double>(o) / static_cast<double>(w);
}

}  // namespace

PPV_PROP("C10", "merging", 600000, 5000000, "pages of characters (letters, ligatures, every kind of "
    "mark: spacing, combining and ASCII; marks before, after or between letters, with any overlap "
    "or none, several marks per letter, marks at the borders of the page), merged and compared to a "
    "model: base, composed text, bounding boxes, and everything else unchanged; non-trivial: at "
    "least one mark is merged") {
  initPoppler();
  static const vector<unsigned> LETTERS = { 'a', 'e', 'o', 'i', 'n', 'c', 's', 'A', 'U', 'x', 'q',
      0xe4, 0xe9, 0x131, 0x3b1, 0x2211, 0x1d465, '.', '1' };
  static const vector<unsigned> EXTRA = { 0x300, 0x301, 0x302, 0x303, 0x308, 0x30a, 0x30c, 0x323,
      0x327, 0x328, 0x36f, 0x2b0, 0x2d8, 0x2d9, 0x2db, 0x2ff };
  // Almost marks.
  static const vector<unsigned> NEAR = { 0x2af, 0x370, 0x2a, 0x2c, 0x26, 0x2019, 0xb7, 0x2032 };
  Doc d;
  static const DiacriticalMarksMergingConfig config;
  vector<vector<Expected>> pages;
  int numPages = static_cast<int>(g.many(1, 3));
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    vector<Expected> exp;
    int n = static_cast<int>(g.many(p == 0 ? 1 : 0, 14));
    int64_t x = g.chance(15) ? g.around(-200, 200) : 100;
    int64_t y = g.chance(15) ? g.around(-200, 200) : 100;
    for (int i = 0; i < n; i++) {
      vector<unsigned> us;
      Box b;
      bool mark = g.chance(45);
      if (mark) {
        if (g.chance(60)) {
          auto it = SPACING.begin();
          std::advance(it, g.below(SPACING.size()));
          us = { it->first };
        } else if (g.chance(80)) {
          us = { g.pick(EXTRA) };
        } else {
          us = { g.pick(NEAR) };
        }
        // Somewhere relative to the current position: over the previous letter (left of x), over
        // the next one (right of x), between them, or apart from both.
        int64_t w = g.chance(5) ? 0 : g.range(5, 40);
        int64_t off = g.range(-60, 40);
        b = { x + off, y - g.small(0, 20), x + off + w, y + 10 };
        if (g.chance(15)) { b.y2 = y + 110; }
      } else {
        us = { g.pick(LETTERS) };
        if (g.chance(8)) { us = { 'f', 'i' }; }
        if (g.chance(2)) { us = { 'a', 0x301 }; }
        // Characters that are ignorable for the display, and compatibility characters, belong to the text, too.
        if (g.chance(4)) { us = g.pick(vector<vector<unsigned>>{ { 0x2126 }, { 0xfb01 }, { 'a', 0xad }, { 0x200d, 'e' }, { 0xb5 } }); }
        int64_t w = g.range(20, 60);
        x += g.chance(10) ? g.range(10, 60) : g.around(-3, 5);
        b = { x, y, x + w, y + 90 };
        x += w;
        if (g.chance(8)) { y += 120; x = 100; }
      }
      PdfCharacter* ch = d.addChar(page, us, b.x1, b.y1, b.x2, b.y2, 100, "F");
      if (!mark && us.size() == 1 && g.chance(4)) {
        // The text may be derived from the name of the glyph.
        ch->text = "ff";
      }
      exp.push_back({ us, b, -1, "" });
    }
    pages.push_back(exp);
  }
  r.showIf([&] {
    string s;
    for (auto& p : pages) {
      s += "page: ";
      for (auto& e : p) {
        s += cat(quoted(utf8(e.us)), "[", e.box.x1 / 10.0, ",", e.box.y1 / 10.0, " - ",
            e.box.x2 / 10.0, ",", e.box.y2 / 10.0, "] ");
      }
    }
    return s;
  });

  // The model. The boxes grow as marks are merged.
  for (size_t p = 0; p < pages.size(); p++) {
    auto& exp = pages[p];
    for (size_t i = 0; i < exp.size(); i++) {
      unsigned mark = markOf(exp[i].us);
      if (!mark) { continue; }
      int prev = static_cast<int>(i) - 1;
      while (prev >= 0 && markOf(exp[prev].us)) { prev--; }
      size_t next = i + 1;
      while (next < exp.size() && markOf(exp[next].us)) { next++; }
      double op = prev >= 0 ? overlap(exp[prev].box, exp[i].box) : 0;
      double on = next < exp.size() ? overlap(exp[next].box, exp[i].box) : 0;
      // A zero-width box overlaps nothing.
      if (op == 0 && on == 0) { continue; }
      int base = op > on + 1e-4 ? prev : static_cast<int>(next);
      if (op != on && std::abs(op - on) < 3e-4) { discard(); }
      exp[i].base = base;
      Expected& b = exp[base];
      const string& text = d.doc->pages[p]->characters[base]->text;
      b.merged = nfc((b.merged.empty() ? text : b.merged) + utf8(mark));
      b.box = { std::min(b.box.x1, exp[i].box.x1), std::min(b.box.y1, exp[i].box.y1),
          std::max(b.box.x2, exp[i].box.x2), std::max(b.box.y2, exp[i].box.y2) };
      r.nontrivial();
      r.label("base is the previous character", base == prev);
      r.label("base is the next character", base != prev);
    }
    for (size_t i = 0; i < exp.size(); i++) {
      int marks = 0;
      for (auto& e : exp) { marks += e.base == static_cast<int>(i); }
      r.label("several marks on one base", marks > 1);
      r.label("a mark without overlap", markOf(exp[i].us) && exp[i].base < 0);
    }
  }

  vector<vector<string>> texts;
  for (auto* page : d.doc->pages) {
    texts.push_back({});
    for (auto* ch : page->characters) { texts.back().push_back(ch->text); }
  }
  DiacriticalMarksMerging(d.doc, &config).process();

  PPV_CHECK(d.doc->pages.size() == pages.size());
  for (size_t p = 0; p < pages.size(); p++) {
    auto& chars = d.doc->pages[p]->characters;
    PPV_CHECK(chars.size() == pages[p].size(), "characters were added or removed");
    for (size_t i = 0; i < chars.size(); i++) {
      const Expected& e = pages[p][i];
      const PdfCharacter* ch = chars[i];
      string what = cat("character ", i, " (", quoted(utf8(e.us)), ") of page ", p + 1);
      PPV_CHECK(ch->unicodes == e.us && ch->text == texts[p][i], what, " changed");
      const PdfCharacter* base = e.base >= 0 ? chars[e.base] : nullptr;
      PPV_CHECK(ch->isDiacriticMarkOfBaseChar == base, what, ": wrong base, expected ",
          base ? quoted(base->text) : "none", ", got ", ch->isDiacriticMarkOfBaseChar ?
          quoted(ch->isDiacriticMarkOfBaseChar->text) : "none");
      if (e.merged.empty()) {
        PPV_CHECK(!ch->isBaseCharOfDiacriticMark, what, " has a mark");
      } else {
        PPV_CHECK(ch->isBaseCharOfDiacriticMark
            && ch->isBaseCharOfDiacriticMark->isDiacriticMarkOfBaseChar == ch, what,
            ": base and mark do not refer to each other");
        PPV_CHECK(ch->textWithDiacriticMark == e.merged, what, ": text with marks is ",
            quoted(ch->textWithDiacriticMark), " instead of ", quoted(e.merged));
      }
      PPV_CHECK(ch->pos->leftX == e.box.x1 / 10.0 && ch->pos->upperY == e.box.y1 / 10.0
          && ch->pos->rightX == e.box.x2 / 10.0 && ch->pos->lowerY == e.box.y2 / 10.0, what,
          ": box is ", boxStr(ch->pos));
    }
  }
}

PPV_REGRESS("C10", "invalid-unicode") {
  initPoppler();
  Doc d;
  static const DiacriticalMarksMergingConfig config;
  PdfPage* page = d.addPage();
  d.addChar(page, { 0xd800 }, 0, 0, 50, 50, 100, "F");
  PdfCharacter* mark = d.addChar(page, { 0xb4 }, 10, 0, 40, 50, 100, "F");
  DiacriticalMarksMerging(d.doc, &config).process();
  PPV_CHECK(!mark->isDiacriticMarkOfBaseChar, "the mark was merged with an invalid character");
}
