// C02, C03: the elements of whole documents and their relations.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "./article.h"
#include "./docgen.h"
#include "./e2e.h"
#include "./pagegen.h"
#include "./parseonly.h"
#include "./pbt.h"
#include "./pdfgen.h"

using std::set;
using std::string;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::types::PdfCharacter;
using ppp::types::PdfDocument;
using ppp::types::PdfElement;
using ppp::types::PdfFigure;
using ppp::types::PdfPage;
using ppp::types::PdfPosition;
using ppp::types::PdfTextBlock;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;

namespace {

/** Generates a document and processes it. */
void generate(Gen& g, Rec& r, PdfDocument* doc) {
  initPoppler();
  PdfGen pdf;
  string shown;
  if (g.chance(25)) {
    g_rank = 0;
    Article a;
    makeArticle(g, &pdf, &a, &r);
    writeArticle(g, a, makeStyle(g), &pdf);
    articleRoles(a.hasTitle);
    r.label("article");
  } else {
    anyDocument(g, &pdf, &r);
  }
  // Modules without influence on the hierarchy are skipped sometimes.
  ppp::config::Config config = fullConfig();
  string skipped;
  if (g.chance(40)) {
    auto skip = [&](bool* disabled, const char* name) { if ((*disabled = g.chance(30))) { skipped += cat(" ", name); } };
    skip(&config.glyphsStatisticsCalculation.disabled, "glyph statistics");
    skip(&config.diacriticalMarksMerging.disabled, "marks");
    skip(&config.wordsStatisticsCalculation.disabled, "word statistics");
    skip(&config.subSuperScriptsDetection.disabled, "scripts");
    skip(&config.textLinesStatisticsCalculation.disabled, "line statistics");
    skip(&config.semanticRolesPrediction.disabled, "roles");
    skip(&config.readingOrderDetection.disabled, "reading order");
    skip(&config.wordsDehyphenation.disabled, "dehyphenation");
    r.label("modules skipped");
  }
  r.showIf([&] { return cat(showPdf(pdf), "\nskipped:", skipped); });
  int status = process(doc, pdf.build(), config);
  PPV_CHECK(status == 0, "process() returned ", status);
  PPV_CHECK(doc->pages.size() == pdf.pages.size(), doc->pages.size(), " pages instead of ", pdf.pages.size());
}

}  // namespace

PPV_PROP("C02", "hierarchy", 4000, 150000,
    "PDF files of 1-3 pages: articles, or any text, paths, images and clip paths; some steps without influence on "
    "the hierarchy may be skipped. After all steps, the characters, words, lines, blocks and segments of each page "
    "must form a hierarchy: each part is in exactly one whole, is linked with it, and is on the same page; the texts are the concatenations of those of the parts; the lines of "
    "the page are those of the blocks in reading order; the neighbours are linked with each other; ids are unique. "
    "Non-trivial: at least two blocks and 10 words.") {
  PdfDocument doc;
  generate(g, r, &doc);
  size_t numWords = 0, numBlocks = 0;
  set<string> ids;
  set<const PdfElement*> seen;
  auto element = [&](const PdfElement* e, const string& what, size_t page, bool hasDoc = true) {
    PPV_CHECK(e != nullptr, what, " is null");
    PPV_CHECK(seen.insert(e).second, what, " occurs twice");
    PPV_CHECK(!e->id.empty() && ids.insert(e->id).second, what, ": id ", quoted(e->id), " is empty or not unique");
    PPV_CHECK(e->pos->pageNum == static_cast<int>(page), what, ": page ", e->pos->pageNum, " instead of ", page);
    PPV_CHECK(!hasDoc || e->doc == &doc, what, ": not linked with the document");
  };
  for (size_t p = 0; p < doc.pages.size(); p++) {
    const PdfPage* page = doc.pages[p];
    size_t num = p + 1;
    string at = cat(" of page ", num);
    PPV_CHECK(page->pageNum == static_cast<int>(num), "number", at, ": ", page->pageNum);
    set<const PdfCharacter*> chars;
    for (auto* c : page->characters) { element(c, cat("character ", quoted(c->text), at), num); chars.insert(c); }
    for (auto* f : page->figures) {
      element(f, "figure" + at, num);
      PPV_CHECK(!f->characters.empty() || !f->shapes.empty() || !f->graphics.empty(), "figure", at, " without members");
      for (auto* c : f->characters) { element(c, cat("character ", quoted(c->text), " of a figure", at), num); }
      for (auto* s : f->shapes) { element(s, cat("shape of a figure", at), num); }
      for (auto* s : f->graphics) { element(s, cat("graphic of a figure", at), num); }
    }
    for (auto* s : page->shapes) { element(s, "shape" + at, num); }
    for (auto* s : page->graphics) { element(s, "graphic" + at, num); }

    // Characters and words.
    set<const PdfCharacter*> inWords;
    set<const PdfWord*> words;
    int rank = -1, lastChar = -1;
    for (auto* w : page->words) {
      string what = cat("word ", quoted(w->text), at);
      element(w, what, num);
      words.insert(w);
      numWords++;
      PPV_CHECK(!w->characters.empty(), what, " has no characters");
      string text;
      for (auto* c : w->characters) {
        PPV_CHECK(chars.count(c), what, " has a character that is not of the page");
        PPV_CHECK(inWords.insert(c).second, what, " has a character twice, or one of another word");
        PPV_CHECK(c->word == w, what, ": character ", quoted(c->text), " is not linked with it");
        PPV_CHECK(!c->isDiacriticMarkOfBaseChar, what, " contains a mark that was merged with its base");
        PPV_CHECK(c->pos->rotation == w->pos->rotation && c->pos->wMode == w->pos->wMode, what, ": direction of ",
            quoted(c->text));
        PPV_CHECK(c->rank > lastChar, what, ": order of its characters");
        PPV_CHECK(!(c->isSubscript && c->isSuperscript), what, ": ", quoted(c->text), " is a sub- and superscript");
        lastChar = c->rank;
        text += c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->text;
      }
      PPV_CHECK(w->text == text, what, " instead of ", quoted(text));
      PPV_CHECK(w->rank == rank + 1, what, ": rank ", w->rank, " instead of ", rank + 1);
      rank++;
    }
    for (auto* c : page->characters) {
      if (c->isDiacriticMarkOfBaseChar) {
        PPV_CHECK(!inWords.count(c), "merged mark ", quoted(c->text), at, " is in a word");
        PPV_CHECK(inWords.count(c->isDiacriticMarkOfBaseChar), "base of mark ", quoted(c->text), at, " is in no word");
        r.label("mark");
      } else {
        PPV_CHECK(inWords.count(c), "character ", quoted(c->text), at, " is in no word");
      }
    }

    // Segments.
    std::map<const PdfElement*, const void*> segmentOf;
    set<const void*> segments;
    for (auto* s : page->segments) {
      element(s, "segment" + at, num);
      segments.insert(s);
      for (auto* e : s->elements) {
        PPV_CHECK(seen.count(e), "segment", at, " contains an element that is not of a page");
        PPV_CHECK(segmentOf.emplace(e, s).second, "element", at, " is in two segments");
      }
      for (auto* l : s->lines) {
        PPV_CHECK(l->segment == s, "line ", quoted(l->text), at, " is not linked with its segment");
        for (const PdfWord* w : l->words) {
          // The parts of a stacked symbol (e.g., a sum with its limits) stay together.
          if (w->isPartOfStackedMathSymbol) { w = w->isPartOfStackedMathSymbol; r.label("stacked symbol"); }
          PPV_CHECK(segmentOf.count(w) && segmentOf[w] == s, "line ", quoted(l->text), at, " has a word of another segment");
        }
      }
    }
    for (auto* w : page->words) { PPV_CHECK(segmentOf.count(w), "word ", quoted(w->text), at, " is in no segment"); }

    // Words, lines, and blocks.
    set<const PdfWord*> inLines;
    vector<const PdfTextLine*> lines;
    for (auto* b : page->blocks) {
      string what = cat("block ", quoted(b->text.substr(0, 60)), at);
      element(b, what, num);
      numBlocks++;
      PPV_CHECK(!b->lines.empty(), what, " has no lines");
      PPV_CHECK(b->segment && segments.count(b->segment), what, ": segment");
      string text;
      for (size_t i = 0; i < b->lines.size(); i++) {
        auto* l = b->lines[i];
        string lwhat = cat("line ", quoted(l->text), at);
        element(l, lwhat, num);
        lines.push_back(l);
        PPV_CHECK(l->block == b, lwhat, " is not linked with its block");
        PPV_CHECK(l->segment == b->segment, lwhat, " and its block are in different segments");
        PPV_CHECK(l->prevLine == (i > 0 ? b->lines[i - 1] : nullptr), lwhat, ": previous line");
        PPV_CHECK(l->nextLine == (i + 1 < b->lines.size() ? b->lines[i + 1] : nullptr), lwhat, ": next line");
        PPV_CHECK(!l->words.empty(), lwhat, " has no words");
        string ltext;
        for (auto* w : l->words) {
          PPV_CHECK(words.count(w), lwhat, " has a word that is not of the page");
          PPV_CHECK(inLines.insert(w).second, lwhat, " has a word twice, or one of another line");
          PPV_CHECK(w->line == l, lwhat, ": word ", quoted(w->text), " is not linked with it");
          ltext += (ltext.empty() ? "" : " ") + w->text;
        }
        PPV_CHECK(l->text == ltext, lwhat, " instead of ", quoted(ltext));
        text += (text.empty() ? "" : " ") + l->text;
      }
      PPV_CHECK(b->text == text, what, ": text ", quoted(b->text), " instead of ", quoted(text));
    }
    PPV_CHECK(inLines.size() == page->words.size(), page->words.size() - inLines.size(), " words", at, " are in no line");
    PPV_CHECK(lines == vector<const PdfTextLine*>(page->textLines.begin(), page->textLines.end()), "lines", at,
        " are not those of its blocks in reading order");
    set<const PdfTextLine*> lineSet(lines.begin(), lines.end());
    for (auto* l : lines) {
      string lwhat = cat("line ", quoted(l->text), at);
      for (auto* o : { l->prevSiblingLine, l->nextSiblingLine, l->parentLine }) {
        PPV_CHECK(!o || (o != l && lineSet.count(o)), lwhat, ": relative is not another line of the page");
      }
      PPV_CHECK(!l->nextSiblingLine || l->nextSiblingLine->prevSiblingLine == l, lwhat, ": next sibling");
      PPV_CHECK(!l->prevSiblingLine || l->prevSiblingLine->nextSiblingLine == l, lwhat, ": previous sibling");
      int steps = 0;
      for (auto* o = l->parentLine; o; o = o->parentLine) { PPV_CHECK(++steps < 10000, lwhat, ": cycle of parents"); }
    }
    for (auto* b : page->blocks) {
      string what = cat("block ", quoted(b->text.substr(0, 60)), at);
      PPV_CHECK(!b->nextBlock || b->nextBlock->prevBlock == b, what, ": next block");
      PPV_CHECK(!b->prevBlock || b->prevBlock->nextBlock == b, what, ": previous block");
    }
  }
  r.nontrivial(numBlocks >= 2 && numWords >= 10);
}

namespace {

struct Hull {
  double x1 = DBL_MAX, y1 = DBL_MAX, x2 = -DBL_MAX, y2 = -DBL_MAX;
  bool flipped = false;
  void add(const PdfPosition* p) {
    // Known finding (see "upside-down" in m_parse.cpp): the left and right of upside-down characters are swapped.
    flipped = flipped || p->leftX > p->rightX || p->upperY > p->lowerY;
    x1 = std::min({ x1, p->leftX, p->rightX });
    y1 = std::min({ y1, p->upperY, p->lowerY });
    x2 = std::max({ x2, p->rightX, p->leftX });
    y2 = std::max({ y2, p->lowerY, p->upperY });
  }
  void check(const PdfPosition* p, const string& what) const {
    PPV_CHECK(near(p->leftX, x1, 1e-6) && near(p->upperY, y1, 1e-6) && near(p->rightX, x2, 1e-6)
        && near(p->lowerY, y2, 1e-6), what, ": box ", boxStr(p), " instead of [", x1, ", ", y1, ", ", x2, ", ", y2, "]");
  }
};

}  // namespace

PPV_PROP("C03", "boxes", 4000, 150000,
    "PDF files of 1-3 pages: articles, or any text, paths, images and clip paths; some steps without influence on "
    "the hierarchy may be skipped. After all steps, the box of each word, line, block, segment and figure must be "
    "the smallest one around its parts. Non-trivial: at least two blocks and 10 words.") {
  PdfDocument doc;
  generate(g, r, &doc);
  size_t numWords = 0, numBlocks = 0;
  for (size_t p = 0; p < doc.pages.size(); p++) {
    const PdfPage* page = doc.pages[p];
    string at = cat(" of page ", p + 1);
    for (auto* w : page->words) {
      Hull h;
      for (auto* c : w->characters) { h.add(c->pos); }
      numWords++;
      if (h.flipped) { r.label("upside-down"); continue; }
      h.check(w->pos, cat("word ", quoted(w->text), at));
    }
    for (auto* b : page->blocks) {
      numBlocks++;
      Hull hb;
      for (auto* l : b->lines) {
        Hull h;
        for (auto* w : l->words) { h.add(w->pos); }
        h.check(l->pos, cat("line ", quoted(l->text), at));
        hb.add(l->pos);
      }
      hb.check(b->pos, cat("block ", quoted(b->text.substr(0, 60)), at));
    }
    for (auto* s : page->segments) {
      Hull h;
      for (auto* e : s->elements) { h.add(e->pos); }
      if (h.flipped) { continue; }
      if (!s->elements.empty()) { h.check(s->pos, "segment" + at); }
    }
    for (auto* f : page->figures) {
      Hull h;
      for (auto* c : f->characters) { h.add(c->pos); }
      for (auto* s : f->shapes) { h.add(s->pos); }
      for (auto* s : f->graphics) { h.add(s->pos); }
      if (!h.flipped) { h.check(f->pos, "figure" + at); }
    }
  }
  r.nontrivial(numBlocks >= 2 && numWords >= 10);
}
