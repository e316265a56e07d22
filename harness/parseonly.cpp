#include "./parseonly.h"

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <fstream>
#include <string>
#include <vector>

#include "./docgen.h"
#include "PdfToTextPlusPlus.h"

using std::string;
using std::vector;
using ppp::types::PdfCharacter;
using ppp::types::PdfDocument;
using ppp::types::PdfPage;
using ppp::types::PdfPosition;

namespace ppv {

/** Only the parsing. */
static const ppp::config::Config& parseOnly(bool embedded) {
  static const auto make = [](bool emb) {
    ppp::config::Config c;
    c.glyphsStatisticsCalculation.disabled = true;
    c.diacriticalMarksMerging.disabled = true;
    c.wordsDetection.disabled = true;
    c.wordsStatisticsCalculation.disabled = true;
    c.pageSegmentation.disabled = true;
    c.textLinesDetection.disabled = true;
    c.subSuperScriptsDetection.disabled = true;
    c.textLinesStatisticsCalculation.disabled = true;
    c.textBlocksDetection.disabled = true;
    c.readingOrderDetection.disabled = true;
    c.wordsDehyphenation.disabled = true;
    c.pdfParsing.skipEmbeddedFontFilesParsing = !emb;
    return c;
  };
  static const ppp::config::Config a = make(false), b = make(true);
  return embedded ? b : a;
}

void parsePdf(PdfDocument* doc, const string& bytes, bool embedded) {
  string path = scratchDir() + "/in.pdf";
  { std::ofstream(path, std::ios::binary) << bytes; }
  doc->pdfFilePath = path;
  int res = ppp::PdfToTextPlusPlus(&parseOnly(embedded)).process(doc);
  PPV_CHECK(res == 0, "process() returned ", res);
}

bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }

static void checkBox(const PdfPosition* pos, double x1, double y1, double x2, double y2, const string& what) {
  PPV_CHECK(near(pos->leftX, x1) && near(pos->upperY, y1) && near(pos->rightX, x2) && near(pos->lowerY, y2), what,
      ": box ", boxStr(pos), " instead of [", x1, ", ", y1, ", ", x2, ", ", y2, "]");
}

bool pageClip(const Clip& c, const EPage& p) {
  return std::fabs(c.x1) < 1e-6 && std::fabs(c.y1) < 1e-6 && std::fabs(c.x2 - p.width()) < 1e-6
      && std::fabs(c.y2 - p.height()) < 1e-6;
}

static bool sameClip(const Clip& a, const Clip& b) {
  return std::fabs(a.x1 - b.x1) < 1e-6 && std::fabs(a.y1 - b.y1) < 1e-6 && std::fabs(a.x2 - b.x2) < 1e-6
      && std::fabs(a.y2 - b.y2) < 1e-6;
}

static void checkChar(const PdfCharacter* ch, const EChar& e, size_t pageNum, bool boxes) {
  string what = cat("character ", quoted(e.text), " (rank ", e.rank, ")");
  PPV_CHECK(ch->text == e.text, what, ": text ", quoted(ch->text));
  PPV_CHECK(ch->unicodes == e.us, what, ": code points");
  PPV_CHECK(ch->name == e.name, what, ": name ", ch->name, " instead of ", e.name);
  PPV_CHECK(ch->fontName == e.font, what, ": font ", ch->fontName, " instead of ", e.font);
  PPV_CHECK(near(ch->fontSize, e.fs), what, ": font size ", ch->fontSize, " instead of ", e.fs);
  PPV_CHECK(ch->rank == e.rank, what, ": rank ", ch->rank);
  PPV_CHECK(ch->pos->pageNum == static_cast<int>(pageNum), what, ": page ", ch->pos->pageNum);
  PPV_CHECK(ch->pos->wMode == e.wMode, what, ": writing mode");
  PPV_CHECK(ch->pos->rotation == e.rot, what, ": rotation ", ch->pos->rotation, " instead of ", e.rot);
  for (int i = 0; i < 3; i++) {
    PPV_CHECK(near(ch->color[i], e.rgb[i], 0.003), what, ": color ", i, ": ", ch->color[i], " instead of ", e.rgb[i]);
  }
  PPV_CHECK(near(ch->opacity, e.opacity, 1e-6), what, ": opacity ", ch->opacity);
  PPV_CHECK(ch->doc != nullptr && !ch->id.empty(), what, ": document or id not set");
  if (boxes && !e.wMode) {
    PdfPosition pos = *ch->pos;
    // Known finding (see "upside-down" in m_parse.cpp): the left and right of upside-down characters are swapped.
    if (e.rot == 2 && pos.leftX > pos.rightX) { std::swap(pos.leftX, pos.rightX); }
    checkBox(&pos, e.x1, e.y1, e.x2, e.y2, what);
    PPV_CHECK(near(ch->base, e.base), what, ": baseline ", ch->base, " instead of ", e.base);
  }
}

/** Checks all elements of a page, and their distribution among the page and its figures. */
void checkPage(const PdfPage* page, const EPage& e, size_t pageNum, bool boxes) {
  PPV_CHECK(page->pageNum == static_cast<int>(pageNum), "page number ", page->pageNum);
  PPV_CHECK(near(page->clipLeftX, 0) && near(page->clipUpperY, 0) && near(page->clipRightX, e.width())
      && near(page->clipLowerY, e.height()), "page ", pageNum, ": clip box [", page->clipLeftX, ", ",
      page->clipUpperY, ", ", page->clipRightX, ", ", page->clipLowerY, "] of a page of size ", e.width(), " x ",
      e.height());
  PPV_CHECK(near(page->getWidth(), e.width()) && near(page->getHeight(), e.height()), "size of page ", pageNum);
  // The expected figures, in the order of their first elements.
  struct Fig { Clip clip; vector<const EChar*> chars; vector<const EBox*> shapes, graphics; int rank; };
  vector<Fig> figs;
  Fig top{ { 0, 0, 0, 0 }, {}, {}, {}, -1 };
  auto at = [&](const Clip& c, int rank) -> Fig& {
    if (pageClip(c, e)) { return top; }
    for (auto& f : figs) { if (sameClip(f.clip, c)) { f.rank = std::min(f.rank, rank); return f; } }
    figs.push_back({ c, {}, {}, {}, rank });
    return figs.back();
  };
  for (auto& c : e.chars) { at(c.clip, c.rank).chars.push_back(&c); }
  for (auto& s : e.shapes) { at(s.clip, s.rank).shapes.push_back(&s); }
  for (auto& s : e.graphics) { at(s.clip, s.rank).graphics.push_back(&s); }
  std::sort(figs.begin(), figs.end(), [](const Fig& a, const Fig& b) { return a.rank < b.rank; });
  auto check = [&](auto& chars, auto& shapes, auto& graphics, const Fig& f, const string& where) {
    PPV_CHECK(chars.size() == f.chars.size(), chars.size(), " instead of ", f.chars.size(), " characters in ", where);
    PPV_CHECK(shapes.size() == f.shapes.size(), shapes.size(), " instead of ", f.shapes.size(), " shapes in ", where);
    PPV_CHECK(graphics.size() == f.graphics.size(), graphics.size(), " instead of ", f.graphics.size(),
        " graphics in ", where);
    for (size_t i = 0; i < chars.size(); i++) { checkChar(chars[i], *f.chars[i], pageNum, boxes); }
    for (size_t i = 0; i < shapes.size(); i++) {
      const EBox& s = *f.shapes[i];
      PPV_CHECK(shapes[i]->rank == s.rank && shapes[i]->pos->pageNum == static_cast<int>(pageNum), "shape ", i, " in ", where);
      checkBox(shapes[i]->pos, s.x1, s.y1, s.x2, s.y2, cat("shape ", i, " in ", where));
    }
    for (size_t i = 0; i < graphics.size(); i++) {
      const EBox& s = *f.graphics[i];
      PPV_CHECK(graphics[i]->rank == s.rank && graphics[i]->pos->pageNum == static_cast<int>(pageNum), "graphic ", i,
          " in ", where);
      checkBox(graphics[i]->pos, s.x1, s.y1, s.x2, s.y2, cat("graphic ", i, " in ", where));
    }
  };
  check(page->characters, page->shapes, page->graphics, top, cat("page ", pageNum));
  PPV_CHECK(page->figures.size() == figs.size(), page->figures.size(), " instead of ", figs.size(), " figures");
  for (size_t i = 0; i < figs.size(); i++) {
    auto* f = page->figures[i];
    check(f->characters, f->shapes, f->graphics, figs[i], cat("figure ", i, " of page ", pageNum));
    PPV_CHECK(near(f->clipLeftX, figs[i].clip.x1) && near(f->clipUpperY, figs[i].clip.y1)
        && near(f->clipRightX, figs[i].clip.x2) && near(f->clipLowerY, figs[i].clip.y2), "clip box of figure ", i);
    PPV_CHECK(f->pos->pageNum == static_cast<int>(pageNum), "page number of figure ", i);
    // The box is the smallest one around the members.
    double x1 = DBL_MAX, y1 = DBL_MAX, x2 = -DBL_MAX, y2 = -DBL_MAX;
      auto add = [&](const PdfPosition* p) {
      x1 = std::min(x1, p->leftX);
      y1 = std::min(y1, p->upperY);
      x2 = std::max(x2, p->rightX);
      y2 = std::max(y2, p->lowerY);
    };
    for (auto* c : f->characters) { add(c->pos); }
    for (auto* s : f->shapes) { add(s->pos); }
    for (auto* g : f->graphics) { add(g->pos); }
    PPV_CHECK(near(f->pos->leftX, x1, 1e-6) && near(f->pos->upperY, y1, 1e-6) && near(f->pos->rightX, x2, 1e-6)
        && near(f->pos->lowerY, y2, 1e-6), "figure ", i, ": box ", boxStr(f->pos), " instead of [", x1, ", ", y1,
        ", ", x2, ", ", y2, "]");
  }
}

}  // namespace ppv
