// C04: the characters of a PDF; C05: its shapes, graphics and figures.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./parseonly.h"
#include "./pbt.h"
#include "./pagegen.h"
#include "./pdfgen.h"

using std::pair;
using std::string;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::types::PdfCharacter;
using ppp::types::PdfDocument;
using ppp::types::PdfPage;
using ppp::types::PdfPosition;

PPV_PROP("C04", "characters", 20000, 400000,
    "PDF files of 1-3 pages of any media box and rotation, with simple, Type 3, CID and vertical fonts (characters "
    "given by names, by names that only pdftotext++ knows, by ToUnicode maps with one or several code points, "
    "ligatures, white space), shown with any text matrices, transformation matrices, spacings, scalings, rises, "
    "adjustments, stroke colors and opacities, partly inside of clip paths. Each character must be recorded in order "
    "with its text, code points, name, font, size, direction, color, opacity, baseline and box. Non-trivial: at "
    "least 5 characters and one rotation, scaling, rise, charmap name or ligature.") {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  for (int i = g.range(1, 3); i > 0; i--) { makeFont(g, &pdf, &r); }
  int n = g.many(1, 3);
  size_t total = 0;
  bool turned = false;
  for (int p = 0; p < n; p++) {
    pdf.pages.emplace_back();
    EPage* page = &pdf.pages.back();
    pageBox(g, page);
    Canvas c(&pdf, page);
    for (int k = g.range(1, 4); k > 0; k--) {
      bool saved = g.chance(40);
      if (saved) { c.save(); }
      if (g.chance(30)) { c.concat(matrix(g, true)); }
      colors(g, &c);
      if (saved && g.chance(30)) { c.clipRect(g.range(0, 200), g.range(0, 200), g.range(10, 300), g.range(10, 300)); }
      textObject(g, &pdf, &c, &r);
      if (saved) { c.restore(); }
    }
    total += page->chars.size();
    for (auto& ch : page->chars) {
      turned = turned || ch.rot != 0;
      r.label(cat("rotation ", ch.rot));
      if (ch.wMode) { r.label("vertical"); }
      if (!pageClip(ch.clip, *page)) { r.label("in figure"); }
    }
  }
  r.nontrivial(total >= 5 && (turned || r.labels.count("rise") || r.labels.count("charmap") || r.labels.count("ligature")
      || r.labels.count("horizontal scaling")));
  r.showIf([&] { return showPdf(pdf); });
  PdfDocument doc;
  parsePdf(&doc, pdf.build());
  PPV_CHECK(doc.pages.size() == pdf.pages.size(), doc.pages.size(), " pages instead of ", pdf.pages.size());
  for (size_t p = 0; p < pdf.pages.size(); p++) { checkPage(doc.pages[p], pdf.pages[p], p + 1, true); }
  // The fonts.
  for (auto& f : pdf.fonts) {
    bool used = false;
    for (auto& p : pdf.pages) { for (auto& c : p.chars) { used = used || c.font == f.baseName; } }
    if (!used) { continue; }
    PPV_CHECK(doc.fontInfos.count(f.baseName) == 1, "font ", f.baseName, " is not known");
    const auto* info = doc.fontInfos.at(f.baseName);
    PPV_CHECK(info->fontName == f.baseName, "name of font ", f.baseName);
    PPV_CHECK(info->isType3 == (f.kind == FontKind::TYPE3), "type of font ", f.baseName);
    string lower = f.baseName;
    for (char& c : lower) { c = std::tolower(c); }
    int weight = lower.find("black") != string::npos ? 800 : lower.find("bold") != string::npos ? 700 : 400;
    PPV_CHECK(info->weight == weight, "weight ", info->weight, " of font ", f.baseName);
    PPV_CHECK(info->isItalic == (lower.find("italic") != string::npos), "italics of font ", f.baseName);
  }
}

PPV_REGRESS("C04", "upside-down-box") {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  pdf.addAscii("Helvetica");
  pdf.pages.emplace_back();
  Canvas c(&pdf, &pdf.pages.back());
  c.beginText();
  c.font(0, 10);
  c.textMatrix({ -1, 0, 0, -1, 300, 300 });
  c.showText({ 65 });
  c.endText();
  PdfDocument doc;
  parsePdf(&doc, pdf.build());
  PPV_CHECK(doc.pages.size() == 1 && doc.pages[0]->characters.size() == 1, "characters");
  const auto* pos = doc.pages[0]->characters[0]->pos;
  PPV_CHECK(pos->rotation == 2, "rotation");
  PPV_CHECK(pos->leftX < pos->rightX, "the left of the box is ", pos->leftX, " and the right ", pos->rightX);
}

PPV_PROP("C05", "elements", 20000, 400000,
    "PDF files of 1-2 pages with paths (lines, curves, rectangles; stroked, filled, both), images and image masks "
    "(also inline), and characters, under any transformations, within nested clip paths. Shapes and graphics must be "
    "recorded in order with the boxes of their parts inside of the clip box, and elements within a clip path must be "
    "members of one figure per clip box, whose box is the smallest one around its members. Non-trivial: at least 3 "
    "elements and one figure.") {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  pdf.addAscii("Helvetica");
  int n = g.many(1, 2);
  size_t total = 0, figs = 0;
  for (int p = 0; p < n; p++) {
    elementsPage(g, &pdf);
    EPage* page = &pdf.pages.back();
    total += page->chars.size() + page->shapes.size() + page->graphics.size();
    for (auto& x : page->chars) { figs += !pageClip(x.clip, *page); }
    for (auto& x : page->shapes) { figs += !pageClip(x.clip, *page); r.label("shape"); }
    for (auto& x : page->graphics) { figs += !pageClip(x.clip, *page); r.label("graphic"); }
  }
  r.label("figure", figs > 0);
  r.nontrivial(total >= 3 && figs > 0);
  r.showIf([&] { return showPdf(pdf); });
  PdfDocument doc;
  parsePdf(&doc, pdf.build());
  PPV_CHECK(doc.pages.size() == pdf.pages.size(), doc.pages.size(), " pages instead of ", pdf.pages.size());
  for (size_t p = 0; p < pdf.pages.size(); p++) { checkPage(doc.pages[p], pdf.pages[p], p + 1, true); }
}
