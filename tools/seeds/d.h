// Helpers for the demonstrations.
#pragma once
#include <poppler/GlobalParams.h>
#include <poppler/PDFDoc.h>
#include <poppler/PDFDocFactory.h>
#include <poppler/goo/GooString.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "Config.h"
#include "PdfParsing.h"
#include "Types.h"
#include "utils/Counter.h"
#include "utils/PdfElementsUtils.h"

using namespace std;
using namespace ppp::types;

#define EXPECT(c) do { if (!(c)) { fprintf(stderr, "line %d: expected %s\n", __LINE__, #c); exit(1); } } while (0)

inline PdfPage* page(PdfDocument* doc) {
  PdfPage* p = new PdfPage();
  p->pageNum = doc->pages.size() + 1;
  p->clipRightX = 612;
  p->clipLowerY = 792;
  doc->pages.push_back(p);
  return p;
}

inline PdfCharacter* character(PdfPage* p, PdfDocument* doc, const string& text, double x1,
    double y1, double x2, double y2, double fs = 10, int rotation = 0) {
  static int rank = 0;
  PdfCharacter* c = new PdfCharacter(p->pageNum, x1, y1, x2, y2, rotation, 0);
  c->doc = doc;
  c->rank = rank++;
  c->text = text;
  c->fontName = "F";
  c->fontSize = fs;
  c->base = y2;
  c->color[0] = c->color[1] = c->color[2] = 0;
  if (text.size() == 1) { c->unicodes.push_back(static_cast<unsigned char>(text[0])); }
  p->characters.push_back(c);
  return c;
}

/** A word with one character per byte; not added to the page. */
inline PdfWord* word(PdfPage* p, PdfDocument* doc, const string& text, double x1, double y1,
    double x2, double y2, double fs = 10, int rotation = 0) {
  static int rank = 0;
  PdfWord* w = new PdfWord(p->pageNum, x1, y1, x2, y2, rotation, 0);
  w->doc = doc;
  w->rank = rank++;
  w->text = text;
  w->fontName = "F";
  w->fontSize = fs;
  w->base = y2;
  for (size_t i = 0; i < text.size(); i++) {
    PdfCharacter* c = character(p, doc, text.substr(i, 1), x1 + (x2 - x1) * i / text.size(), y1,
        x1 + (x2 - x1) * (i + 1) / text.size(), y2, fs, rotation);
    c->word = w;
    w->characters.push_back(c);
  }
  return w;
}

inline PdfTextLine* line(PdfDocument* doc, const vector<PdfWord*>& words) {
  PdfTextLine* l = new PdfTextLine();
  l->doc = doc;
  l->words = words;
  l->fontName = "F";
  l->fontSize = l->maxFontSize = words[0]->fontSize;
  l->base = words[0]->pos->lowerY;
  l->pos->pageNum = words[0]->pos->pageNum;
  l->pos->rotation = words[0]->pos->rotation;
  l->pos->wMode = 0;
  l->pos->rightX = l->pos->lowerY = -1e9;
  for (auto* w : words) {
    l->pos->leftX = min(l->pos->leftX, w->pos->leftX);
    l->pos->upperY = min(l->pos->upperY, w->pos->upperY);
    l->pos->rightX = max(l->pos->rightX, w->pos->rightX);
    l->pos->lowerY = max(l->pos->lowerY, w->pos->lowerY);
    l->text += (l->text.empty() ? "" : " ") + w->text;
    w->line = l;
  }
  return l;
}

inline PdfTextBlock* block(PdfPage* p, PdfDocument* doc, SemanticRole role, double x1, double y1,
    double x2, double y2, const string& text = "") {
  PdfTextBlock* b = new PdfTextBlock();
  b->doc = doc;
  b->role = role;
  b->text = text;
  b->fontName = "F";
  b->fontSize = 10;
  b->pos->pageNum = p->pageNum;
  b->pos->leftX = x1;
  b->pos->upperY = y1;
  b->pos->rightX = x2;
  b->pos->lowerY = y2;
  b->pos->rotation = 0;
  b->pos->wMode = 0;
  p->blocks.push_back(b);
  return b;
}

/** Writes a PDF file with one page with the given content stream. */
inline void writePdf(const string& path, const string& content, const string& fonts,
    const vector<string>& more = {}) {
  vector<string> objs = { "<< /Type /Catalog /Pages 2 0 R >>",
    "<< /Type /Pages /Kids [3 0 R] /Count 1 >>",
    "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents 4 0 R /Resources << /Font << " +
        fonts + " >> /XObject << /Im 5 0 R >> >> >>",
    "<< /Length " + to_string(content.size()) + " >>\nstream\n" + content + "\nendstream",
    "<< /Type /XObject /Subtype /Image /Width 1 /Height 1 /ColorSpace /DeviceGray "
        "/BitsPerComponent 8 /Length 1 >>\nstream\nA\nendstream" };
  for (const auto& m : more) { objs.push_back(m); }  // object 6, 7, ...
  string out = "%PDF-1.4\n";
  vector<size_t> offsets;
  for (size_t i = 0; i < objs.size(); i++) {
    offsets.push_back(out.size());
    out += to_string(i + 1) + " 0 obj\n" + objs[i] + "\nendobj\n";
  }
  size_t xref = out.size();
  out += "xref\n0 " + to_string(objs.size() + 1) + "\n0000000000 65535 f \n";
  for (size_t o : offsets) {
    char buf[32];
    snprintf(buf, sizeof(buf), "%010zu 00000 n \n", o);
    out += buf;
  }
  out += "trailer << /Size " + to_string(objs.size() + 1) + " /Root 1 0 R >>\nstartxref\n" +
      to_string(xref) + "\n%%EOF\n";
  ofstream(path, ios::binary) << out;
}

/** Parses a PDF file. */
inline void parsePdf(const string& path, PdfDocument* doc) {
  static const ppp::config::Config config;
  globalParams = make_unique<GlobalParams>();
  GooString p(path);
  unique_ptr<PDFDoc> pdf = PDFDocFactory().createPDFDoc(p);
  EXPECT(pdf->isOk());
  ppp::modules::PdfParsing pp(doc, config.pdfParsing);
  pdf->displayPages(&pp, 1, pdf->getNumPages(), 72, 72, 0, true, false, false);
}
