#include "./docgen.h"

#include <poppler/GlobalParams.h>

#include <cmath>

using ppp::types::PdfCharacter;
using ppp::types::PdfDocument;
using ppp::types::PdfFontInfo;
using ppp::types::PdfPage;
using ppp::types::PdfPosition;
using ppp::types::PdfWord;
using std::string;
using std::vector;

namespace ppv {

void initPoppler() {
  if (!globalParams) { globalParams = std::make_unique<GlobalParams>(); }
}

string utf8(unsigned int u) {
  string s;
  auto put = [&](unsigned int b) { s += static_cast<char>(b); };
  if (u < 0x80) { put(u); }
  else if (u < 0x800) { put(0xc0 | (u >> 6)); put(0x80 | (u & 0x3f)); }
  else if (u < 0x10000) { put(0xe0 | (u >> 12)); put(0x80 | ((u >> 6) & 0x3f)); put(0x80 | (u & 0x3f)); }
  else {
    put(0xf0 | (u >> 18)); put(0x80 | ((u >> 12) & 0x3f)); put(0x80 | ((u >> 6) & 0x3f));
    put(0x80 | (u & 0x3f));
  }
  return s;
}

string utf8(const vector<unsigned int>& us) {
  string s;
  for (unsigned int u : us) { s += utf8(u); }
  return s;
}

int64_t toTenths(double v) { return std::llround(v * 10.0); }

string boxStr(const PdfPosition* p) {
  return cat("[", p->leftX, ",", p->upperY, " - ", p->rightX, ",", p->lowerY, "]");
}

Doc::Doc() : doc(new PdfDocument()) {}
Doc::~Doc() { delete doc; }

PdfPage* Doc::addPage(double width, double height) {
  PdfPage* page = new PdfPage();
  page->pageNum = static_cast<int>(doc->pages.size()) + 1;
  page->clipLeftX = 0;
  page->clipUpperY = 0;
  page->clipRightX = width;
  page->clipLowerY = height;
  doc->pages.push_back(page);
  return page;
}

PdfFontInfo* Doc::addFont(const string& name, int weight, bool italic) {
  PdfFontInfo* f = new PdfFontInfo();
  f->fontName = name;
  f->normFontName = name;
  f->fontBaseName = name;
  f->weight = weight;
  f->isItalic = italic;
  doc->fontInfos[name] = f;
  return f;
}

PdfCharacter* Doc::addChar(PdfPage* page, const vector<unsigned int>& us, int64_t x1, int64_t y1,
    int64_t x2, int64_t y2, int64_t fontSize, const string& fontName, int rotation, int wMode) {
  PdfCharacter* ch = new PdfCharacter(page->pageNum, tenths(x1), tenths(y1), tenths(x2),
      tenths(y2), rotation, wMode);
  ch->id = cat("char-", nextId++);
  ch->doc = doc;
  ch->rank = nextRank++;
  ch->unicodes = us;
  ch->text = utf8(us);
  ch->fontName = fontName;
  ch->fontSize = tenths(fontSize);
  ch->base = ch->pos->lowerY;
  ch->color[0] = ch->color[1] = ch->color[2] = 0;
  page->characters.push_back(ch);
  return ch;
}

PdfWord* Doc::newWord(PdfPage* page, const string& text, int64_t x1, int64_t y1, int64_t x2,
    int64_t y2, int64_t fontSize, const string& fontName, int rotation, int wMode) {
  PdfWord* w = new PdfWord(page->pageNum, tenths(x1), tenths(y1), tenths(x2), tenths(y2), rotation,
      wMode);
  w->id = cat("word-", nextId++);
  w->doc = doc;
  w->rank = nextRank++;
  w->text = text;
  w->fontName = fontName;
  w->fontSize = tenths(fontSize);
  w->base = w->pos->lowerY;
  return w;
}

PdfWord* Doc::newWordWithChars(PdfPage* page, const vector<unsigned int>& us, int64_t x1,
    int64_t y1, int64_t x2, int64_t y2, int64_t fontSize, const string& fontName, int rotation,
    int wMode) {
  PdfWord* w = newWord(page, utf8(us), x1, y1, x2, y2, fontSize, fontName, rotation, wMode);
  int64_t n = static_cast<int64_t>(us.size());
  for (int64_t i = 0; i < n; i++) {
    PdfCharacter* ch = addChar(page, { us[i] }, x1 + (x2 - x1) * i / n, y1,
        x1 + (x2 - x1) * (i + 1) / n, y2, fontSize, fontName, rotation, wMode);
    ch->word = w;
    w->characters.push_back(ch);
  }
  return w;
}

}  // namespace ppv
