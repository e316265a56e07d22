#include "./pagegen.h"

#include <string>
#include <utility>
#include <vector>

#include "./docgen.h"

using std::pair;
using std::string;
using std::vector;

namespace ppv {

/** A number with at most two decimals. */
double dec(Gen& g, int lo, int hi) { return g.chance(70) ? g.range(lo, hi) : g.range(lo * 20, hi * 20) / 20.0; }

/** A matrix without shear: a scaled rotation by a multiple of 90 degrees, maybe slightly slanted. */
Mat matrix(Gen& g, bool translate) {
  static const vector<double> scales = { 1, 2, 0.5, 0.75, 1.25 };
  double s = g.pick(scales), t = g.chance(80) ? s : g.pick(scales);
  Mat m;
  switch (g.weighted({ 70, 10, 10, 10 })) {
    case 0: m = { s, 0, 0, t, 0, 0 }; break;
    case 1: m = { 0, s, -t, 0, 0, 0 }; break;
    case 2: m = { -s, 0, 0, -t, 0, 0 }; break;
    default: m = { 0, -s, t, 0, 0, 0 }; break;
  }
  if (g.chance(10)) { m = mul({ 1, 0, 0.25, 1, 0, 0 }, m); }
  if (translate) { m.e = g.range(-50, 600); m.f = g.range(-50, 800); }
  return m;
}

/** The media box of a page. */
void pageBox(Gen& g, EPage* p) {
  if (g.chance(30)) { p->w = g.range(200, 900); p->h = g.range(200, 900); }
  if (g.chance(20)) { p->x0 = g.range(-100, 100); p->y0 = g.range(-100, 100); }
  if (g.chance(30)) { p->rotate = 90 * g.range(1, 3); }
}

/** The characters that are known by their names only, as of the pinned revision. */
static const vector<pair<string, unsigned int>>& mapNames() {
  static const vector<pair<string, unsigned int>> names = {
#include "./charmap_ref.inc"
  };
  return names;
}

/** A code point that is no white space, no surrogate, and not special for Poppler. */
unsigned int codePoint(Gen& g) {
  // Punctuation, symbols, invisible characters (which are no white space), private use.
  static const vector<unsigned int> specials = { '!', '"', '\\', '<', '&', '~', 0xa1, 0xa9, 0xad, 0xb7, 0x200b,
    0x200d, 0x2010, 0x2013, 0x2019, 0x201c, 0x2022, 0x2026, 0x2060, 0x20ac, 0x2192, 0x221a, 0x2264, 0x3001, 0xe000,
    0xf8ff, 0xfeff, 0xfffd };
  switch (g.weighted({ 36, 17, 12, 13, 8, 6, 8 })) {
    case 6: return g.pick(specials);
    case 5: return g.range(0xfb00, 0xfb04);  // A ligature; expandLigatures() gives its letters.
    case 0: return g.range('A', 'Z');
    case 1: return g.range(0xc0, 0x17f);
    case 2: return g.range(0x391, 0x44f);
    case 3: return g.range(0x4e00, 0x9fa5);
    default: return g.range(0x1f400, 0x1f5ff);
  }
}

/** The given code points, with the letters of ligatures in place of the ligatures. */
vector<unsigned int> expandLigatures(const vector<unsigned int>& us) {
  static const char* const letters[] = { "ff", "fi", "fl", "ffi", "ffl" };
  vector<unsigned int> result;
  for (unsigned int u : us) {
    if (u < 0xfb00 || u > 0xfb04) {
      result.push_back(u);
      continue;
    }
    for (const char* c = letters[u - 0xfb00]; *c; c++) { result.push_back(static_cast<unsigned char>(*c)); }
  }
  return result;
}

/** Adds a font with generated glyphs. */
void makeFont(Gen& g, PdfGen* pdf, Rec* r) {
  static const vector<string> bases = { "CMR10", "ABCDEF+NimbusRomNo9L-Medi", "Times-Italic", "Arial-BoldMT",
    "XYZABC+Foo-Black", "MyriadPro" };
  static const unsigned int ligatures[] = { 0xfb00, 0xfb01, 0xfb02, 0xfb03, 0xfb04 };
  static const char* const ligNames[] = { "ff", "fi", "fl", "ffi", "ffl" };
  size_t kind = g.weighted({ 60, 15, 15, 10 });
  string base = cat(g.pick(bases), pdf->fonts.size());
  if (kind == 0 && g.chance(50)) {
    pdf->addAscii(base, 100 * g.range(2, 10));
    return;
  }
  GFont f;
  f.kind = static_cast<FontKind>(kind);
  f.res = cat("F", pdf->fonts.size() + 1);
  f.baseName = base;
  if (f.kind == FontKind::TYPE3 && g.chance(50)) { f.unit = 0.01; }
  int n = g.range(1, 8);
  for (int i = 0; i < n; i++) {
    GGlyph gl;
    gl.code = f.twoBytes() ? g.range(1 + 200 * i, 200 * i + 199) : g.range(33 + 25 * i, 33 + 25 * i + 23);
    gl.width = 10 * g.range(10, 110);
    switch (f.twoBytes() ? 1 + g.below(2) : g.below(5)) {
      case 0:  // A letter, by its name.
        gl.name = string(1, 'A' + g.below(26));
        gl.us = { static_cast<unsigned int>(gl.name[0]) };
        break;
      case 1:  // A name without meaning, and a ToUnicode map with one code point.
        gl.map = { codePoint(g) };
        gl.us = expandLigatures(gl.map);
        break;
      case 2:  // Several code points.
        for (int k = g.range(2, 4); k > 0; k--) { gl.map.push_back(codePoint(g)); }
        gl.us = expandLigatures(gl.map);
        r->label("several code points");
        break;
      case 3: {  // A name of the charmap; the other code point is overridden.
        auto& entry = g.pick(mapNames());
        gl.name = entry.first;
        gl.map = { codePoint(g) };
        gl.us = { entry.second };
        if (g.chance(30)) {  // Several code points are not overridden.
          for (int k = g.range(1, 3); k > 0; k--) { gl.map.push_back(codePoint(g)); }
          gl.us = expandLigatures(gl.map);
        }
        r->label("charmap");
        break;
      }
      default: {  // A ligature, given by its name or as a single code point.
        size_t l = g.below(5);
        gl.name = ligNames[l];
        if (g.chance(50)) { gl.map = { ligatures[l] }; }
        for (const char* p = ligNames[l]; *p; p++) { gl.us.push_back(*p); }
        r->label("ligature");
        break;
      }
    }
    if (gl.name.empty() && !f.twoBytes()) { gl.name = cat("q", string(1, 'a' + i), "zz"); }
    gl.text = utf8(gl.us);
    f.glyphs.push_back(gl);
  }
  if (f.kind == FontKind::SIMPLE && g.chance(40)) {  // White space.
    GGlyph gl;
    gl.code = 32;
    gl.name = "space";
    gl.width = 250;
    gl.white = true;
    f.glyphs.push_back(gl);
    if (g.chance(50)) {
      static const vector<unsigned int> spaces = { 0xa0, 0x9, 0xa };
      gl.code = 31;
      gl.name = "qspace";
      gl.map = { g.pick(spaces) };
      f.glyphs.push_back(gl);
      r->label("white space");
    }
  }
  pdf->fonts.push_back(f);
}

void colors(Gen& g, Canvas* c) {
  if (g.chance(30)) { c->strokeColor(g.range(0, 4) / 4.0, g.range(0, 4) / 4.0, g.range(0, 4) / 4.0); }
  if (g.chance(20)) { c->fillColor(g.range(0, 4) / 4.0, 0, 1); }
  if (g.chance(10)) { c->strokeAlphaHalf(); }
}

void textObject(Gen& g, PdfGen* pdf, Canvas* c, Rec* r) {
  c->beginText();
  size_t f = g.below(pdf->fonts.size());
  c->font(f, dec(g, 1, 40));
  for (int k = g.range(1, 4); k > 0; k--) {
    switch (g.below(10)) {
      case 0: c->charSpace(dec(g, -2, 5)); break;
      case 1: c->wordSpace(dec(g, -2, 9)); break;
      case 2: c->horizScale(g.range(50, 150)); r->label("horizontal scaling"); break;
      case 3: c->rise(dec(g, -5, 8)); r->label("rise"); break;
      case 4: c->leading(dec(g, 0, 20)); c->nextLine(); break;
      case 5: case 6: c->textMatrix(matrix(g, true)); break;
      default: c->moveText(dec(g, -50, 500), dec(g, -50, 600)); break;
    }
    if (g.chance(10)) { f = g.below(pdf->fonts.size()); c->font(f, dec(g, 1, 40)); }
    vector<size_t> text;
    for (int i = g.range(1, 5); i > 0; i--) { text.push_back(g.below(pdf->fonts[f].glyphs.size())); }
    if (g.chance(60)) {
      c->showText(text);
    } else {
      vector<double> adjust;
      for (size_t i = 0; i < text.size(); i++) { adjust.push_back(g.chance(50) ? 0 : g.range(-900, 400)); }
      c->showText(text, adjust);
    }
  }
  c->endText();
}

void elementsPage(Gen& g, PdfGen* pdf) {
  pdf->pages.emplace_back();
  EPage* page = &pdf->pages.back();
  pageBox(g, page);
  Canvas c(pdf, page);
  double cx = g.range(50, 150), cy = g.range(50, 150), cw = g.range(50, 300), chh = g.range(50, 300);
  int depth = 0;
  for (int k = g.range(2, 12); k > 0; k--) {
    switch (g.weighted({ 25, 8, 6, 10, 10, 15, 20, 20 })) {
      case 0:
        c.save();
        depth++;
        // Most often the same clip box.
        if (g.chance(60)) { c.clipRect(cx, cy, cw, chh); }
        else { c.clipRect(g.range(0, 200), g.range(0, 200), g.range(10, 300), g.range(10, 300)); }
        break;
      case 1: if (depth > 0) { c.restore(); depth--; } break;
      case 2: c.concat(matrix(g, true)); break;
      case 3: {
        c.beginText();
        c.font(0, 10);
        c.moveText(dec(g, 0, 500), dec(g, 0, 600));
        c.showText({ g.below(95), g.below(95) });
        c.endText();
        break;
      }
      case 4: {
        static const vector<string> ops = { "S", "s", "f", "B", "b", "n", "F", "f*", "B*", "b*" };
        c.rect(dec(g, 0, 500), dec(g, 0, 500), dec(g, 0, 300), dec(g, 0, 300), g.pick(ops));
        break;
      }
      case 5: case 6: {
        static const vector<string> ops = { "S", "f", "B", "n", "f*", "B*" };
        vector<pair<double, double>> pts;
        if (g.chance(10)) {
          const Clip& cl = c.clip();
          for (int i = 2 * g.range(2, 120); i > 0; i--) {
            pts.push_back(c.invert(cl.x1 + (cl.x2 - cl.x1) * g.range(1, 49) / 50, cl.y1 + (cl.y2 - cl.y1) * g.range(1, 49) / 50));
          }
          c.segments(pts, g.pick(ops));
          break;
        }
        bool in = g.chance(60);
        for (int i = g.range(2, 7); i > 0; i--) {
          if (in || g.chance(20)) {
            const Clip& cl = c.clip();
            pts.push_back(c.invert(cl.x1 + (cl.x2 - cl.x1) * g.range(1, 49) / 50, cl.y1 + (cl.y2 - cl.y1) * g.range(1, 49) / 50));
          } else {
            pts.push_back({ dec(g, -20, 600), dec(g, -20, 800) });
          }
        }
        c.path(pts, g.chance(30), g.pick(ops), g.chance(30) ? g.below(pts.size()) : 0);
        break;
      }
      default: {
        c.save();
        Mat m = matrix(g, false);
        if (g.chance(20)) { m = mul({ 1, 0, 0, -1, 0, 0 }, m); }
        double s = g.range(10, 200);
        if (g.chance(60)) {
          const Clip& cl = c.clip();
          auto p = c.invert(cl.x1 + (cl.x2 - cl.x1) * g.range(10, 40) / 50, cl.y1 + (cl.y2 - cl.y1) * g.range(10, 40) / 50);
          m.e = p.first;
          m.f = p.second;
          s = g.range(1, 50);
        } else {
          m.e = g.range(0, 500);
          m.f = g.range(0, 600);
        }
        m.a *= s; m.b *= s; m.c *= s; m.d *= s;
        c.concat(m);
        c.image(g.chance(30), g.chance(30), g.chance(40) ? g.range(1, 6) : 0);
        c.restore();
        break;
      }
    }
  }
  while (depth-- > 0) { c.restore(); }
}

/** Lines of words of ASCII characters on a grid, in any order, some of them in the margins of others. */
static void linesPage(Gen& g, PdfGen* pdf, Canvas* c, Rec* r) {
  static const vector<string> words = { "1", "(2)", "*", "Fig.", "the", "of-", "co-", "operate", "A", "Table", "[3]",
    "and", "non-", "linear", "sum", "x", "References", "e.g.", "ALL", "i", "-", "'e", "\"o" };
  // The first font has all ASCII characters.
  double size = g.range(6, 14), lead = size * g.range(90, 160) / 100;
  int cols = g.range(1, 3);
  double colWidth = 520.0 / cols;
  int n = g.range(3, 25);
  // Regular: the lines are written one below the other, column by column.
  bool regular = g.chance(40), labels = g.chance(40);
  if (regular) { r->label("regular lines"); }
  if (labels) { r->label("superscripted labels"); }
  c->beginText();
  double lx = 0, ly = 0;
  auto label = [&](double s) {
    static const vector<string> texts = { "1", "2", "12", "*", "a" };
    c->font(0, s * 0.6);
    c->rise(s * 0.4);
    vector<size_t> gl;
    for (char ch : g.pick(texts)) { gl.push_back(ch - ' '); }
    c->showText(gl, vector<double>(gl.size(), 0));
    c->rise(0);
    c->font(0, s);
  };
  for (int i = 0; i < n; i++) {
    double s = g.chance(regular ? 95 : 85) ? size : g.range(5, 20);
    c->font(0, s);
    double x = 40 + g.below(cols) * colWidth + (g.chance(20) ? g.range(0, 60) : 0);
    double y = g.chance(85) ? 740 - lead * g.range(0, 40) : g.range(-20, 820);
    if (regular) {
      int perCol = (n + cols - 1) / cols;
      x = 40 + (i / perCol) * colWidth + (g.chance(20) ? size : 0);
      y = 740 - lead * (i % perCol) - (g.chance(10) ? 5 : 0);
    }
    c->moveText(x - lx, y - ly);
    lx = x;
    ly = y;
    if (!regular && g.chance(8)) { c->rise(dec(g, -4, 6)); r->label("rise"); }
    if (labels && g.chance(25)) { label(s); }
    // Most regular lines are as wide as the column.
    if (regular && g.chance(80)) {
      int room = static_cast<int>((colWidth - 30) / (s * pdf->fonts[0].glyphs[0].width / 1000));
      while (room > 0) {
        string w = g.chance(50) ? g.pick(words) : string(g.range(1, 9), 'a' + g.below(26));
        w = w.substr(0, room);
        room -= w.size() + 1;
        vector<size_t> gl;
        for (char ch : w) { gl.push_back(ch - ' '); }
        c->showText(gl, vector<double>(gl.size(), 0));
        if (labels && room > 0 && g.chance(15)) { label(s); }
        if (room > 0) { c->showText({ 0 }, { 0 }); }
      }
      continue;
    }
    for (int k = g.range(1, 8); k > 0; k--) {
      string w = g.chance(70) ? g.pick(words) : string(g.range(1, 9), 'a' + g.below(26));
      vector<size_t> gl;
      for (char ch : w) { gl.push_back(ch - ' '); }
      vector<double> adjust(gl.size(), 0);
      bool labelled = labels && g.chance(15);
      if (!labelled) { adjust.back() = -g.range(100, 900); }
      c->showText(gl, adjust);
      if (labelled) { label(s); c->showText({ 0 }, { 0 }); }
    }
    c->rise(0);
  }
  c->endText();
}

void anyDocument(Gen& g, PdfGen* pdf, Rec* r) {
  g_rank = 0;
  pdf->addAscii(g.chance(50) ? "CMR10" : "ABCDEF+Times-Bold", 100 * g.range(3, 9));
  for (int i = g.range(0, 2); i > 0; i--) { makeFont(g, pdf, r); }
  int n = g.many(1, 3, 14);
  for (int p = 0; p < n; p++) {
    switch (g.weighted({ 40, 20, 40 })) {
      case 0: {
        pdf->pages.emplace_back();
        EPage* page = &pdf->pages.back();
        if (g.chance(30)) { pageBox(g, page); }
        Canvas c(pdf, page);
        linesPage(g, pdf, &c, r);
        r->label("page of lines");
        break;
      }
      case 1:
        elementsPage(g, pdf);
        r->label("page of elements");
        break;
      default: {
        pdf->pages.emplace_back();
        EPage* page = &pdf->pages.back();
        pageBox(g, page);
        Canvas c(pdf, page);
        if (g.chance(40)) { linesPage(g, pdf, &c, r); }
        for (int k = g.range(0, 6); k > 0; k--) {
          bool saved = g.chance(40);
          if (saved) { c.save(); }
          if (g.chance(30)) { c.concat(matrix(g, true)); }
          colors(g, &c);
          if (saved && g.chance(20)) { c.clipRect(g.range(0, 200), g.range(0, 200), g.range(10, 300), g.range(10, 300)); }
          textObject(g, pdf, &c, r);
          if (saved) { c.restore(); }
        }
        r->label("page of any text");
        break;
      }
    }
  }
}

string showPdf(const PdfGen& pdf) {
  string s;
  for (auto& p : pdf.pages) { s += cat("page ", p.w, "x", p.h, " rotate ", p.rotate, "\n", p.content); }
  return s;
}

}  // namespace ppv
