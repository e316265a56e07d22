// C20: embedded Type 1 fonts.
#include <cmath>
#include <fstream>
#include <string>
#include <tuple>
#include <vector>

#include "./docgen.h"
#include "./parseonly.h"
#include "./pbt.h"
#include "./pdfgen.h"
#include "./type1.h"

using std::pair;
using std::string;
using std::vector;
using namespace ppv;  // NOLINT

namespace {

typedef vector<pair<string, vector<pair<int, int>>>> Routines;

/** The subroutines 0 to 4 of all fonts; as prescribed by the format. */
vector<string> standardSubrs() {
  auto n = [](int v) { return t1Num(v); };
  return {
    n(3) + n(0) + "\x0c\x10\x0c\x11\x0c\x11\x0c\x21\x0b",  // 3 0 callothersubr pop pop setcurrentpoint return
    n(0) + n(1) + "\x0c\x10\x0b",                          // 0 1 callothersubr return
    n(0) + n(2) + "\x0c\x10\x0b",                          // 0 2 callothersubr return
    "\x0b",                                                // return
    n(1) + n(20) + "\x01\x0b",                             // 1 20 hstem return
  };
}

/** Routines that draw; each of them may call the previous one. */
Routines drawingRoutines(Gen& g, int first) {
  Routines res;
  for (int i = static_cast<int>(g.many(0, 4)); i > 0; i--) {
    string s;
    vector<pair<int, int>> moves;
    for (int k = static_cast<int>(g.range(1, 4)); k > 0; k--) {
      if (!res.empty() && g.chance(25)) {
        size_t prev = res.size() - 1;
        s += t1Num(first + static_cast<int>(prev)) + "\x0a";
        moves.insert(moves.end(), res[prev].second.begin(), res[prev].second.end());
      } else {
        int dx = static_cast<int>(g.around(-300, 300)), dy = static_cast<int>(g.around(-300, 300));
        s += t1Num(dx) + t1Num(dy) + (g.chance(50) ? "\x05" : "\x15");
        moves.push_back({ dx, dy });
      }
    }
    res.push_back({ s + "\x0b", moves });
  }
  return res;
}

}  // namespace

PPV_PROP("C20", "glyphs", 6000, 400000,
    "PDF files with an embedded Type 1 font of 1-8 glyphs, drawn by any operators of the format (lines, curves, hints, "
    "subroutines, nested subroutines, hint replacement, flex, divisions, numbers of any length), encrypted with any "
    "number of leading bytes, in binary, PFB or hexadecimal form, with several forms of the font matrix, the weight and "
    "the italic angle. The recorded box of each glyph must be the smallest one around its points, the weight and style "
    "those of the font file, and the boxes of the characters those of their glyphs if these reach above the ascent or "
    "below the descent. Non-trivial: at least 2 glyphs and one subroutine, flex, hint replacement or division.") {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  static const vector<string> bases = { "ABCDEF+CMEX10", "XYZABC+NimbusRomNo9L-Medi", "Foo-Bold", "Bar-Italic" };
  string base = g.pick(bases);
  pdf.addAscii(base, 500);
  GFont& font = pdf.fonts.back();
  // The font file.
  T1Font t1;
  int weight = base.find("Bold") != string::npos ? 700 : 400;
  bool italic = base.find("Italic") != string::npos;
  t1.clear = "%!PS-AdobeFont-1.0: Test 003.002\n%%Title: Test\n11 dict begin\n/FontType 1 def\n";
  double fm[6] = { 0.001, 0, 0, 0.001, 0, 0 };
  switch (g.weighted({ 40, 15, 15, 10, 10, 10 })) {
    case 0: t1.clear += "/FontMatrix [0.001 0 0 0.001 0 0 ]readonly def\n"; break;
    case 1: t1.clear += "/FontMatrix[0.002 0 0 0.002 0 0]readonly def\n"; fm[0] = fm[3] = 0.002; break;
    case 2: t1.clear += "/FontMatrix [ 0.001 0 0.00025 0.001 0 0.0625 ] def\n"; fm[2] = 0.00025; fm[5] = 0.0625; break;
    case 3: t1.clear += "/FontMatrix [0.001 0 0 0.001 0 0 7 8 9 10] def\n"; break;
    case 4: t1.clear += "/FontMatrix [0.001 0 0\n0.001 0 0] def\n"; r.label("font matrix on two lines"); break;
    default: break;  // Not given.
  }
  t1.clear += "/FontInfo 9 dict dup begin\n";
  switch (g.below(5)) {
    case 0: t1.clear += "/Weight (Bold) readonly def\n"; weight = 700; break;
    case 1: t1.clear += "/Weight (Medium) readonly def\n"; weight = 500; break;
    case 2: t1.clear += "/Weight (Regular) readonly def\n"; weight = 400; break;
    case 3: t1.clear += "/Weight (Unheard-of) readonly def\n"; break;
    default: break;
  }
  switch (g.below(3)) {
    case 0: t1.clear += "/ItalicAngle 0 def\n"; break;
    case 1: t1.clear += "/ItalicAngle -14.04 def\n"; italic = true; break;
    default: break;
  }
  t1.clear += "end readonly def\n/Encoding StandardEncoding def\n/FontName /Test def\ncurrentdict end\ncurrentfile eexec\n";
  t1.lenIV = g.chance(60) ? -1 : static_cast<int>(g.range(0, 6));
  t1.form = static_cast<T1Form>(g.weighted({ 50, 20, 10, 10, 10 }));
  t1.subrs = standardSubrs();
  int first = static_cast<int>(t1.subrs.size());
  Routines routines = drawingRoutines(g, first);
  for (auto& ro : routines) { t1.subrs.push_back(ro.first); }
  std::map<string, T1Box> boxes;
  int n = static_cast<int>(g.range(1, 8));
  vector<size_t> used;
  for (int i = 0; i < n; i++) {
    size_t idx = g.chance(50) ? 33 + i : static_cast<size_t>(g.below(95));  // 'A', 'B', ...
    string name = font.glyphs[idx].name;
    if (name.empty() || boxes.count(name) || font.glyphs[idx].white) { continue; }
    T1Box box;
    t1.glyphs.push_back({ name, t1Glyph(g, routines, first, &box, &r) });
    boxes[name] = box;
    used.push_back(idx);
  }
  font.type1 = t1Build(g, t1, &font.length1, &font.length2);
  if (used.empty()) { discard(); }
  r.label(cat("form ", static_cast<int>(t1.form)));
  r.nontrivial(boxes.size() >= 2 && (r.labels.count("subroutine") || r.labels.count("flex") ||
      r.labels.count("hint replacement") || r.labels.count("division")));
  // The page.
  pdf.pages.emplace_back();
  EPage* page = &pdf.pages.back();
  Canvas c(&pdf, page);
  double size = g.range(4, 30);
  c.beginText();
  c.font(0, size);
  c.moveText(g.range(0, 300), g.range(0, 700));
  vector<size_t> text;
  for (int i = static_cast<int>(g.range(1, 8)); i > 0; i--) { text.push_back(g.chance(85) ? g.pick(used) : 33 + g.below(26)); }
  c.showText(text);
  c.endText();
  bool larger = false;
  for (auto& ch : page->chars) {
    auto it = boxes.find(ch.name);
    if (it == boxes.end()) { continue; }
    const T1Box& b = it->second;
    double x = ch.x1, y = ch.base;
    double ax = size * (b.x1 * fm[0] + b.y1 * fm[2] + fm[4]), ay = size * (b.x1 * fm[1] + b.y1 * fm[3] + fm[5]);
    double bx = size * (b.x2 * fm[0] + b.y2 * fm[2] + fm[4]), by = size * (b.x2 * fm[1] + b.y2 * fm[3] + fm[5]);
    double x1 = x + std::min(ax, bx), x2 = x + std::max(ax, bx), y1 = y - std::max(ay, by), y2 = y - std::min(ay, by);
    if (std::fabs(y1 - ch.y1) < 0.2 || std::fabs(y2 - ch.y2) < 0.2) { discard(); }
    if (y1 < ch.y1 || y2 > ch.y2) {
      ch.x1 = x1;
      ch.x2 = x2;
      ch.y1 = y1;
      ch.y2 = y2;
      ch.base = y2;
      larger = true;
    }
  }
  r.label("larger box", larger);
  r.showIf([&] {
    string s = t1.clear;
    for (auto& b : boxes) { s += cat(b.first, " [", b.second.x1, ",", b.second.y1, " ", b.second.x2, ",", b.second.y2, "]\n"); }
    return s + page->content;
  });
  ppp::types::PdfDocument doc;
  parsePdf(&doc, pdf.build(), true);
  PPV_CHECK(doc.pages.size() == 1);
  PPV_CHECK(doc.fontInfos.count(base) == 1, "font is not known");
  const auto* info = doc.fontInfos.at(base);
  PPV_CHECK(info->weight == weight, "weight ", info->weight, " instead of ", weight);
  PPV_CHECK(info->isItalic == italic, "italic ", info->isItalic);
  for (int i = 0; i < 6; i++) { PPV_CHECK(std::fabs(info->fontMatrix[i] - fm[i]) < 1e-9, "font matrix, number ", i); }
  PPV_CHECK(info->glyphBoundingBoxes.size() == boxes.size(), info->glyphBoundingBoxes.size(), " instead of ", boxes.size(),
      " glyphs");
  for (auto& [name, b] : boxes) {
    auto it = info->glyphBoundingBoxes.find(name);
    PPV_CHECK(it != info->glyphBoundingBoxes.end(), "no box of glyph ", name);
    auto [x1, y1, x2, y2] = it->second;
    PPV_CHECK(x1 == b.x1 && y1 == b.y1 && x2 == b.x2 && y2 == b.y2, "glyph ", name, ": [", x1, ",", y1, " ", x2, ",", y2,
        "] instead of [", b.x1, ",", b.y1, " ", b.x2, ",", b.y2, "]");
  }
  checkPage(doc.pages[0], *page, 1, true);
}

PPV_PROP("C20", "malformed-fonts", 6000, 600000,
    "PDF files with an embedded font file that is derived from a valid one: truncated, with bytes changed, inserted or "
    "deleted in any of the parts (before the encryption, so that also charstrings, lengths, indices and names are "
    "malformed), with random charstrings, wrong lengths, or of random bytes. The text must be extracted as without the "
    "font file. Non-trivial: the font file was changed and is longer than 100 bytes.") {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  pdf.addAscii("ABCDEF+Test", 500);
  GFont& font = pdf.fonts.back();
  T1Font t1;
  t1.clear = "%!PS-AdobeFont-1.0: Test 003.002\n/FontMatrix [0.001 0 0 0.001 0 0 ]readonly def\n/Weight (Bold) def\n"
    "/ItalicAngle 0 def\n/Encoding StandardEncoding def\n/FontName /Test def\ncurrentfile eexec\n";
  t1.subrs = standardSubrs();
  Routines routines = drawingRoutines(g, 5);
  for (auto& ro : routines) { t1.subrs.push_back(ro.first); }
  auto randomCode = [&] {
    string s;
    for (int i = static_cast<int>(g.small(0, 40)); i > 0; i--) {
      switch (g.weighted({ 40, 30, 15, 10, 5 })) {
        case 0: s += t1Num(static_cast<int>(g.around(-300, 300))); break;
        case 1: {
          static const vector<int> ops = { 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 21, 22, 30, 31 };
          s += static_cast<char>(g.pick(ops));
          break;
        }
        case 2: {
          static const vector<int> ops = { 0, 1, 2, 6, 7, 12, 16, 17, 33 };
          s += '\x0c';
          s += static_cast<char>(g.pick(ops));
          break;
        }
        case 3: s += t1Num(static_cast<int>(static_cast<uint32_t>(g.below(3) * 2147483647 + g.below(3)))); break;
        default: s += static_cast<char>(g.below(256)); break;
      }
    }
    return s;
  };
  T1Box box;
  bool random = g.chance(60);
  for (int i = 0; i < 3; i++) {
    t1.glyphs.push_back({ string(1, 'A' + i), random && g.chance(70) ? randomCode() : t1Glyph(g, routines, 5, &box, &r) });
  }
  if (random) { for (auto& s : t1.subrs) { if (g.chance(20)) { s = randomCode(); } } }
  t1.form = static_cast<T1Form>(g.below(5));
  auto mutate = [&](string* s) {
    static const vector<string> tokens = { "/lenIV ", "/lenIV 99999999999 ", "/lenIV x ", "/lenIV -5 ", "/Subrs", "ND",
      "/CharStrings", " RD ", "dup 99999999999 5 RD ", "dup 7 99999999999 RD ", "dup 7 100000 RD ", "/A 100000 RD ",
      "/A 0 RD ", "/B 4294967295 RD ", "end", "/FontMatrix [1 2 3 4 5 6 7 8 9]", "/FontMatrix [x", "[", "]",
      "/Weight (", ")", "/ItalicAngle", string("\x80\x01\xff\xff\xff\x7f", 6), string("\x80\x02\xff\xff\xff\xff", 6),
      string("\x80\x02\x10\x00\x00\x00", 6), "\n" };
    for (int i = static_cast<int>(g.range(1, 4)); i > 0; i--) {
      size_t pos = s->empty() ? 0 : g.below(s->size() + 1);
      switch (g.below(5)) {
        case 0: if (pos < s->size()) { (*s)[pos] = static_cast<char>(g.below(256)); } break;
        case 1: s->insert(pos, g.pick(tokens)); break;
        case 2: s->erase(pos, g.small(1, 60)); break;
        case 3: s->insert(pos, g.chance(90) ? string(1, static_cast<char>(g.below(256))) : "/" + string(100000, 'x')); break;
        default: if (g.chance(30)) { s->resize(pos); } break;
      }
    }
  };
  bool changed = random;
  int l1, l2;
  string bytes;
  if (g.chance(5)) {
    for (int i = static_cast<int>(g.small(0, 300)); i > 0; i--) { bytes += static_cast<char>(g.below(256)); }
    l1 = static_cast<int>(g.around(-10, 300));
    l2 = static_cast<int>(g.around(-10, 300));
    changed = true;
  } else {
    if (g.chance(20)) { mutate(&t1.clear); changed = true; }
    bytes = t1Build(g, t1, &l1, &l2);
    if (g.chance(50)) {  // Change the decrypted form.
      t1.form = T1Form::BINARY;
      bytes = t1Build(g, t1, &l1, &l2);
      string plain, cipher = bytes.substr(l1, l2);
      unsigned int key = 55665;
      for (char ch : cipher) {
        unsigned int cb = static_cast<unsigned char>(ch);
        plain += static_cast<char>(cb ^ (key >> 8));
        key = ((cb + key) * 52845u + 22719u) & 0xffff;
      }
      plain = plain.substr(4);
      mutate(&plain);
      string enc = t1Encrypt(g, plain, 55665, 4, true);
      bytes = t1.clear + enc + bytes.substr(l1 + l2);
      l2 = static_cast<int>(enc.size());
      changed = true;
    }
    if (g.chance(30)) { mutate(&bytes); changed = true; }
    if (g.chance(15)) { l1 = static_cast<int>(g.around(-10, 3000)); changed = true; }
    if (g.chance(15)) { l2 = static_cast<int>(g.around(-10, 100000)); changed = true; }
    if (g.chance(3)) { l2 = 2147483647; }
  }
  if (bytes.empty()) { bytes = " "; }
  font.type1 = bytes;
  font.length1 = l1;
  font.length2 = l2;
  r.nontrivial(changed && bytes.size() > 100);
  r.showIf([&] { return cat("Length1 ", l1, ", Length2 ", l2, ", ", quoted(bytes)); });
  pdf.pages.emplace_back();
  EPage* page = &pdf.pages.back();
  Canvas c(&pdf, page);
  c.beginText();
  c.font(0, 10);
  c.moveText(100, 300);
  c.showText({ 33, 34, 35, 36 });
  c.endText();
  ppp::types::PdfDocument doc;
  parsePdf(&doc, pdf.build(), true);
  PPV_CHECK(doc.pages.size() == 1);
  PPV_CHECK(doc.pages[0]->characters.size() == 4, doc.pages[0]->characters.size(), " characters");
  for (size_t i = 0; i < 4; i++) {
    const auto* ch = doc.pages[0]->characters[i];
    PPV_CHECK(ch->text == page->chars[i].text, "text of character ", i, ": ", quoted(ch->text));
    PPV_CHECK(ch->pos->leftX <= ch->pos->rightX && ch->pos->upperY <= ch->pos->lowerY, "box of character ", i, ": ",
        boxStr(ch->pos));
  }
}
