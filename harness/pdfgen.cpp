#include "./pdfgen.h"

#include <algorithm>
#include <cfloat>
#include <cmath>
#include <cstdio>
#include <cstring>

#include "./docgen.h"

using std::pair;
using std::string;
using std::vector;

namespace ppv {

int g_rank = 0;

Mat mul(const Mat& p, const Mat& q) {
  return { p.a * q.a + p.b * q.c, p.a * q.b + p.b * q.d, p.c * q.a + p.d * q.c, p.c * q.b + p.d * q.d,
      p.e * q.a + p.f * q.c + q.e, p.e * q.b + p.f * q.d + q.f };
}

void apply(const Mat& m, double x, double y, double* rx, double* ry) {
  *rx = m.a * x + m.c * y + m.e;
  *ry = m.b * x + m.d * y + m.f;
}

string num(double v) {
  char buf[64];
  snprintf(buf, sizeof(buf), "%.5f", v);
  string s = buf;
  while (s.back() == '0') { s.pop_back(); }
  if (s.back() == '.') { s.pop_back(); }
  return s == "-0" ? "0" : s;
}

string hexStr(const string& bytes) {
  string s = "<";
  char buf[4];
  for (unsigned char c : bytes) { snprintf(buf, sizeof(buf), "%02X", c); s += buf; }
  return s + ">";
}

int PdfFile::addStream(const string& dict, const string& data) {
  return add(cat("<< ", dict, " /Length ", data.size(), " >>\nstream\n", data, "\nendstream"));
}

string PdfFile::finish(int root, const vector<int>& order) const {
  string out = "%PDF-1.5\n%\xe2\xe3\xcf\xd3\n";
  vector<size_t> offsets(_objs.size()), seq;
  for (size_t i = 0; i < _objs.size(); i++) { seq.push_back(i); }
  if (!order.empty()) {
    std::stable_sort(seq.begin(), seq.end(), [&](size_t i, size_t j) {
      return order[i % order.size()] < order[j % order.size()];
    });
  }
  for (size_t i : seq) {
    offsets[i] = out.size();
    out += cat(i + 1, " 0 obj\n", _objs[i], "\nendobj\n");
  }
  size_t xref = out.size();
  out += cat("xref\n0 ", _objs.size() + 1, "\n0000000000 65535 f \n");
  char buf[32];
  for (size_t o : offsets) { snprintf(buf, sizeof(buf), "%010zu 00000 n \n", o); out += buf; }
  out += cat("trailer\n<< /Size ", _objs.size() + 1, " /Root ", root, " 0 R >>\nstartxref\n", xref, "\n%%EOF\n");
  return out;
}

/** The zlib format, with stored blocks only. */
static string zlibStored(const string& data) {
  string out = "\x78\x01";
  size_t pos = 0;
  do {
    size_t n = std::min<size_t>(data.size() - pos, 1000);
    out += pos + n == data.size() ? '\1' : '\0';
    out += static_cast<char>(n & 255);
    out += static_cast<char>(n >> 8);
    out += static_cast<char>(~n & 255);
    out += static_cast<char>((~n >> 8) & 255);
    out += data.substr(pos, n);
    pos += n;
  } while (pos < data.size());
  unsigned a = 1, b = 0;
  for (unsigned char c : data) { a = (a + c) % 65521; b = (b + a) % 65521; }
  for (unsigned v : { b >> 8, b & 255, a >> 8, a & 255 }) { out += static_cast<char>(v); }
  return out;
}

static int addEncoded(PdfFile* file, const Encoding& enc, const string& dict, string data) {
  string filters;
  if (enc.filter & 2) { data = zlibStored(data); filters = "/FlateDecode"; }
  if (enc.filter & 1) {
    data = hexStr(data).substr(1);
    filters = "/ASCIIHexDecode " + filters;
  }
  return file->addStream(dict + (filters.empty() ? "" : " /Filter [" + filters + "]"), data);
}

/** Rewrites the lines of a content stream. */
static vector<string> rewrite(const string& content, const Encoding& enc,
    const std::map<string, string>& fontNames) {
  vector<string> lines;
  for (size_t i = 0; i < content.size();) {
    size_t e = content.find('\n', i);
    string line = content.substr(i, e - i);
    i = e + 1;
    if (line.compare(0, 3, "BI ") == 0) { lines.push_back(line + "\n"); continue; }
    string out;
    for (size_t k = 0; k < line.size();) {
      char c = line[k];
      if (c == '<' && enc.literal) {
        out += '(';
        for (k++; line[k] != '>'; k += 2) {
          int v = std::stoi(line.substr(k, 2), nullptr, 16);
          char buf[8];
          if (v < 32 || v > 126) { snprintf(buf, sizeof(buf), "\\%03o", v); out += buf; }
          else { if (strchr("()\\", v)) { out += '\\'; } out += static_cast<char>(v); }
        }
        k++;
        out += ')';
      } else if (c == '/') {
        string name;
        k++;
        while (k < line.size() && line[k] != ' ') { name += line[k++]; }
        auto it = fontNames.find(name);
        out += "/" + enc.prefix + (it == fontNames.end() ? name : it->second);
      } else if (enc.spaced && (isdigit(c) || c == '-') && (k == 0 || strchr(" [>", line[k - 1]))) {
        string tok;
        while (k < line.size() && strchr("0123456789.-", line[k])) { tok += line[k++]; }
        if (tok.find('.') != string::npos) { tok += "0"; }
        if (tok[0] == '0' && tok.size() > 1) { tok = tok.substr(1); }
        else if (tok[0] != '-') { tok = "+" + tok; }
        out += tok;
      } else if (c == '<') {
        while (line[k] != '>') { out += line[k++]; }
      } else if (enc.spaced && c == ' ') {
        out += " %(\r\t";
        k++;
      } else {
        out += c;
        k++;
      }
    }
    lines.push_back(out + (enc.spaced ? "\r\n  " : "\n"));
  }
  return lines;
}

GFont& PdfGen::addAscii(const string& baseName, double width) {
  GFont f;
  f.res = cat("F", fonts.size() + 1);
  f.baseName = baseName;
  static const char* const names[] = { "space", "exclam", "quotedbl", "numbersign", "dollar", "percent",
    "ampersand", "quotesingle", "parenleft", "parenright", "asterisk", "plus", "comma", "hyphen", "period",
    "slash", "zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine", "colon",
    "semicolon", "less", "equal", "greater", "question", "at", "", "bracketleft", "backslash", "bracketright",
    "asciicircum", "underscore", "grave", "", "braceleft", "bar", "braceright", "asciitilde" };
  for (int c = 32; c < 127; c++) {
    GGlyph g;
    g.code = c;
    g.width = width;
    g.us = { static_cast<unsigned int>(c) };
    g.text = string(1, static_cast<char>(c));
    g.white = c == 32;
    if (c <= '@') { g.name = names[c - 32]; }
    else if (c <= 'Z') { g.name = g.text; }
    else if (c <= '`') { g.name = names[c - 'Z' - 1 + ('A' - ' ') + 1]; }
    else if (c <= 'z') { g.name = g.text; }
    else { g.name = names[c - '{' + 41]; }
    f.glyphs.push_back(g);
  }
  fonts.push_back(f);
  return fonts.back();
}

namespace {

string hex(unsigned int v, int digits) {
  char buf[16];
  snprintf(buf, sizeof(buf), "%0*X", digits, v);
  return buf;
}

string utf16Hex(const vector<unsigned int>& us) {
  string s;
  for (unsigned int u : us) {
    if (u < 0x10000) { s += hex(u, 4); }
    else { s += hex(0xd800 + ((u - 0x10000) >> 10), 4) + hex(0xdc00 + ((u - 0x10000) & 0x3ff), 4); }
  }
  return s;
}

string toUnicodeMap(const GFont& f) {
  int digits = f.twoBytes() ? 4 : 2;
  string body;
  int n = 0;
  string lines;
  auto flush = [&] {
    if (n > 0) { body += cat(n, " beginbfchar\n", lines, "endbfchar\n"); }
    n = 0;
    lines = "";
  };
  for (auto& g : f.glyphs) {
    if (g.map.empty()) { continue; }
    lines += cat("<", hex(g.code, digits), "> <", utf16Hex(g.map), ">\n");
    if (++n == 100) { flush(); }
  }
  flush();
  if (body.empty()) { return ""; }
  return cat("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CMapName /X def\n"
      "/CMapType 2 def\n1 begincodespacerange\n<", hex(0, digits), "> <", hex((1u << (4 * digits)) - 1, digits),
      ">\nendcodespacerange\n", body, "endcmap\nend\nend\n");
}

int addFontObject(PdfFile* file, const GFont& f) {
  string dict = "<< /Type /Font";
  string map = toUnicodeMap(f);
  if (!map.empty()) { dict += cat(" /ToUnicode ", file->addStream("", map), " 0 R"); }
  string descriptor = cat("<< /Type /FontDescriptor /FontName /", f.baseName.empty() ? "X" : f.baseName,
      " /Flags ", f.flags, f.weight ? cat(" /FontWeight ", f.weight) : "", " /ItalicAngle 0 /Ascent 800 /Descent -200"
      " /CapHeight 700 /StemV 80 /FontBBox [0 -200 1000 800]");
  if (!f.type1.empty()) {
    int id = file->addStream(cat("/Length1 ", f.length1, " /Length2 ", f.length2, " /Length3 0"), f.type1);
    descriptor += cat(" /FontFile ", id, " 0 R");
  }
  descriptor += " >>";
  int fd = file->add(descriptor);
  if (f.twoBytes()) {
    string w = "[";
    for (auto& g : f.glyphs) { w += cat(" ", g.code, " [", num(g.width), "]"); }
    w += " ]";
    int cid = file->add(cat("<< /Type /Font /Subtype /CIDFontType2 /BaseFont /", f.baseName, " /CIDSystemInfo "
        "<< /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /FontDescriptor ", fd, " 0 R /DW 1000 /W ", w,
        " >>"));
    dict += cat(" /Subtype /Type0 /BaseFont /", f.baseName, " /Encoding /Identity-",
        f.kind == FontKind::VERTICAL ? "V" : "H", " /DescendantFonts [", cid, " 0 R] >>");
    return file->add(dict);
  }
  int first = 255, last = 0;
  for (auto& g : f.glyphs) { first = std::min(first, g.code); last = std::max(last, g.code); }
  vector<double> widths(last >= first ? last - first + 1 : 0, 0);
  string differences = "[";
  for (auto& g : f.glyphs) {
    widths[g.code - first] = g.width * (f.kind == FontKind::TYPE3 ? 0.001 / f.unit : 1);
    if (!g.name.empty()) { differences += cat(" ", g.code, " /", g.name); }
  }
  differences += " ]";
  string w;
  for (double x : widths) { w += " " + num(x); }
  dict += cat(" /FirstChar ", first, " /LastChar ", last, " /Widths [", w, " ] /Encoding << /Type /Encoding "
      "/Differences ", differences, " >>");
  if (f.kind == FontKind::TYPE3) {
    int proc = file->addStream("", cat(num(1 / f.unit / 2), " 0 d0"));
    string procs;
    for (auto& g : f.glyphs) { if (!g.name.empty()) { procs += cat(" /", g.name, " ", proc, " 0 R"); } }
    dict += cat(" /Subtype /Type3 /FontBBox [0 0 ", num(1 / f.unit), " ", num(1 / f.unit), "] /FontMatrix [",
        num(f.unit), " 0 0 ", num(f.unit), " 0 0] /CharProcs <<", procs, " >> /Resources << >> ",
        f.baseName.empty() ? "" : "/Name /" + f.baseName, " >>");
  } else {
    dict += cat(" /Subtype /Type1 /BaseFont /", f.baseName, " /FontDescriptor ", fd, " 0 R >>");
  }
  return file->add(dict);
}

}  // namespace

string PdfGen::build(const Encoding& enc) const {
  PdfFile file;
  int root = file.reserve(), tree = file.reserve();
  vector<int> fontObjs;
  for (auto& f : fonts) { fontObjs.push_back(addFontObject(&file, f)); }
  int image = file.addStream("/Type /XObject /Subtype /Image /Width 1 /Height 1 /ColorSpace /DeviceGray "
      "/BitsPerComponent 8", "\x7f");
  int mask = file.addStream("/Type /XObject /Subtype /Image /Width 1 /Height 1 /ImageMask true "
      "/BitsPerComponent 1", "\x80");
  // Images with a soft mask, with an explicit mask, with masked colors, and in color.
  int softMask = file.addStream("/Type /XObject /Subtype /Image /Width 3 /Height 2 /ColorSpace /DeviceGray "
      "/BitsPerComponent 8", "abcdef");
  int soft = file.addStream(cat("/Type /XObject /Subtype /Image /Width 2 /Height 1 /ColorSpace /DeviceRGB "
      "/BitsPerComponent 8 /SMask ", softMask, " 0 R"), "abcdef");
  int soft2 = file.addStream(cat("/Type /XObject /Subtype /Image /Width 1 /Height 1 /ColorSpace /DeviceRGB "
      "/BitsPerComponent 8 /SMask ", image, " 0 R"), "abc");
  int inverted = file.addStream("/Type /XObject /Subtype /Image /Width 4 /Height 2 /ImageMask true "
      "/BitsPerComponent 1 /Decode [1 0]", "\xa5\x5a");
  int masked = file.addStream(cat("/Type /XObject /Subtype /Image /Width 1 /Height 2 /ColorSpace /DeviceGray "
      "/BitsPerComponent 8 /Mask ", mask, " 0 R"), "ab");
  int masked2 = file.addStream(cat("/Type /XObject /Subtype /Image /Width 1 /Height 2 /ColorSpace /DeviceGray "
      "/BitsPerComponent 8 /Interpolate true /Mask ", inverted, " 0 R"), "ab");
  int colorMasked = file.addStream("/Type /XObject /Subtype /Image /Width 2 /Height 2 /ColorSpace /DeviceGray "
      "/BitsPerComponent 8 /Mask [97 98]", "abcd");
  const string images[] = { cat("Is ", soft), cat("Iv ", inverted), cat("Ie ", masked), cat("If ", masked2),
    cat("Ic ", colorMasked), cat("It ", soft2) };
  // The names of the fonts on a page.
  auto fontName = [&](size_t font, size_t page) -> const string& {
    return fonts[(font + page * enc.rotateFonts) % fonts.size()].res;
  };
  auto resources = [&](const string& forms, size_t page) {
    string fontRes;
    for (size_t i = 0; i < fonts.size(); i++) {
      fontRes += cat(" /", enc.prefix, fontName(i, page), " ", fontObjs[i], " 0 R");
    }
    string imageRes;
    for (auto& i : images) { imageRes += cat("/", enc.prefix, i, " 0 R "); }
    return cat("<< /Font <<", fontRes, " >> /XObject << /", enc.prefix, "Im ", image, " 0 R /", enc.prefix, "Ma ", mask,
      " 0 R ", imageRes, forms, " >> /ExtGState << /", enc.prefix, "G1 << /CA 0.5 >> >> >>");
  };
  int res = file.add(resources("", 0));
  bool same = true;
  for (auto& p : pages) {
    same = same && p.x0 == pages[0].x0 && p.y0 == pages[0].y0 && p.w == pages[0].w && p.h == pages[0].h
        && p.rotate == pages[0].rotate;
  }
  bool inherit = enc.inherit && same && !pages.empty();
  auto box = [](const EPage& p) {
    return cat("/MediaBox [", num(p.x0), " ", num(p.y0), " ", num(p.x0 + p.w), " ", num(p.y0 + p.h), "]",
        p.rotate ? cat(" /Rotate ", p.rotate) : "");
  };
  string kids;
  for (size_t pi = 0; pi < pages.size(); pi++) {
    auto& p = pages[pi];
    std::map<string, string> fontNames;
    for (size_t i = 0; i < fonts.size(); i++) { fontNames[fonts[i].res] = fontName(i, pi); }
    auto lines = rewrite(p.content, enc, fontNames);
    int pageRes = pi > 0 && enc.rotateFonts > 0 ? file.add(resources("", pi)) : res;
    for (int f = 0; f < enc.forms; f++) {
      string all;
      for (auto& l : lines) { all += l; }
      int form = addEncoded(&file, enc, cat("/Type /XObject /Subtype /Form /BBox [", num(p.x0), " ", num(p.y0), " ",
          num(p.x0 + p.w), " ", num(p.y0 + p.h), "] /Resources ", pageRes, " 0 R"), all);
      pageRes = file.add(resources(cat("/Fm", f, " ", form, " 0 R"), pi));
      lines = { cat("/Fm", f, " Do\n") };
    }
    string contents;
    size_t pos = 0;
    for (int k = 0; k < enc.streams; k++) {
      string part;
      size_t end = k + 1 == enc.streams ? lines.size() : lines.size() * (k + 1) / enc.streams;
      for (; pos < end; pos++) { part += lines[pos]; }
      contents += cat(addEncoded(&file, enc, "", part), " 0 R ");
    }
    if (enc.streams > 1) { contents = "[" + contents + "]"; }
    int parent = enc.nestedTree ? file.reserve() : tree;
    bool ownRes = !inherit || pageRes != res;
    int id = file.add(cat("<< /Type /Page /Parent ", parent, " 0 R ", inherit ? "" : box(p), " ",
        ownRes ? cat("/Resources ", enc.ownResources && pageRes == res ? resources("", pi) : cat(pageRes, " 0 R")) : "",
        " /Contents ", contents, p.annots, " >>"));
    if (enc.nestedTree) {
      file.set(parent, cat("<< /Type /Pages /Parent ", tree, " 0 R /Count 1 /Kids [", id, " 0 R] >>"));
      id = parent;
    }
    kids += cat(" ", id, " 0 R");
  }
  file.set(tree, cat("<< /Type /Pages /Count ", pages.size(), " /Kids [", kids, " ] ",
      inherit ? cat(box(pages[0]), " /Resources ", res, " 0 R") : "", " >>"));
  file.set(root, cat("<< /Type /Catalog /Pages ", tree, " 0 R >>"));
  return file.finish(root, enc.order);
}

// -------------------------------------------------------------------------------------------------

Canvas::Canvas(PdfGen* gen, EPage* page) : _gen(gen), _page(page) {
  double x1 = page->x0, y1 = page->y0, x2 = page->x0 + page->w, y2 = page->y0 + page->h;
  switch (page->rotate) {
    case 90: _s.ctm = { 0, 1, 1, 0, -y1, -x1 }; break;
    case 180: _s.ctm = { -1, 0, 0, 1, x2, -y1 }; break;
    case 270: _s.ctm = { 0, -1, -1, 0, y2, x2 }; break;
    default: _s.ctm = { 1, 0, 0, -1, -x1, y2 }; break;
  }
  _s.clip = { 0, 0, page->width(), page->height() };
}

void Canvas::save() { _stack.push_back(_s); _page->content += "q\n"; }

void Canvas::restore() {
  if (_stack.empty()) { return; }
  _s = _stack.back();
  _stack.pop_back();
  _page->content += "Q\n";
}

void Canvas::concat(const Mat& m) {
  _s.ctm = mul(m, _s.ctm);
  _page->content += cat(num(m.a), " ", num(m.b), " ", num(m.c), " ", num(m.d), " ", num(m.e), " ", num(m.f), " cm\n");
}

void Canvas::strokeColor(double r, double g, double b) {
  _s.rgb[0] = r;
  _s.rgb[1] = g;
  _s.rgb[2] = b;
  _page->content += cat(num(r), " ", num(g), " ", num(b), " RG\n");
}

void Canvas::fillColor(double r, double g, double b) {
  _page->content += cat(num(r), " ", num(g), " ", num(b), " rg\n");
}

void Canvas::strokeAlphaHalf() {
  _s.alpha = 0.5;
  _page->content += "/G1 gs\n";
}

void Canvas::clipRect(double x, double y, double w, double h) {
  double x1 = DBL_MAX, y1 = DBL_MAX, x2 = -DBL_MAX, y2 = -DBL_MAX;
  for (double px : { x, x + w }) {
    for (double py : { y, y + h }) {
      double dx, dy;
      apply(_s.ctm, px, py, &dx, &dy);
      x1 = std::min(x1, dx);
      y1 = std::min(y1, dy);
      x2 = std::max(x2, dx);
      y2 = std::max(y2, dy);
    }
  }
  _s.clip.x1 = std::max(_s.clip.x1, x1);
  _s.clip.y1 = std::max(_s.clip.y1, y1);
  _s.clip.x2 = std::min(_s.clip.x2, x2);
  _s.clip.y2 = std::min(_s.clip.y2, y2);
  _page->content += cat(num(x), " ", num(y), " ", num(w), " ", num(h), " re W n\n");
}

void Canvas::beginText() { _tm = _lm = Mat(); _page->content += "BT\n"; }
void Canvas::endText() { _page->content += "ET\n"; }

void Canvas::font(size_t f, double size) {
  _s.font = f;
  _s.size = size;
  _s.fontSet = true;
  _page->content += cat("/", _gen->fonts[f].res, " ", num(size), " Tf\n");
}

void Canvas::charSpace(double v) { _s.charSpace = v; _page->content += num(v) + " Tc\n"; }
void Canvas::wordSpace(double v) { _s.wordSpace = v; _page->content += num(v) + " Tw\n"; }
void Canvas::horizScale(double p) { _s.scale = p / 100; _page->content += num(p) + " Tz\n"; }
void Canvas::rise(double v) { _s.rise = v; _page->content += num(v) + " Ts\n"; }
void Canvas::leading(double v) { _s.leading = v; _page->content += num(v) + " TL\n"; }

void Canvas::textMatrix(const Mat& m) {
  _tm = _lm = m;
  _page->content += cat(num(m.a), " ", num(m.b), " ", num(m.c), " ", num(m.d), " ", num(m.e), " ", num(m.f), " Tm\n");
}

void Canvas::moveText(double tx, double ty) {
  _tm = _lm = mul({ 1, 0, 0, 1, tx, ty }, _lm);
  _page->content += cat(num(tx), " ", num(ty), " Td\n");
}

void Canvas::nextLine() {
  _tm = _lm = mul({ 1, 0, 0, 1, 0, -_s.leading }, _lm);
  _page->content += "T*\n";
}

void Canvas::showText(const vector<size_t>& glyphs) {
  const GFont& f = _gen->fonts[_s.font];
  string bytes;
  for (size_t i : glyphs) {
    const GGlyph& g = f.glyphs[i];
    if (f.twoBytes()) { bytes += static_cast<char>(g.code >> 8); }
    bytes += static_cast<char>(g.code & 0xff);
    glyph(g);
  }
  _page->content += hexStr(bytes) + " Tj\n";
}

void Canvas::showText(const vector<size_t>& glyphs, const vector<double>& adjust) {
  const GFont& f = _gen->fonts[_s.font];
  string out = "[";
  for (size_t k = 0; k < glyphs.size(); k++) {
    const GGlyph& g = f.glyphs[glyphs[k]];
    string bytes;
    if (f.twoBytes()) { bytes += static_cast<char>(g.code >> 8); }
    bytes += static_cast<char>(g.code & 0xff);
    glyph(g);
    double v = k < adjust.size() ? adjust[k] : 0;
    out += hexStr(bytes) + (v != 0 ? " " + num(v) : "") + " ";
    double t = -v / 1000 * _s.size;
    if (f.kind == FontKind::VERTICAL) { _tm = mul({ 1, 0, 0, 1, 0, t }, _tm); }
    else { _tm = mul({ 1, 0, 0, 1, t * _s.scale, 0 }, _tm); }
  }
  _page->content += out + "] TJ\n";
}

/** Advances the text matrix, and stores what is expected for a glyph. */
void Canvas::glyph(const GGlyph& gl) {
  const GFont& f = _gen->fonts[_s.font];
  bool vertical = f.kind == FontKind::VERTICAL;
  Mat trm = mul({ _s.size * _s.scale, 0, 0, _s.size, 0, _s.rise }, mul(_tm, _s.ctm));
  Mat dir = mul(_tm, _s.ctm);
  double advance;
  if (vertical) {
    // The default displacement is one unit downwards.
    advance = -1.0 * _s.size + _s.charSpace;
  } else {
    bool space = !f.twoBytes() && gl.code == 32;
    advance = (gl.width / 1000 * _s.size + _s.charSpace + (space ? _s.wordSpace : 0)) * _s.scale;
  }
  if (!gl.white) {
    EChar c;
    c.text = gl.text;
    c.us = gl.us;
    c.name = f.twoBytes() ? "" : gl.name;
    c.font = f.baseName;
    c.clip = _s.clip;
    c.fs = std::hypot(dir.c, dir.d) * _s.size;
    for (int i = 0; i < 3; i++) { c.rgb[i] = _s.rgb[i]; }
    c.opacity = _s.alpha;
    c.wMode = vertical;
    // The direction of reading: to the right, downwards, to the left, upwards.
    if (std::fabs(dir.a * dir.d) > std::fabs(dir.b * dir.c)) { c.rot = dir.a > 0 ? 0 : 2; }
    else { c.rot = dir.c > 0 ? 1 : 3; }
    double x0, y0, x1, y1;
    apply(trm, 0, 0, &x0, &y0);
    apply(trm, gl.width / 1000, 0, &x1, &y1);
    double up = 0.95 * c.fs, down = 0.35 * c.fs;
    if (vertical) {
      c.rot = (c.rot + 1) & 3;
      c.base = 0;
      c.x1 = c.rot == 1 || c.rot == 2 ? x0 : x0 - c.fs;
      c.y1 = c.rot == 1 ? y0 - c.fs : y0;
      if (c.rot == 0) { c.y1 = y0 - c.fs; }
      c.x2 = c.x1 + c.fs;
      c.y2 = c.y1 + c.fs;
    } else {
      switch (c.rot) {
        case 0: c.x1 = x0; c.x2 = x1; c.y1 = y0 - up; c.y2 = y0 + down; c.base = y0; break;
        case 1: c.y1 = y0; c.y2 = y1; c.x1 = x0 - down; c.x2 = x0 + up; c.base = x0; break;
        case 2: c.x1 = x1; c.x2 = x0; c.y1 = y0 - down; c.y2 = y0 + up; c.base = y0; break;
        case 3: c.y1 = y1; c.y2 = y0; c.x1 = x0 - up; c.x2 = x0 + down; c.base = x0; break;
      }
    }
    c.rank = g_rank++;
    _page->chars.push_back(c);
  }
  _tm = vertical ? mul({ 1, 0, 0, 1, 0, advance }, _tm) : mul({ 1, 0, 0, 1, advance, 0 }, _tm);
}

void Canvas::path(const vector<pair<double, double>>& pts, bool curve, const string& op, size_t split) {
  string s = cat(num(pts[0].first), " ", num(pts[0].second), " m\n");
  vector<pair<double, double>> used = { pts[0] };
  for (size_t i = 1; i < pts.size(); ) {
    if (curve && i + 2 < pts.size() && i != split) {
      for (int k = 0; k < 3; k++) { s += cat(num(pts[i + k].first), " ", num(pts[i + k].second), " "); used.push_back(pts[i + k]); }
      s += "c\n";
      i += 3;
    } else {
      bool move = split > 1 && i == split && i + 1 < pts.size();
      s += cat(num(pts[i].first), " ", num(pts[i].second), move ? " m\n" : " l\n");
      used.push_back(pts[i]);
      i++;
    }
  }
  _page->content += s + op + "\n";
  paint(used, op);
}

void Canvas::segments(const vector<pair<double, double>>& pts, const string& op) {
  string s;
  for (size_t i = 0; i < pts.size(); i++) {
    s += cat(num(pts[i].first), " ", num(pts[i].second), i % 2 == 0 ? " m\n" : " l\n");
  }
  _page->content += s + op + "\n";
  paint(pts, op);
}

std::pair<double, double> Canvas::invert(double x, double y) const {
  const Mat& m = _s.ctm;
  double det = m.a * m.d - m.b * m.c;
  double dx = x - m.e, dy = y - m.f;
  return { (dx * m.d - dy * m.c) / det, (dy * m.a - dx * m.b) / det };
}

void Canvas::rect(double x, double y, double w, double h, const string& op) {
  _page->content += cat(num(x), " ", num(y), " ", num(w), " ", num(h), " re ", op, "\n");
  paint({ { x, y }, { x + w, y }, { x + w, y + h }, { x, y + h } }, op);
}

void Canvas::paint(const vector<pair<double, double>>& pts, const string& op) {
  int times = op == "n" ? 0 : op[0] == 'B' || op[0] == 'b' ? 2 : 1;  // Filled and stroked.
  for (int t = 0; t < times; t++) {
    EBox b{ DBL_MAX, DBL_MAX, -DBL_MAX, -DBL_MAX, _s.clip, 0 };
    bool any = false;
    for (auto& p : pts) {
      double x, y;
      apply(_s.ctm, p.first, p.second, &x, &y);
      double d[4] = { x - _s.clip.x1, y - _s.clip.y1, _s.clip.x2 - x, _s.clip.y2 - y };
      // Points too close to the border of the clip box may be inside or outside.
      for (double v : d) { if (v > -0.05 && v < 0.25) { discard(); } }
      if (d[0] < 0 || d[1] < 0 || d[2] < 0 || d[3] < 0) { continue; }
      any = true;
      b.x1 = std::min(b.x1, x);
      b.y1 = std::min(b.y1, y);
      b.x2 = std::max(b.x2, x);
      b.y2 = std::max(b.y2, y);
    }
    if (!any) { continue; }
    b.rank = g_rank++;
    _page->shapes.push_back(b);
  }
}

void Canvas::image(bool isInline, bool mask, int kind) {
  static const char* const kinds[] = { "Is", "Iv", "Ie", "If", "Ic", "It" };
  if (kind > 0) {
    _page->content += cat("/", kinds[kind - 1], " Do\n");
  } else if (isInline) {
    _page->content += mask ? "BI /W 1 /H 1 /IM true /BPC 1 ID \x80 EI\n" : "BI /W 1 /H 1 /CS /G /BPC 8 ID \x7f EI\n";
  } else {
    _page->content += mask ? "/Ma Do\n" : "/Im Do\n";
  }
  EBox b{ DBL_MAX, DBL_MAX, -DBL_MAX, -DBL_MAX, _s.clip, 0 };
  for (double x : { 0.0, 1.0 }) {
    for (double y : { 0.0, 1.0 }) {
      double dx, dy;
      apply(_s.ctm, x, y, &dx, &dy);
      b.x1 = std::min(b.x1, dx);
      b.y1 = std::min(b.y1, dy);
      b.x2 = std::max(b.x2, dx);
      b.y2 = std::max(b.y2, dy);
    }
  }
  const Clip& c = _s.clip;
  // Too close to the border of the clip box.
  for (double d : { b.x2 - c.x1, b.y2 - c.y1, c.x2 - b.x1, c.y2 - b.y1 }) { if (d > -0.25 && d < 0.25) { discard(); } }
  if (b.x2 < c.x1 || b.y2 < c.y1 || b.x1 > c.x2 || b.y1 > c.y2) { return; }
  // Whether graphics that are partially visible in horizontal direction are recorded is not specified.
  if (b.x1 < c.x1 + 0.25 || b.x2 > c.x2 - 0.25) { discard(); }
  b.y1 = std::max(b.y1, c.y1);
  b.y2 = std::min(b.y2, c.y2);
  b.rank = g_rank++;
  _page->graphics.push_back(b);
}

}  // namespace ppv
