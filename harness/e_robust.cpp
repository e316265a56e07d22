// C19: any input is either processed or rejected; the process never fails.
#include <cmath>
#include <fstream>
#include <iterator>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "./article.h"
#include "./docgen.h"
#include "./e2e.h"
#include "./json.h"
#include "./pagegen.h"
#include "./pbt.h"
#include "./pdfgen.h"
#include "./type1.h"
#include "PdfDocumentVisualization.h"
#include "PdfToTextPlusPlus.h"
#include "serializers/JsonlSerializer.h"
#include "serializers/PlainTextExtendedSerializer.h"
#include "serializers/PlainTextSerializer.h"
#include "utils/PdfElementsUtils.h"

using std::string;
using std::unordered_set;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::types::PdfDocument;
using ppp::types::PdfElementType;
using ppp::types::SemanticRole;

namespace {

/** A number for a content stream, mostly an unusual one. */
string oddNumber(Gen& g) {
  static const vector<string> odd = { "0", "-1", "1", "0.0001", "-0.5", "100000", "-100000", "1e10", "99999999999",
      "-2147483648", "2147483647", "4294967296", "1000000000000000000000", "-99999999999999999999999", ".", "-", "--3",
      "0.00000000000000000001", "null", "true", "/X", "(x)", "[1 2]", "<<>>", "3.4028236e38", "nan", "inf" };
  return g.chance(60) ? g.pick(odd) : num(g.around(-2000, 2000) / 4.0);
}

vector<string> split(const string& s, char sep) {
  vector<string> res;
  std::istringstream in(s);
  for (string t; std::getline(in, t, sep); ) { res.push_back(t); }
  return res;
}

string join(const vector<string>& v, char sep) {
  string s;
  for (auto& t : v) { s += t + sep; }
  return s;
}

bool isNumber(const string& t) {
  return !t.empty() && t.find_first_not_of("+-.0123456789") == string::npos;
}

/** Lines that are inserted into content streams. */
string oddLine(Gen& g) {
  auto n = [&] { return oddNumber(g) + " "; };
  switch (g.below(30)) {
    case 0: return "q";
    case 1: return "Q";
    case 2: return "BT";
    case 3: return "ET";
    case 4: return n() + n() + n() + n() + n() + n() + "cm";
    case 5: return n() + n() + n() + n() + n() + n() + "Tm";
    case 6: return "0 0 0 0 0 0 cm";
    case 7: return "0 0 0 0 100 100 Tm";
    case 8: return "1 1 1 1 100 100 Tm";
    case 9: return "/Unknown " + n() + "Tf";
    case 10: return "/F0 " + n() + "Tf";
    case 11: return n() + "Tr";
    case 12: return n() + "Tz";
    case 13: return n() + n() + "Td";
    case 14: return n() + n() + n() + n() + "re W n";
    case 15: return "W* n";
    case 16: return n() + n() + n() + n() + "re f";
    case 17: return n() + n() + "m " + n() + n() + "l S";
    case 18: return n() + n() + n() + n() + n() + n() + "c B*";
    case 19: return "BI /W " + n() + "/H " + n() + "/BPC 8 /CS /G ID abc EI";
    case 20: return "/Im0 Do";
    case 21: return "/Span << /ActualText (x) >> BDC";
    case 22: return "EMC";
    case 23: return "<000102FEFF> Tj";
    case 24: return "[ (A) " + n() + "(B) " + n() + "] TJ";
    case 25: return "[ <41> -99999999 <42> 99999999 <43> ] TJ";
    case 26: return "(unterminated Tj";
    case 27: return n() + "w " + n() + "Tc " + n() + "Tw " + n() + "Ts " + n() + "TL T*";
    case 28: return "/Pattern cs /P0 scn " + n() + n() + n() + "rg";
    default: return n() + n() + "(x) \" (y) ' sh d0 " + n() + "d1";
  }
}

/** Changes a content stream. */
void mutateContent(Gen& g, string* content) {
  vector<string> lines = split(*content, '\n');
  for (int i = g.range(1, 6); i > 0; i--) {
    size_t pos = lines.empty() ? 0 : g.below(lines.size());
    switch (g.below(6)) {
      case 0:
      case 1: {  // Another number.
        if (lines.empty()) { break; }
        vector<string> tokens = split(lines[pos], ' ');
        if (tokens.empty()) { break; }
        size_t k = g.below(tokens.size());
        for (size_t j = 0; j < tokens.size() && !isNumber(tokens[k]); j++) { k = (k + 1) % tokens.size(); }
        if (isNumber(tokens[k])) { tokens[k] = oddNumber(g); }
        lines[pos] = join(tokens, ' ');
        break;
      }
      case 2: lines.insert(lines.begin() + pos, oddLine(g)); break;
      case 3: if (!lines.empty()) { lines.erase(lines.begin() + pos); } break;
      case 4: if (!lines.empty()) { std::swap(lines[pos], lines[g.below(lines.size())]); } break;
      default: {
        if (lines.empty()) { break; }
        size_t to = std::min(lines.size(), pos + g.range(1, 5));
        vector<string> part(lines.begin() + pos, lines.begin() + to);
        lines.insert(lines.begin() + g.below(lines.size()), part.begin(), part.end());
      }
    }
  }
  *content = join(lines, '\n');
}

/** Changes the bytes of a file. */
void mutateBytes(Gen& g, string* s) {
  static const vector<string> tokens = { "endobj", "endstream", "stream\n", "obj", " 0 R", "<<", ">>", "[", "]", "(",
      ")", "/Type /Page", "/Kids", "/Count 1000000", "/Length 0", "/Length 99999999", "/MediaBox [0 0 0 0]",
      "/MediaBox [0 0 1e9 1e9]", "/MediaBox [612 792 0 0]", "/CropBox [10 10 20 20]", "/Rotate 90", "/Rotate 45",
      "/Filter /FlateDecode", "/UserUnit 100", "/Annots [1 0 R]", "xref", "trailer", "startxref", "%%EOF",
      "/Encoding /Unknown", "/FirstChar 9999", "/LastChar -5", "/Widths [1e9]", "/FontBBox [0 0 0 0]",
      "/FontMatrix [0 0 0 0 0 0]", "/W [0 99999 1]", "/DW -1", "null", string(1, 0), "\xff\xfe" };
  for (int i = g.range(1, 5); i > 0 && !s->empty(); i--) {
    size_t pos = g.below(s->size());
    switch (g.below(7)) {
      case 0: (*s)[pos] = static_cast<char>(g.below(256)); break;
      case 1: s->insert(pos, g.pick(tokens)); break;
      case 2: s->erase(pos, g.small(1, 200)); break;
      case 3: {
        string part = s->substr(pos, g.small(1, 500));
        s->insert(g.below(s->size()), part);
        break;
      }
      case 4: if (g.chance(20)) { s->resize(pos); } break;
      default: {  // Another number.
        size_t from = s->find_first_of("0123456789", pos);
        if (from == string::npos) { break; }
        size_t to = s->find_first_not_of(".0123456789", from);
        s->replace(from, to == string::npos ? string::npos : to - from, oddNumber(g));
      }
    }
  }
}

/** Disables some of the modules. */
void disableModules(Gen& g, ppp::config::Config* c, Rec& r) {
  vector<bool*> flags = { &c->glyphsStatisticsCalculation.disabled, &c->wordsStatisticsCalculation.disabled,
      &c->textLinesStatisticsCalculation.disabled, &c->wordsDetection.disabled, &c->diacriticalMarksMerging.disabled,
      &c->pageSegmentation.disabled, &c->textLinesDetection.disabled, &c->subSuperScriptsDetection.disabled,
      &c->textBlocksDetection.disabled, &c->readingOrderDetection.disabled, &c->semanticRolesPrediction.disabled,
      &c->wordsDehyphenation.disabled, &c->pdfParsing.skipEmbeddedFontFilesParsing };
  int kind = g.weighted({ 60, 20, 20 });
  if (kind == 1) { *g.pick(flags) = true; }
  if (kind == 2) { for (auto* f : flags) { *f = g.chance(30); } }
  r.label("modules disabled", kind > 0);
}

string readFile(const string& path) {
  std::ifstream f(path, std::ios::binary);
  return string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

/** Writes a document in all formats, and its visualization. */
void writeAll(Gen& g, PdfDocument* doc) {
  static const vector<SemanticRole> roleList = ppp::utils::elements::getSemanticRoles();
  unordered_set<SemanticRole> roles(roleList.begin(), roleList.end());
  unordered_set<PdfElementType> types;
  for (int i = 0; i < 7; i++) { types.insert(static_cast<PdfElementType>(i)); }
  string path = scratchDir() + "/out";
  ppp::serialization::PlainTextSerializer().serialize(doc, roles, types, path);
  string txt = readFile(path);
  PPV_CHECK(validUtf8(txt), "the plain text is not UTF-8: ", quoted(txt));
  ppp::serialization::PlainTextExtendedSerializer().serialize(doc, roles, types, path);
  txt = readFile(path);
  PPV_CHECK(validUtf8(txt), "the extended text is not UTF-8: ", quoted(txt));
  ppp::serialization::JsonlSerializer(1).serialize(doc, roles, types, path);
  std::istringstream lines(readFile(path));
  for (string line; std::getline(lines, line); ) { Json::parse(line); }
  // Poppler needs time quadratic in the number of annotations.
  size_t n = 0;
  for (auto* p : doc->pages) { n += p->characters.size() + p->words.size() + p->readingOrderCuts.size(); }
  if (n < 3000 && g.chance(10)) {
    static const ppp::config::Config config = fullConfig();
    ppp::visualization::PdfDocumentVisualization v(doc->pdfFilePath, config.pdfDocumentVisualization);
    const auto& cs = ppp::visualization::color_schemes::blue;
    v.visualizeCharacters(*doc, cs);
    v.visualizeFigures(*doc, cs);
    v.visualizeShapes(*doc, cs);
    v.visualizeGraphics(*doc, cs);
    v.visualizeWords(*doc, cs);
    v.visualizeTextLines(*doc, cs);
    v.visualizeTextBlocks(*doc, cs);
    v.visualizePageSegments(*doc, cs);
    v.visualizeReadingOrder(*doc, cs);
    v.visualizeSegmentCuts(*doc, cs);
    v.visualizeReadingOrderCuts(*doc, cs);
    v.save(path);
  }
}

void run(Gen& g, Rec& r, const string& bytes) {
  ppp::config::Config config = fullConfig();
  disableModules(g, &config, r);
  PdfDocument doc;
  int res = process(&doc, bytes, config);
  if (res == 0) {
    size_t n = 0;
    for (auto* p : doc.pages) { n += p->characters.size(); }
    r.label("processed");
    r.nontrivial(n > 0);
    writeAll(g, &doc);
  } else {
    r.label("rejected");
    PPV_CHECK(res > 0 && res < 256, "the error code is ", res);
    PPV_CHECK(doc.pages.empty(), "there are pages of a rejected file");
  }
}

void basePdf(Gen& g, Rec& r, PdfGen* pdf) {
  if (g.chance(25)) {
    g_rank = 0;
    Article a;
    makeArticle(g, pdf, &a, &r);
    writeArticle(g, a, makeStyle(g), pdf);
    r.label("article");
  } else {
    anyDocument(g, pdf, &r);
  }
  if (g.chance(30)) {  // An embedded font.
    GFont& font = pdf->fonts[0];
    T1Font t1;
    t1.clear = "%!PS-AdobeFont-1.0: Test 003.002\n11 dict begin\n/FontType 1 def\n/FontMatrix [0.001 0 0 0.001 0 0]"
        "readonly def\n/Encoding StandardEncoding def\n/FontName /Test def\ncurrentdict end\ncurrentfile eexec\n";
    for (int i = g.range(1, 5); i > 0; i--) {
      const auto& gl = g.pick(font.glyphs);
      if (gl.name.empty()) { continue; }
      T1Box box;
      t1.glyphs.push_back({ gl.name, t1Glyph(g, {}, 0, &box, &r) });
    }
    t1.form = static_cast<T1Form>(g.below(5));
    font.type1 = t1Build(g, t1, &font.length1, &font.length2);
    r.label("embedded font");
  }
}

}  // namespace

PPV_PROP("C19", "content", 2500, 200000,
    "PDF files of 1-3 pages (an article, or any text, paths, images and clip paths, maybe with an embedded font), after "
    "1-6 changes of the content stream of a page (numbers replaced by extreme or invalid ones, operators with any "
    "operands inserted, lines deleted, swapped, duplicated), processed with any modules disabled. The process must not "
    "crash, must end, and all formats must be well-formed. Non-trivial: the result contains a character.") {
  initPoppler();
  PdfGen pdf;
  basePdf(g, r, &pdf);
  for (auto& p : pdf.pages) { if (g.chance(80)) { mutateContent(g, &p.content); } }
  Encoding enc;
  enc.forms = g.chance(20);
  string bytes = pdf.build(enc);
  r.showIf([&] { return bytes; });
  run(g, r, bytes);
}

PPV_PROP("C19", "bytes", 2500, 200000,
    "the same kind of files, after 1-5 changes of their bytes (changed, deleted, duplicated, inserted keywords, changed "
    "numbers, truncation), so that they may not be PDF files anymore. As above; a rejected file must be reported by a "
    "positive error code, and must not yield pages. Non-trivial: the result contains a character.") {
  initPoppler();
  PdfGen pdf;
  basePdf(g, r, &pdf);
  Encoding enc;
  enc.filter = g.chance(30) ? 2 : 0;
  enc.literal = g.chance(50);
  string bytes = pdf.build(enc);
  if (g.chance(3)) {
    bytes.clear();
    for (int i = g.small(0, 300); i > 0; i--) { bytes += static_cast<char>(g.below(256)); }
    r.label("not a PDF file");
  } else {
    mutateBytes(g, &bytes);
  }
  r.showIf([&] { return bytes; });
  run(g, r, bytes);
}
