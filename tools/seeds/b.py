seed("lines-order-no-dehyphenation", "C02",
  "The dehyphenation is disabled (--no-dehyphenation), and the reading order of the blocks of a page "
  "differs from the order in which the lines were detected (for example, rotated text above other text).",
  "The lines of a page are only put into the order of the blocks if words are dehyphenated; otherwise "
  "they remain in the order in which they were detected.",
  [("src/PdfToTextPlusPlus.cpp", """      timings->push_back(Timing("Dehyphenate words", duration));
    }
  }
""", """      timings->push_back(Timing("Dehyphenate words", duration));
    }
  } else {
    return 0;
  }
""")], r'''
#include "PdfToTextPlusPlus.h"
int main() {
  for (bool disabled : { false, true }) {
    static ppp::config::Config config;
    config.semanticRolesPrediction.disabled = true;
    config.wordsDehyphenation.disabled = disabled;
    // On each page, one line of horizontal text, and one of rotated text, directly above or below.
    for (int i = 0; i < 2; i++) {
      string rotated = i == 0 ? "0 1 -1 0 100 512 Tm (Cdefgh) Tj" : "0 1 -1 0 100 465 Tm (Cdefgh) Tj";
      writePdf("a.pdf", "BT /F1 10 Tf 1 0 0 1 90 500 Tm (Abcdefgh) Tj " + rotated + " ET",
          "/F1 << /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>");
      PdfDocument* doc = new PdfDocument("a.pdf");
      ppp::PdfToTextPlusPlus engine(&config);
      EXPECT(engine.process(doc, nullptr) == 0);
      PdfPage* p = doc->pages.at(0);
      vector<PdfTextLine*> lines;
      for (auto* b : p->blocks) { lines.insert(lines.end(), b->lines.begin(), b->lines.end()); }
      fprintf(stderr, "%zu %zu %s\n", p->segments.size(), p->blocks.size(), p->blocks[0]->text.c_str());
      EXPECT(lines.size() >= 2 && lines == p->textLines);
    }
  }
  return 0;
}
''', stub=True)

seed("merged-line-parent", "C02",
  "Two parts of a line that have different lower edges and are merged in a later step (for example, a "
  "line with a superscript).",
  "The words of a part that is merged into another part of the line still refer to the (abandoned) part.",
  [("src/TextLinesDetection.cpp", """    // For each word, set the reference to the text line.
    word->line = line;
""", ""), ("src/TextLinesDetection.cpp", """  line->words = words;
""", """  line->words = words;
  for (auto* word : words) { word->line = line; }
""")], r'''
#include "TextLinesDetection.h"
int main() {
  static const ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->avgCharWidth = doc->avgCharHeight = 5;
  doc->mostFreqWordDistance = 4;
  PdfPage* p = page(doc);
  PdfPageSegment* s = new PdfPageSegment();
  s->doc = doc;
  s->pos->pageNum = 1;
  s->elements = { word(p, doc, "base", 100, 100, 140, 112, 10), word(p, doc, "2", 141, 97, 145, 106, 6) };
  p->segments.push_back(s);
  ppp::modules::TextLinesDetection(doc, &config.textLinesDetection).process();
  EXPECT(s->lines.size() == 1);
  for (auto* w : s->lines[0]->words) { EXPECT(w->line == s->lines[0]); }
  return 0;
}
''')

seed("block-box-rotated", "C03",
  "A block with several lines of rotated (or upside-down) text.",
  "The lower edge of a block is taken from its last line, since lines are sorted by their lower edges; "
  "but for rotated text, the last line is not the one with the lowest lower edge on the page.",
  [("src/utils/TextBlocksDetectionUtils.cpp", """    block->pos->lowerY = maximum(block->pos->lowerY, lineMaxY);
""", """    block->pos->lowerY = lineMaxY;
""")], r'''
#include "utils/TextBlocksDetectionUtils.h"
int main() {
  static const ppp::config::Config config;
  ppp::utils::TextBlocksDetectionUtils utils(&config.textBlocksDetection);
  for (int rot = 0; rot < 4; rot++) {
    PdfDocument* doc = new PdfDocument();
    PdfPage* p = page(doc);
    vector<PdfWord*> words;
    if (rot == 0) {
      words = { word(p, doc, "ab", 100, 100, 200, 110, 10, 0), word(p, doc, "cd", 100, 120, 150, 130, 10, 0) };
    } else if (rot == 1) {
      words = { word(p, doc, "ab", 100, 100, 110, 200, 10, 1), word(p, doc, "cd", 120, 100, 130, 150, 10, 1) };
    } else if (rot == 2) {
      words = { word(p, doc, "ab", 100, 120, 200, 130, 10, 2), word(p, doc, "cd", 100, 100, 150, 110, 10, 2) };
    } else {
      words = { word(p, doc, "ab", 100, 100, 110, 200, 10, 3), word(p, doc, "cd", 120, 150, 130, 200, 10, 3) };
    }
    PdfPageSegment* s = new PdfPageSegment();
    vector<PdfTextLine*> lines;
    for (auto* w : words) { lines.push_back(line(doc, { w })); lines.back()->segment = s; }
    vector<PdfTextBlock*> blocks;
    utils.createTextBlock(lines, &blocks);
    fprintf(stderr, "%d %f\n", rot, blocks[0]->pos->lowerY);
    EXPECT(blocks[0]->pos->lowerY == max(words[0]->pos->lowerY, words[1]->pos->lowerY));
    EXPECT(blocks[0]->pos->upperY == min(words[0]->pos->upperY, words[1]->pos->upperY));
  }
  return 0;
}
''')

seed("figure-box-of-text", "C03",
  "A figure (clip area) that contains an image or a path first, and then text below it.",
  "Text does not extend the lower edge of the figure, so the figure does not include its captions.",
  [("src/PdfParsing.cpp", """      figure->pos->lowerY = maximum(figure->pos->lowerY, ch->pos->lowerY);
""", "")], r'''
int main() {
  writePdf("a.pdf", "q 100 100 300 300 re W n BT /F1 10 Tf 1 0 0 1 110 350 Tm (A) Tj 1 0 0 1 150 200 Tm (B) Tj "
      "ET Q", "/F1 << /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>");
  PdfDocument* doc = new PdfDocument();
  parsePdf("a.pdf", doc);
  EXPECT(doc->pages.size() == 1 && doc->pages[0]->figures.size() == 1);
  PdfFigure* f = doc->pages[0]->figures[0];
  EXPECT(f->characters.size() == 2);
  EXPECT(f->pos->lowerY == f->characters[1]->pos->lowerY);
  return 0;
}
''')

seed("single-character-page", "C01",
  "A page with a single character (for example, only a page number).",
  "The words of a page are only detected if the page has at least two characters; the text of other "
  "pages is lost.",
  [("src/WordsDetection.cpp", "  if (page->characters.empty()) {\n", "  if (page->characters.size() < 2) {\n")], r'''
#include "WordsDetection.h"
int main() {
  static const ppp::config::Config config;
  for (int n = 1; n < 4; n++) {
    PdfDocument* doc = new PdfDocument();
    PdfPage* p = page(doc);
    for (int i = 0; i < n; i++) { character(p, doc, string(1, 'a' + i), 100 + 5 * i, 100, 105 + 5 * i, 110); }
    ppp::modules::WordsDetection(doc, &config.wordsDetection).process();
    EXPECT(p->words.size() == 1 && p->words[0]->text == string("abc").substr(0, n));
  }
  return 0;
}
''')

seed("stacked-symbol-limits", "C01",
  "A large math symbol with text both above and below (such as a sum with two limits).",
  "Only the first part of a stacked math symbol is added to its line; the text of the others is lost.",
  [("src/TextLinesDetection.cpp", """          clusters[rotation][lowerY].push_back(w);
        }
""", """          clusters[rotation][lowerY].push_back(w);
          break;
        }
""")], r'''
#include "TextLinesDetection.h"
int main() {
  static const ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->avgCharWidth = doc->avgCharHeight = 5;
  doc->mostFreqWordDistance = 4;
  PdfPage* p = page(doc);
  PdfPageSegment* s = new PdfPageSegment();
  s->doc = doc;
  s->pos->pageNum = 1;
  PdfWord* base = word(p, doc, "S", 100, 100, 115, 115, 12);
  PdfWord* above = word(p, doc, "n", 105, 90, 110, 98, 6);
  PdfWord* below = word(p, doc, "k", 105, 118, 110, 126, 6);
  base->isBaseOfStackedMathSymbol = { above, below };
  above->isPartOfStackedMathSymbol = below->isPartOfStackedMathSymbol = base;
  s->elements = { above, base, below };
  p->segments.push_back(s);
  ppp::modules::TextLinesDetection(doc, &config.textLinesDetection).process();
  EXPECT(s->lines.size() == 1 && s->lines[0]->words.size() == 3);
  return 0;
}
''')

CLI = r'''
#include <sys/stat.h>
#include <sys/wait.h>
static int run(const string& args) {
  int rc = system(("timeout 50 ./cli " + args).c_str());
  return WIFEXITED(rc) ? WEXITSTATUS(rc) : 255;
}
static string slurp(const string& path) {
  ifstream f(path, ios::binary);
  stringstream s;
  s << f.rdbuf();
  return s.str();
}
'''

seed("exit-code-open-error", "C18",
  "The PDF file does not exist or cannot be opened (the error code is then 1, not larger as for damaged "
  "files).",
  "The error code 1 is taken for success: the program writes an empty text and exits with 0.",
  [("src/pdftotext++.cpp", "  if (status > 0) {\n", "  if (status > 1) {\n")], CLI + r'''
int main() {
  EXPECT(run("--skip-semantic-roles-prediction missing.pdf out.txt >o 2>e") > 0);
  struct stat st;
  EXPECT(stat("out.txt", &st) != 0);
  ofstream("bad.pdf") << "no pdf";
  EXPECT(run("--skip-semantic-roles-prediction bad.pdf out.txt >o 2>e") > 0);
  EXPECT(stat("out.txt", &st) != 0);
  return 0;
}
''', cli=True)

seed("skip-words-stats-page-segmentation", "C18",
  "The option --skip-words-statistics-calculation together with a document whose lines have other distances "
  "than usual.",
  "Skipping the statistics about words also skips the statistics about lines.",
  [("src/pdftotext++.cpp", "conf.textLinesStatisticsCalculation.disabled = skipLineStatisticsCalculation;",
    "conf.textLinesStatisticsCalculation.disabled = skipLineStatisticsCalculation ||\n"
    "      skipWordsStatisticsCalculation;")], CLI + r'''
#include "PdfToTextPlusPlus.h"
#include "serializers/PlainTextSerializer.h"
int main() {
  string content = "BT /F1 10 Tf ";
  int y = 700;
  for (int i = 0; i < 5; i++, y -= 24) {
    content += "1 0 0 1 100 " + to_string(y) + " Tm (Some text that is as wide as the other lines) Tj ";
  }
  writePdf("a.pdf", content + "ET", "/F1 << /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>");
  // The expected text.
  static ppp::config::Config config;
  config.semanticRolesPrediction.disabled = true;
  config.wordsStatisticsCalculation.disabled = true;
  PdfDocument* doc = new PdfDocument("a.pdf");
  ppp::PdfToTextPlusPlus engine(&config);
  EXPECT(engine.process(doc, nullptr) == 0);
  unordered_set<SemanticRole> roles;
  for (auto* b : doc->pages.at(0)->blocks) { roles.insert(b->role); }
  unordered_set<PdfElementType> types;
  ppp::serialization::PlainTextSerializer().serialize(doc, roles, types, "expected.txt");
  EXPECT(run("--skip-semantic-roles-prediction --skip-words-statistics-calculation a.pdf out.txt >o 2>e") == 0);
  string a = slurp("out.txt"), b = slurp("expected.txt");
  fprintf(stderr, "%s---\n%s", a.c_str(), b.c_str());
  EXPECT(!b.empty() && a == b);
  return 0;
}
''', stub=True, cli=True)

seed("document-without-word-gaps", "C19",
  "A document with words, but without any two neighboring words in the same line.",
  "The most frequent word distance is requested from an empty counter, which throws an exception that "
  "nobody catches.",
  [("src/WordsStatisticsCalculation.cpp", """    _doc->mostFreqWordHeight = wordHeightCounter.mostFreq();
  }

  if (horizontalGapCounter.sumCounts() > 0) {
    _doc""", """    _doc->mostFreqWordHeight = wordHeightCounter.mostFreq();
  }

  if (horizontalGapCounter.sumCounts() + verticalGapCounter.sumCounts() > 0) {
    _doc""")], r"""
#include "PdfToTextPlusPlus.h"
int main() {
  for (string text : { "(Two words) Tj", "(One) Tj", "(One) Tj 1 0 0 1 100 400 Tm (word) Tj 1 0 0 1 100 300 Tm (each) Tj" }) {
    static ppp::config::Config config;
    config.semanticRolesPrediction.disabled = true;
    writePdf("a.pdf", "BT /F1 10 Tf 1 0 0 1 100 500 Tm " + text + " ET",
        "/F1 << /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>");
    PdfDocument* doc = new PdfDocument("a.pdf");
    ppp::PdfToTextPlusPlus engine(&config);
    EXPECT(engine.process(doc, nullptr) == 0);
    EXPECT(doc->pages.at(0)->words.size() > 0);
  }
  return 0;
}
""", stub=True)

# The demonstration of vhcurveto-end also builds a Type 1 font.
TYPE1 = open(os.path.join(SEEDS, "a.py")).read()
TYPE1 = TYPE1[TYPE1.index("static string encrypt("):]

seed("type1-subr-without-argument", "C20",
  "An embedded Type 1 font whose char string calls a subroutine without a number on the stack.",
  "The empty argument stack is accessed (undefined behaviour).",
  [("src/utils/PdfFontInfoParser.cpp", """          if (args->size() >= 1) {
            int index = args->back();""", """          if (args->size() >= 1 || !subrs.empty()) {
            int index = args->back();""")], TYPE1[:TYPE1.index("  // A: 0 500 hsbw")] + r"""
  // A: callsubr without an argument, then 0 500 hsbw endchar
  string glyph = string("\x0a") + num(0) + num(500) + "\x0d" + "\x0e";
""" + TYPE1[TYPE1.index("  string notdef"):TYPE1.index("  EXPECT(doc->fontInfos.size() == 1)")] + r"""
  EXPECT(doc->pages.size() == 1 && doc->pages[0]->characters.size() == 1);
  return 0;
}
""")

seed("font-info-by-resource-name", "C21",
  "Two pages that use the same resource name for different fonts.",
  "The information about a font (metrics, weight, name) is looked up by the name of its resource, so the "
  "characters of the second page get the properties of the font of the first page.",
  [("src/PdfParsing.cpp", "  const optional<string> gooFontName = gfxFont->getName();\n",
    "  const optional<string> gooFontName = gfxFont->getTag();\n")], r'''
int main() {
  // Two pages, each with its own font called /F1.
  auto pageObj = [](int font) {
    return "<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Contents 4 0 R /Resources << /Font << /F1 " +
        to_string(font) + " 0 R >> >> >>";
  };
  writePdf("a.pdf", "BT /F1 10 Tf 1 0 0 1 100 600 Tm (A) Tj ET", "/F1 7 0 R", { pageObj(8),
      "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>",
      "<< /Type /Font /Subtype /Type1 /BaseFont /Courier-Bold >>" });
  // Add the second page to the page tree.
  ifstream in("a.pdf", ios::binary);
  stringstream ss;
  ss << in.rdbuf();
  string pdf = ss.str(), old = "/Kids [3 0 R] /Count 1";
  pdf.replace(pdf.find(old), old.size(), "/Kids[3 0 R 6 0 R]/Count 2");
  pdf.replace(pdf.find("startxref"), 9, "startxreF");  // Let poppler rebuild the offsets.
  ofstream("b.pdf", ios::binary) << pdf;
  PdfDocument* doc = new PdfDocument();
  parsePdf("b.pdf", doc);
  EXPECT(doc->pages.size() == 2);
  PdfCharacter* c1 = doc->pages[0]->characters.at(0);
  PdfCharacter* c2 = doc->pages[1]->characters.at(0);
  fprintf(stderr, "%s %s\n", c1->fontName.c_str(), c2->fontName.c_str());
  EXPECT(c1->fontName != c2->fontName);
  return 0;
}
''')

seed("footnote-labels-of-former-document", "C21",
  "Two documents are processed in the same process; the first has superscripts that occur at the starts "
  "of lines of the second.",
  "The potential footnote labels are kept from one document to the next.",
  [("src/TextBlocksDetection.h", "  unordered_set<string> _potentFnLabels;",
    "  inline static unordered_set<string> _potentFnLabels;")], r'''
#include "PdfToTextPlusPlus.h"
static string process(const string& path, const string& content) {
  static ppp::config::Config config;
  config.semanticRolesPrediction.disabled = true;
  writePdf(path, content, "/F1 << /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>");
  PdfDocument* doc = new PdfDocument(path);
  ppp::PdfToTextPlusPlus engine(&config);
  EXPECT(engine.process(doc, nullptr) == 0);
  string res;
  for (auto* p : doc->pages) { for (auto* b : p->blocks) { res += b->text + "\n"; } }
  return res;
}
int main() {
  string b = "BT /F1 10 Tf 1 0 0 1 100 515 Tm (Some other text that precedes the given lines.) Tj "
      "/F1 6 Tf 1 0 0 1 100 504 Tm (7) Tj /F1 10 Tf 1 0 0 1 103.4 500 Tm (first line of the footnote there) Tj "
      "1 0 0 1 100 485 Tm (second line of the footnote, which is longer) Tj ET";
  string a = "BT /F1 10 Tf 1 0 0 1 100 700 Tm (Some words with a label) Tj /F1 6 Tf 4 Ts (7) Tj "
      "/F1 10 Tf 0 Ts ( and more words) Tj ET";
  string before = process("b.pdf", b);
  process("a.pdf", a);
  string after = process("b.pdf", b);
  fprintf(stderr, "%s---\n%s", before.c_str(), after.c_str());
  EXPECT(before == after);
  return 0;
}
''', stub=True)

VIS = r'''
#include "PdfDocumentVisualization.h"
#include <poppler/Annot.h>
#include <poppler/Page.h>
/** The contents / colors of the annotations of the pages. */
static vector<vector<string>> annots(const string& path, Annot::AnnotSubtype type) {
  GooString p(path);
  unique_ptr<PDFDoc> pdf = PDFDocFactory().createPDFDoc(p);
  EXPECT(pdf->isOk());
  vector<vector<string>> res;
  for (int i = 1; i <= pdf->getNumPages(); i++) {
    res.push_back({});
    Annots* as = pdf->getPage(i)->getAnnots();
    for (Annot* a : as->getAnnots()) {
      if (a->getType() != type) { continue; }
      string s;
      if (a->getContents()) { for (char c : a->getContents()->toStr()) { if (isgraph((unsigned char) c) && (unsigned char) c < 128) { s += c; } } }
      res.back().push_back(s);
    }
  }
  return res;
}
'''

seed("cut-numbers-across-pages", "C28",
  "The cuts of at least two pages, of which the first has a chosen cut, are visualized.",
  "The numbers of the cuts of a page continue those of the former pages instead of starting with 1.",
  [("src/PdfDocumentVisualization.cpp", "  size_t chosenCutIndex = 0;\n", "  static size_t chosenCutIndex = 0;\n")],
  VIS + r'''
int main() {
  globalParams = make_unique<GlobalParams>();
  writePdf("a.pdf", "", "");
  PdfDocument* doc = new PdfDocument("a.pdf");
  static ppp::config::Config config;
  vector<Cut*> cuts;
  for (int i = 0; i < 3; i++) {
    Cut* c = new Cut(CutDir::X);
    c->id = "cut-" + to_string(i);
    c->pageNum = 1;
    c->x1 = c->x2 = 100 + 50 * i;
    c->y1 = 100;
    c->y2 = 500;
    c->isChosen = i != 1;
    cuts.push_back(c);
  }
  const auto& cs = ppp::visualization::color_schemes::blue;
  vector<vector<string>> res[2];
  for (int i = 0; i < 2; i++) {
    ppp::visualization::PdfDocumentVisualization pdv("a.pdf", config.pdfDocumentVisualization);
    pdv.visualizeReadingOrderCuts(cuts, cs);
    pdv.save("b.pdf");
    res[i] = annots("b.pdf", Annot::typeFreeText);
    for (auto& s : res[i][0]) { fprintf(stderr, "%s ", s.c_str()); }
    fprintf(stderr, "\n");
  }
  EXPECT(res[0][0].size() > 0 && res[0] == res[1]);
  return 0;
}
''')

seed("visualized-lines-without-blocks", "C28",
  "The text lines are visualized, and the detection of text blocks was skipped.",
  "Only text lines that belong to a block are visualized.",
  [("src/PdfDocumentVisualization.cpp", """      drawTextLineBoundingBoxes(segment->lines, cs);
""", """      for (const auto* block : segment->blocks) {
        drawTextLineBoundingBoxes(block->lines, cs);
      }
""")],
  VIS + r'''
#include "PdfToTextPlusPlus.h"
int main() {
  writePdf("a.pdf", "BT /F1 10 Tf 1 0 0 1 100 500 Tm (First line) Tj 1 0 0 1 100 480 Tm (Second line) Tj ET",
      "/F1 << /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>");
  for (bool disabled : { false, true }) {
    static ppp::config::Config config;
    config.semanticRolesPrediction.disabled = true;
    config.textBlocksDetection.disabled = disabled;
    PdfDocument* doc = new PdfDocument("a.pdf");
    ppp::PdfToTextPlusPlus engine(&config);
    EXPECT(engine.process(doc, nullptr) == 0);
    const auto& cs = ppp::visualization::color_schemes::blue;
    ppp::visualization::PdfDocumentVisualization pdv("a.pdf", config.pdfDocumentVisualization);
    pdv.visualizeTextLines(*doc, cs);
    pdv.save("b.pdf");
    auto res = annots("b.pdf", Annot::typeSquare);
    fprintf(stderr, "%zu\n", res[0].size());
    EXPECT(res[0].size() == 2);
  }
  return 0;
}
''', stub=True)

seed("queue-sort-stale", "C24",
  "The elements of a queue are sorted into a vector which already holds more elements.",
  "The vector is not truncated, so that elements of an earlier call remain in the result.",
  [("src/utils/FixedCapacityPriorityQueue.h", "    result->resize(this->size());\n",
    "    if (result->size() < this->size()) { result->resize(this->size()); }\n")], r'''
#include "utils/FixedCapacityPriorityQueue.h"
#include <functional>
int main() {
  FixedCapacityPriorityQueue<int, std::greater<int>> q(3);
  for (int i : { 5, 2, 8, 7 }) { q.push(i); }
  vector<int> res;
  q.sort(std::greater<int>(), &res);
  EXPECT((res == vector<int>{ 8, 7, 5 }));
  q.pop();
  q.sort(std::greater<int>(), &res);
  EXPECT((res == vector<int>{ 8, 7 }));
  return 0;
}
''')

seed("counter-max-tolerance", "C24",
  "Two keys that differ by less than 0.5.",
  "The largest key is compared with a tolerance, so that the key found first is reported if the largest "
  "one is only slightly larger.",
  [("src/utils/Counter.cpp", "larger(it->first, max)) {", "larger(it->first, max, 0.5)) {")], r'''
int main() {
  ppp::utils::counter::DoubleCounter c;
  double m = 0;
  for (int i = 0; i < 40; i++) {
    double v = 10 + 0.2 * ((i * 7) % 40);
    c[v]++;
    m = max(m, v);
    EXPECT(c.max() == m);
  }
  return 0;
}
''')
