seed("xycut-overlap-budget", "C06",
  "An overlapping element that becomes a group only after an x-cut followed by a y-cut: the second "
  "level of the recursion has to tolerate the overlapping element for its x-cut.",
  "The recursion below an x-cut forgets the maximum number of overlapping elements: columns that are "
  "bridged by one element are not separated there.",
  [("src/utils/XYCut.cpp", """    // The elements could be divided by y-cuts. Try to further divide each sub-group recursively.
    for (const auto& yGroup : yGroups) {
      xyCut(yGroup, minXCutGapWidth, minYCutGapHeight, maxNumOverlappingElements,
        chooseXCutsFunc, chooseYCutsFunc, silent, resultGroups, resultCuts);
    }
  }
}
""", """    // The elements could be divided by y-cuts. Try to further divide each sub-group recursively.
    for (const auto& yGroup : yGroups) {
      xyCut(yGroup, minXCutGapWidth, minYCutGapHeight, 0,
        chooseXCutsFunc, chooseYCutsFunc, silent, resultGroups, resultCuts);
    }
  }
}
""")], r'''
#include "utils/XYCut.h"
int main() {
  auto el = [](double x1, double y1, double x2, double y2) {
    PdfFigure* f = new PdfFigure();
    f->pos->pageNum = 1; f->pos->leftX = x1; f->pos->upperY = y1; f->pos->rightX = x2;
    f->pos->lowerY = y2; f->pos->rotation = 0; f->pos->wMode = 0;
    return static_cast<PdfElement*>(f);
  };
  // On the left: a plain column. On the right: one line, and below two columns bridged by a line.
  vector<PdfElement*> els = { el(0, 0, 50, 300), el(100, 0, 300, 10),
    el(100, 100, 150, 200), el(200, 100, 250, 200), el(100, 90, 300, 98) };
  auto all = [](const vector<Cut*>& cuts, const vector<PdfElement*>&, bool) {
    for (auto* c : cuts) { c->isChosen = c->overlappingElements.empty() || c->x1 > 90; }
  };
  // y-cuts: only those with a gap of at least 20.
  vector<vector<PdfElement*>> groups;
  vector<Cut*> cuts;
  ppp::utils::xyCut(els, 20, 20, 1, all, all, true, &groups, &cuts);
  fprintf(stderr, "%zu\n", groups.size());
  EXPECT(groups.size() == 4);
  return 0;
}
''')

seed("reading-order-authors", "C13",
  "A y-cut between two blocks that both have the role AUTHOR_INFO (or neither) is not affected; the "
  "block above must have a role other than AUTHOR_INFO and the block below must be AUTHOR_INFO, in a "
  "two-column layout that is only separated by this cut.",
  "The primary y-cut above author info is not chosen, so blocks above the authors are mixed with the "
  "columns below.",
  [("src/ReadingOrderDetection.cpp", "if (isAuthorInfoAbove != isAuthorInfoBelow) {",
    "if (isAuthorInfoAbove && !isAuthorInfoBelow) {")], r'''
#include "ReadingOrderDetection.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->avgCharWidth = doc->avgCharHeight = 5;
  PdfPage* p = page(doc);
  // Two blocks above, side by side; two author blocks below, aligned with them.
  block(p, doc, SemanticRole::ABSTRACT, 100, 100, 250, 150, "A");
  block(p, doc, SemanticRole::ABSTRACT, 300, 100, 450, 150, "B");
  block(p, doc, SemanticRole::AUTHOR_INFO, 100, 200, 250, 250, "C");
  block(p, doc, SemanticRole::AUTHOR_INFO, 300, 200, 450, 250, "D");
  config.semanticRolesPrediction.disabled = true;
  config.semanticRolesPrediction.modelsDir = "/repo/resources/models/2021-08-30_model-3K-documents";
  ppp::modules::ReadingOrderDetection rod(doc, &config.readingOrderDetection,
      &config.semanticRolesPrediction);
  for (auto* b : p->blocks) { b->prevBlock = b->nextBlock = nullptr; }
  rod.process();
  string order;
  for (auto* b : p->blocks) { order += b->text; }
  fprintf(stderr, "%s\n", order.c_str());
  EXPECT(order == "ABCD");
  return 0;
}
''', stub=True)

seed("dehyphenation-lowercase", "C14",
  "The continuation of a hyphenated word starts with an uppercase letter or a digit.",
  "Words are only merged if the word in the next line starts with a lowercase ASCII letter; a hyphen at "
  "the end of a line stays in the text otherwise.",
  [("src/WordsDehyphenation.cpp", "bool isHyphenated = prevLineLastChar == '-';",
    "bool isHyphenated = prevLineLastChar == '-' && !line->words[0]->text.empty()\n"
    "                && !isupper(line->words[0]->text[0]);")], r'''
#include "WordsDehyphenation.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  PdfPage* p = page(doc);
  PdfTextBlock* b = block(p, doc, SemanticRole::PARAGRAPH, 0, 0, 100, 30);
  PdfWord* w1 = word(p, doc, "NON-", 0, 0, 40, 10);
  PdfWord* w2 = word(p, doc, "EMPTY", 0, 12, 40, 22);
  b->lines = { line(doc, { w1 }), line(doc, { w2 }) };
  ppp::modules::WordsDehyphenation wd(doc, &config.wordsDehyphenation);
  wd.process();
  EXPECT(w1->isFirstPartOfHyphenatedWord);
  EXPECT(w1->isFirstPartOfHyphenatedWord->text == "NONEMPTY");
  EXPECT(w2->isSecondPartOfHyphenatedWord == w1->isFirstPartOfHyphenatedWord);
  return 0;
}
''')

seed("subscript-in-base-box", "C29",
  "A line with a subscript (smaller font size, lower base line) that extends the line's box.",
  "Subscripts are included in the base box of the line, which distorts the line distances.",
  [("src/SubSuperScriptsDetection.cpp", """                character->isSubscript = true;
                continue;
""", """                character->isSubscript = true;
""")], r'''
#include "SubSuperScriptsDetection.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->mostFreqFontSize = 10;
  PdfPage* p = page(doc);
  PdfWord* w = word(p, doc, "ab", 0, 0, 20, 10);
  PdfWord* s = word(p, doc, "2", 20, 6, 24, 13, 7);
  PdfTextLine* l = line(doc, { w, s });
  PdfPageSegment* seg = new PdfPageSegment();
  seg->doc = doc;
  seg->lines = { l };
  p->segments = { seg };
  ppp::modules::SubSuperScriptsDetection d(doc, &config.subSuperScriptsDetection);
  d.process();
  EXPECT(s->characters[0]->isSubscript);
  EXPECT(l->baseBBoxLowerY == 10);
  EXPECT(l->baseBBoxRightX == 20);
  return 0;
}
''')

seed("words-font-size-reset", "C07",
  "A word in a large font followed by words in a small font, whose spaces are narrower than 15 % of the "
  "large font size.",
  "The font size of the active word is not reset when a new word starts, so the threshold for the "
  "horizontal gap keeps growing: words in a smaller font that follow a larger font are glued together.",
  [("src/WordsDetection.cpp", """      _activeWord.pos->wMode = 0;
      _activeWord.fontSize = 0;
    }
""", """      _activeWord.pos->wMode = 0;
    }
""")], r'''
#include "WordsDetection.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  PdfPage* p = page(doc);
  character(p, doc, "A", 0, 0, 20, 30, 30);
  character(p, doc, "b", 0, 40, 5, 48, 8);
  character(p, doc, "c", 7, 40, 12, 48, 8);
  ppp::modules::WordsDetection wd(doc, &config.wordsDetection);
  wd.process();
  EXPECT(p->words.size() == 3);
  return 0;
}
''')

seed("bpe-cache-unknown", "C27",
  "A word with a character that is not in the vocabulary, which occurs at least twice.",
  "The cache of the encoder misses the tokens of unknown characters, so that the second occurrence of "
  "a word is encoded differently from the first one.",
  [("src/utils/BytePairEncoder.cpp",
    "      _encodingsCache[word].push_back(_vocabulary[UNKNOWN_CHAR_SYMBOL]);\n", "")], r'''
#include "utils/BytePairEncoder.h"
int main() {
  unordered_map<wstring, int> vocab = { { L"a", 0 }, { L"b", 1 }, { L"ab", 2 } };
  ppp::utils::BytePairEncoder enc(&vocab);
  vector<int> one, two;
  enc.encode(L"abz", 0, "", &one);
  enc.encode(L"abz", 0, "", &two);
  EXPECT(one == two);
  return 0;
}
''')

seed("log-filter-no-page", "C26",
  "A page filter is set, and a message is logged that does not belong to a page (page number -1).",
  "Messages without a page are swallowed as soon as a page filter is set.",
  [("src/utils/Log.cpp", "if (_pageFilter > 0 && pageNum > 0 && _pageFilter != pageNum) {",
    "if (_pageFilter > 0 && _pageFilter != pageNum) {")], r'''
#include <iostream>
#include "utils/Log.h"
int main() {
  stringstream out;
  auto* old = cout.rdbuf(out.rdbuf());
  ppp::utils::log::Logger log(ppp::utils::log::LogLevel::INFO, 3);
  log.info() << "hello" << endl;
  cout.rdbuf(old);
  EXPECT(out.str().find("hello") != string::npos);
  return 0;
}
''')

seed("json-unit-separator", "C22",
  "A string that contains the control character U+001F.",
  "The character U+001F is written verbatim into JSON strings, which is not allowed.",
  [("src/utils/TextUtils.cpp", r"if ('\x00' <= str[i] && str[i] <= '\x1f') {",
    r"if ('\x00' <= str[i] && str[i] < '\x1f') {")], r'''
#include "utils/TextUtils.h"
int main() {
  EXPECT(ppp::utils::text::escapeJson(string("a\x1f")) == "a\\u001f");
  EXPECT(ppp::utils::text::escapeJson(string("a\x1e")) == "a\\u001e");
  return 0;
}
''')

seed("plain-text-separator", "C15",
  "A block that starts with the second part of a word that was hyphenated in the previous block.",
  "A leading space is printed before the first printed word of a block that starts with the second "
  "part of a hyphenated word.",
  [("src/serializers/PlainTextSerializer.cpp", """          if (word->isSecondPartOfHyphenatedWord) {
            continue;
          }
""", """          if (word->isSecondPartOfHyphenatedWord) {
            prevWord = word;
            continue;
          }
""")], r'''
#include "serializers/PlainTextSerializer.h"
#include "serializers/Serializer.h"
int main() {
  PdfDocument* doc = new PdfDocument();
  PdfPage* p = page(doc);
  PdfTextBlock* b1 = block(p, doc, SemanticRole::PARAGRAPH, 0, 0, 100, 30);
  PdfTextBlock* b2 = block(p, doc, SemanticRole::PARAGRAPH, 0, 50, 100, 80);
  PdfWord* w1 = word(p, doc, "foo-", 0, 0, 40, 10);
  PdfWord* w2 = word(p, doc, "bar", 0, 50, 40, 60);
  PdfWord* w3 = word(p, doc, "baz", 50, 50, 90, 60);
  PdfWord* merged = new PdfWord();
  merged->text = "foobar";
  w1->isFirstPartOfHyphenatedWord = merged;
  w2->isSecondPartOfHyphenatedWord = merged;
  b1->lines = { line(doc, { w1 }) };
  b2->lines = { line(doc, { w2, w3 }) };
  ppp::serialization::PlainTextSerializer s;
  unordered_set<SemanticRole> roles = { SemanticRole::PARAGRAPH };
  unordered_set<PdfElementType> types;
  s.serialize(doc, roles, types, "out.txt");
  ifstream f("out.txt");
  stringstream ss;
  ss << f.rdbuf();
  fprintf(stderr, "[%s]\n", ss.str().c_str());
  EXPECT(ss.str() == "foobar\n\nbaz\n");
  return 0;
}
''')

seed("figure-box-of-images", "C05",
  "Two images within the same clip box, the second one below the first one.",
  "The box of a figure does not grow downwards when another image is added to the figure.",
  [("src/PdfParsing.cpp", "figure->pos->lowerY = maximum(figure->pos->lowerY, graphic->pos->lowerY);",
    "figure->pos->lowerY = maximum(figure->pos->lowerY, graphic->pos->upperY);")], r'''
int main() {
  writePdf("t.pdf", "q 100 100 300 300 re W n q 50 0 0 50 150 300 cm /Im Do Q "
      "q 50 0 0 50 150 150 cm /Im Do Q Q", "");
  PdfDocument* doc = new PdfDocument();
  doc->pdfFilePath = "t.pdf";
  parsePdf("t.pdf", doc);
  EXPECT(doc->pages[0]->figures.size() == 1);
  PdfFigure* f = doc->pages[0]->figures[0];
  EXPECT(f->graphics.size() == 2);
  EXPECT(fabs(f->pos->upperY - 442) < 0.2 && fabs(f->pos->lowerY - 642) < 0.2);
  return 0;
}
''')

seed("cid-width-byte-order", "C04",
  "A CID font (two bytes per character) with individual widths; the two bytes of the code differ.",
  "The bytes of a character code are swapped when the width of a CID font is looked up, so that the "
  "boxes of the characters have the wrong width.",
  [("src/PdfParsing.cpp", "bytes[k] = (c >> (8 * (nBytes - k - 1))) & 0xFF;",
    "bytes[k] = (c >> (8 * k)) & 0xFF;")], r'''
int main() {
  string cmap = "/CIDInit /ProcSet findresource begin 12 dict begin begincmap\n1 begincodespacerange "
      "<0000> <FFFF> endcodespacerange\n1 beginbfchar <0141> <0041> endbfchar\nendcmap end end";
  writePdf("t.pdf", "BT /F 10 Tf 100 700 Td <0141> Tj ET", "/F 6 0 R",
      { "<< /Type /Font /Subtype /Type0 /BaseFont /Foo /Encoding /Identity-H /DescendantFonts [7 0 R] "
          "/ToUnicode 9 0 R >>",
        "<< /Type /Font /Subtype /CIDFontType0 /BaseFont /Foo /CIDSystemInfo << /Registry (Adobe) "
          "/Ordering (Identity) /Supplement 0 >> /DW 1000 /W [321 [400]] /FontDescriptor 8 0 R >>",
        "<< /Type /FontDescriptor /FontName /Foo /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 "
          "/Ascent 800 /Descent -200 /CapHeight 700 /StemV 80 >>",
        "<< /Length " + to_string(cmap.size()) + " >>\nstream\n" + cmap + "\nendstream" });
  PdfDocument* doc = new PdfDocument();
  doc->pdfFilePath = "t.pdf";
  parsePdf("t.pdf", doc);
  EXPECT(doc->pages[0]->characters.size() == 1);
  PdfCharacter* c = doc->pages[0]->characters[0];
  fprintf(stderr, "%s %f\n", c->text.c_str(), c->pos->rightX - c->pos->leftX);
  EXPECT(fabs(c->pos->rightX - c->pos->leftX - 4) < 0.15);
  return 0;
}
''')

seed("overlapping-element-margin", "C11",
  "An element that overlaps an x-cut, is close to the lower end of the cut, but is tall enough that its "
  "upper edge keeps the margin.",
  "The distance between an overlapping element and the lower end of a cut is measured from the upper "
  "edge of the element.",
  [("src/PageSegmentation.cpp", "double bottomMargin = cut->y2 - element->pos->lowerY;",
    "double bottomMargin = cut->y2 - element->pos->upperY;")], r'''
#include "PageSegmentation.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->avgCharWidth = doc->avgCharHeight = 5;
  doc->mostFreqWordDistance = 2.5;
  doc->mostFreqWordHeight = 10;
  doc->mostFreqEstimatedLineDistance = 2;
  doc->mostFreqFontSize = 10;
  PdfPage* p = page(doc);
  int n = 0;
  auto add = [&](double x1, double y1, double x2, double y2) {
    PdfWord* w = word(p, doc, "word", x1, y1, x2, y2);
    w->rank = 2 * n++;
    p->words.push_back(w);
  };
  for (int i = 0; i < 40; i++) { add(50, 50 + 12 * i, 250, 60 + 12 * i); }
  for (int i = 0; i < 40; i++) { add(300, 50 + 12 * i, 500, 60 + 12 * i); }
  // A big word, close to the bottom.
  add(100, 440, 400, 527);
  config.pageSegmentation.overlappingMinNumElements = 10;
  ppp::modules::PageSegmentation ps(doc, &config.pageSegmentation);
  ps.process();
  // No x-cut over the full height.
  fprintf(stderr, "%zu\n", p->segments.size());
  double maxHeight = 0;
  for (auto* s : p->segments) { maxHeight = max(maxHeight, s->pos->lowerY - s->pos->upperY); }
  EXPECT(maxHeight < 450);
  return 0;
}
''')

seed("vhcurveto-end", "C20",
  "An embedded Type 1 font with a glyph in which a further drawing command follows a vhcurveto and "
  "reaches the extreme point of the glyph.",
  "The current point after a vhcurveto is wrong (wrong glyph box).",
  [("src/utils/PdfFontInfoParser.cpp", """            int y1 = add(*curY, dy1);
            int x2 = add(x1, dx2);
            int y2 = add(y1, dy2);
            int x3 = add(x2, dx3);
            int y3 = y2;

            *curX = x3;
            *curY = y3;
            *leftX = minimum(*leftX, x1, x2, x3);
            *rightX = maximum(*rightX, x1, x2, x3);
""", """            int y1 = add(*curY, dy1);
            int x2 = add(x1, dx2);
            int y2 = add(y1, dy2);
            int x3 = add(x2, dx3);
            int y3 = y2;

            *curX = x3;
            *curY = y1;
            *leftX = minimum(*leftX, x1, x2, x3);
            *rightX = maximum(*rightX, x1, x2, x3);
""")], r'''
static string encrypt(const string& s, unsigned short r, int n) {
  string in = string(n, 'x') + s, out;
  for (unsigned char c : in) {
    unsigned char e = c ^ (r >> 8);
    r = (e + r) * 52845 + 22719;
    out += e;
  }
  return out;
}
static string num(int v) {
  if (v >= -107 && v <= 107) { return string(1, v + 139); }
  string s(1, '\xff');
  for (int k = 3; k >= 0; k--) { s += static_cast<char>((v >> (8 * k)) & 0xff); }
  return s;
}
int main() {
  // A: 0 500 hsbw 100 0 rmoveto 400 (dy1) 100 (dx2) 400 (dy2) 100 (dx3) vhcurveto 100 vlineto closepath endchar
  string glyph = num(0) + num(500) + "\x0d" + num(100) + num(0) + "\x15" + num(400) + num(100) + num(400) +
      num(100) + "\x1e" + num(100) + "\x07" + "\x09" + "\x0e";
  string notdef = num(0) + num(500) + "\x0d" + "\x0e";
  string g = encrypt(glyph, 4330, 4), nd = encrypt(notdef, 4330, 4);
  string priv = "dup /Private 8 dict dup begin\n/RD {string currentfile exch readstring pop} executeonly def\n"
      "/ND {noaccess def} executeonly def\n/NP {noaccess put} executeonly def\n/lenIV 4 def\n"
      "/Subrs 1 array\ndup 0 " + to_string(encrypt("\x0b", 4330, 4).size()) + " RD " +
      encrypt("\x0b", 4330, 4) + " NP\nND\n"
      "2 index /CharStrings 2 dict dup begin\n/.notdef " + to_string(nd.size()) + " RD " + nd + " ND\n/A " +
      to_string(g.size()) + " RD " + g + " ND\nend\nend\nreadonly put\nnoaccess put\ndup/FontName get exch "
      "definefont pop\nmark currentfile closefile\n";
  string clear = "%!PS-AdobeFont-1.0: Foo\n11 dict begin\n/FontName /Foo def\n/PaintType 0 def\n/FontType 1 def\n"
      "/FontMatrix [0.001 0 0 0.001 0 0] readonly def\n/Encoding 256 array\n0 1 255 {1 index exch /.notdef put} "
      "for\ndup 65 /A put\nreadonly def\n/FontBBox {0 -200 1000 900} readonly def\ncurrentdict end\n"
      "currentfile eexec\n";
  string enc = encrypt(priv, 55665, 4);
  string zeros;
  for (int i = 0; i < 8; i++) { zeros += string(64, '0') + "\n"; }
  zeros += "cleartomark\n";
  string file = clear + enc + zeros;
  writePdf("t.pdf", "BT /F 10 Tf 100 400 Td (A) Tj ET", "/F 6 0 R",
      { "<< /Type /Font /Subtype /Type1 /BaseFont /ABCDEF+Foo /FirstChar 65 /LastChar 65 /Widths [500] "
          "/FontDescriptor 7 0 R >>",
        "<< /Type /FontDescriptor /FontName /ABCDEF+Foo /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 "
          "/Ascent 500 /Descent -200 /CapHeight 500 /StemV 80 /FontFile 8 0 R >>",
        "<< /Length " + to_string(file.size()) + " /Length1 " + to_string(clear.size()) + " /Length2 " +
          to_string(enc.size()) + " /Length3 " + to_string(zeros.size()) + " >>\nstream\n" + file +
          "\nendstream" });
  PdfDocument* doc = new PdfDocument();
  doc->pdfFilePath = "t.pdf";
  parsePdf("t.pdf", doc);
  EXPECT(doc->fontInfos.size() == 1);
  auto boxes = doc->fontInfos.begin()->second->glyphBoundingBoxes;
  EXPECT(boxes.count("A"));
  double lo = min(get<1>(boxes["A"]), get<3>(boxes["A"])), hi = max(get<1>(boxes["A"]), get<3>(boxes["A"]));
  fprintf(stderr, "%f %f\n", lo, hi);
  EXPECT(hi == 900);
  return 0;
}
''')

seed("sibling-line-parent", "C08",
  "An enumeration nested below another line: a second line on the inner level.",
  "A sibling line does not inherit the parent of its sibling.",
  [("src/utils/TextLinesDetectionUtils.cpp",
    "        line->parentLine = lineStack.top()->parentLine;\n",
    "        line->parentLine = lineStack.top()->prevSiblingLine;\n")], r'''
#include "utils/TextLinesDetectionUtils.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->avgCharWidth = 5;
  PdfPage* p = page(doc);
  PdfPageSegment* seg = new PdfPageSegment();
  seg->doc = doc;
  p->segments = { seg };
  double xs[] = { 0, 30, 30, 30 };
  for (int i = 0; i < 4; i++) {
    seg->lines.push_back(line(doc, { word(p, doc, "abc", xs[i], 12 * i, xs[i] + 50, 12 * i + 10) }));
  }
  ppp::utils::TextLinesDetectionUtils u(&config.textLinesDetection);
  u.computeTextLineHierarchy(p);
  EXPECT(!seg->lines[0]->parentLine);
  EXPECT(seg->lines[1]->parentLine == seg->lines[0]);
  EXPECT(seg->lines[2]->prevSiblingLine == seg->lines[1]);
  EXPECT(seg->lines[2]->parentLine == seg->lines[0]);
  EXPECT(seg->lines[3]->parentLine == seg->lines[0]);
  return 0;
}
''')

seed("lower-edge-rotated", "C23",
  "An element with rotation 3 (270 degrees).",
  "The lower edge (in reading direction) of an element that is rotated by 270 degrees is wrong.",
  [("src/Types.cpp", """      return upperY;
    case 3:
      return rightX;
""", """      return upperY;
    case 3:
      return leftX;
""")], r'''
int main() {
  PdfPosition pos;
  pos.leftX = 1; pos.upperY = 2; pos.rightX = 3; pos.lowerY = 4; pos.rotation = 3;
  EXPECT(pos.getRotLowerY() == 3);
  EXPECT(pos.getRotUpperY() == 1);
  EXPECT(pos.getRotHeight() == 2);
  return 0;
}
''')

seed("mark-below-base", "C10",
  "A mark that extends the box of its base character downwards (a cedilla, say).",
  "The box of a base character is not extended downwards by a merged mark.",
  [("src/DiacriticalMarksMerging.cpp",
    "base->pos->lowerY = maximum(base->pos->lowerY, mark->pos->lowerY);",
    "base->pos->lowerY = maximum(base->pos->lowerY, mark->pos->upperY);")], r'''
#include "DiacriticalMarksMerging.h"
int main() {
  static ppp::config::Config config;
  globalParams = make_unique<GlobalParams>();
  PdfDocument* doc = new PdfDocument();
  PdfPage* p = page(doc);
  PdfCharacter* c = character(p, doc, "c", 0, 0, 5, 10);
  PdfCharacter* m = character(p, doc, "\xcc\xa7", 1, 8, 4, 13);
  m->unicodes = { 0x327 };
  ppp::modules::DiacriticalMarksMerging d(doc, &config.diacriticalMarksMerging);
  d.process();
  EXPECT(m->isDiacriticMarkOfBaseChar == c);
  EXPECT(c->textWithDiacriticMark == "\xc3\xa7");
  EXPECT(c->pos->lowerY == 13);
  return 0;
}
''')

seed("blocks-trim-two-lines", "C12",
  "A block with exactly two lines that is not centered in its segment and follows a narrower block.",
  "The right margins of the lines of a two-line block are computed from the previous block only, even "
  "if the block itself is wider.",
  [("src/utils/TextBlocksDetectionUtils.cpp",
    "      if (prevBlock) { blockTrimRightX = maximum(blockTrimRightX, prevBlock->trimRightX); }\n",
    "      if (prevBlock) { blockTrimRightX = prevBlock->trimRightX; }\n")], r'''
#include "utils/TextBlocksDetectionUtils.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->avgCharWidth = 5;
  doc->mostFreqFontSize = 10;
  PdfPage* p = page(doc);
  PdfPageSegment* seg = new PdfPageSegment();
  seg->doc = doc;
  seg->pos->leftX = seg->trimLeftX = 0;
  seg->pos->upperY = seg->trimUpperY = 0;
  seg->pos->rightX = seg->trimRightX = 400;
  seg->pos->lowerY = seg->trimLowerY = 100;
  auto l = [&](double y, double x2) {
    PdfTextLine* res = line(doc, { word(p, doc, "abc", 0, y, x2, y + 10) });
    res->segment = seg;
    return res;
  };
  ppp::utils::TextBlocksDetectionUtils u(&config.textBlocksDetection);
  vector<PdfTextBlock*> blocks;
  u.createTextBlock({ l(0, 100) }, &blocks);
  u.createTextBlock({ l(20, 200), l(32, 150) }, &blocks);
  EXPECT(blocks.size() == 2);
  EXPECT(blocks[1]->lines[0]->rightMargin == 0);
  EXPECT(blocks[1]->lines[1]->rightMargin == 50);
  return 0;
}
''')

seed("jsonl-mark-text", "C16",
  "A document with a character that was merged with a diacritic mark, serialized to JSONL with the type "
  "characters.",
  "A base character is printed without its diacritic mark.",
  [("src/serializers/JsonlSerializer.cpp",
    "string text = c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->text;",
    "string text = c->isDiacriticMarkOfBaseChar ? c->textWithDiacriticMark : c->text;")], r'''
#include "serializers/JsonlSerializer.h"
int main() {
  PdfDocument* doc = new PdfDocument();
  PdfFontInfo* f = new PdfFontInfo();
  f->fontName = "F";
  doc->fontInfos["F"] = f;
  PdfPage* p = page(doc);
  PdfTextBlock* b = block(p, doc, SemanticRole::PARAGRAPH, 0, 0, 100, 30);
  PdfWord* w = word(p, doc, "a", 0, 0, 10, 10);
  w->characters[0]->textWithDiacriticMark = "\xc3\xa4";
  w->characters[0]->isBaseCharOfDiacriticMark = w->characters[0];
  b->lines = { line(doc, { w }) };
  ppp::serialization::JsonlSerializer s(3);
  unordered_set<SemanticRole> roles = { SemanticRole::PARAGRAPH };
  unordered_set<PdfElementType> types = { PdfElementType::CHARACTERS };
  s.serialize(doc, roles, types, "out.txt");
  ifstream fs("out.txt");
  stringstream ss;
  ss << fs.rdbuf();
  EXPECT(ss.str().find("\xc3\xa4") != string::npos);
  return 0;
}
''')

seed("word-distance-font-size", "C09",
  "A document in which the words of the most frequent font size are often preceded, in the same line, by "
  "words in a smaller font (labels, say), with another distance.",
  "The most frequent word distance also counts the distances to words in other font sizes.",
  [("src/WordsStatisticsCalculation.cpp",
    "if (!equal(prevWord->fontSize, _doc->mostFreqFontSize, _config->fsEqualTolerance)) {",
    "if (!prevWord->fontSize) {")], r'''
#include "WordsStatisticsCalculation.h"
int main() {
  static ppp::config::Config config;
  PdfDocument* doc = new PdfDocument();
  doc->mostFreqFontSize = 10;
  PdfPage* p = page(doc);
  for (int i = 0; i < 5; i++) {
    p->words.push_back(word(p, doc, "1.", 0, 50 * i, 10, 50 * i + 10, 7));
    p->words.push_back(word(p, doc, "abc", 30, 50 * i, 50, 50 * i + 10));
  }
  for (int i = 0; i < 3; i++) { p->words.push_back(word(p, doc, "x", 24 * i, 500, 24 * i + 20, 510)); }
  ppp::modules::WordsStatisticsCalculation c(doc, &config.wordsStatisticsCalculation);
  c.process();
  EXPECT(fabs(doc->mostFreqWordDistance - 4) < 0.05);
  return 0;
}
''')
