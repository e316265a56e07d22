// C28: the visualization is the document plus the requested annotations.
#include <poppler/Annot.h>
#include <poppler/PDFDoc.h>
#include <poppler/PDFDocFactory.h>
#include <poppler/Page.h>

#include <algorithm>
#include <cmath>
#include <functional>
#include <fstream>
#include <memory>
#include <string>
#include <vector>

#include "./article.h"
#include "./docgen.h"
#include "./e2e.h"
#include "./pagegen.h"
#include "./pbt.h"
#include "./pdfgen.h"
#include "PdfDocumentVisualization.h"
#include "PdfToTextPlusPlus.h"
#include "cppflow/cppflow.h"
#include "utils/PdfElementsUtils.h"

using std::string;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::types::PdfDocument;
using ppp::types::PdfPosition;

namespace {

struct EAnnot {
  Annot::AnnotSubtype type;
  double x1 = 0, y1 = 0, x2 = 0, y2 = 0;  // A box, or the two points of a line; in the user space of the page.
  bool judgeBox = true;
  vector<double> color;                   // Empty: not judged.
  string contents;                        // Of a free text.
};

string show(const EAnnot& a) {
  return cat("type ", a.type, " [", a.x1, " ", a.y1, " ", a.x2, " ", a.y2, "] color ",
      a.color.size() == 3 ? cat(a.color[0], " ", a.color[1], " ", a.color[2]) : "-", " contents \"", quoted(a.contents),
      "\"");
}

/** What is expected on a page. */
class Expected {
 public:
  Expected(const EPage& page) : _p(page) {}  // NOLINT
  vector<EAnnot> annots;

  /** Transforms a point of the displayed page to user space. */
  void toUser(double x, double y, double* ux, double* uy) const {
    switch (_p.rotate) {
      case 90: *ux = _p.x0 + y; *uy = _p.y0 + x; break;
      case 180: *ux = _p.x0 + _p.w - x; *uy = _p.y0 + y; break;
      case 270: *ux = _p.x0 + _p.w - y; *uy = _p.y0 + _p.h - x; break;
      default: *ux = _p.x0 + x; *uy = _p.y0 + _p.h - y; break;
    }
  }

  void box(const PdfPosition* pos, const AnnotColor& color) {
    EAnnot a;
    a.type = Annot::typeSquare;
    double ax, ay, bx, by;
    toUser(pos->leftX, pos->upperY, &ax, &ay);
    toUser(pos->rightX, pos->lowerY, &bx, &by);
    a.x1 = std::min(ax, bx);
    a.x2 = std::max(ax, bx);
    a.y1 = std::min(ay, by);
    a.y2 = std::max(ay, by);
    setColor(&a, color);
    annots.push_back(a);
  }

  void text(const string& contents) {
    EAnnot a;
    a.type = Annot::typeFreeText;
    a.judgeBox = false;
    a.contents = contents;
    annots.push_back(a);
  }

  void line(double x1, double y1, double x2, double y2, const AnnotColor& color) {
    EAnnot a;
    a.type = Annot::typeLine;
    toUser(x1, y1, &a.x1, &a.y1);
    toUser(x2, y2, &a.x2, &a.y2);
    setColor(&a, color);
    annots.push_back(a);
  }

  /** A marker with a number: a circle or square around a point. */
  void marker(Annot::AnnotSubtype type, double x, double y, double radius, const AnnotColor& color, size_t index) {
    EAnnot a;
    a.type = type;
    double ux, uy;
    toUser(x, y, &ux, &uy);
    a.x1 = ux - radius;
    a.y1 = uy - radius;
    a.x2 = ux + radius;
    a.y2 = uy + radius;
    setColor(&a, color);
    annots.push_back(a);
    text(std::to_string(index));
  }

  void roles(const vector<ppp::types::PdfTextBlock*>& blocks, const AnnotColor& color) {
    for (auto* b : blocks) { box(b->pos, color); }
    for (auto* b : blocks) { text(ppp::utils::elements::getSemanticRoleName(b->role)); }
  }

  void cuts(const vector<ppp::types::Cut*>& cuts, const ColorScheme& cs) {
    size_t n = 0;
    for (auto* c : cuts) {
      const ColorScheme& used = c->isChosen ? cs : ppp::visualization::color_schemes::gray;
      line(c->x1, c->y1, c->x2, c->y2, used.primaryColor);
      if (c->isChosen) { marker(Annot::typeSquare, c->x1, c->y1, 5, used.secondaryColor, ++n); }
      text(c->id);
    }
  }

 private:
  static void setColor(EAnnot* a, const AnnotColor& color) {
    for (int i = 0; i < 3; i++) { a->color.push_back(color.getValues()[i]); }
  }
  const EPage& _p;
};

/** Reads an annotation from the file. */
EAnnot read(Annot* annot) {
  EAnnot a;
  a.type = annot->getType();
  annot->getRect(&a.x1, &a.y1, &a.x2, &a.y2);
  if (a.type == Annot::typeLine) {
    Object l = annot->getAnnotObj().dictLookup("L");
    PPV_CHECK(l.isArray() && l.arrayGetLength() == 4, "a line without points");
    a.x1 = l.arrayGet(0).getNum();
    a.y1 = l.arrayGet(1).getNum();
    a.x2 = l.arrayGet(2).getNum();
    a.y2 = l.arrayGet(3).getNum();
  }
  if (annot->getColor() && annot->getColor()->getSpace() == AnnotColor::colorRGB) {
    for (int i = 0; i < 3; i++) { a.color.push_back(annot->getColor()->getValues()[i]); }
  }
  if (a.type == Annot::typeFreeText && annot->getContents()) {
    const string& s = annot->getContents()->toStr();
    PPV_CHECK(s.size() >= 2 && s.size() % 2 == 0 && s.substr(0, 2) == "\xfe\xff", "the text ", quoted(s));
    for (size_t i = 2; i < s.size(); i += 2) {
      PPV_CHECK(s[i] == 0, "the text ", quoted(s));
      a.contents += s[i + 1];
    }
  }
  return a;
}

/** Small boxes are drawn larger. */
bool sideMatches(double e1, double e2, double g1, double g2) {
  const double eps = 0.01;
  double e = e2 - e1, got = g2 - g1;
  if (std::fabs(g1 - e1) < eps && std::fabs(g2 - e2) < eps) { return true; }
  return e < 1.01 && g1 < e1 + eps && g2 > e2 - eps && got < e + 1 + eps;
}

bool matches(const EAnnot& e, const EAnnot& got) {
  if (e.type != got.type || e.contents != got.contents) { return false; }
  if (!e.color.empty()) {
    if (got.color.size() != 3) { return false; }
    for (int i = 0; i < 3; i++) { if (std::fabs(e.color[i] - got.color[i]) > 0.01) { return false; } }
  }
  if (!e.judgeBox) { return true; }
  if (e.type == Annot::typeLine) {
    return std::fabs(e.x1 - got.x1) < 0.01 && std::fabs(e.y1 - got.y1) < 0.01 && std::fabs(e.x2 - got.x2) < 0.01
        && std::fabs(e.y2 - got.y2) < 0.01;
  }
  return sideMatches(e.x1, e.x2, got.x1, got.x2) && sideMatches(e.y1, e.y2, got.y1, got.y2);
}

/** All elements of a file, without its annotations. */
string withoutAnnots(const string& path) {
  static const ppp::config::PdfParsingConfig config;
  std::unique_ptr<PDFDoc> pdf = PDFDocFactory().createPDFDoc(GooString(path));
  PPV_CHECK(pdf->isOk(), "the visualization is not readable: error ", pdf->getErrorCode());
  PdfDocument doc;
  ppp::modules::PdfParsing out(&doc, config);
  pdf->displayPages(&out, 1, pdf->getNumPages(), 72, 72, 0, true, false, false, nullptr, nullptr,
      [](Annot*, void*) { return false; });
  return dump(&doc);
}

}  // namespace

PPV_PROP("C28", "visualization", 1000, 60000,
    "PDF files of 1-3 pages (articles, or any text, paths, images and clip paths; with media boxes at any position, "
    "rotated pages, and maybe annotations of their own; some steps may be skipped), of which any kinds of elements are visualized in any order and "
    "colors. In the saved file, the pages must have exactly the annotations that follow from the extracted elements "
    "(type, position, color, text), besides their former ones, and the same content as before; the original file must "
    "not be changed. Non-trivial: at least 5 annotations.") {
  initPoppler();
  cppflow::hook() = cppflow::defaultHook;
  PdfGen pdf;
  if (g.chance(50)) {
    g_rank = 0;
    Article a;
    makeArticle(g, &pdf, &a, &r);
    writeArticle(g, a, makeStyle(g), &pdf);
    r.label("article");
  } else {
    anyDocument(g, &pdf, &r);
  }
  vector<size_t> own;
  for (auto& p : pdf.pages) {
    size_t n = g.chance(20) ? g.range(1, 3) : 0;
    own.push_back(n);
    if (n > 0) {
      p.annots += " /Annots [";
      for (size_t i = 0; i < n; i++) {
        p.annots += cat(" << /Type /Annot /Subtype /Link /Rect [", 10 * i, " 10 ", 10 * i + 5, " 15] /Border [0 0 0] >>");
      }
      p.annots += "]";
      r.label("own annotations");
    }
    r.label("media box elsewhere", p.x0 != 0 || p.y0 != 0);
    r.label("rotated page", p.rotate != 0);
  }
  string bytes = pdf.build();
  // Some modules may be skipped (their elements do not exist then).
  ppp::config::Config config = fullConfig();
  string skipped;
  if (g.chance(30)) {
    auto skip = [&](bool* disabled, const char* name) { if ((*disabled = g.chance(25))) { skipped += cat(" ", name); } };
    skip(&config.wordsDetection.disabled, "words");
    skip(&config.pageSegmentation.disabled, "segments");
    skip(&config.textLinesDetection.disabled, "lines");
    skip(&config.textBlocksDetection.disabled, "blocks");
    skip(&config.readingOrderDetection.disabled, "reading order");
    r.label("modules skipped");
  }
  PdfDocument doc;
  int res = process(&doc, bytes, config);
  PPV_CHECK(res == 0, "process() returned ", res);
  PPV_CHECK(doc.pages.size() == pdf.pages.size(), "the number of pages");
  vector<Expected> exp(pdf.pages.begin(), pdf.pages.end());
  string path = scratchDir() + "/vis.pdf", shown;
  {
    ppp::visualization::PdfDocumentVisualization v(doc.pdfFilePath, config.pdfDocumentVisualization);
    using namespace ppp::visualization::color_schemes;  // NOLINT
    for (int i = g.range(1, 4); i > 0; i--) {
      int kind = g.below(11);
      int c = g.below(4);
      const ColorScheme& cs = c == 0 ? red : c == 1 ? green : c == 2 ? blue : gray;
      r.label(cat("kind ", kind));
      shown += cat(" kind ", kind, " color ", c);
      switch (kind) {
        case 0: v.visualizeCharacters(doc, cs); break;
        case 1: v.visualizeFigures(doc, cs); break;
        case 2: v.visualizeShapes(doc, cs); break;
        case 3: v.visualizeGraphics(doc, cs); break;
        case 4: v.visualizeWords(doc, cs); break;
        case 5: v.visualizeTextLines(doc, cs); break;
        case 6: v.visualizeTextBlocks(doc, cs); break;
        case 7: v.visualizePageSegments(doc, cs); break;
        case 8: v.visualizeReadingOrder(doc, cs); break;
        case 9: v.visualizeSegmentCuts(doc, cs); break;
        default: v.visualizeReadingOrderCuts(doc, cs); break;
      }
      for (size_t p = 0; p < exp.size(); p++) {
        auto* page = doc.pages[p];
        auto& e = exp[p];
        auto boxes = [&](const auto& elements) { for (auto* x : elements) { e.box(x->pos, cs.primaryColor); } };
        switch (kind) {
          case 0: boxes(page->characters); break;
          case 1: boxes(page->figures); break;
          case 2: boxes(page->shapes); break;
          case 3: boxes(page->graphics); break;
          case 4: boxes(page->words); break;
          case 5: for (auto* s : page->segments) { boxes(s->lines); } break;
          case 6: e.roles(page->blocks, cs.primaryColor); break;
          case 7:
            boxes(page->segments);
            for (auto* s : page->segments) { for (auto* b : s->blocks) { e.box(b->pos, red.primaryColor); } }
            break;
          case 8:
            e.roles(page->blocks, cs.primaryColor);
            for (size_t k = 0; k < page->blocks.size() && page->blocks.size() > 1; k++) {
              auto mid = [&](size_t j, double* x, double* y) {
                auto* pos = page->blocks[j]->pos;
                *x = (pos->leftX + pos->rightX) / 2;
                *y = (pos->upperY + pos->lowerY) / 2;
              };
              double x, y, x2, y2;
              mid(k, &x, &y);
              e.marker(Annot::typeCircle, x, y, 5, cs.primaryColor, k + 1);
              if (k + 1 < page->blocks.size()) {
                mid(k + 1, &x2, &y2);
                e.line(x, y, x2, y2, cs.secondaryColor);
              }
            }
            break;
          case 9: e.cuts(page->blockDetectionCuts, cs); break;
          default: e.cuts(page->readingOrderCuts, cs); break;
        }
      }
    }
    v.save(path);
  }
  size_t total = 0;
  for (auto& e : exp) { total += e.annots.size(); }
  r.nontrivial(total >= 5);
  r.showIf([&] { return "visualized:" + shown + ", skipped:" + skipped + "\n" + showPdf(pdf); });
  {
    std::ifstream f(doc.pdfFilePath, std::ios::binary);
    string now((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    PPV_CHECK(now == bytes, "the PDF file was changed");
  }
  std::unique_ptr<PDFDoc> vis = PDFDocFactory().createPDFDoc(GooString(path));
  PPV_CHECK(vis->isOk(), "the visualization is not readable: error ", vis->getErrorCode());
  PPV_CHECK(vis->getNumPages() == static_cast<int>(pdf.pages.size()), "the number of pages is ", vis->getNumPages());
  for (size_t p = 0; p < exp.size(); p++) {
    vector<EAnnot> got;
    size_t links = 0;
    for (auto* annot : vis->getPage(p + 1)->getAnnots()->getAnnots()) {
      if (annot->getType() == Annot::typeLink) { links++; continue; }
      got.push_back(read(annot));
    }
    PPV_CHECK(links == own[p], "page ", p + 1, " has ", links, " of its ", own[p], " own annotations");
    // Small boxes may match several annotations, so that the assignment must be searched.
    vector<EAnnot>& es = exp[p].annots;
    vector<int> owner(got.size(), -1);
    vector<bool> visited;
    std::function<bool(int)> assign = [&](int i) {
      vector<size_t> taken;
      for (size_t k = 0; k < got.size(); k++) {
        if (visited[k] || !matches(es[i], got[k])) { continue; }
        if (owner[k] < 0) { owner[k] = i; return true; }
        taken.push_back(k);
      }
      for (size_t k : taken) {
        if (visited[k]) { continue; }
        visited[k] = true;
        if (assign(owner[k])) { owner[k] = i; return true; }
      }
      return false;
    };
    for (size_t i = 0; i < es.size(); i++) {
      visited.assign(got.size(), false);
      if (assign(static_cast<int>(i))) { continue; }
      string s;
      int n = 0;
      for (size_t k = 0; k < got.size(); k++) { if (owner[k] < 0 && n++ < 5) { s += "\n" + show(got[k]); } }
      PPV_CHECK(false, "page ", p + 1, " has no annotation ", show(es[i]), "; the other ones are: ", s);
    }
    auto other = std::find(owner.begin(), owner.end(), -1);
    PPV_CHECK(other == owner.end(), "page ", p + 1, " has another annotation: ",
        show(got[other - owner.begin()]));
  }
  string before = withoutAnnots(doc.pdfFilePath), after = withoutAnnots(path);
  PPV_CHECK(before == after, "the content of the pages was changed");
}
