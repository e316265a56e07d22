#include "./e2e.h"

#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "PdfToTextPlusPlus.h"
#include "cppflow/cppflow.h"
#include "utils/PdfElementsUtils.h"
#include "serializers/PlainTextSerializer.h"

using std::string;

namespace ppv {

ppp::config::Config fullConfig() {
  ppp::config::Config c;
  c.semanticRolesPrediction.modelsDir = string(PPV_REPO_DIR) + "/resources/models/2021-08-30_model-3K-documents";
  return c;
}

int process(ppp::types::PdfDocument* doc, const string& bytes, const ppp::config::Config& config) {
  string path = scratchDir() + "/in.pdf";
  { std::ofstream(path, std::ios::binary) << bytes; }
  if (const char* keep = getenv("PPV_KEEP")) { std::ofstream(keep, std::ios::binary) << bytes; }
  doc->pdfFilePath = path;
  return ppp::PdfToTextPlusPlus(&config).process(doc);
}

void process(ppp::types::PdfDocument* doc, const string& bytes) {
  static const ppp::config::Config config = fullConfig();
  int res = process(doc, bytes, config);
  PPV_CHECK(res == 0, "process() returned ", res);
}

void constantRoles(int role) {
  cppflow::hook() = [role](const cppflow::Call& c) {
    std::vector<float> out;
    for (int64_t r = 0; r < c.wordsRows; r++) { for (int k = 0; k < 14; k++) { out.push_back(k == role ? 1 : 0); } }
    return out;
  };
}

void articleRoles(bool hasTitle) {
  cppflow::hook() = [hasTitle](const cppflow::Call& c) {
    std::vector<float> out;
    for (int64_t r = 0; r < c.wordsRows; r++) {
      double size = c.layout[15 * r + 5], bold = c.layout[15 * r + 6];
      int role = hasTitle && size > 0.99 ? 6 : bold > 0.5 || size > 0.3 ? 4 : 0;
      for (int k = 0; k < 14; k++) { out.push_back(k == role ? 1 : 0); }
    }
    return out;
  };
}

string plainText(const ppp::types::PdfDocument* doc) {
  static const std::unordered_set<ppp::types::SemanticRole> roles = [] {
    std::unordered_set<ppp::types::SemanticRole> s;
    for (auto r : ppp::utils::elements::getSemanticRoles()) { s.insert(r); }
    return s;
  }();
  string path = scratchDir() + "/out.txt";
  ppp::serialization::PlainTextSerializer s;
  std::unordered_set<ppp::types::PdfElementType> types;
  s.serialize(doc, roles, types, path);
  std::ifstream f(path, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

string dump(const ppp::types::PdfDocument* doc) {
  std::stringstream s;
  s.precision(17);
  auto pos = [&](const ppp::types::PdfPosition* p) {
    s << " p" << p->pageNum << " [" << p->leftX << " " << p->upperY << " " << p->rightX << " " << p->lowerY << "] r"
      << p->rotation << " w" << p->wMode;
  };
  auto text = [&](const ppp::types::PdfTextElement* e) {
    s << " \"" << e->text << "\" " << e->fontName << " " << e->fontSize;
    pos(e->pos);
  };
  auto chars = [&](const auto& v) {
    for (auto* c : v) {
      s << "char " << c->rank << " " << c->name << " color " << c->color[0] << " " << c->color[1] << " " << c->color[2]
        << " " << c->opacity << " base " << c->base << " sub " << c->isSubscript << c->isSuperscript << " mark "
        << (c->isDiacriticMarkOfBaseChar ? c->isDiacriticMarkOfBaseChar->rank : -1) << " " << c->textWithDiacriticMark;
      text(c);
      s << "\n";
    }
  };
  s << "doc " << doc->avgCharWidth << " " << doc->avgCharHeight << " " << doc->mostFreqFontSize << " "
    << doc->mostFreqFontName << " " << doc->mostFreqWordDistance << " " << doc->mostFreqEstimatedLineDistance << " "
    << doc->mostFreqLineDistance << " " << doc->mostFreqWordHeight << " " << doc->mostFreqLineLeftMargin << "\n";
  for (auto* p : doc->pages) {
    s << "page " << p->pageNum << " " << p->clipLeftX << " " << p->clipUpperY << " " << p->clipRightX << " "
      << p->clipLowerY << "\n";
    chars(p->characters);
    for (auto* f : p->figures) {
      s << "figure";
      pos(f->pos);
      s << "\n";
      chars(f->characters);
      for (auto* e : f->shapes) { s << "shape " << e->rank; pos(e->pos); s << "\n"; }
      for (auto* e : f->graphics) { s << "graphic " << e->rank; pos(e->pos); s << "\n"; }
      s << "end of figure\n";
    }
    for (auto* e : p->shapes) { s << "shape " << e->rank; pos(e->pos); s << "\n"; }
    for (auto* e : p->graphics) { s << "graphic " << e->rank; pos(e->pos); s << "\n"; }
    for (auto* w : p->words) {
      s << "word " << w->rank << " base " << w->base << " hyphen "
        << (w->isFirstPartOfHyphenatedWord ? w->isFirstPartOfHyphenatedWord->text : "-")
        << (w->isSecondPartOfHyphenatedWord ? w->isSecondPartOfHyphenatedWord->text : "-");
      text(w);
      s << "\n";
    }
    for (auto* e : p->segments) {
      s << "segment " << e->elements.size() << " " << e->lines.size();
      pos(e->pos);
      s << " trim " << e->trimLeftX << " " << e->trimUpperY << " " << e->trimRightX << " " << e->trimLowerY << "\n";
    }
    for (auto* b : p->blocks) {
      s << "block role " << static_cast<int>(b->role) << " centered " << b->isLinesCentered << " emphasized "
        << b->isEmphasized << " hanging " << b->hangingIndent << " trim " << b->trimLeftX << " " << b->trimRightX;
      text(b);
      s << "\n";
      for (auto* l : b->lines) {
        s << "line " << l->rank << " base " << l->base << " margins " << l->leftMargin << " " << l->rightMargin << " max "
          << l->maxFontSize << " bb " << l->baseBBoxLeftX << " " << l->baseBBoxUpperY << " " << l->baseBBoxRightX << " "
          << l->baseBBoxLowerY;
        text(l);
        s << "\n";
      }
    }
  }
  return s.str();
}

}  // namespace ppv
