// Documents with running text, laid out like articles.
#ifndef PPV_ARTICLE_H_
#define PPV_ARTICLE_H_

#include <string>
#include <vector>

#include "./pbt.h"
#include "./pdfgen.h"

namespace ppv {

struct AWord {
  std::string text;      // As displayed (with the hyphen at the end of a line).
  double x = 0, width = 0;
  bool divided = false;  // Continued in the next line.
};

struct ALine {
  std::vector<AWord> words;
  double y = 0;          // The baseline, from the lower edge of the page.
  double size = 0;
  int font = 0;
};

struct ABlock {
  int page = 0;
  std::vector<ALine> lines;
};

struct Article {
  double w = 612, h = 792;
  int numPages = 1;
  bool hasTitle = false;
  std::vector<ABlock> blocks;  // In reading order.
  /** The expected plain text. */
  std::string expected(bool dehyphenate = true) const;
  /** A readable form. */
  std::string show() const;
};

/** How the text is written into the content streams. */
struct Style {
  int unit = 0;          // 0: per line, gaps by TJ; 1: per word; 2: per character; 3: scaled text matrix; 4: under
                         // a transformation; 5: per line, with spaces and TJ.
  bool shuffle = false;  // The blocks are written in any order.
  double x0 = 0, y0 = 0; // The origin of the media box.
};

/** Generates fonts and a layout. */
void makeArticle(Gen& g, PdfGen* pdf, Article* a, Rec* r);

/** A random style. */
Style makeStyle(Gen& g);

/** Writes the pages. */
void writeArticle(Gen& g, const Article& a, const Style& style, PdfGen* pdf);

}  // namespace ppv

#endif  // PPV_ARTICLE_H_
