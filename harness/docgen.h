// Helpers for building documents (the intermediate results of the pipeline) from generated parts.
#ifndef PPV_DOCGEN_H_
#define PPV_DOCGEN_H_

#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "./pbt.h"
#include "Types.h"

namespace ppv {

/** A document that also deletes the elements its destructor leaves alone. */
class Doc {
 public:
  Doc();
  ~Doc();
  Doc(const Doc&) = delete;
  Doc& operator=(const Doc&) = delete;

  ppp::types::PdfDocument* doc;

  ppp::types::PdfPage* addPage(double width = 612, double height = 792);

  /** Creates a font. */
  ppp::types::PdfFontInfo* addFont(const std::string& name, int weight = 400, bool italic = false);

  /** Creates a character on the page; coordinates and sizes are in tenths. */
  ppp::types::PdfCharacter* addChar(ppp::types::PdfPage* page, const std::vector<unsigned int>& us,
      int64_t x1, int64_t y1, int64_t x2, int64_t y2, int64_t fontSize,
      const std::string& fontName, int rotation = 0, int wMode = 0);

  /** Creates a word without characters; it is not added to the page. */
  ppp::types::PdfWord* newWord(ppp::types::PdfPage* page, const std::string& text, int64_t x1,
      int64_t y1, int64_t x2, int64_t y2, int64_t fontSize, const std::string& fontName,
      int rotation = 0, int wMode = 0);

  /** Creates a word with one character per unicode, with equal widths; added to nothing. */
  ppp::types::PdfWord* newWordWithChars(ppp::types::PdfPage* page,
      const std::vector<unsigned int>& us, int64_t x1, int64_t y1, int64_t x2, int64_t y2,
      int64_t fontSize, const std::string& fontName, int rotation = 0, int wMode = 0);

  int nextRank = 0;
  int nextId = 0;
};

/** The UTF-8 encoding of a code point (of any value that fits into 4 bytes). */
std::string utf8(unsigned int u);
std::string utf8(const std::vector<unsigned int>& us);

/** A value in tenths, as the (correctly rounded) double. */
inline double tenths(int64_t v) { return v / 10.0; }

/** The value of a double in tenths, rounded. */
int64_t toTenths(double v);

/** Makes sure that Poppler's global parameters exist. */
void initPoppler();

/** The box of an element as a string. */
std::string boxStr(const ppp::types::PdfPosition* pos);

}  // namespace ppv

#endif  // PPV_DOCGEN_H_
