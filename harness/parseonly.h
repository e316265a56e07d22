// Parsing of generated PDF files, and the comparison of the result with what is expected.
#ifndef PPV_PARSEONLY_H_
#define PPV_PARSEONLY_H_

#include <string>

#include "./pbt.h"
#include "./pdfgen.h"
#include "Config.h"
#include "Types.h"

namespace ppv {

/** Parses the given bytes; all later steps are disabled. */
void parsePdf(ppp::types::PdfDocument* doc, const std::string& bytes, bool embedded = false);

/** Checks all elements of a page, and their distribution among the page and its figures. */
void checkPage(const ppp::types::PdfPage* page, const EPage& e, size_t pageNum, bool boxes);

bool near(double a, double b, double tol = 0.0501);
bool pageClip(const Clip& c, const EPage& p);

}  // namespace ppv

#endif  // PPV_PARSEONLY_H_
