// Generators of the contents of pages.
#ifndef PPV_PAGEGEN_H_
#define PPV_PAGEGEN_H_

#include <string>
#include <vector>

#include "./pbt.h"
#include "./pdfgen.h"

namespace ppv {

/** A number with at most two decimals. */
double dec(Gen& g, int lo, int hi);

/** A matrix without shear: a scaled rotation by a multiple of 90 degrees, maybe slightly slanted. */
Mat matrix(Gen& g, bool translate);

/** The media box of a page. */
void pageBox(Gen& g, EPage* p);

/** A code point that is no white space, no surrogate, and not special for Poppler. */
unsigned int codePoint(Gen& g);

/** Adds a font with generated glyphs. */
void makeFont(Gen& g, PdfGen* pdf, Rec* r);

void colors(Gen& g, Canvas* c);

/** A text object with any text state. */
void textObject(Gen& g, PdfGen* pdf, Canvas* c, Rec* r);

/** Appends a page with paths, images, clip paths and characters. */
void elementsPage(Gen& g, PdfGen* pdf);

/** Generates a whole document of 1-3 pages with any text and elements. */
void anyDocument(Gen& g, PdfGen* pdf, Rec* r);

/** The readable form of a document. */
std::string showPdf(const PdfGen& pdf);

}  // namespace ppv

#endif  // PPV_PAGEGEN_H_
