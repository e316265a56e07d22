// Generation of Type 1 font programs, together with the boxes of their glyphs.
#ifndef PPV_TYPE1_H_
#define PPV_TYPE1_H_

#include <map>
#include <string>
#include <vector>

#include "./pbt.h"

namespace ppv {

/** The smallest box around all points of a glyph, in units of the glyph space. */
struct T1Box {
  bool any = false;
  int x1 = 0, y1 = 0, x2 = 0, y2 = 0;
  void add(int x, int y);
};

enum class T1Form { BINARY, PFB, HEX_LOWER, HEX_UPPER, HEX_LINES };

struct T1Font {
  std::string clear;                              // The clear-text portion.
  int lenIV = -1;                                 // -1: not given, i.e., 4.
  std::vector<std::string> subrs;                 // The (not encrypted) subroutines.
  std::vector<std::pair<std::string, std::string>> glyphs;  // The names and charstrings.
  T1Form form = T1Form::BINARY;
};

/** Encrypts with the given key; starts with n bytes that are chosen by the generator. */
std::string t1Encrypt(Gen& g, const std::string& plain, unsigned int key, int n, bool eexec);

/** Returns the bytes of the font file. */
std::string t1Build(Gen& g, const T1Font& font, int* length1, int* length2);

/** Encodes a number of a charstring. */
std::string t1Num(int v);

/** Generates a charstring; adds its points to the box. */
std::string t1Glyph(Gen& g, const std::vector<std::pair<std::string, std::vector<std::pair<int, int>>>>& routines,
    int firstRoutine, T1Box* box, Rec* r);

}  // namespace ppv

#endif  // PPV_TYPE1_H_
