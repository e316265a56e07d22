// Generation of PDF files, together with what is expected to be found in them.
#ifndef PPV_PDFGEN_H_
#define PPV_PDFGEN_H_

#include <array>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

#include "./pbt.h"
#include "Types.h"

namespace ppv {

/** A transformation matrix, as in PDF: x' = a x + c y + e, y' = b x + d y + f. */
struct Mat {
  double a = 1, b = 0, c = 0, d = 1, e = 0, f = 0;
};
Mat mul(const Mat& first, const Mat& then);
void apply(const Mat& m, double x, double y, double* rx, double* ry);

/** Formats a number for a PDF file. */
std::string num(double v);

/** Encodes bytes as a PDF string, in hexadecimal form. */
std::string hexStr(const std::string& bytes);

/** Writes the objects of a PDF file. */
class PdfFile {
 public:
  int reserve() { _objs.push_back(""); return static_cast<int>(_objs.size()); }
  int add(const std::string& body) { _objs.push_back(body); return static_cast<int>(_objs.size()); }
  int addStream(const std::string& dict, const std::string& data);
  void set(int id, const std::string& body) { _objs[id - 1] = body; }
  /** Returns the bytes of the file. */
  std::string finish(int root, const std::vector<int>& order = {}) const;

 private:
  std::vector<std::string> _objs;
};

struct GGlyph {
  int code = 0;
  std::string name;                // The name of the glyph, for simple fonts.
  std::vector<unsigned int> map;   // The code points of the ToUnicode map; empty: none.
  double width = 500;              // In thousandths.
  // What is expected.
  std::vector<unsigned int> us;
  std::string text;
  bool white = false;
};

enum class FontKind { SIMPLE, TYPE3, CID, VERTICAL };

struct GFont {
  FontKind kind = FontKind::SIMPLE;
  std::string res;       // The resource name.
  std::string baseName;
  std::vector<GGlyph> glyphs;
  int flags = 32;
  int weight = 0;        // Of the font descriptor; 0: none.
  double unit = 0.001;   // The scale of the font matrix, for Type 3 fonts.
  std::string type1;     // The embedded font file, for simple fonts; may be empty.
  int length1 = 0, length2 = 0;
  // What is expected.
  bool twoBytes() const { return kind == FontKind::CID || kind == FontKind::VERTICAL; }
};

/** A clip box in device space. */
struct Clip { double x1, y1, x2, y2; };

struct EChar {
  std::string text, name, font;
  std::vector<unsigned int> us;
  double x1, y1, x2, y2, base, fs;
  int rot, wMode;
  double rgb[3], opacity;
  Clip clip;
  int rank;
};

struct EBox {
  double x1, y1, x2, y2;
  Clip clip;
  int rank;
};

struct EPage {
  double x0 = 0, y0 = 0, w = 612, h = 792;  // The media box.
  int rotate = 0;
  double width() const { return rotate % 180 ? h : w; }
  double height() const { return rotate % 180 ? w : h; }
  std::string content;
  std::vector<EChar> chars;
  std::vector<EBox> shapes, graphics;
  std::string annots;
};

/** A way to write the same document as another sequence of bytes. */
struct Encoding {
  int streams = 1;              // Into how many streams the content of each page is divided.
  int forms = 0;                // How many form XObjects are around the content.
  bool ownResources = false;    // Each page has its own resource dictionary, or else
  bool inherit = false;         // resources and media boxes are inherited from the page tree.
  bool nestedTree = false;      // Each page has a parent of its own.
  int filter = 0;               // 0: none; 1: ASCIIHex; 2: Flate; 3: ASCIIHex and Flate.
  bool literal = false;         // Literal instead of hexadecimal strings.
  bool spaced = false;          // Other white space, comments, and forms of the numbers.
  std::string prefix;           // Prefix of the resource names.
  int rotateFonts = 0;          // The k-th page (k >= 0) uses for each font the name of the (k * this)-th next one.
  std::vector<int> order;       // Keys for the order of the objects (reused cyclically).
};

/** Generates a document. */
class PdfGen {
 public:
  std::vector<GFont> fonts;
  std::vector<EPage> pages;

  /** Adds a simple font with the given base name, for the printable ASCII characters. */
  GFont& addAscii(const std::string& baseName, double width = 500);

  /** Returns the bytes of the file. */
  std::string build(const Encoding& enc = Encoding()) const;
};

/** Writes the content of a page, tracking what is expected. */
class Canvas {
 public:
  Canvas(PdfGen* gen, EPage* page);

  void save();
  void restore();
  void concat(const Mat& m);
  void strokeColor(double r, double g, double b);
  void fillColor(double r, double g, double b);
  /** Sets the constant alpha for stroking to 0.5 (an ExtGState of the page). */
  void strokeAlphaHalf();
  /** Intersects the clip path with a rectangle in user space. */
  void clipRect(double x, double y, double w, double h);

  void beginText();
  void endText();
  void font(size_t f, double size);
  void charSpace(double v);
  void wordSpace(double v);
  void horizScale(double percent);
  void rise(double v);
  void leading(double v);
  void textMatrix(const Mat& m);
  void moveText(double tx, double ty);
  /** Shows glyphs, given by their indices in the current font. */
  void showText(const std::vector<size_t>& glyphs);
  /** Shows glyphs with adjustments (in thousandths) after each of them. */
  void showText(const std::vector<size_t>& glyphs, const std::vector<double>& adjust);
  void nextLine();

  /** Paints a path through the given points; op is the painting operator. A subpath starts at `split`. */
  void path(const std::vector<std::pair<double, double>>& points, bool curve, const std::string& op,
      size_t split = 0);
  /** Transforms a point of the device space to the user space. */
  std::pair<double, double> invert(double x, double y) const;
  void rect(double x, double y, double w, double h, const std::string& op);
  /** A path of many subpaths, each from one of the points to the next one. */
  void segments(const std::vector<std::pair<double, double>>& pts, const std::string& op);
  /** Draws an image (a unit square under the current matrix); kind: one of the images 1 to 6 with masks, or 0. */
  void image(bool isInline, bool mask, int kind = 0);

  const Mat& ctm() const { return _s.ctm; }
  const Clip& clip() const { return _s.clip; }

 private:
  struct State {
    Mat ctm;
    Clip clip;
    double rgb[3] = { 0, 0, 0 };
    double alpha = 1;
    size_t font = 0;
    double size = 0, charSpace = 0, wordSpace = 0, scale = 1, rise = 0, leading = 0;
    bool fontSet = false;
  };
  void glyph(const GGlyph& gl);
  void paint(const std::vector<std::pair<double, double>>& pts, const std::string& op);

  PdfGen* _gen;
  EPage* _page;
  State _s;
  std::vector<State> _stack;
  Mat _tm, _lm;
  int* _rank;
};

/** The running number of elements (characters, shapes, graphics) of the document. */
extern int g_rank;

}  // namespace ppv

#endif  // PPV_PDFGEN_H_
