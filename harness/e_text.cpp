// C01: the text of whole documents.
#include <utf8proc.h>

#include <algorithm>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

#include "./article.h"
#include "./docgen.h"
#include "./e2e.h"
#include "./pagegen.h"
#include "./parseonly.h"
#include "./pbt.h"
#include "./pdfgen.h"

using std::string;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::types::PdfDocument;

PPV_PROP("C01", "articles", 1500, 200000,
    "articles of 1-2 pages in one or two columns, with or without a title, headings, indented or spaced paragraphs "
    "(some continued in the next column), justified or ragged, with hyphenated words; written by lines, words or "
    "characters, with or without spaces, under transformations, and in any order of the paragraphs. The plain text "
    "must be exactly the paragraphs. Non-trivial: at least 3 blocks.") {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  Article a;
  makeArticle(g, &pdf, &a, &r);
  Style st = makeStyle(g);
  writeArticle(g, a, st, &pdf);
  r.nontrivial(a.blocks.size() >= 3);
  r.showIf([&] { return cat("style ", st.unit, st.shuffle ? " shuffled" : "", "\n", a.show()); });
  PdfDocument doc;
  articleRoles(a.hasTitle);
  process(&doc, pdf.build());
  string text = plainText(&doc), exp = a.expected();
  if (text != exp) {
    size_t i = 0;
    while (i < text.size() && i < exp.size() && text[i] == exp[i]) { i++; }
    size_t from = i > 60 ? i - 60 : 0;
    PPV_CHECK(text == exp, "text differs at ", i, ": ", quoted(text.substr(from, 120)), " instead of ",
        quoted(exp.substr(from, 120)));
  }
}

namespace {

/** The spacing forms of combining marks, which may be replaced by the combining marks. */
const std::map<unsigned, unsigned>& spacingMarks() {
  static const std::map<unsigned, unsigned> m = {
    { 0x0022, 0x030B }, { 0x0027, 0x0301 }, { 0x005E, 0x0302 }, { 0x005F, 0x0332 },
    { 0x0060, 0x0300 }, { 0x007E, 0x0303 }, { 0x00A8, 0x0308 }, { 0x00AF, 0x0304 },
    { 0x00B0, 0x030A }, { 0x00B4, 0x0301 }, { 0x00B8, 0x0327 }, { 0x02B2, 0x0321 },
    { 0x02B7, 0x032B }, { 0x02B9, 0x0301 }, { 0x02CC, 0x0329 }, { 0x02BA, 0x030B },
    { 0x02BB, 0x0312 }, { 0x02BC, 0x0313 }, { 0x02BD, 0x0314 }, { 0x02C6, 0x0302 },
    { 0x02C7, 0x030C }, { 0x02C8, 0x030D }, { 0x02C9, 0x0304 }, { 0x02CA, 0x0301 },
    { 0x02CB, 0x0300 }, { 0x02CD, 0x0331 }, { 0x02D4, 0x031D }, { 0x02D5, 0x031E },
    { 0x02D6, 0x031F }, { 0x02D7, 0x0320 }, { 0x02DA, 0x030A }, { 0x02DC, 0x0303 },
    { 0x02DD, 0x030B }, { 0x0384, 0x0301 }, { 0x0485, 0x0314 }, { 0x0486, 0x0313 },
    { 0x0559, 0x0314 }, { 0x055A, 0x0313 }, { 0x204E, 0x0359 } };
  return m;
}

/** Counts the code points of a text after canonical decomposition, except white space and hyphens. */
void count(const string& text, std::map<unsigned, int>* counts, int sign) {
  utf8proc_uint8_t* nfd = nullptr;
  // Marks before the decomposition, as some of them have one of their own.
  string s;
  for (size_t i = 0; i < text.size();) {
    utf8proc_int32_t u;
    auto n = utf8proc_iterate(reinterpret_cast<const utf8proc_uint8_t*>(text.data()) + i, text.size() - i, &u);
    PPV_CHECK(n > 0, "the text is not valid UTF-8 at ", i, ": ", quoted(text.substr(i, 20)));
    auto it = spacingMarks().find(u);
    s += utf8(it == spacingMarks().end() ? u : it->second);
    i += n;
  }
  auto len = utf8proc_map(reinterpret_cast<const utf8proc_uint8_t*>(s.data()), s.size(), &nfd,
      static_cast<utf8proc_option_t>(UTF8PROC_DECOMPOSE));
  PPV_CHECK(len >= 0, "the text cannot be decomposed");
  for (utf8proc_ssize_t i = 0; i < len;) {
    utf8proc_int32_t u;
    i += utf8proc_iterate(nfd + i, len - i, &u);
    if (u <= ' ' || u == '-') { continue; }
    (*counts)[u] += sign;
  }
  free(nfd);
}

}  // namespace

PPV_PROP("C01", "any-text", 6000, 150000,
    "PDF files of 1-3 pages with lines of words in up to three columns (also in the margins and over each other), "
    "with text of any fonts, matrices, spacings, rotations and code points, with paths, images and clip paths. The "
    "text output must consist of exactly the characters on the pages (those in figures are not output), each as often "
    "as it is shown: the multisets of code points (in canonical decomposition, without white space and hyphens) must "
    "be equal. Non-trivial: at least 30 characters on at least one page.") {
  initPoppler();
  PdfGen pdf;
  anyDocument(g, &pdf, &r);
  size_t n = 0;
  std::map<unsigned, int> counts;
  for (auto& p : pdf.pages) {
    for (auto& c : p.chars) { if (pageClip(c.clip, p)) { n++; count(c.text, &counts, 1); } }
  }
  r.nontrivial(n >= 30);
  r.showIf([&] { return showPdf(pdf); });
  PdfDocument doc;
  process(&doc, pdf.build());
  string text = plainText(&doc);
  count(text, &counts, -1);
  string diff;
  for (auto& [u, k] : counts) {
    if (k != 0) { diff += cat(" ", utf8(u), " (", u, ") ", k > 0 ? "missing " : "superfluous ", std::abs(k), "x;"); }
  }
  PPV_CHECK(diff.empty(), "characters of the text:", diff, " text: ", quoted(text.substr(0, 300)));
}
