// C14: dehyphenation.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "Types.h"
#include "WordsDehyphenation.h"

using ppp::config::WordsDehyphenationConfig;
using ppp::modules::WordsDehyphenation;
using ppp::types::PdfPage;
using ppp::types::PdfTextBlock;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using ppp::types::SemanticRole;
using std::string;
using std::vector;
using namespace ppv;

namespace {

/** What is to be output for a word: nothing, if its text is part of the text of an earlier word. */
string rendered(const PdfWord* w) {
  if (w->isSecondPartOfHyphenatedWord) { return "~"; }
  return w->isFirstPartOfHyphenatedWord ? w->isFirstPartOfHyphenatedWord->text : w->text;
}

}  // namespace

PPV_PROP("C14", "dehyphenation", 400000, 6000000, "pages of blocks (of one or several roles) of lines of "
    "words, some with hyphens at the end (also alone, after a multi-byte character, in lines of one "
    "word, at the end of a block or page) and some lines without words; the text to be output for "
    "each word is compared to a model; non-trivial: at least one word is dehyphenated and one hyphen "
    "is kept") {
  Doc d;
  const vector<string> texts = { "foo", "foo-", "a-", "-", "--", "x", "\xc3\xa4-", "\xc3\xa4", "well-known", "-b",
    "\xe2\x80\x90", "a\xe2\x80\x93", "" };
  struct W { PdfWord* word; string text; bool first, last; int role; };
  vector<W> ws;
  int numPages = static_cast<int>(g.many(1, 3));
  bool sameRole = g.chance(60);
  string shown;
  for (int p = 0; p < numPages; p++) {
    PdfPage* page = d.addPage();
    int numBlocks = static_cast<int>(g.many(0, 4));
    for (int b = 0; b < numBlocks; b++) {
      auto* block = new PdfTextBlock();
      block->doc = d.doc;
      block->role = sameRole ? SemanticRole::PARAGRAPH : static_cast<SemanticRole>(g.below(3));
      page->blocks.push_back(block);
      shown += cat("[role ", static_cast<int>(block->role));
      int numLines = static_cast<int>(g.many(0, 5));
      auto* seg = new ppp::types::PdfPageSegment();
      page->segments.push_back(seg);
      for (int l = 0; l < numLines; l++) {
        auto* line = new PdfTextLine();
        seg->lines.push_back(line);
        block->lines.push_back(line);
        line->doc = d.doc;
        line->block = block;
        line->segment = seg;
        shown += " |";
        int n = g.chance(10) ? 0 : static_cast<int>(g.many(1, 4));
        for (int k = 0; k < n; k++) {
          string text = k == n - 1 && g.chance(60) ? "foo-" : g.pick(texts);
          PdfWord* w = d.newWord(page, text, 0, 0, 100, 100, 100, "A");
          w->line = line;
          page->words.push_back(w);
          line->words.push_back(w);
          ws.push_back({ w, text, k == 0, k == n - 1, static_cast<int>(block->role) });
          shown += " " + quoted(text);
        }
      }
      shown += "] ";
    }
  }
  r.showIf([&] { return shown; });
  static const WordsDehyphenationConfig config;
  WordsDehyphenation(d.doc, &config).process();

  // The expected outputs.
  vector<string> exp;
  size_t start = 0;
  bool merged = false, kept = false;
  for (size_t i = 0; i < ws.size(); i++) {
    exp.push_back(ws[i].text);
    auto hyphen = [&](const string& s) { return s.size() > 1 && s.back() == '-'; };
    if (i > 0 && ws[i - 1].last && hyphen(ws[i - 1].text) && ws[i - 1].role == ws[i].role) {
      exp[start].pop_back();
      exp[start] += ws[i].text;
      exp[i] = "~";
      merged = true;
    } else {
      start = i;
    }
    kept = kept || (hyphen(exp[start]) && start < i);
  }
  for (size_t i = 0; i < ws.size(); i++) {
    PPV_CHECK(ws[i].word->text == ws[i].text, "the text of word ", i, " changed");
    PPV_CHECK(rendered(ws[i].word) == exp[i], "word ", i, " is output as ", quoted(rendered(ws[i].word)),
        " instead of ", quoted(exp[i]));
    const PdfWord* m = ws[i].word->isFirstPartOfHyphenatedWord;
    PPV_CHECK(!m || (i + 1 < ws.size() && ws[i + 1].word->isSecondPartOfHyphenatedWord == m), "the parts of ",
        quoted(ws[i].text), " refer to different words");
    PPV_CHECK(!ws[i].word->isSecondPartOfHyphenatedWord || exp[i] == "~", "word ", i, " is no second part");
  }
  r.nontrivial(merged && kept);
  std::set<const PdfWord*> all;
  for (auto& w : ws) {
    if (w.word->isFirstPartOfHyphenatedWord) { all.insert(w.word->isFirstPartOfHyphenatedWord); }
    if (w.word->isSecondPartOfHyphenatedWord) { all.insert(w.word->isSecondPartOfHyphenatedWord); }
  }
  for (auto* w : all) { delete w; }
}
