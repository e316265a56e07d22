// C15: plain and extended text; C16: JSONL.
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "./docgen.h"
#include "./json.h"
#include "./pbt.h"
#include "PdfDocumentSerialization.h"

using ppp::types::PdfCharacter;
using ppp::types::PdfElementType;
using ppp::types::PdfPage;
using ppp::types::PdfPageSegment;
using ppp::types::PdfTextBlock;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using ppp::types::SemanticRole;
using std::string;
using std::vector;
using namespace ppv;  // NOLINT

namespace {

/** The documented names of the roles. */
const char* const ROLES[] = { "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title",
  "author-info", "abstract", "date", "caption", "table", "other", "toc" };

struct ChM { PdfCharacter* ch; string text; bool mark; };
struct WdM { PdfWord* word; vector<ChM> chars; string merged; bool first = false, second = false; };
struct BlM { PdfTextBlock* block; int role; bool emphasized; vector<WdM> words; };
struct PgM { PdfPage* page; vector<BlM> blocks; };

struct Model {
  Doc d;
  vector<PgM> pages;
  vector<std::unique_ptr<PdfWord>> merged;
};

string text(Gen& g) {
  static const vector<string> parts = { "a", "b", "Z", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\"", "\\", "/",
    "-", "{", "\x01", "\x1f", "\x7f", "\t", "\n", "\r", "\b", "\f", "<", "&", "," };
  string s;
  for (int i = static_cast<int>(g.small(1, 3)); i > 0; i--) { s += g.chance(60) ? g.pick(parts).substr(0) : parts[g.below(3)]; }
  return s;
}

int64_t coord(Gen& g) {
  switch (g.weighted({ 80, 10, 10 })) {
    case 0: return g.range(0, 8000);
    case 1: return g.around(-30000, 30000);
    default: return g.around(-90000, 90000);
  }
}

void generate(Gen& g, Rec& r, Model* m, const vector<string>& fonts) {
  for (auto& f : fonts) { m->d.addFont(f, 100 * static_cast<int>(g.range(1, 9)), g.chance(30))->isType3 = g.chance(20); }
  const PdfWord* pendingMerged = nullptr;
  for (int p = static_cast<int>(g.many(1, 3)); p > 0; p--) {
    PdfPage* page = m->d.addPage(g.range(1, 9000) / 10.0, g.range(1, 9000) / 10.0);
    m->pages.push_back({ page, {} });
    auto* seg = new PdfPageSegment();
    page->segments.push_back(seg);
    for (int i = static_cast<int>(g.many(0, 3)); i > 0; i--) {
      auto* f = new ppp::types::PdfFigure();
      f->pos->pageNum = page->pageNum;
      f->pos->leftX = tenths(coord(g));
      f->pos->upperY = tenths(coord(g));
      f->pos->rightX = tenths(coord(g));
      f->pos->lowerY = tenths(coord(g));
      f->id = cat("figure-", m->d.nextId++);
      f->rank = m->d.nextRank++;
      page->figures.push_back(f);
      auto* s = new ppp::types::PdfShape();
      *s->pos = *f->pos;
      s->pos->leftX -= 1;
      s->id = cat("shape-", m->d.nextId++);
      s->rank = m->d.nextRank++;
      page->shapes.push_back(s);
    }
    for (int b = static_cast<int>(g.many(0, 4)); b > 0; b--) {
      auto* block = new PdfTextBlock();
      block->doc = m->d.doc;
      block->id = cat("block-", m->d.nextId++);
      block->rank = m->d.nextRank++;
      block->role = static_cast<SemanticRole>(g.below(14));
      block->isEmphasized = g.chance(30);
      block->fontName = g.pick(fonts);
      block->fontSize = tenths(g.range(10, 400));
      block->text = text(g);
      block->pos->pageNum = page->pageNum;
      block->pos->leftX = tenths(coord(g));
      block->pos->upperY = tenths(coord(g));
      block->pos->rightX = tenths(coord(g));
      block->pos->lowerY = tenths(coord(g));
      block->segment = seg;
      seg->blocks.push_back(block);
      page->blocks.push_back(block);
      BlM bm{ block, static_cast<int>(block->role), block->isEmphasized, {} };
      if (g.chance(40)) { pendingMerged = nullptr; }  // Otherwise, a word may continue in the next block.
      for (int l = static_cast<int>(g.many(0, 3)); l > 0; l--) {
        auto* line = new PdfTextLine();
        line->block = block;
        line->segment = seg;
        line->doc = m->d.doc;
        block->lines.push_back(line);
        seg->lines.push_back(line);
        for (int w = static_cast<int>(g.many(0, 4)); w > 0; w--) {
          WdM wm{ m->d.newWord(page, "", coord(g), coord(g), coord(g), coord(g), g.range(10, 400), g.pick(fonts)), {}, "" };
          PdfWord* word = wm.word;
          word->line = line;
          line->words.push_back(word);
          page->words.push_back(word);
          int n = static_cast<int>(g.many(0, 4));
          for (int c = 0; c < n; c++) {
            PdfCharacter* ch = m->d.addChar(page, { 'x' }, coord(g), coord(g), coord(g), coord(g), g.range(10, 400),
                g.pick(fonts), static_cast<int>(g.below(4)), static_cast<int>(g.below(2)));
            ch->text = text(g);
            for (double& v : ch->color) { v = g.range(0, 4) / 4.0; }
            ch->opacity = g.range(0, 4) / 4.0;
            ch->word = word;
            ChM cm{ ch, ch->text, false };
            if (c > 0 && g.chance(15)) {  // A mark that is merged with the previous character.
              ch->isDiacriticMarkOfBaseChar = word->characters[c - 1];
              cm.mark = true;
              if (!word->characters[c - 1]->isDiacriticMarkOfBaseChar) {
                word->characters[c - 1]->isBaseCharOfDiacriticMark = ch;
                word->characters[c - 1]->textWithDiacriticMark = wm.chars[c - 1].text = text(g);
                r.label("diacritic");
              }
            }
            word->characters.push_back(ch);
            wm.chars.push_back(cm);
          }
          for (auto& c : wm.chars) { word->text += c.mark ? "" : c.text; }
          if (g.chance(10)) { word->text = text(g); }
          if (pendingMerged) {
            word->isSecondPartOfHyphenatedWord = pendingMerged;
            wm.second = true;
            pendingMerged = nullptr;
            r.label("hyphenated");
          } else if (g.chance(15)) {
            m->merged.emplace_back(m->d.newWord(page, text(g), 0, 0, 10, 10, 100, fonts[0]));
            pendingMerged = m->merged.back().get();
            word->isFirstPartOfHyphenatedWord = pendingMerged;
            wm.first = true;
            wm.merged = pendingMerged->text;
          }
          bm.words.push_back(wm);
        }
      }
      m->pages.back().blocks.push_back(bm);
    }
  }
}

string wordText(const WdM& w) {
  if (w.first) { return w.merged; }
  string s;
  for (auto& c : w.chars) { s += c.mark ? "" : c.text; }
  return s;
}

string blockText(const BlM& b) {
  string s;
  bool any = false;
  for (auto& w : b.words) {
    if (w.second) { continue; }
    s += (any ? " " : "") + wordText(w);
    any = true;
  }
  return s;
}

std::unordered_set<SemanticRole> pickRoles(Gen& g) {
  std::unordered_set<SemanticRole> res;
  bool all = g.chance(40);
  for (int i = 0; i < 14; i++) { if (all || g.chance(60)) { res.insert(static_cast<SemanticRole>(i)); } }
  if (res.empty()) { res.insert(static_cast<SemanticRole>(g.below(14))); }  // The empty set is not specified.
  return res;
}

string slurp(const string& path) {
  std::ifstream in(path, std::ios::binary);
  PPV_CHECK(in.is_open(), "the file ", quoted(path), " was not created");
  std::stringstream s;
  s << in.rdbuf();
  return s.str();
}

/** Serializes to a file (maybe in a new directory), or to the standard output. */
string serialize(Gen& g, Rec& r, const ppp::serialization::Serializer& ser, const Model& m,
    const std::unordered_set<SemanticRole>& roles, const std::unordered_set<PdfElementType>& types) {
  if (g.chance(40)) {
    std::stringstream s;
    auto* old = std::cout.rdbuf(s.rdbuf());
    ser.serialize(m.d.doc, roles, types, "-");
    std::cout.rdbuf(old);
    r.label("standard output");
    return s.str();
  }
  static const vector<string> names = { "out.txt", "a b.txt", "x'y.txt", "$(x).txt", "-", "\xc3\xa4.txt", "a;b", "#" };
  static const vector<string> dirs = { "", "d/", "d/e/", "new dir/", "it's/x/", "$HOME/", "a;b/", "-p/" };
  static int run = 0;
  string root = cat(scratchDir(), "/s", run++);
  string path = root + "/" + g.pick(dirs) + g.pick(names);
  if (g.chance(20)) {  // An existing file must be replaced.
    int res = system(("mkdir -p " + root).c_str());
    PPV_CHECK(res == 0);
    path = root + "/old.txt";
    std::ofstream(path) << string(100000, 'x');
    r.label("existing file");
  }
  ser.serialize(m.d.doc, roles, types, path);
  string res = slurp(path);
  int rc = system(("rm -rf " + root).c_str());
  PPV_CHECK(rc == 0);
  return res;
}

bool close6(double v, double x) { return std::fabs(v - x) <= 5.1e-6 * std::fabs(x) + 1e-9; }

}  // namespace

PPV_PROP("C15", "text-formats", 60000, 3000000,
    "documents of 0-3 pages of blocks (of any roles, emphasized or not, some empty) of lines of words, some of them "
    "hyphenated, of characters with any texts, some with merged marks; serialized as plain or extended text, with any "
    "set of roles, to the standard output or a file of any name in an existing or new directory. The bytes written "
    "must be those of a reference. Non-trivial: at least two blocks are output and one is not, or words are hyphenated "
    "or marks merged.") {
  Model m;
  generate(g, r, &m, { "A", "B" });
  if (g.chance(3)) {
    for (auto* p : m.d.doc->pages) { delete p; }
    m.d.doc->pages.clear();
    m.pages.clear();
  }
  auto roles = pickRoles(g);
  bool extended = g.chance(50);
  r.label(extended ? "extended" : "plain");
  string exp;
  bool any = false;
  int in = 0, out = 0;
  for (auto& p : m.pages) {
    for (auto& b : p.blocks) {
      if (!roles.count(static_cast<SemanticRole>(b.role))) { out++; continue; }
      in++;
      // There is no blank line for a block without words of its own (e.g., the end of a hyphenated word only).
      bool words = false;
      for (auto& w : b.words) { words = words || !w.second; }
      if (!extended && !words) { continue; }
      if (any) { exp += "\n\n"; }
      any = true;
      if (extended) {
        string role = ROLES[b.role];
        for (char& c : role) { c = static_cast<char>(toupper(c)); }
        exp += "[" + role + "] " + (b.emphasized ? "\x01" : "");
      }
      exp += blockText(b);
    }
    if (extended) { exp += "\n\f"; }
  }
  exp += "\n";
  r.nontrivial(in >= 2 && (out > 0 || r.labels.count("hyphenated") || r.labels.count("diacritic")));
  r.showIf([&] { return quoted(exp); });
  std::unordered_set<PdfElementType> types;
  for (int i = 0; i < 7; i++) { if (g.chance(50)) { types.insert(static_cast<PdfElementType>(i)); } }
  string got;
  auto* ser = ppp::serialization::getSerializer(
      extended ? ppp::types::SerializationFormat::TXT_EXTENDED : ppp::types::SerializationFormat::TXT);
  PPV_CHECK(ser != nullptr, "no serializer for the format");
  got = serialize(g, r, *ser, m, roles, types);
  PPV_CHECK(got == exp, "wrote ", quoted(got), " instead of ", quoted(exp));
}

PPV_PROP("C16", "jsonl", 40000, 2000000,
    "documents as of C15, with figures and shapes, with any texts and names of fonts (quotes, backslashes, control "
    "characters, characters outside of the BMP), any coordinates, colors, weights; serialized as JSONL with any sets of "
    "roles and types of elements. Each line must be a strictly valid JSON object, and for each requested type there "
    "must be exactly one per element, in order, with all its attributes; others must be absent. Non-trivial: at least "
    "5 lines of at least 2 types.") {
  Model m;
  vector<string> fonts = { "CMR10", text(g) + "f", "Font\"with\\\n" };
  generate(g, r, &m, fonts);
  auto roles = pickRoles(g);
  std::unordered_set<PdfElementType> types;
  for (int i = 0; i < 7; i++) { if (g.chance(60)) { types.insert(static_cast<PdfElementType>(i)); } }
  string got = serialize(g, r, ppp::serialization::JsonlSerializer(1), m, roles, types);
  r.showIf([&] { return got; });
  PPV_CHECK(got.empty() || got.back() == '\n', "the last line is not terminated");
  std::map<string, vector<Json>> found;
  size_t lines = 0;
  std::istringstream ss(got);
  for (string line; std::getline(ss, line); lines++) {
    Json j = Json::parse(line);
    PPV_CHECK(j.kind == Json::OBJECT, "no object: ", line);
    PPV_CHECK(j.text("origin") == "pdftotext++", "origin");
    found[j.text("type")].push_back(j);
  }
  r.nontrivial(lines >= 5 && found.size() >= 2);
  auto on = [&](PdfElementType t) { return types.count(t) > 0; };
  auto pos = [&](const Json& j, const ppp::types::PdfPosition* p, const string& what) {
    PPV_CHECK(j.num("page") == p->pageNum, what, ": page");
    PPV_CHECK(close6(j.num("minX"), p->leftX) && close6(j.num("minY"), p->upperY) && close6(j.num("maxX"), p->rightX)
        && close6(j.num("maxY"), p->lowerY), what, ": box");
  };
  std::map<string, size_t> next;
  auto take = [&](const string& type, const string& what) -> const Json& {
    size_t i = next[type]++;
    PPV_CHECK(i < found[type].size(), "no line for ", what);
    return found[type][i];
  };
  for (auto& p : m.pages) {
    if (on(PdfElementType::PAGES)) {
      const Json& j = take("page", "a page");
      PPV_CHECK(j.num("num") == p.page->pageNum && close6(j.num("width"), p.page->clipRightX)
          && close6(j.num("height"), p.page->clipLowerY), "page ", p.page->pageNum);
    }
    if (on(PdfElementType::FIGURES)) {
      for (auto* f : p.page->figures) {
        const Json& j = take("figure", f->id);
        PPV_CHECK(j.text("id") == f->id && j.num("rank") == f->rank, f->id);
        pos(j, f->pos, f->id);
      }
    }
    if (on(PdfElementType::SHAPES)) {
      for (auto* f : p.page->shapes) {
        const Json& j = take("shape", f->id);
        PPV_CHECK(j.text("id") == f->id && j.num("rank") == f->rank, f->id);
        pos(j, f->pos, f->id);
      }
    }
    for (auto& b : p.blocks) {
      if (!roles.count(static_cast<SemanticRole>(b.role))) { continue; }
      if (on(PdfElementType::TEXT_BLOCKS)) {
        const Json& j = take("block", b.block->id);
        PPV_CHECK(j.text("id") == b.block->id && j.num("rank") == b.block->rank, b.block->id);
        pos(j, b.block->pos, b.block->id);
        PPV_CHECK(j.text("font") == b.block->fontName, b.block->id, ": font ", quoted(j.text("font")));
        PPV_CHECK(close6(j.num("fontSize"), b.block->fontSize), b.block->id, ": font size");
        PPV_CHECK(j.text("text") == b.block->text, b.block->id, ": text ", quoted(j.text("text")));
        PPV_CHECK(j.text("role") == ROLES[b.role], b.block->id, ": role ", j.text("role"));
      }
      for (auto& w : b.words) {
        if (on(PdfElementType::WORDS)) {
          const Json& j = take("word", w.word->id);
          PPV_CHECK(j.text("id") == w.word->id && j.num("rank") == w.word->rank, w.word->id);
          pos(j, w.word->pos, w.word->id);
          PPV_CHECK(j.text("font") == w.word->fontName, w.word->id, ": font ", quoted(j.text("font")));
          PPV_CHECK(close6(j.num("fontSize"), w.word->fontSize), w.word->id, ": font size");
          PPV_CHECK(j.text("text") == w.word->text, w.word->id, ": text ", quoted(j.text("text")));
          PPV_CHECK(j.text("block") == b.block->id, w.word->id, ": block");
        }
        for (auto& c : w.chars) {
          if (!on(PdfElementType::CHARACTERS) || c.mark) { continue; }
          const Json& j = take("char", c.ch->id);
          PPV_CHECK(j.text("id") == c.ch->id && j.num("rank") == c.ch->rank, c.ch->id);
          pos(j, c.ch->pos, c.ch->id);
          PPV_CHECK(j.num("wMode") == c.ch->pos->wMode && j.num("rotation") == c.ch->pos->rotation, c.ch->id);
          PPV_CHECK(j.text("font") == c.ch->fontName, c.ch->id, ": font ", quoted(j.text("font")));
          PPV_CHECK(close6(j.num("fontSize"), c.ch->fontSize), c.ch->id, ": font size");
          const auto* info = m.d.doc->fontInfos.at(c.ch->fontName);
          PPV_CHECK(j.num("weight") == info->weight, c.ch->id, ": weight");
          PPV_CHECK(j.at("italic").kind == Json::BOOL && j.at("italic").boolean == info->isItalic, c.ch->id, ": italic");
          PPV_CHECK(j.at("type-3").kind == Json::BOOL && j.at("type-3").boolean == info->isType3, c.ch->id, ": type-3");
          const Json& col = j.at("color");
          PPV_CHECK(col.kind == Json::ARRAY && col.items.size() == 3, c.ch->id, ": color");
          for (int i = 0; i < 3; i++) { PPV_CHECK(close6(col.items[i].number, c.ch->color[i]), c.ch->id, ": color"); }
          PPV_CHECK(close6(j.num("opacity"), c.ch->opacity), c.ch->id, ": opacity");
          PPV_CHECK(j.text("text") == c.text, c.ch->id, ": text ", quoted(j.text("text")));
          PPV_CHECK(j.text("word") == w.word->id && j.text("block") == b.block->id, c.ch->id, ": word or block");
        }
      }
    }
  }
  for (auto& [type, js] : found) {
    if (type == "line") { continue; }  // Not specified (yet).
    PPV_CHECK(next[type] == js.size(), js.size(), " lines of type ", type, " instead of ", next[type]);
  }
}
