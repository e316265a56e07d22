#include "./article.h"

#include <algorithm>
#include <string>
#include <utility>
#include <vector>

#include "./docgen.h"

using std::string;
using std::vector;

namespace ppv {

string Article::expected(bool dehyphenate) const {
  string s;
  bool skip = false;
  vector<string> res;
  vector<const AWord*> flat;
  for (auto& b : blocks) { for (auto& l : b.lines) { for (auto& w : l.words) { flat.push_back(&w); } } }
  size_t i = 0;
  for (auto& b : blocks) {
    string t;
    for (auto& l : b.lines) {
      for (auto& w : l.words) {
        size_t pos = i++;
        bool cont = skip;
        skip = dehyphenate && w.divided;
        if (cont) { continue; }
        string text = w.text;
        for (size_t k = pos; dehyphenate && flat[k]->divided; k++) {
          text.pop_back();
          text += flat[k + 1]->text;
        }
        t += (t.empty() ? "" : " ") + text;
      }
    }
    if (!t.empty()) { s += (s.empty() ? "" : "\n\n") + t; }
  }
  return s + "\n";
}

string Article::show() const {
  string s;
  for (auto& b : blocks) {
    s += cat("block on page ", b.page + 1, ":\n");
    for (auto& l : b.lines) {
      s += cat("  x ", l.words[0].x, " y ", l.y, " font ", l.font, " size ", l.size, ": ");
      for (auto& w : l.words) { s += w.text + " "; }
      s += "\n";
    }
  }
  return s;
}

namespace {

/** The glyph of a character of the fonts. */
size_t glyphOf(const GFont& f, unsigned char c) {
  for (size_t i = 0; i < f.glyphs.size(); i++) { if (f.glyphs[i].code == c) { return i; } }
  return 0;
}

double widthOf(const GFont& f, double size, const string& s) {
  double w = 0;
  for (unsigned char c : s) { w += f.glyphs[glyphOf(f, c)].width / 1000 * size; }
  return w;
}

/** A word that is no item label. */
string makeWord(Gen& g, bool* roman, bool first, bool upper) {
  static const string letters = "eeetaoinshrdlucmfwypvbgk";
  string s;
  int n = g.small(2, 11);
  for (int i = 0; i < n; i++) { s += letters[g.below(letters.size())]; }
  *roman = s.find_first_not_of("ivxlcdm") == string::npos;
  if (first || (upper && g.chance(8))) { s[0] -= 32; }
  if (!*roman && n >= 4) {
    if (g.chance(10)) { s += ","; }
    else if (g.chance(3)) { s = "(" + s + ")"; }
  }
  return s;
}

struct Setter {
  Gen& g;
  PdfGen* pdf;
  double space;  // The width of a space, per unit of the font size.
  bool justified;
  bool upper;        // There are uppercase letters within the paragraphs.

  /** Sets a paragraph in lines of the given width; ends with a full line if `full`. */
  vector<ALine> set(int font, double size, double x, double width, double indent, size_t numWords, bool hyphenate) {
    vector<ALine> lines;
    const GFont& f = pdf->fonts[font];
    double gap = space * size;
    vector<AWord> cur;
    double avail = width - indent, used = 0;
    auto finish = [&](bool last) {
      ALine l;
      l.font = font;
      l.size = size;
      double extra = 0;
      if (justified && !last && cur.size() > 1) { extra = (avail - used) / (cur.size() - 1); }
      // No rivers.
      if (extra > gap * 0.6) { extra = 0; }
      double px = x + (width - avail);
      for (auto& w : cur) { w.x = px; px += w.width + gap + extra; }
      l.words = cur;
      lines.push_back(l);
      cur.clear();
      used = 0;
      avail = width;
    };
    for (size_t i = 0; i < numWords; i++) {
      bool roman;
      AWord w;
      w.text = makeWord(g, &roman, i == 0, upper);
      if (i + 1 == numWords && !roman && w.text.size() > 3) { w.text += "."; }
      w.width = widthOf(f, size, w.text);
      double need = (cur.empty() ? 0 : gap) + w.width;
      if (used + need > avail) {
        // Divide the word, or start a new line.
        size_t k = 0;
        if (hyphenate && isalpha(w.text[0]) && w.text.size() >= 5 && g.chance(60)) {
          for (size_t c = 2; c + 2 < w.text.size(); c++) {
            if (used + (cur.empty() ? 0 : gap) + widthOf(f, size, w.text.substr(0, c) + "-") <= avail) { k = c; }
          }
        }
        if (k > 0) {
          AWord a = w;
          a.text = w.text.substr(0, k) + "-";
          a.width = widthOf(f, size, a.text);
          a.divided = true;
          used += (cur.empty() ? 0 : gap) + a.width;
          cur.push_back(a);
          w.text = w.text.substr(k);
          w.width = widthOf(f, size, w.text);
        }
        finish(false);
        need = w.width;
      }
      used += need;
      cur.push_back(w);
    }
    finish(true);
    return lines;
  }
};

}  // namespace

void makeArticle(Gen& g, PdfGen* pdf, Article* a, Rec* r) {
  // The fonts: regular and bold.
  static const vector<string> names = { "NimbusRomNo9L-Regu", "CMR10", "Times-Roman", "ABCDEF+MyriadPro-Regular" };
  size_t name = g.below(names.size());
  for (const string& n : { names[name], names[name] + "-Bold" }) {
    GFont& f = pdf->addAscii(n, 100 * g.range(4, 6));
    if (g.chance(60)) {  // Proportional widths.
      for (auto& gl : f.glyphs) { gl.width = 350 + 50 * (gl.code * 7 % 5); }
    }
  }
  double size = g.range(8, 12);
  Setter setter{ g, pdf, g.range(25, 40) / 100.0, g.chance(60), true };
  double leading = size * g.range(115, 145) / 100.0;
  int cols = g.range(1, 2);
  bool indents = g.chance(50);  // Paragraphs are indented, or else separated by vertical space.
  // Lines that start with uppercase letters make indented paragraphs look like hanging indents.
  setter.upper = !indents;
  double avgWidth = 0.45 * size;
  double indent = indents ? avgWidth * g.range(20, 35) / 10 : 0;
  double parSkip = indents ? 0 : leading * g.range(40, 100) / 100.0;
  a->numPages = g.range(1, 2);
  double margin = g.range(50, 90), top = a->h - g.range(50, 80);
  double bottom = top - leading * g.range(cols == 1 ? 8 : 14, 40);
  double colGap = g.range(20, 40);
  double colWidth = cols == 1 ? a->w - 2 * margin : (a->w - 2 * margin - colGap) / 2;
  // About how many words fit into a line; each paragraph has more than two lines.
  int perLine = static_cast<int>(colWidth / (5.5 * avgWidth + setter.space * size)) + 1;
  bool hyphens = g.chance(70), headings = g.chance(50);
  size_t headFont = g.chance(70) ? 1 : 0;
  double headSize = headFont == 1 && g.chance(50) ? size : size + g.range(2, 5);
  r->label("two columns", cols == 2);
  r->label("indents", indents);
  r->label("justified", setter.justified);
  for (int p = 0; p < a->numPages; p++) {
    double y0 = top;
    if (p == 0 && g.chance(50)) {
      // A title, centered.
      Setter title{ g, pdf, setter.space, false, true };
      double ts = std::max(size, headSize) + g.range(2, 6);
      a->hasTitle = true;
      auto lines = title.set(1, ts, margin, (a->w - 2 * margin) * 0.7, 0, g.range(5, 12), false);
      ABlock b;
      b.page = p;
      for (auto& l : lines) {
        double w = l.words.back().x + l.words.back().width - l.words[0].x;
        double shift = (a->w - w) / 2 - l.words[0].x;
        for (auto& x : l.words) { x.x += shift; }
        if (cols == 2) {
          // The gap between the columns must not go on through the title: a word is centered in it.
          AWord* best = &l.words[0];
          auto off = [&](const AWord& x) { return x.x + x.width / 2 - a->w / 2; };
          for (auto& x : l.words) { if (std::abs(off(x)) < std::abs(off(*best))) { best = &x; } }
          double s = off(*best);
          for (auto& x : l.words) { x.x -= s; }
        }
        l.y = y0 - ts;
        y0 -= ts * 1.2;
      }
      y0 -= ts * 1.5;
      b.lines = lines;
      a->blocks.push_back(b);
      r->label("title");
    }
    vector<ALine> rest;  // The rest of a paragraph, to be continued in the next column.
    for (int c = 0; c < cols; c++) {
      double x = margin + c * (colWidth + colGap);
      double y = y0 - size;
      bool first = true;
      while (true) {
        vector<ALine> lines;
        bool cont = !rest.empty();
        if (cont) {
          lines = rest;
          rest.clear();
          for (auto& l : lines) { for (auto& w : l.words) { w.x += colWidth + colGap; } }
          r->label("continued paragraph");
        } else {
          // Slim elements at the top of one of two columns may be cut off together with lines of the other column.
          if (headings && !(cols == 2 && first) && g.chance(30)) {
            // A heading; with at least two lines below.
            double gap = headSize * 0.8;
            if (!first) { y -= gap; }
            if (y - gap - 3 * leading < bottom) { if (!first) { y += gap; } break; }
            Setter hs{ g, pdf, setter.space, false, true };
            auto hl = hs.set(headFont, headSize, x, colWidth, 0, g.range(1, 3), false);
            ABlock h;
            h.page = p;
            for (auto& l : hl) { l.y = y; y -= headSize * 1.2; }
            y -= gap;
            h.lines = hl;
            a->blocks.push_back(h);
            r->label("heading");
            first = false;
          }
          lines = setter.set(0, size, x, colWidth, indent, g.range(perLine * 2 + 2, perLine * 8), hyphens);
          if (!first && !a->blocks.back().lines.empty()) { y -= parSkip; }
        }
        ABlock b;
        b.page = p;
        size_t i = 0;
        for (; i < lines.size() && y >= bottom; i++) {
          lines[i].y = y;
          y -= leading;
          b.lines.push_back(lines[i]);
        }
        if (!b.lines.empty()) { a->blocks.push_back(b); first = false; }
        if (i < lines.size()) {
          if (c + 1 < cols && lines.size() - i > 1) {
            rest.assign(lines.begin() + i, lines.end());
          } else if (i > 0) {
            AWord& w = a->blocks.back().lines.back().words.back();
            if (w.divided) { w.divided = false; w.text.pop_back(); }
          }
          break;
        }
        if (y < bottom) { break; }
      }
    }
  }
}

Style makeStyle(Gen& g) {
  Style s;
  s.unit = g.below(6);
  s.shuffle = g.chance(30);
  if (g.chance(30)) { s.x0 = g.range(-100, 100); s.y0 = g.range(-100, 100); }
  return s;
}

void writeArticle(Gen& g, const Article& a, const Style& st, PdfGen* pdf) {
  vector<vector<const ABlock*>> order(a.numPages);
  for (auto& b : a.blocks) { order[b.page].push_back(&b); }
  g_rank = 0;
  pdf->pages.clear();
  for (int p = 0; p < a.numPages; p++) { pdf->pages.emplace_back(); }
  for (int p = 0; p < a.numPages; p++) {
    EPage* page = &pdf->pages[p];
    page->w = a.w;
    page->h = a.h;
    page->x0 = st.x0;
    page->y0 = st.y0;
    if (st.shuffle) {
      // Words that are contiguous in the content stream and next to each other are never divided into two columns.
      auto next = [](const ABlock* b1, const ABlock* b2) {
        const ALine& l1 = b1->lines.back();
        for (auto& l2 : b2->lines) { if (std::abs(l1.y - l2.y) < 2 * l1.size) { return true; } }
        return false;
      };
      auto orig = order[p];
      for (size_t i = order[p].size(); i > 1; i--) { std::swap(order[p][i - 1], order[p][g.below(i)]); }
      for (size_t i = 1; i < order[p].size(); i++) { if (next(order[p][i - 1], order[p][i])) { order[p] = orig; } }
    }
    Canvas c(pdf, page);
    double ox = st.x0, oy = st.y0;
    if (st.unit == 4) {
      c.save();
      c.concat({ 0.5, 0, 0, 0.5, ox + 10, oy - 20 });
    }
    double k = st.unit == 4 ? 2 : 1;
    auto px = [&](double x) { return st.unit == 4 ? (x - 10) * 2 : x + ox; };
    auto py = [&](double y) { return st.unit == 4 ? (y + 20) * 2 : y + oy; };
    for (auto* b : order[p]) {
      for (auto& l : b->lines) {
        const GFont& f = pdf->fonts[l.font];
        c.beginText();
        double tx = 0, ty = 0;
        auto glyphs = [&](const string& s) {
          vector<size_t> v;
          for (unsigned char ch : s) { v.push_back(glyphOf(f, ch)); }
          return v;
        };
        if (st.unit == 3) {
          c.font(l.font, 1);
          c.textMatrix({ l.size, 0, 0, l.size, px(l.words[0].x), py(l.y) });
        } else {
          c.font(l.font, l.size * k);
        }
        switch (st.unit) {
          case 1: case 4:
            for (auto& w : l.words) {
              c.moveText(px(w.x) - tx, py(l.y) - ty);
              tx = px(w.x);
              ty = py(l.y);
              c.showText(glyphs(w.text));
            }
            break;
          case 2:
            for (auto& w : l.words) {
              double x = w.x;
              for (char ch : w.text) {
                c.textMatrix({ 1, 0, 0, 1, px(x), py(l.y) });
                c.showText(glyphs(string(1, ch)));
                x += widthOf(f, l.size, string(1, ch));
              }
            }
            break;
          default: {
            if (st.unit != 3) { c.moveText(px(l.words[0].x), py(l.y)); }
            vector<size_t> all;
            vector<double> adjust;
            for (size_t i = 0; i < l.words.size(); i++) {
              auto v = glyphs(l.words[i].text);
              all.insert(all.end(), v.begin(), v.end());
              adjust.resize(all.size(), 0);
              if (i + 1 < l.words.size()) {
                double gap = l.words[i + 1].x - l.words[i].x - l.words[i].width;
                if (st.unit == 5) {
                  gap -= widthOf(f, l.size, " ");
                  all.push_back(glyphOf(f, ' '));
                  adjust.resize(all.size(), 0);
                }
                adjust.back() = -gap / l.size * 1000;
              }
            }
            c.showText(all, adjust);
            break;
          }
        }
        c.endText();
      }
    }
    if (st.unit == 4) { c.restore(); }
  }
}

}  // namespace ppv
