// C27 (part): the prediction of semantic roles: features given to the model, and the use of its output.
#include <cmath>
#include <fstream>
#include <limits>
#include <string>
#include <unordered_map>
#include <vector>

#include <cppflow/cppflow.h>

#include "./docgen.h"
#include "./pbt.h"
#include "Config.h"
#include "ReadingOrderDetection.h"
#include "SemanticRolesPrediction.h"
#include "utils/BytePairEncoder.h"

using std::string;
using std::vector;
using std::wstring;
using namespace ppv;
using ppp::types::PdfFontInfo;
using ppp::types::PdfPage;
using ppp::types::PdfPageSegment;
using ppp::types::PdfTextBlock;
using ppp::types::PdfTextLine;
using ppp::types::PdfWord;
using ppp::types::SemanticRole;

namespace {

typedef std::unordered_map<wstring, int> Vocab;

struct Block {
  PdfTextBlock* block;
  PdfPage* page;
  vector<unsigned> text;
  vector<vector<unsigned>> words;
  int weight;
  bool italic;
};

vector<unsigned> genWord(Gen& g) {
  static const vector<unsigned> cps = { 'a', 'b', 'e', 'n', 't', 'A', 'B', 'T', '0', '7', '@', '.', ',', '(', 0xe4, 0xc4, 0x100, 0x141,
      0x17f, 0x141, 0x3b1, 0x2014, 0xfb01, 0x1d49c, 0x5f0, 0x4e00, 0x80, 0x7f };
  vector<unsigned> w;
  for (int i = static_cast<int>(g.small(1, 8)); i > 0; i--) { w.push_back(g.chance(50) ? 'a' + g.below(26) : g.pick(cps)); }
  return w;
}

wstring wide(const vector<unsigned>& us) {
  wstring s;
  for (unsigned u : us) { s += static_cast<wchar_t>(u); }
  return s;
}

bool ascii(unsigned u, unsigned lo, unsigned hi) { return u >= lo && u <= hi; }

/** Writes the files of a model, and returns the directory. */
string writeModel(const Vocab& vocab) {
  static int n = 0;
  string dir = cat(scratchDir(), "/model", n++);
  int rc = system(("mkdir -p " + dir).c_str());
  PPV_CHECK(rc == 0);
  std::ofstream v(dir + "/bpe-vocab.tsv");
  for (auto& [token, id] : vocab) {
    for (wchar_t c : token) { v << utf8(static_cast<unsigned>(c)); }
    v << "\t" << id << "\n";
  }
  static const char* ROLES[] = { "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info",
      "abstract", "date", "caption", "table", "other", "toc" };
  std::ofstream rv(dir + "/roles-vocab.tsv");
  for (int i = 0; i < 14; i++) { rv << ROLES[i] << "\t" << i << "\n"; }
  return dir;
}

}  // namespace

PPV_PROP("C27", "roles", 30000, 1500000,
    "documents of 0-4 pages (of any size) of blocks with any boxes, fonts (bold, italic), font sizes, and texts (empty, "
    "with non-ASCII and non-BMP characters), predicted by one instance with a random vocabulary file; the model is "
    "replaced by a function that records its inputs and returns random probabilities. The inputs must be the "
    "features and the encodings of the blocks, in order; and each block must get its most probable role (and keep its "
    "role if the prediction is disabled). Non-trivial: at least 3 blocks, with different font sizes.") {
  Vocab vocab;
  int id = 0;
  for (unsigned c = 'a'; c <= 'z'; c++) { if (!g.chance(10)) { vocab[wstring(1, static_cast<wchar_t>(c))] = id++; } }
  for (unsigned c : vector<unsigned>{ 'A', 'B', '@', '0', 0xe4, 0x3b1, 0x1d49c }) {
    if (!g.chance(30)) { vocab[wstring(1, static_cast<wchar_t>(c))] = id++; }
  }
  for (int i = static_cast<int>(g.small(0, 15)); i > 0; i--) {
    wstring t;
    for (int k = g.range(2, 3); k > 0; k--) { t += static_cast<wchar_t>('a' + g.below(26)); }
    if (!vocab.count(t)) { vocab[t] = id++; }
  }
  ppp::config::SemanticRolesPredictionConfig config;
  config.modelsDir = writeModel(vocab);
  static const ppp::config::ReadingOrderDetectionConfig orderConfig;
  ppp::modules::SemanticRolesPrediction prediction(&config);
  auto oldHook = cppflow::hook();
  struct Restore {
    cppflow::Hook h;
    string dir;
    ~Restore() {
      cppflow::hook() = h;
      int rc = system(("rm -rf " + dir).c_str());
      (void) rc;
    }
  } restore{ oldHook, config.modelsDir };
  string log;
  for (int docs = static_cast<int>(g.small(1, 2)); docs > 0; docs--) {
    Doc d;
    vector<Block> blocks;
    vector<string> fonts = { "A", "B", "C" };
    vector<std::pair<int, bool>> infos;
    for (auto& f : fonts) {
      infos.push_back({ static_cast<int>(g.range(1, 9)) * 100, g.chance(40) });
      if (g.chance(10)) { infos.back().first = 500; }
      d.addFont(f, infos.back().first, infos.back().second);
    }
    double minFs = 1e300, maxFs = 0;
    for (int p = static_cast<int>(g.many(0, 4)); p > 0; p--) {
      PdfPage* page = d.addPage(g.range(100, 9000) / 10.0, g.range(100, 9000) / 10.0);
      auto* seg = new PdfPageSegment();
      page->segments.push_back(seg);
      for (int b = static_cast<int>(g.many(0, 5)); b > 0; b--) {
        Block m;
        m.page = page;
        m.block = new PdfTextBlock();
        m.block->doc = d.doc;
        m.block->segment = seg;
        size_t f = g.below(3);
        m.block->fontName = fonts[f];
        m.weight = infos[f].first;
        m.italic = infos[f].second;
        m.block->fontSize = tenths(g.chance(50) ? g.pick(vector<int>{ 80, 100, 120 }) : g.range(10, 400));
        minFs = std::min(minFs, m.block->fontSize);
        maxFs = std::max(maxFs, m.block->fontSize);
        m.block->pos->pageNum = page->pageNum;
        m.block->pos->leftX = tenths(g.range(0, 5000));
        m.block->pos->rightX = m.block->pos->leftX + tenths(g.range(1, 4000));
        m.block->pos->upperY = tenths(g.range(0, 5000));
        m.block->pos->lowerY = m.block->pos->upperY + tenths(g.range(1, 4000));
        m.block->role = SemanticRole::OTHER;
        for (int l = static_cast<int>(g.many(0, 3)); l > 0; l--) {
          auto* line = new PdfTextLine();
          line->block = m.block;
          line->segment = seg;
          seg->lines.push_back(line);
          m.block->lines.push_back(line);
          for (int w = static_cast<int>(g.many(1, 5)); w > 0; w--) {
            auto word = genWord(g);
            PdfWord* pw = d.newWord(page, utf8(word), 0, 0, 10, 10, 100, fonts[f]);
            page->words.push_back(pw);
            line->words.push_back(pw);
            m.words.push_back(word);
            if (!m.text.empty()) { m.text.push_back(' '); }
            m.text.insert(m.text.end(), word.begin(), word.end());
          }
        }
        m.block->text = utf8(m.text);
        seg->blocks.push_back(m.block);
        page->blocks.push_back(m.block);
        log += cat("[", m.block->text, "] ");
        blocks.push_back(m);
      }
    }
    r.nontrivial(blocks.size() >= 3 && minFs < maxFs);
    cppflow::Call call;
    int calls = 0;
    vector<float> out;
    for (size_t i = 0; i < blocks.size(); i++) {
      vector<int> probs;
      for (int k = 0; k < 14; k++) { probs.push_back(k * 7 + 1 + 100 * static_cast<int>(g.below(9))); }  // All different.
      for (int v : probs) { out.push_back(static_cast<float>(v) / 10000); }
    }
    cppflow::hook() = [&](const cppflow::Call& c) { call = c; calls++; return out; };
    if (g.chance(10)) {
      r.label("disabled");
      ppp::config::SemanticRolesPredictionConfig off;
      off.modelsDir = config.modelsDir;
      off.disabled = true;
      ppp::modules::ReadingOrderDetection rod(d.doc, &orderConfig, &off);
      rod.process();
      for (auto& m : blocks) { PPV_CHECK(m.block->role == SemanticRole::OTHER, "role although disabled"); }
      PPV_CHECK(calls == 0, "model was called although disabled");
      continue;
    }
    prediction.predict(d.doc);
    if (blocks.empty()) { continue; }
    PPV_CHECK(calls == 1, "number of calls of the model: ", calls);
    int64_t n = static_cast<int64_t>(blocks.size());
    PPV_CHECK(call.layoutRows == n && call.layoutCols == 15, "shape of the features: ", call.layoutRows, "x", call.layoutCols);
    PPV_CHECK(call.wordsRows == n && call.wordsCols == 100, "shape of the words: ", call.wordsRows, "x", call.wordsCols);
    for (size_t i = 0; i < blocks.size(); i++) {
      auto& m = blocks[i];
      const auto* pos = m.block->pos;
      double digits = 0, upper = 0, nonAscii = 0, punct = 0, nonSpace = 0, upperWords = 0;
      bool at = false;
      for (unsigned u : m.text) {
        digits += ascii(u, '0', '9');
        upper += ascii(u, 'A', 'Z');
        nonAscii += u > 127;
        punct += u < 127 && u > 32 && !ascii(u, '0', '9') && !ascii(u, 'A', 'Z') && !ascii(u, 'a', 'z');
        nonSpace += u != ' ';
        at = at || u == '@';
      }
      for (auto& w : m.words) { upperWords += ascii(w[0], 'A', 'Z'); }
      auto perc = [](double a, double b) { return b > 0 ? a / b : 0; };
      size_t pages = d.doc->pages.size();
      double pw = m.page->clipRightX, ph = m.page->clipLowerY;
      vector<double> exp = {
        pages > 1 ? (m.page->pageNum - 1.0) / (pages - 1.0) : 0,
        pos->leftX / pw, (ph - pos->lowerY) / ph, pos->rightX / pw, (ph - pos->upperY) / ph,
        minFs < maxFs ? (m.block->fontSize - minFs) / (maxFs - minFs) : 0,
        m.weight > 500 ? 1.0 : 0.0, m.italic ? 1.0 : 0.0, at ? 1.0 : 0.0,
        !m.text.empty() && ascii(m.text[0], '0', '9') ? 1.0 : 0.0,
        perc(digits, nonSpace), perc(nonAscii, nonSpace), perc(punct, nonSpace), perc(upperWords, m.words.size()),
        perc(upper, nonSpace)
      };
      for (size_t k = 0; k < exp.size(); k++) {
        double v = call.layout[i * 15 + k];
        PPV_CHECK(std::fabs(v - exp[k]) <= 1e-4 * std::max(1.0, std::fabs(exp[k])), "feature ", k, " of block ", i, " (",
            quoted(m.block->text), ") is ", v, " instead of ", exp[k]);
      }
      Vocab copy = vocab;
      ppp::utils::BytePairEncoder encoder(&copy);
      vector<int> enc;
      encoder.encode(wide(m.text), 100, "", &enc);
      for (size_t k = 0; k < 100; k++) {
        PPV_CHECK(call.words[i * 100 + k] == enc[k], "token ", k, " of block ", i, " (", quoted(m.block->text), ") is ",
            call.words[i * 100 + k], " instead of ", enc[k]);
      }
      int best = 0;
      for (int k = 1; k < 14; k++) { if (out[i * 14 + k] > out[i * 14 + best]) { best = k; } }
      PPV_CHECK(static_cast<int>(m.block->role) == best, "role ", static_cast<int>(m.block->role), " of block ", i,
          " instead of the most probable ", best);
    }
  }
  r.showIf([&] { return log; });
}
