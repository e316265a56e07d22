// C18: the command line program.
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "./article.h"
#include "./cli.h"
#include "./docgen.h"
#include "./e2e.h"
#include "./pagegen.h"
#include "./pbt.h"
#include "./pdfgen.h"
#include "PdfToTextPlusPlus.h"
#include "cppflow/cppflow.h"
#include "serializers/PlainTextExtendedSerializer.h"
#include "serializers/PlainTextSerializer.h"
#include "utils/PdfElementsUtils.h"

using std::string;
using std::unordered_set;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::config::Config;
using ppp::types::PdfDocument;
using ppp::types::PdfElementType;
using ppp::types::SemanticRole;

namespace {

const vector<string> ROLES = { "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title",
    "author-info", "abstract", "date", "caption", "table", "other", "toc" };
const vector<SemanticRole> ROLE_VALUES = { SemanticRole::PARAGRAPH, SemanticRole::REFERENCE, SemanticRole::MARGINAL,
    SemanticRole::FOOTNOTE, SemanticRole::HEADING, SemanticRole::FORMULA, SemanticRole::TITLE,
    SemanticRole::AUTHOR_INFO, SemanticRole::ABSTRACT, SemanticRole::DATE, SemanticRole::CAPTION, SemanticRole::TABLE,
    SemanticRole::OTHER, SemanticRole::TOC };
const vector<string> TYPES = { "pages", "blocks", "lines", "words", "characters", "figures", "shapes" };

struct Skip {
  string option;
  bool& (*flag)(Config*);
};

const vector<Skip> SKIPS = {
  { "skip-embedded-font-files-parsing", [](Config* c) -> bool& { return c->pdfParsing.skipEmbeddedFontFilesParsing; } },
  { "skip-glyphs-statistics-calculation", [](Config* c) -> bool& { return c->glyphsStatisticsCalculation.disabled; } },
  { "skip-diacritic-marks-merging", [](Config* c) -> bool& { return c->diacriticalMarksMerging.disabled; } },
  { "skip-words-detection", [](Config* c) -> bool& { return c->wordsDetection.disabled; } },
  { "skip-words-statistics-calculation", [](Config* c) -> bool& { return c->wordsStatisticsCalculation.disabled; } },
  { "skip-page-segmentation", [](Config* c) -> bool& { return c->pageSegmentation.disabled; } },
  { "skip-text-lines-detection", [](Config* c) -> bool& { return c->textLinesDetection.disabled; } },
  { "skip-sub-super-scripts-detection", [](Config* c) -> bool& { return c->subSuperScriptsDetection.disabled; } },
  { "skip-text-lines-statistics-calculation",
      [](Config* c) -> bool& { return c->textLinesStatisticsCalculation.disabled; } },
  { "skip-text-blocks-detection", [](Config* c) -> bool& { return c->textBlocksDetection.disabled; } },
  { "skip-reading-order-detection", [](Config* c) -> bool& { return c->readingOrderDetection.disabled; } },
  { "skip-semantic-roles-prediction", [](Config* c) -> bool& { return c->semanticRolesPrediction.disabled; } },
  { "skip-words-dehyphenation", [](Config* c) -> bool& { return c->wordsDehyphenation.disabled; } },
  { "no-dehyphenation", [](Config* c) -> bool& { return c->wordsDehyphenation.disabled; } },
};

const vector<string> DEBUGS = { "debug-pdf-parsing", "debug-glyphs-statistics-calculation",
    "debug-diacritic-marks-merging", "debug-words-detection", "debug-words-statistics-calculation",
    "debug-page-segmentation", "debug-text-lines-detection", "debug-sub-super-scripts-detection",
    "debug-text-lines-statistics-calculation", "debug-text-blocks-detection", "debug-reading-order-detection",
    "debug-semantic-roles-prediction", "debug-words-dehyphenation" };

const vector<string> VISUALIZE = { "visualize-characters", "visualize-graphics", "visualize-figures",
    "visualize-shapes", "visualize-words", "visualize-text-lines", "visualize-text-blocks", "visualize-segments",
    "visualize-segment-cuts", "visualize-reading-order", "visualize-reading-order-cuts" };

const vector<string> OTHERS = { "format", "role", "type", "control-characters", "semantic-roles", "no-scripts",
    "no-dehyphenation", "visualization-path", "verbosity", "version", "help" };

void anyPdf(Gen& g, Rec& r, PdfGen* pdf) {
  if (g.chance(60)) {
    g_rank = 0;
    Article a;
    makeArticle(g, pdf, &a, &r);
    writeArticle(g, a, makeStyle(g), pdf);
    r.label("article");
  } else {
    anyDocument(g, pdf, &r);
  }
}

/** An option: one or two arguments. */
typedef vector<string> Option;

Option option(Gen& g, const string& name, const string& value) {
  if (g.chance(50)) { return { "--" + name + "=" + value }; }
  return { "--" + name, value };
}

/** Shuffles options and positional arguments (the latter stay in order). */
vector<string> arrange(Gen& g, vector<Option> options, const vector<string>& positional) {
  for (size_t i = options.size(); i > 1; i--) { std::swap(options[i - 1], options[g.below(i)]); }
  size_t from = 0;
  for (auto& p : positional) {
    from += g.below(options.size() - from + 1);
    options.insert(options.begin() + from, { p });
    from++;
  }
  vector<string> args;
  for (auto& o : options) { args.insert(args.end(), o.begin(), o.end()); }
  return args;
}

/** The flag that tells whether a module that can be debugged is skipped. */
bool* skippedFlag(size_t k, Config* c) { return &SKIPS[k].flag(c); }

/** The number of lines of a log of each level (trace, debug, info, and others). */
struct Log {
  size_t count[4] = { 0, 0, 0, 0 };

  explicit Log(const string& s) {
    static const vector<string> names = { "TRACE:", "DEBUG:", "INFO:" };
    std::istringstream in(s);
    for (string line; std::getline(in, line); ) {
      size_t best = string::npos, level = 3;
      for (size_t i = 0; i < 3; i++) {
        size_t pos = line.find(names[i]);
        if (pos < best) { best = pos; level = i; }
      }
      if (best < 60) { count[level]++; } else { count[3]++; }
    }
  }
};

string showArgs(const vector<string>& args) {
  string s = "pdftotext++";
  for (auto& a : args) { s += " " + quoted(a); }
  return s + "\n";
}

string fileName(Gen& g) {
  static const vector<string> names = { "in.pdf", "a b.PDF", "\xc3\xa4\xe2\x82\xac.pdf", "noextension", "%s%n.pdf",
      "it's \"quoted\".pdf" };
  return g.pick(names);
}

/** The expected output. */
string expected(const string& pdf, const Config& config, bool extended, const vector<size_t>& roles, bool* hasText) {
  PdfDocument doc;
  process(&doc, pdf, config);
  *hasText = false;
  for (auto* p : doc.pages) { *hasText = *hasText || !p->blocks.empty(); }
  unordered_set<SemanticRole> roleSet;
  for (size_t i : roles) { roleSet.insert(ROLE_VALUES[i]); }
  if (roles.empty()) { roleSet.insert(ROLE_VALUES.begin(), ROLE_VALUES.end()); }
  unordered_set<PdfElementType> types;
  string path = scratchDir() + "/expected.txt";
  std::unique_ptr<ppp::serialization::Serializer> s;
  if (extended) {
    s = std::make_unique<ppp::serialization::PlainTextExtendedSerializer>();
  } else {
    s = std::make_unique<ppp::serialization::PlainTextSerializer>();
  }
  s->serialize(&doc, roleSet, types, path);
  string res = readFile(path);
  remove(path.c_str());
  return res;
}

}  // namespace

PPV_PROP("C18", "options", 500, 20000,
    "PDF files of 1-3 pages (articles, or any text), processed by the command line program with any formats, roles, "
    "types, skipped modules, debug options, verbosity, page filters and visualizations, in any order of the arguments "
    "and both forms of the options, with the output to the standard output or to a file (new, existing, or in a new "
    "directory). The output must be what the library yields for the same configuration; the exit code must be 0; a "
    "visualization must be written exactly if requested. Non-trivial: the text is not empty and one option is given.") {
  initPoppler();
  cppflow::hook() = cppflow::defaultHook;
  string dir = freshDir();
  PdfGen pdf;
  anyPdf(g, r, &pdf);
  string bytes = pdf.build();
  string in = fileName(g);
  writeFile(dir + "/" + in, bytes);
  Config config = fullConfig();
  vector<Option> options;
  bool extended = false;
  switch (g.below(3)) {
    case 0: break;
    case 1: options.push_back(option(g, "format", "txt")); break;
    default: options.push_back(option(g, "format", "txt-extended")); extended = true; break;
  }
  vector<size_t> roles;
  if (g.chance(40)) {
    for (int i = g.range(1, 8); i > 0; i--) {
      roles.push_back(g.below(ROLES.size()));
      options.push_back(option(g, "role", ROLES[roles.back()]));
    }
    r.label("roles");
  }
  if (g.chance(20)) { for (int i = g.range(1, 3); i > 0; i--) { options.push_back(option(g, "type", g.pick(TYPES))); } }
  if (g.chance(50)) {
    unordered_set<size_t> used;
    for (int i = g.small(1, 4); i > 0; i--) {
      size_t k = g.chance(40) ? SKIPS.size() - 1 - g.below(2) : g.below(SKIPS.size());
      if (!used.insert(k).second) { continue; }
      SKIPS[k].flag(&config) = true;
      options.push_back({ "--" + SKIPS[k].option });
    }
    r.label("modules skipped");
  }
  bool toFile = g.chance(60);
  bool times = g.chance(10);
  if (times) { options.push_back({ "--print-running-times" }); }
  // The log. The modules are not logged if they are skipped; the last three have no log.
  int level = 4;  // trace, debug, info, warn, error.
  bool debug = false;
  size_t numLogging = 0;
  if (toFile && g.chance(20)) {
    static const vector<string> levels = { "trace", "debug", "info", "warn", "error" };
    level = g.below(5);
    string l = levels[level];
    if (g.chance(50)) { for (char& c : l) { c = toupper(c); } }
    options.push_back(option(g, "verbosity", l));
    r.label("verbosity");
  }
  if (toFile && g.chance(25)) {
    unordered_set<size_t> used;
    for (int i = g.small(1, 3); i > 0; i--) {
      size_t k = g.below(DEBUGS.size());
      if (!used.insert(k).second) { continue; }
      options.push_back({ "--" + DEBUGS[k] });
      bool skipped = k > 0 && *skippedFlag(k, &config);
      if (k > 0 && !skipped && g.chance(25)) {  // Skip it.
        options.push_back({ "--" + SKIPS[k].option });
        skipped = *skippedFlag(k, &config) = true;
      }
      if (!skipped && k < 10) { numLogging++; }
    }
    debug = true;
    r.label("debug");
    r.label("debug: nothing", numLogging == 0);
  }
  int filter = -1;
  if (g.chance(level < 2 || debug ? 50 : 5)) {
    filter = g.around(-1, 4);
    options.push_back(option(g, "log-page-filter", std::to_string(filter)));
    r.label("page filter");
  }
  bool visualize = g.chance(15);
  if (visualize) { options.push_back(option(g, "visualization-path", "vis.pdf")); r.label("visualization"); }
  if (visualize || g.chance(10)) {
    unordered_set<size_t> used;
    for (int i = g.range(1, 3); i > 0; i--) {
      size_t k = g.below(VISUALIZE.size());
      if (used.insert(k).second) { options.push_back({ "--" + VISUALIZE[k] }); }
    }
  }
  vector<string> positional = { in };
  string out;
  if (toFile) {
    static const vector<string> names = { "out.txt", "new dir/sub/out.txt", "./out", "existing.txt", "--.txt" };
    out = g.pick(names);
    if (out == "--.txt") { out = "./--.txt"; }
    if (out == "existing.txt") { writeFile(dir + "/existing.txt", string(100000, 'x')); }
    positional.push_back(out);
    r.label("output file");
  } else if (g.chance(30)) {
    positional.push_back("-");
  }
  vector<string> args = arrange(g, options, positional);
  bool hasText;
  string exp = expected(bytes, config, extended, roles, &hasText);
  r.nontrivial(hasText && !options.empty());
  r.showIf([&] { return showArgs(args) + showPdf(pdf); });
  CliResult res = runCli(dir, args);
  PPV_CHECK(res.status == 0, showArgs(args), res.show());
  string got = toFile ? readFile(dir + "/" + out) : res.out;
  if (!toFile && times) {
    PPV_CHECK(got.size() > exp.size() && got.find("Finished in", exp.size()) != string::npos,
        "there are no running times: ", showArgs(args), res.show());
    got = got.substr(0, exp.size());
  }
  PPV_CHECK(got == exp, showArgs(args), "wrote ", quoted(got), " instead of ", quoted(exp));
  if (toFile) {
    Log log(res.out);
    string what = cat("the log of ", showArgs(args), "has ", log.count[0], " TRACE, ", log.count[1], " DEBUG, ",
        log.count[2], " INFO lines and ", log.count[3], " others:\n", res.out.substr(0, 2000));
    if (!debug) { for (int i = 0; i < level; i++) { PPV_CHECK(i == 3 || log.count[i] == 0, what); } }
    if (level == 4) { PPV_CHECK(log.count[0] == 0, what); }
    if (!debug || numLogging == 0) {
      PPV_CHECK(level <= 2 || log.count[1] + log.count[2] == 0, what);
    }
    // The start of the parsing is logged always.
    if (level <= 2 && !debug) { PPV_CHECK(log.count[2] > 0, what); }
    if (level <= 1 && !debug) { PPV_CHECK(log.count[1] > 0, what); }
    if (numLogging > 0) {
      PPV_CHECK(log.count[2] >= numLogging && log.count[1] >= numLogging, what);
    }
    if (filter != -1 && (level < 2 || numLogging > 0)) {
      // The same without the filter.
      vector<string> args2;
      for (size_t i = 0; i < args.size(); i++) {
        if (args[i].substr(0, 17) == "--log-page-filter") {
          if (args[i].size() == 17) { i++; }
        } else {
          args2.push_back(args[i]);
        }
      }
      Log all(runCli(dir, args2).out);
      size_t n = log.count[0] + log.count[1] + log.count[2], n2 = all.count[0] + all.count[1] + all.count[2];
      bool same = filter <= 0 || (filter == 1 && pdf.pages.size() == 1);
      PPV_CHECK(same ? n == n2 : n <= n2, what, "but ", n2, " lines without the page filter");
      if (level < 2 && !debug && filter > static_cast<int>(pdf.pages.size()) && hasText) {
        PPV_CHECK(n < n2, what, "and as many without the page filter");
      }
      r.label("page filter compared");
    }
    PPV_CHECK(times == (res.out.find("Finished in") != string::npos), "running times: ", showArgs(args), res.show());
  }
  string vis = dir + "/vis.pdf";
  PPV_CHECK(exists(vis) == visualize, showArgs(args), exists(vis) ? "wrote a visualization" : "wrote no visualization");
  if (visualize) { PPV_CHECK(readFile(vis).substr(0, 5) == "%PDF-", "the visualization is no PDF file"); }
  PPV_CHECK(readFile(dir + "/" + in) == bytes, showArgs(args), "changed the PDF file");
}

PPV_PROP("C18", "failures", 500, 20000,
    "Invocations that cannot succeed: unknown, repeated, incomplete or abbreviated options, invalid values, no or too "
    "many files, a PDF file that is missing, empty, no PDF file, truncated to a few bytes, encrypted, or a directory; "
    "an output or visualization file that cannot be written (its directory is a file, it is a directory, the device is "
    "full). The exit code must be positive, something must be printed to the standard error, nothing to the standard "
    "output, and an existing output file must not be touched if no text was extracted. Non-trivial: always.") {
  initPoppler();
  cppflow::hook() = cppflow::defaultHook;
  string dir = freshDir();
  PdfGen pdf;
  anyPdf(g, r, &pdf);
  string bytes = pdf.build();
  string in = fileName(g), out = "out.txt";
  bool outTouched = false, outWritten = false;
  vector<Option> options;
  vector<string> positional = { in, out };
  for (int i = g.small(0, 2); i > 0; i--) { options.push_back({ option(g, "role", g.pick(ROLES)) }); }
  bool stdoutFull = false;
  int kind = g.below(16);
  r.label(cat("kind ", kind));
  switch (kind) {
    case 0: {
      static const vector<string> unknown = { "--output-words", "--rolle", "-x", "--role-", "--formats", "--skip",
          "--pdf-files", "--helpp" };
      options.push_back({ g.pick(unknown) });
      break;
    }
    case 1: {
      static const vector<string> bad = { "", "Paragraph", "para", "paragraph ", "heading,title", "0", "-1", "all" };
      options.push_back({ "--role=" + g.pick(bad) });
      break;
    }
    case 2: {
      static const vector<string> bad = { "", "TXT", "json", "pdf", "txt extended", "txt_extended", "0", "xml" };
      options.push_back({ "--format=" + g.pick(bad) });
      break;
    }
    case 3: {
      static const vector<string> bad = { "", "word", "Words", "chars", "0", "graphics" };
      options.push_back({ "--type=" + g.pick(bad) });
      break;
    }
    case 4: {
      static const vector<string> bad = { "", "x", "1.5", "99999999999999999999", "1x", "0x1" };
      options.push_back({ "--log-page-filter=" + g.pick(bad) });
      break;
    }
    case 5: {
      string o = g.chance(50) ? "format" : "visualization-path";
      options.push_back({ "--" + o + "=txt" });
      options.push_back({ "--" + o + "=txt" });
      break;
    }
    case 6: {
      static const vector<string> noValue = { "--no-dehyphenation=1", "--skip-words-detection=false", "--help=yes",
          "--visualize-words=x" };
      options.push_back({ g.pick(noValue) });
      break;
    }
    case 7: positional.push_back("third"); break;
    case 8: positional.clear(); break;
    case 9: bytes.clear(); break;
    case 10: {
      static const vector<string> noPdf = { "x", "Hello\n", "%PDF-1.5", "%PDF-1.5\n%%EOF\n", "\x89PNG\r\n", "<html></html>",
          "%!PS\n" };
      bytes = g.chance(50) ? g.pick(noPdf) : bytes.substr(0, g.below(20));
      break;
    }
    case 11: positional[0] = g.chance(50) ? "missing.pdf" : "missing/" + in; break;
    case 12: positional[0] = "."; break;
    case 13: {
      size_t pos = bytes.rfind("trailer");
      PPV_CHECK(pos != string::npos, "there is no trailer");
      pos = bytes.find("<<", pos) + 2;
      string hex;
      for (int i = 0; i < 32; i++) { hex += cat(g.below(10), g.below(10)); }
      bytes.insert(pos, " /Encrypt << /Filter /Standard /V 1 /R 2 /O <" + hex + "> /U <" + hex + "> /P -4 >> /ID [<" + hex
          + "> <" + hex + ">] ");
      break;
    }
    case 14:  // The output cannot be written.
      outTouched = true;
      switch (g.below(4)) {
        case 0: positional[1] = "file/x.txt"; break;
        case 1: positional[1] = "."; break;
        case 2: positional[1] = "/dev/full"; break;
        default:
          positional.resize(g.range(1, 2));
          if (positional.size() == 2) { positional[1] = "-"; }
          stdoutFull = true;
          break;
      }
      break;
    default:  // The visualization cannot be written.
      outWritten = true;
      options.push_back(option(g, "visualization-path", g.chance(50) ? "file/x.pdf" : "."));
      if (g.chance(50)) { options.push_back({ "--visualize-words" }); }
      break;
  }
  writeFile(dir + "/" + in, bytes);
  writeFile(dir + "/file", "x");
  bool existing = g.chance(50);
  if (existing) { writeFile(dir + "/out.txt", "Do not touch.\n"); }
  vector<string> args = arrange(g, options, positional);
  r.nontrivial();
  r.showIf([&] { return showArgs(args); });
  CliResult res = runCli(dir, args, stdoutFull ? "/dev/full" : "");
  PPV_CHECK(res.status > 0 && res.status < 98, showArgs(args), res.show());
  PPV_CHECK(!res.err.empty(), showArgs(args), "printed no error message: ", res.show());
  PPV_CHECK(res.out.empty(), showArgs(args), res.show());
  if (!outTouched && !outWritten) {
    string path = dir + "/out.txt";
    PPV_CHECK(exists(path) == existing, showArgs(args), "the output file ", existing ? "was deleted" : "was written");
    if (existing) { PPV_CHECK(readFile(path) == "Do not touch.\n", showArgs(args), "the output file was changed"); }
  }
}

PPV_PROP("C18", "help", 60, 1000,
    "Invocations with --help, -h, --full-help, --version, -v, together with any other valid options, with or without "
    "files. The exit code must be 0, the text must name all options, roles, types and formats (or the version), nothing "
    "else may be printed, and no file may be written. Non-trivial: another argument is given.") {
  string dir = freshDir();
  static const vector<string> kinds = { "--help", "-h", "--full-help", "--version", "-v" };
  string kind = g.pick(kinds);
  vector<Option> options = { { kind } };
  if (g.chance(40)) { options.push_back(option(g, "role", g.pick(ROLES))); }
  if (g.chance(40)) { options.push_back({ "--" + g.pick(VISUALIZE) }); }
  vector<string> positional;
  if (g.chance(50)) { positional = { "in.pdf" }; }
  if (!positional.empty() && g.chance(50)) { positional.push_back("out.txt"); }
  vector<string> args = arrange(g, options, positional);
  r.nontrivial(args.size() > 1);
  r.label(kind);
  r.showIf([&] { return showArgs(args); });
  CliResult res = runCli(dir, args);
  PPV_CHECK(res.status == 0, showArgs(args), res.show());
  PPV_CHECK(res.err.empty(), showArgs(args), res.show());
  PPV_CHECK(!exists(dir + "/out.txt"), showArgs(args), "wrote the output file");
  auto contains = [&](const string& what, bool yes = true) {
    PPV_CHECK((res.out.find(what) != string::npos) == yes, showArgs(args), yes ? "does not print " : "prints ", what, ": ",
        quoted(res.out));
  };
  string version = readFile(string(getenv("PPV_REPO")) + "/project.version");
  version = version.substr(0, version.find('\n'));
  contains(version);
  contains("pdftotext++");
  bool help = kind != "--version" && kind != "-v";
  for (auto& o : OTHERS) { contains("--" + o, help); }
  for (auto& o : VISUALIZE) { contains("--" + o, help); }
  for (auto& o : DEBUGS) { contains("--" + o, kind == "--full-help"); }
  for (auto& o : SKIPS) { contains("--" + o.option, kind == "--full-help" || (help && o.option == "no-dehyphenation")); }
  string flat;  // The descriptions are wrapped.
  for (char c : res.out) { if (c != '\n' && c != ' ') { flat += c; } }
  if (help) {
    for (auto& v : { ROLES, TYPES, vector<string>{ "txt", "txt-extended" } }) {
      for (auto& s : v) { PPV_CHECK(flat.find(s) != string::npos, showArgs(args), "does not print ", s); }
    }
  }
}

namespace {

/** Shows ASCII text in the current font. */
void show(Canvas* c, const string& text) {
  vector<size_t> glyphs;
  for (char ch : text) { glyphs.push_back(ch - 32); }
  c->showText(glyphs);
}

/** A document of two pages, with superscripts. */
string scriptsDocument() {
  initPoppler();
  g_rank = 0;
  PdfGen pdf;
  pdf.addAscii("CMR10");
  for (int p = 0; p < 2; p++) {
    pdf.pages.emplace_back();
    Canvas c(&pdf, &pdf.pages.back());
    for (int i = 0; i < 5; i++) {
      c.beginText();
      c.font(0, 10);
      c.moveText(100, 600 - 12 * i);
      show(&c, "Some words of a line with a number");
      c.font(0, 7);
      c.rise(4);
      show(&c, "37");
      c.rise(0);
      c.endText();
    }
  }
  return pdf.build();
}

CliResult runOn(const string& bytes, const vector<string>& options) {
  string dir = freshDir();
  writeFile(dir + "/in.pdf", bytes);
  vector<string> args = options;
  args.push_back("in.pdf");
  CliResult res = runCli(dir, args);
  PPV_CHECK(res.status == 0, res.show());
  return res;
}

}  // namespace

PPV_REGRESS("C18", "no-scripts") {
  string bytes = scriptsDocument();
  string without = runOn(bytes, {}).out, with = runOn(bytes, { "--no-scripts" }).out;
  PPV_CHECK(without.find("number37") != string::npos, quoted(without));
  PPV_CHECK(with.find("number") != string::npos && with.find("37") == string::npos, "with --no-scripts: ", quoted(with));
}

PPV_REGRESS("C18", "control-characters") {
  string out = runOn(scriptsDocument(), { "--control-characters" }).out;
  PPV_CHECK(out.find("\x0c") != string::npos, "with --control-characters: ", quoted(out));
}

PPV_REGRESS("C18", "semantic-roles") {
  string bytes = scriptsDocument();
  string without = runOn(bytes, {}).out, with = runOn(bytes, { "--semantic-roles" }).out;
  PPV_CHECK(without != with, "with --semantic-roles: ", quoted(with));
}
