// C21: the result depends on the content of the document only.
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>

#include "./article.h"
#include "./docgen.h"
#include "./e2e.h"
#include "./pagegen.h"
#include "./pbt.h"
#include "./pdfgen.h"
#include "PdfToTextPlusPlus.h"

using std::string;
using std::vector;
using namespace ppv;  // NOLINT
using ppp::types::PdfDocument;

namespace {

void anyPdf(Gen& g, Rec& r, PdfGen* pdf) {
  if (g.chance(25)) {
    g_rank = 0;
    Article a;
    makeArticle(g, pdf, &a, &r);
    writeArticle(g, a, makeStyle(g), pdf);
    r.label("article");
  } else {
    anyDocument(g, pdf, &r);
  }
}

/** Compares two dumps. */
void compare(const string& a, const string& b, const string& what) {
  if (a == b) { return; }
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { i++; }
  auto line = [&](const string& s) {
    size_t from = s.rfind('\n', i > 0 ? i - 1 : 0);
    from = from == string::npos ? 0 : from + 1;
    return s.substr(from, s.find('\n', from) - from);
  };
  PPV_CHECK(a == b, what, ": ", quoted(line(b)), " instead of ", quoted(line(a)));
}

string fileContent(const string& path) {
  std::ifstream f(path, std::ios::binary);
  return string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

/** Processes the given files in a row, and writes the elements of the last one to a file. */
void processAll(const vector<string>& paths, const string& out) {
  static const ppp::config::Config config = fullConfig();
  for (size_t i = 0; i < paths.size(); i++) {
    PdfDocument doc(paths[i]);
    int res = ppp::PdfToTextPlusPlus(&config).process(&doc);
    if (i + 1 == paths.size()) { std::ofstream(out, std::ios::binary) << res << "\n" << dump(&doc); }
  }
}

/**
 * Processes the given files in a row, in a process that has not processed anything before, and returns the elements of
 * the last one. To this end, each worker starts a child at its first case, of which a copy is made for each request.
 */
string inFreshProcess(const vector<string>& paths) {
  static int request = -1, reply = -1;
  if (request < 0) {
    int in[2], out[2];
    PPV_CHECK(pipe(in) == 0 && pipe(out) == 0, "could not create pipes");
    pid_t pid = fork();
    PPV_CHECK(pid >= 0, "could not fork");
    if (pid == 0) {
      close(in[1]);
      close(out[0]);
      FILE* f = fdopen(in[0], "r");
      char line[4096];
      vector<string> lines;
      while (fgets(line, sizeof(line), f)) {
        lines.push_back(string(line, strlen(line) - 1));
        if (!lines.back().empty()) { continue; }
        lines.pop_back();
        pid_t copy = fork();
        if (copy == 0) {
          struct rlimit rl = { 60, 60 };
          setrlimit(RLIMIT_CPU, &rl);
          string path = lines[0];
          lines.erase(lines.begin());
          processAll(lines, path);
          _exit(0);
        }
        int status = 0;
        waitpid(copy, &status, 0);
        char c = copy > 0 && WIFEXITED(status) && WEXITSTATUS(status) == 0 ? 'y' : 'n';
        if (write(out[1], &c, 1) != 1) { break; }
        lines.clear();
      }
      _exit(0);
    }
    close(in[0]);
    close(out[1]);
    request = in[1];
    reply = out[0];
  }
  string path = scratchDir() + "/elements", message = path + "\n";
  for (auto& p : paths) { message += p + "\n"; }
  message += "\n";
  char c = 0;
  PPV_CHECK(write(request, message.data(), message.size()) == static_cast<ssize_t>(message.size()), "write");
  PPV_CHECK(read(reply, &c, 1) == 1, "read");
  PPV_CHECK(c == 'y', "the program crashes, or needs more than 60 seconds");
  return fileContent(path);
}

size_t numChars(const PdfGen& pdf) {
  size_t n = 0;
  for (auto& p : pdf.pages) { n += p.chars.size(); }
  return n;
}

}  // namespace

PPV_PROP("C21", "repetition", 1200, 60000,
    "PDF files of 1-3 pages (articles, or any text, paths, images and clip paths). One of them is processed in a fresh "
    "process; then, in another process, some of them (maybe itself, and others), and then it again, from another path. "
    "All its elements must be the same both times, and the file must not be changed. Non-trivial: at least 20 "
    "characters, and another file.") {
  initPoppler();
  PdfGen pdf;
  anyPdf(g, r, &pdf);
  string bytes = pdf.build();
  static const vector<string> names = { "x.pdf", "a b.PDF", "\xc3\xa4\xe2\x82\xac.pdf", "noextension", "%s%n.pdf" };
  string dir = scratchDir() + "/", path = dir + "in.pdf", path2 = dir + g.pick(names);
  vector<string> paths;
  auto save = [&](const string& p, const string& content) { std::ofstream(p, std::ios::binary) << content; };
  save(path, bytes);
  save(path2, bytes);
  string shown = showPdf(pdf);
  bool itself = g.chance(50);
  if (itself) { paths.push_back(path); }
  size_t others = g.range(itself ? 0 : 1, 2);
  for (size_t i = 0; i < others; i++) {
    PdfGen other;
    anyPdf(g, r, &other);
    paths.push_back(cat(dir, "other", i, ".pdf"));
    save(paths.back(), other.build());
    if (shown.size() < 100000) { shown += "\nanother file:\n" + showPdf(other); }
  }
  paths.push_back(path2);
  r.label("itself before", itself);
  r.label(cat("other files before: ", others));
  r.nontrivial(numChars(pdf) >= 20 && others > 0);
  r.showIf([&] { return shown; });
  string first = inFreshProcess({ path }), second = inFreshProcess(paths);
  PPV_CHECK(first.substr(0, 2) == "0\n", "process() returned ", first.substr(0, first.find('\n')));
  PPV_CHECK(fileContent(path) == bytes && fileContent(path2) == bytes, "the PDF file was changed");
  compare(first, second, "the second time");
}

PPV_PROP("C21", "encoding", 2000, 100000,
    "A PDF file of 1-3 pages (an article, or any text, paths, images and clip paths), and the same document with other "
    "bytes: the content divided into several streams, wrapped into form XObjects, compressed; resources inherited or "
    "shared or renamed (also the same name for different fonts on different pages); nested page tree; other white space, comments and forms of numbers and strings; objects in "
    "another order. All elements must be the same. Non-trivial: at least 20 characters.") {
  initPoppler();
  PdfGen pdf;
  anyPdf(g, r, &pdf);
  Encoding enc;
  if (g.chance(50)) { enc.streams = g.range(2, 5); }
  if (g.chance(40)) { enc.forms = g.range(1, 3); r.label("form"); }
  enc.ownResources = g.chance(50);
  enc.inherit = g.chance(30);
  enc.nestedTree = g.chance(30);
  enc.filter = g.below(4);
  enc.literal = g.chance(50);
  enc.spaced = g.chance(50);
  if (g.chance(50)) { enc.prefix = "X#41y."; }
  if (g.chance(50)) { enc.rotateFonts = g.range(1, 3); if (pdf.pages.size() > 1) { r.label("other font names"); } }
  if (g.chance(50)) { for (int i = 0; i < 20; i++) { enc.order.push_back(g.below(100)); } }
  r.nontrivial(numChars(pdf) >= 20);
  string bytes = pdf.build(enc);
  r.showIf([&] { return showPdf(pdf) + "\nThe other file:\n" + bytes; });
  string first, second;
  {
    PdfDocument doc;
    process(&doc, pdf.build());
    first = dump(&doc);
  }
  {
    PdfDocument doc;
    process(&doc, bytes);
    second = dump(&doc);
  }
  compare(first, second, "the other file");
}
