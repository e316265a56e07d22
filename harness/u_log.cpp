// C26: log messages are filtered by level and page.
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "./pbt.h"
#include "utils/Log.h"

using std::string;
using std::vector;
using namespace ppv;
using namespace ppp::utils::log;

// _________________________________________________________________________________________________
PPV_PROP("C26", "histories", 2000000, 30000000, "histories of level changes, page filter changes and "
    "messages (with and without a page) on one or two loggers; everything written to the standard "
    "output is compared to the messages a model lets through; non-trivial: at least one message is "
    "let through and one is dropped") {
  std::ostringstream out;
  struct Redirect {
    std::streambuf* old;
    explicit Redirect(std::streambuf* b) : old(std::cout.rdbuf(b)) {}
    ~Redirect() { std::cout.rdbuf(old); }
  } redirect(out.rdbuf());
  struct Model { int level; int filter; };
  static const char* const NAMES[] = { "TRACE:", "DEBUG:", "INFO: ", "WARN: ", "ERROR:" };
  vector<Logger> loggers;
  vector<Model> models;
  string log;
  int numLoggers = static_cast<int>(g.range(1, 2));
  for (int i = 0; i < numLoggers; i++) {
    int level = static_cast<int>(g.below(5));
    if (g.chance(50)) {
      int filter = static_cast<int>(g.around(-1, 4));
      loggers.push_back(Logger(LogLevel(level), filter));
      models.push_back({ level, filter });
    } else {
      loggers.push_back(Logger(LogLevel(level)));
      models.push_back({ level, -1 });
    }
    log += cat(" logger(", level, ",", models.back().filter, ")");
  }
  vector<string> expected;
  bool dropped = false;
  int n = static_cast<int>(g.many(1, 20));
  for (int i = 0; i < n; i++) {
    size_t k = g.below(loggers.size());
    switch (g.below(6)) {
      case 0:
        models[k].level = static_cast<int>(g.below(5));
        loggers[k].setLogLevel(LogLevel(models[k].level));
        log += cat(" level", k, "=", models[k].level);
        break;
      case 1:
        models[k].filter = static_cast<int>(g.around(-1, 4));
        loggers[k].setPageFilter(models[k].filter);
        log += cat(" filter", k, "=", models[k].filter);
        break;
      default: {
        int level = static_cast<int>(g.below(5));
        int page = g.chance(25) ? -1 : static_cast<int>(g.range(1, 4));
        string msg = cat("message ", i, "!");
        std::ostream* os = nullptr;
        if (page < 0) {
          switch (level) {
            case 0: os = &loggers[k].trace(); break;
            case 1: os = &loggers[k].debug(); break;
            case 2: os = &loggers[k].info(); break;
            case 3: os = &loggers[k].warn(); break;
            default: os = &loggers[k].error();
          }
        } else {
          switch (level) {
            case 0: os = &loggers[k].trace(page); break;
            case 1: os = &loggers[k].debug(page); break;
            case 2: os = &loggers[k].info(page); break;
            case 3: os = &loggers[k].warn(page); break;
            default: os = &loggers[k].error(page);
          }
        }
        *os << msg << std::endl;
        log += cat(" log", k, "(", level, ",", page, ")");
        bool shown = level >= models[k].level
            && (page < 0 || models[k].filter <= 0 || models[k].filter == page);
        if (shown) { expected.push_back(string(NAMES[level]) + "\n" + msg); } else { dropped = true; }
      }
    }
  }
  r.showIf([&] { return log; });
  vector<string> lines;
  std::istringstream in(out.str());
  string line;
  while (std::getline(in, line)) { lines.push_back(line); }
  PPV_CHECK(lines.size() == expected.size(), lines.size(), " lines instead of ", expected.size(),
      " after", log);
  for (size_t i = 0; i < lines.size(); i++) {
    size_t nl = expected[i].find('\n');
    string level = expected[i].substr(0, nl);
    string msg = expected[i].substr(nl + 1);
    PPV_CHECK(lines[i].size() > msg.size() && lines[i].compare(lines[i].size() - msg.size(),
        msg.size(), msg) == 0, "line ", i, " is ", quoted(lines[i]), ", expected ", quoted(msg),
        " after", log);
    PPV_CHECK(lines[i].find(level) != string::npos, "line ", i, " is ", quoted(lines[i]),
        ", expected the level ", level, " after", log);
  }
  r.nontrivial(!expected.empty() && dropped);
}
