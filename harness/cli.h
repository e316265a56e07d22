// Runs of the command line program.
#ifndef PPV_CLI_H_
#define PPV_CLI_H_

#include <string>
#include <vector>

namespace ppv {

struct CliResult {
  int status = 0;         // The exit code, or 128 plus the number of the signal.
  std::string out, err;   // What was printed.
  std::string show() const;
};

/** The exit code if a sanitizer stops the program. */
constexpr int SANITIZER_EXIT = 99;

/** An empty directory, in which the program runs; emptied by each call. */
std::string freshDir();

/** Runs the command line program in the given directory; out: where to write the standard output. */
CliResult runCli(const std::string& dir, const std::vector<std::string>& args, const std::string& out = "");

std::string readFile(const std::string& path);
void writeFile(const std::string& path, const std::string& bytes);
bool exists(const std::string& path);

}  // namespace ppv

#endif  // PPV_CLI_H_
