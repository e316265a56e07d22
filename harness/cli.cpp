#include "./cli.h"

#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>

#include "./pbt.h"

using std::string;
using std::vector;

namespace ppv {

string readFile(const string& path) {
  std::ifstream f(path, std::ios::binary);
  return string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

void writeFile(const string& path, const string& bytes) {
  std::ofstream(path, std::ios::binary) << bytes;
}

bool exists(const string& path) {
  struct stat st;
  return lstat(path.c_str(), &st) == 0;
}

string CliResult::show() const {
  return cat("exit code ", status, "\nstdout: ", quoted(out.substr(0, 1500)), "\nstderr: ", quoted(err.substr(0, 1500)));
}

string freshDir() {
  string dir = scratchDir() + "/run";
  std::filesystem::remove_all(dir);
  std::filesystem::create_directory(dir);
  return dir;
}

CliResult runCli(const string& dir, const vector<string>& args, const string& out) {
  // The program with fast logging cannot print the messages of a lower level.
  bool fast = true;
  for (auto& a : args) { fast = fast && a.substr(0, 7) != "--debug" && a.substr(0, 6) != "--verb"; }
  const char* binary = getenv(fast ? "PPV_CLI_FAST" : "PPV_CLI");
  PPV_CHECK(binary, "there is no command line program");
  string outPath = out.empty() ? scratchDir() + "/stdout" : out, errPath = scratchDir() + "/stderr";
  vector<char*> argv = { const_cast<char*>("pdftotext++") };
  for (auto& a : args) { argv.push_back(const_cast<char*>(a.c_str())); }
  argv.push_back(nullptr);
  pid_t pid = fork();
  PPV_CHECK(pid >= 0, "could not fork");
  if (pid == 0) {
    struct rlimit rl = { 60, 60 };
    setrlimit(RLIMIT_CPU, &rl);
    int in = open("/dev/null", O_RDONLY);
    int o = open(outPath.c_str(), O_WRONLY | O_CREAT | (out.empty() ? O_TRUNC : 0), 0600);
    int e = open(errPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (in < 0 || o < 0 || e < 0 || chdir(dir.c_str()) != 0) { _exit(98); }
    dup2(in, 0);
    dup2(o, 1);
    dup2(e, 2);
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99", 1);
    setenv("UBSAN_OPTIONS", "exitcode=99", 1);
    setenv("LC_ALL", "C", 1);
    execv(binary, argv.data());
    _exit(98);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  CliResult r;
  r.status = WIFSIGNALED(status) ? 128 + WTERMSIG(status) : WEXITSTATUS(status);
  if (out.empty()) { r.out = readFile(outPath); }
  r.err = readFile(errPath);
  PPV_CHECK(r.status < 98, "the program failed: ", r.show());
  return r;
}

}  // namespace ppv
