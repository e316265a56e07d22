// Replaces the methods of the logger that are called most often, by ones that drop the message at once (the real ones
// build the prefix of each message with the current time before they drop it, which takes most of the time of the
// modules). In build.py, the real ones are made weak symbols. The checks of the logger itself use the real ones.
#include <ostream>

namespace {

std::ostream& null() {
  static std::ostream s(nullptr);
  return s;
}

}  // namespace

std::ostream& ppvTrace(const void*, int) asm("_ZNK3ppp5utils3log6Logger5traceEi");
std::ostream& ppvDebug(const void*, int) asm("_ZNK3ppp5utils3log6Logger5debugEi");
std::ostream& ppvInfo(const void*, int) asm("_ZNK3ppp5utils3log6Logger4infoEi");
std::ostream& ppvTrace(const void*, int) { return null(); }
std::ostream& ppvDebug(const void*, int) { return null(); }
std::ostream& ppvInfo(const void*, int) { return null(); }
