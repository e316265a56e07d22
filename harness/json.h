// A strict parser of JSON values (RFC 8259).
#ifndef PPV_JSON_H_
#define PPV_JSON_H_

#include <map>
#include <string>
#include <vector>

namespace ppv {

struct Json {
  enum Kind { NUL, BOOL, NUMBER, STRING, ARRAY, OBJECT } kind = NUL;
  bool boolean = false;
  double number = 0;
  std::string str;
  std::vector<Json> items;
  std::map<std::string, Json> members;

  /** Parses the text; fails the current case if it is not exactly one value. */
  static Json parse(const std::string& text);
  const Json& at(const std::string& key) const;
  double num(const std::string& key) const;
  std::string text(const std::string& key) const;
};

/** Returns true if the string is valid UTF-8 (no overlong forms, no surrogates, at most U+10FFFF). */
bool validUtf8(const std::string& s);

}  // namespace ppv

#endif  // PPV_JSON_H_
