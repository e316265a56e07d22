#include "./json.h"

#include <cstdlib>

#include "./docgen.h"
#include "./pbt.h"

using std::string;

namespace ppv {

namespace {

struct Parser {
  const string& s;
  size_t i = 0;

  [[noreturn]] void err(const string& what) {
    fail(cat("invalid JSON at byte ", i, " (", what, "): ", quoted(s)));
  }
  void space() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) { i++; } }
  char peek() { return i < s.size() ? s[i] : '\0'; }
  void expect(char c) { if (i >= s.size() || s[i] != c) { err(cat("expected ", c)); } i++; }
  unsigned int hex4() {
    unsigned int v = 0;
    for (int k = 0; k < 4; k++) {
      char c = peek();
      if (!isxdigit(static_cast<unsigned char>(c))) { err("hexadecimal digit"); }
      v = 16 * v + (isdigit(static_cast<unsigned char>(c)) ? c - '0' : tolower(c) - 'a' + 10);
      i++;
    }
    return v;
  }
  string stringValue() {
    expect('"');
    string out;
    while (true) {
      if (i >= s.size()) { err("unterminated string"); }
      unsigned char c = s[i++];
      if (c == '"') { return out; }
      if (c < 0x20) { err("control character"); }
      if (c != '\\') { out += static_cast<char>(c); continue; }
      char e = peek();
      i++;
      switch (e) {
        case '"': case '\\': case '/': out += e; break;
        case 'b': out += '\b'; break;
        case 'f': out += '\f'; break;
        case 'n': out += '\n'; break;
        case 'r': out += '\r'; break;
        case 't': out += '\t'; break;
        case 'u': out += utf8(hex4()); break;
        default: err("escape sequence");
      }
    }
  }
  double numberValue() {
    size_t start = i;
    auto digits = [&] {
      if (!isdigit(static_cast<unsigned char>(peek()))) { err("digit"); }
      while (isdigit(static_cast<unsigned char>(peek()))) { i++; }
    };
    if (peek() == '-') { i++; }
    if (peek() == '0') { i++; } else { digits(); }
    if (peek() == '.') { i++; digits(); }
    if (peek() == 'e' || peek() == 'E') {
      i++;
      if (peek() == '+' || peek() == '-') { i++; }
      digits();
    }
    return strtod(s.substr(start, i - start).c_str(), nullptr);
  }
  void word(const char* w) { for (; *w; w++) { expect(*w); } }
  Json value() {
    Json v;
    space();
    switch (peek()) {
      case '{':
        v.kind = Json::OBJECT;
        i++;
        space();
        if (peek() == '}') { i++; break; }
        while (true) {
          space();
          string key = stringValue();
          if (v.members.count(key)) { err("duplicate key " + key); }
          space();
          expect(':');
          v.members[key] = value();
          space();
          if (peek() == ',') { i++; continue; }
          expect('}');
          break;
        }
        break;
      case '[':
        v.kind = Json::ARRAY;
        i++;
        space();
        if (peek() == ']') { i++; break; }
        while (true) {
          v.items.push_back(value());
          space();
          if (peek() == ',') { i++; continue; }
          expect(']');
          break;
        }
        break;
      case '"': v.kind = Json::STRING; v.str = stringValue(); break;
      case 't': v.kind = Json::BOOL; v.boolean = true; word("true"); break;
      case 'f': v.kind = Json::BOOL; word("false"); break;
      case 'n': word("null"); break;
      default: v.kind = Json::NUMBER; v.number = numberValue(); break;
    }
    return v;
  }
};

}  // namespace

Json Json::parse(const string& text) {
  Parser p{ text };
  Json v = p.value();
  p.space();
  if (p.i != text.size()) { p.err("trailing characters"); }
  return v;
}

const Json& Json::at(const string& key) const {
  auto it = members.find(key);
  if (it == members.end()) { fail(cat("no member ", key)); }
  return it->second;
}

double Json::num(const string& key) const {
  const Json& v = at(key);
  if (v.kind != NUMBER) { fail(cat(key, " is no number")); }
  return v.number;
}

string Json::text(const string& key) const {
  const Json& v = at(key);
  if (v.kind != STRING) { fail(cat(key, " is no string")); }
  return v.str;
}

bool validUtf8(const string& s) {
  for (size_t i = 0; i < s.size(); ) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
    if (n == 0 || i + n > s.size()) { return false; }
    unsigned int u = n == 1 ? c : c & (0xff >> (n + 1));
    for (int k = 1; k < n; k++) {
      if ((static_cast<unsigned char>(s[i + k]) & 0xc0) != 0x80) { return false; }
      u = (u << 6) | (s[i + k] & 0x3f);
    }
    static const unsigned int smallest[] = { 0, 0, 0x80, 0x800, 0x10000 };
    if (u < smallest[n] || u > 0x10ffff || (u >= 0xd800 && u <= 0xdfff)) { return false; }
    i += n;
  }
  return true;
}

}  // namespace ppv
