// C22: the text helpers, against independently written models.
#include <cstring>
#include <string>
#include <vector>

#include "./pbt.h"
#include "utils/TextUtils.h"

using std::string;
using std::vector;
using std::wstring;
using namespace ppv;

namespace text = ppp::utils::text;

static const char* const WS = " \t\r\n\f\v";

static bool isWs(char c) { return c != 0 && strchr(WS, c) != nullptr; }

/** A string made of pieces that matter to the helpers: whitespace, quotes, controls, UTF-8, ... */
static string genString(Gen& g, int maxLen, bool withNul = false, bool ascii = false) {
  static const vector<string> SPECIAL = { " ", "\t", "\n", "\r", "\f", "\v", "\"", "\\", "/", "\b",
    "\x01", "\x1f", "\x7f", "\xc3\xa4", "\xe2\x80\x93", "\xf0\x9d\x94\x84", "\xc2\xa0", "\xff", "{",
    "}", "'", "u0041", "..", ".", "!", "?", ")", ",", "-" };
  int n = static_cast<int>(g.many(0, maxLen));
  string s;
  for (int i = 0; i < n; i++) {
    switch (g.below(4)) {
      case 0: s += static_cast<char>('a' + g.below(26)); break;
      case 1: s += static_cast<char>("AZ09 \n"[g.below(6)]); break;
      case 2: {
        const string& p = g.pick(SPECIAL);
        if (ascii && static_cast<unsigned char>(p[0]) >= 0x80) { s += "x"; } else { s += p; }
        break;
      }
      default: {
        char c = static_cast<char>(g.below(ascii ? 127 : 256));
        if (c == 0 && !withNul) { c = ' '; }
        s += c;
      }
    }
  }
  return s;
}

// _________________________________________________________________________________________________
PPV_PROP("C22", "split", 3000000, 60000000, "random byte strings over letters, whitespace, controls and "
    "UTF-8, split at the default or random delimiters (narrow and wide variant) and compared to a "
    "character-by-character tokenizer; non-trivial: at least two words and one run of delimiters") {
  string s = genString(g, 60);
  string delims = WS;
  bool custom = g.chance(40);
  if (custom) {
    delims = "";
    int n = static_cast<int>(g.range(1, 4));
    for (int i = 0; i < n; i++) { delims += " \tab,.-Z\n"[g.below(9)]; }
  }
  r.showIf([&] { return quoted(s) + " at " + quoted(delims); });
  vector<string> expected;
  string cur;
  bool run = false;
  char prev = 'x';
  for (char c : s) {
    bool d = delims.find(c) != string::npos;
    if (d) {
      if (!cur.empty()) { expected.push_back(cur); cur = ""; }
      run = run || delims.find(prev) != string::npos;
    } else {
      cur += c;
    }
    prev = c;
  }
  if (!cur.empty()) { expected.push_back(cur); }
  vector<string> actual = { "already there" };
  if (custom) {
    text::splitIntoWords(s, &actual, delims.c_str());
  } else {
    text::splitIntoWords(s, &actual);
  }
  PPV_CHECK(!actual.empty() && actual[0] == "already there", "existing entries must be kept");
  actual.erase(actual.begin());
  PPV_CHECK(actual == expected, "splitting ", quoted(s), " gave ", actual.size(), " words, expected ",
      expected.size());

  // The same with wide characters (one per byte, plus some beyond the range of a byte).
  wstring ws;
  vector<wstring> wexpected;
  wstring wcur;
  size_t k = 0;
  for (char c : s) {
    k++;
    bool d = delims.find(c) != string::npos;
    wchar_t wc = static_cast<unsigned char>(c);
    if (!d && k % 5 == 0) { wc += 0x400; }
    if (!d && wc >= 0x80 && wc < 0x100) { wc += 0x2000; }
    ws += wc;
    if (d) {
      if (!wcur.empty()) { wexpected.push_back(wcur); wcur = L""; }
    } else {
      wcur += wc;
    }
  }
  if (!wcur.empty()) { wexpected.push_back(wcur); }
  vector<wstring> wactual;
  // (Delimiters are compared as code points, so keep them in the ASCII range.)
  if (custom) {
    text::splitIntoWords(ws, &wactual, delims.c_str());
  } else {
    text::splitIntoWords(ws, &wactual);
  }
  PPV_CHECK(wactual == wexpected, "splitting the wide version of ", quoted(s), " gave ",
      wactual.size(), " words, expected ", wexpected.size());
  r.nontrivial(expected.size() >= 2 && run);
}

// _________________________________________________________________________________________________
PPV_PROP("C22", "escape-json", 3000000, 60000000, "random byte strings are escaped; the result must "
    "contain no raw quote or control byte, and a JSON unescaper must give the string back; "
    "non-trivial: at least one byte needs escaping") {
  string s = genString(g, 40, true);
  r.showIf([&] { return quoted(s); });
  string e = text::escapeJson(s);
  string back;
  bool special = false;
  for (size_t i = 0; i < e.size(); i++) {
    unsigned char c = e[i];
    PPV_CHECK(c >= 0x20, "raw control byte in the escaped form of ", quoted(s), ": ", quoted(e));
    PPV_CHECK(c != '"', "unescaped quote in the escaped form of ", quoted(s), ": ", quoted(e));
    if (c != '\\') { back += static_cast<char>(c); continue; }
    special = true;
    PPV_CHECK(i + 1 < e.size(), "dangling backslash in ", quoted(e));
    char x = e[++i];
    switch (x) {
      case '"': back += '"'; break;
      case '\\': back += '\\'; break;
      case '/': back += '/'; break;
      case 'b': back += '\b'; break;
      case 'f': back += '\f'; break;
      case 'n': back += '\n'; break;
      case 'r': back += '\r'; break;
      case 't': back += '\t'; break;
      case 'u': {
        PPV_CHECK(i + 4 < e.size(), "truncated \\u in ", quoted(e));
        string hex = e.substr(i + 1, 4);
        PPV_CHECK(hex.size() == 4 && hex.find_first_not_of("0123456789abcdefABCDEF") == string::npos,
            "bad \\u escape in ", quoted(e));
        long v = strtol(hex.c_str(), nullptr, 16);
        PPV_CHECK(v < 0x80, "unexpected code point in ", quoted(e));
        back += static_cast<char>(v);
        i += 4;
        break;
      }
      default: fail("invalid escape in " + quoted(e));
    }
  }
  PPV_CHECK(back == s, "unescaping ", quoted(e), " does not give ", quoted(s), " back");
  r.nontrivial(special);
}

// _________________________________________________________________________________________________
PPV_PROP("C22", "strip-shorten-join", 2000000, 40000000, "random strings with leading and trailing "
    "whitespace (and whitespace only), shortened to random lengths; random lists of strings, "
    "including empty ones, joined with random separators; non-trivial: whitespace was stripped or "
    "a list with at least two strings was joined") {
  string s = genString(g, 30, false, true);
  string pad1, pad2;
  for (int i = static_cast<int>(g.below(4)); i > 0; i--) { pad1 += WS[g.below(6)]; }
  for (int i = static_cast<int>(g.below(4)); i > 0; i--) { pad2 += WS[g.below(6)]; }
  if (g.chance(10)) { s = ""; }
  string full = pad1 + s + pad2;
  r.showIf([&] { return quoted(full); });
  size_t b = 0, e = full.size();
  while (b < e && isWs(full[b])) { b++; }
  while (e > b && isWs(full[e - 1])) { e--; }
  string expected = full.substr(b, e - b);
  string actual = text::strip(full);
  PPV_CHECK(actual == expected, "strip(", quoted(full), ") = ", quoted(actual));
  PPV_CHECK(text::strip(actual) == actual, "strip is not idempotent for ", quoted(full));

  unsigned int len = static_cast<unsigned int>(g.below(50));
  string sh = text::shorten(full, len);
  if (full.size() <= len) {
    PPV_CHECK(sh == full, "shorten(", quoted(full), ", ", len, ") = ", quoted(sh));
  } else {
    PPV_CHECK(sh == full.substr(0, len) + "...", "shorten(", quoted(full), ", ", len, ") = ",
        quoted(sh));
  }

  int n = static_cast<int>(g.many(0, 8));
  vector<string> parts;
  for (int i = 0; i < n; i++) { parts.push_back(g.chance(25) ? "" : genString(g, 5)); }
  string sep = g.chance(20) ? "" : g.pick(vector<string>{ ", ", ",", " ", "\n", "+-" });
  string joined;
  for (int i = 0; i < n; i++) { joined += (i > 0 ? sep : "") + parts[i]; }
  string j = text::join(parts, sep);
  PPV_CHECK(j == joined, "join of ", n, " strings with ", quoted(sep), " = ", quoted(j), ", expected ",
      quoted(joined));
  r.nontrivial(expected.size() < full.size() || n >= 2);
  r.label("whitespace only", expected.empty() && !full.empty());
  r.label("join with a leading empty string", n >= 2 && parts[0].empty());
}

// _________________________________________________________________________________________________
PPV_PROP("C22", "wrap", 800000, 16000000, "random texts (words, long words, explicit newlines) wrapped "
    "at random widths and indents (indent < width); undoing the wrapping must give the text back, "
    "each line is indented, and a line is only longer than the width where there is no place to "
    "wrap it; non-trivial: at least one wrapped line") {
  string s;
  int n = static_cast<int>(g.many(0, 30));
  for (int i = 0; i < n; i++) {
    if (i > 0) { s += g.chance(12) ? "\n" : " "; }
    int len = static_cast<int>(g.chance(5) ? g.range(10, 40) : g.range(1, 9));
    for (int k = 0; k < len; k++) { s += static_cast<char>('a' + g.below(26)); }
  }
  if (g.chance(10)) { s += "\n"; }
  unsigned int width = static_cast<unsigned int>(g.range(5, 60));
  unsigned int indent = static_cast<unsigned int>(g.small(0, width - 1 < 12 ? width - 1 : 12));
  r.showIf([&] { return quoted(s) + " width=" + std::to_string(width) + " indent="
      + std::to_string(indent); });
  string w = text::wrap(s, width, indent);
  vector<string> lines = { "" };
  for (char c : w) { if (c == '\n') { lines.push_back(""); } else { lines.back() += c; } }
  string ind(indent, ' ');
  string rest = s;
  for (size_t i = 0; i < lines.size(); i++) {
    PPV_CHECK(lines[i].compare(0, indent, ind) == 0, "line ", i, " of the wrapped text is not "
        "indented by ", indent, ": ", quoted(w), " from ", quoted(s));
    string body = lines[i].substr(indent);
    PPV_CHECK(rest.compare(0, body.size(), body) == 0, "the wrapped text differs from the text: ",
        quoted(w), " from ", quoted(s));
    rest = rest.substr(body.size());
    if (i + 1 < lines.size()) {
      PPV_CHECK(!rest.empty() && (rest[0] == ' ' || rest[0] == '\n'), "wrapped within a word: ",
          quoted(w), " from ", quoted(s));
      rest = rest.substr(1);
    } else {
      PPV_CHECK(rest.empty(), "text is missing: ", quoted(w), " from ", quoted(s));
    }
    // A line may only be longer than the width if it consists of a single word.
    PPV_CHECK(lines[i].size() <= width || body.find(' ') == string::npos,
        "line ", i, " is longer than ", width, ": ", quoted(w));
  }
  r.nontrivial(lines.size() >= 2);
  r.label("explicit newline", s.find('\n') != string::npos);
}

// _________________________________________________________________________________________________
PPV_PROP("C22", "predicates-ids", 1500000, 20000000, "sentence-delimiter and uppercase predicates for "
    "random strings, and random identifiers for random lengths, prefixes and alphabets (including "
    "one-letter alphabets), which must have the right length and only use letters of the alphabet; "
    "non-trivial: a non-empty string") {
  string s = genString(g, 8, false, true);
  r.showIf([&] { return quoted(s); });
  string delims = g.chance(50) ? "" : g.pick(vector<string>{ ".", ".!", "abc", "?" });
  bool ends = delims.empty() ? text::endsWithSentenceDelimiter(s)
      : text::endsWithSentenceDelimiter(s, delims.c_str());
  string d = delims.empty() ? "?!.);" : delims;
  bool expected = !s.empty() && d.find(s.back()) != string::npos;
  PPV_CHECK(ends == expected, "endsWithSentenceDelimiter(", quoted(s), ", ", quoted(d), ") = ", ends);
  bool upper = !s.empty() && s[0] >= 'A' && s[0] <= 'Z';
  PPV_CHECK(text::startsWithUpper(s) == upper, "startsWithUpper(", quoted(s), ")");

  unsigned int len = static_cast<unsigned int>(g.small(0, 40));
  string prefix = g.pick(vector<string>{ "", "word-", "x" });
  string alphabet = g.pick(vector<string>{ "", "a", "ab", "0123456789" });
  string id = alphabet.empty() ? text::createRandomString(len, prefix)
      : text::createRandomString(len, prefix, alphabet.c_str());
  string a = alphabet.empty()
      ? "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz" : alphabet;
  PPV_CHECK(id.size() == prefix.size() + len && id.compare(0, prefix.size(), prefix) == 0,
      "createRandomString(", len, ", ", quoted(prefix), ") = ", quoted(id));
  PPV_CHECK(id.find_first_not_of(a, prefix.size()) == string::npos, "createRandomString used a "
      "character outside of the alphabet ", quoted(a), ": ", quoted(id));
  if (len > 0 && alphabet == "ab") {
    // All letters of the alphabet can occur (probability of a miss: 2^-200).
    string big = text::createRandomString(200, "", "ab");
    PPV_CHECK(big.find('a') != string::npos && big.find('b') != string::npos,
        "createRandomString never uses some letters of the alphabet");
  }
  r.nontrivial(!s.empty());
}
