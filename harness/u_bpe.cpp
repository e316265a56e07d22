// C27 (part): the byte pair encoder, against a reference implementation.
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

#include "./pbt.h"
#include "utils/BytePairEncoder.h"

using std::string;
using std::unordered_map;
using std::vector;
using std::wstring;
using namespace ppv;
using ppp::utils::BytePairEncoder;

/** Repeatedly merges all (non-overlapping) occurrences of the leftmost pair in the vocabulary. */
static vector<int> referenceEncode(const wstring& word, const unordered_map<wstring, int>& vocab,
    int unknown, bool* merged) {
  vector<wstring> t;
  for (wchar_t c : word) { t.push_back(wstring(1, c)); }
  while (true) {
    wstring pair;
    bool found = false;
    for (size_t i = 0; i + 1 < t.size() && !found; i++) {
      if (vocab.count(t[i] + t[i + 1])) { pair = t[i] + t[i + 1]; found = true; }
    }
    if (!found) { break; }
    *merged = true;
    vector<wstring> u;
    for (size_t i = 0; i < t.size(); ) {
      if (i + 1 < t.size() && t[i] + t[i + 1] == pair) {
        u.push_back(pair);
        i += 2;
      } else {
        u.push_back(t[i]);
        i++;
      }
    }
    t = u;
  }
  vector<int> res;
  for (const auto& x : t) {
    auto it = vocab.find(x);
    res.push_back(it == vocab.end() ? unknown : it->second);
  }
  return res;
}

static string narrow(const wstring& s) {
  string r;
  for (wchar_t c : s) { r += c < 128 ? static_cast<char>(c) : '#'; }
  return r;
}

// _________________________________________________________________________________________________
PPV_PROP("C27", "bpe", 400000, 8000000, "random vocabularies of short tokens over a small alphabet "
    "(with single characters missing now and then) and histories of texts with repeated words, "
    "encoded with random target lengths by one encoder, compared to a reference encoder without "
    "memory; non-trivial: tokens were merged and a word occurs repeatedly") {
  static const wchar_t ALPHABET[] = L"abcd\x00e4\x2702";
  unordered_map<wstring, int> vocab;
  auto genToken = [&](int maxLen) {
    wstring s;
    int len = static_cast<int>(g.range(1, maxLen));
    for (int i = 0; i < len; i++) { s += ALPHABET[g.below(5)]; }
    return s;
  };
  string log = "vocabulary:";
  int id = 0;
  for (int i = 0; i < 5; i++) {
    if (!g.chance(15)) { vocab[wstring(1, ALPHABET[i])] = id++; log += " " + narrow(wstring(1, ALPHABET[i])); }
  }
  int n = static_cast<int>(g.many(0, 20));
  for (int i = 0; i < n; i++) {
    wstring t = genToken(4);
    if (g.chance(20)) { t += L"\x2702"; }  // The word delimiter symbol.
    if (!vocab.count(t)) { vocab[t] = id++; log += " " + narrow(t); }
  }
  int padding = id, unknown = id + 1, delim = id + 2;
  unordered_map<wstring, int> given = vocab;
  BytePairEncoder encoder(&given);
  unordered_map<wstring, int> full = vocab;
  full[L"⊛"] = padding;
  full[L"⌾"] = unknown;
  full[L"✂"] = delim;
  vector<wstring> pool;
  bool merged = false, repeated = false;
  int texts = static_cast<int>(g.range(1, 4));
  for (int k = 0; k < texts; k++) {
    wstring text;
    vector<int> expected;
    int words = static_cast<int>(g.small(0, 8));
    if (g.chance(20)) { text += L" \t"; }
    for (int i = 0; i < words; i++) {
      wstring w;
      if (!pool.empty() && g.chance(40)) { w = g.pick(pool); repeated = true; }
      else { w = genToken(7); pool.push_back(w); }
      text += w;
      text += g.chance(70) ? L" " : L"\n ";
      vector<int> e = referenceEncode(w + L"✂", full, unknown, &merged);
      expected.insert(expected.end(), e.begin(), e.end());
    }
    size_t target = g.chance(30) ? 0 : static_cast<size_t>(g.range(1, 30));
    log += " | " + narrow(text) + cat(" -> ", target);
    if (target > 0) { expected.resize(target, padding); }
    vector<int> actual;
    encoder.encode(text, target, " \t\r\n\f\v", &actual);
    string a, e;
    for (int x : actual) { a += cat(x, ","); }
    for (int x : expected) { e += cat(x, ","); }
    PPV_CHECK(actual == expected, "encoding is ", a, " instead of ", e, ": ", log);
  }
  r.showIf([&] { return log; });
  r.nontrivial(merged && repeated);
}
