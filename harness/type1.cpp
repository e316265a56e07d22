#include "./type1.h"

#include <algorithm>

using std::pair;
using std::string;
using std::vector;

namespace ppv {

void T1Box::add(int x, int y) {
  x1 = any ? std::min(x1, x) : x;
  y1 = any ? std::min(y1, y) : y;
  x2 = any ? std::max(x2, x) : x;
  y2 = any ? std::max(y2, y) : y;
  any = true;
}

string t1Encrypt(Gen& g, const string& plain, unsigned int key, int n, bool eexec) {
  string in, out;
  for (int i = 0; i < n; i++) { in += static_cast<char>(g.below(256)); }
  unsigned int first = key;
  if (eexec) {
    // The first cipher byte must be no white space, and one of the first four no hexadecimal digit.
    in[0] = static_cast<char>((0x91 + g.below(50)) ^ (first >> 8));
  }
  in += plain;
  for (char ch : in) {
    unsigned int c = static_cast<unsigned char>(ch) ^ (key >> 8);
    out += static_cast<char>(c);
    key = (((c & 0xff) + key) * 52845u + 22719u) & 0xffff;
  }
  return out;
}

string t1Num(int v) {
  string s;
  auto put = [&](int b) { s += static_cast<char>(b & 0xff); };
  if (v >= -107 && v <= 107) { put(v + 139); }
  else if (v >= 108 && v <= 1131) { put((v - 108) / 256 + 247); put((v - 108) % 256); }
  else if (v <= -108 && v >= -1131) { put((-v - 108) / 256 + 251); put((-v - 108) % 256); }
  else { put(255); put(v >> 24); put(v >> 16); put(v >> 8); put(v); }
  return s;
}

string t1Build(Gen& g, const T1Font& f, int* length1, int* length2) {
  string priv = "dup /Private 8 dict dup begin\n/RD {string currentfile exch readstring pop} executeonly def\n"
    "/ND {noaccess def} executeonly def\n/NP {noaccess put} executeonly def\n/BlueValues [-20 0 700 720] def\n"
    "/MinFeature {16 16} def\n/password 5839 def\n";
  int lenIV = f.lenIV < 0 ? 4 : f.lenIV;
  if (f.lenIV >= 0) { priv += cat("/lenIV ", f.lenIV, " def\n"); }
  priv += cat("/Subrs ", f.subrs.size(), " array\n");
  for (size_t i = 0; i < f.subrs.size(); i++) {
    string enc = t1Encrypt(g, f.subrs[i], 4330, lenIV, false);
    priv += cat("dup ", i, " ", enc.size(), " RD ") + enc + " NP\n";
  }
  priv += cat("ND\n2 index /CharStrings ", f.glyphs.size(), " dict dup begin\n");
  for (auto& gl : f.glyphs) {
    string enc = t1Encrypt(g, gl.second, 4330, lenIV, false);
    priv += cat("/", gl.first, " ", enc.size(), " RD ") + enc + " ND\n";
  }
  priv += "end\nend\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\nmark currentfile closefile\n";
  string enc = t1Encrypt(g, priv, 55665, 4, true);
  string tail;
  for (int i = 0; i < 8; i++) { tail += string(64, '0') + "\n"; }
  tail += "cleartomark\n";
  auto segment = [](int type, const string& data) {
    string s = "\x80";
    s += static_cast<char>(type);
    for (int i = 0; i < 4; i++) { s += static_cast<char>((data.size() >> (8 * i)) & 0xff); }
    return s + data;
  };
  if (f.form == T1Form::HEX_LOWER || f.form == T1Form::HEX_UPPER || f.form == T1Form::HEX_LINES) {
    const char* digits = f.form == T1Form::HEX_UPPER ? "0123456789ABCDEF" : "0123456789abcdef";
    string hex;
    for (unsigned char c : enc) {
      hex += digits[c >> 4];
      hex += digits[c & 15];
      if (f.form == T1Form::HEX_LINES && hex.size() % 65 == 64) { hex += '\n'; }
    }
    enc = hex;
  }
  *length1 = static_cast<int>(f.clear.size());
  *length2 = static_cast<int>(enc.size());
  if (f.form == T1Form::PFB) {
    *length1 += 6;
    *length2 += 6;
    return segment(1, f.clear) + segment(2, enc) + segment(1, tail) + "\x80\x03";
  }
  return f.clear + enc + tail;
}

string t1Glyph(Gen& g, const vector<pair<string, vector<pair<int, int>>>>& routines, int firstRoutine, T1Box* box,
    Rec* r) {
  string s;
  int x = 0, y = 0;
  auto op = [&](int o) { s += static_cast<char>(o); };
  auto esc = [&](int o) { s += '\x0c'; s += static_cast<char>(o); };
  auto small = [&] {
    switch (g.weighted({ 60, 25, 10, 5 })) {
      case 0: return static_cast<int>(g.around(-107, 107));
      case 1: return static_cast<int>(g.around(-400, 400));
      case 2: return static_cast<int>(g.around(-1131, 1131));
      default: return static_cast<int>(g.around(-2000, 2000));
    }
  };
  // A number, maybe given by a division.
  auto number = [&](int v) {
    if (g.chance(4)) {
      int d = static_cast<int>(g.range(2, 50));
      r->label("division");
      s += t1Num(v * d) + t1Num(d) + "\x0c\x0c";
    } else {
      s += t1Num(v);
    }
  };
  auto move = [&](int dx, int dy) { x += dx; y += dy; box->add(x, y); };
  if (g.chance(85)) {
    int sbx = small();
    number(sbx);
    number(static_cast<int>(g.range(0, 1200)));
    op(13);
    x = sbx;
    y = 0;
  } else {
    int sbx = small(), sby = small();
    number(sbx);
    number(sby);
    number(static_cast<int>(g.range(0, 1200)));
    number(0);
    esc(7);
    x = sbx;
    y = sby;
  }
  box->add(x, y);
  for (int n = static_cast<int>(g.small(0, 14)); n > 0; n--) {
    switch (g.weighted({ 10, 6, 6, 14, 8, 8, 14, 8, 8, 5, 6, 8, 5, 4 })) {
      case 0: { int dx = small(), dy = small(); number(dx); number(dy); op(21); move(dx, dy); break; }
      case 1: { int dx = small(); number(dx); op(22); move(dx, 0); break; }
      case 2: { int dy = small(); number(dy); op(4); move(0, dy); break; }
      case 3: { int dx = small(), dy = small(); number(dx); number(dy); op(5); move(dx, dy); break; }
      case 4: { int dx = small(); number(dx); op(6); move(dx, 0); break; }
      case 5: { int dy = small(); number(dy); op(7); move(0, dy); break; }
      case 6: {
        int d[6];
        for (int& v : d) { v = small(); number(v); }
        op(8);
        move(d[0], d[1]);
        move(d[2], d[3]);
        move(d[4], d[5]);
        break;
      }
      case 7: {
        int d[4];
        for (int& v : d) { v = small(); number(v); }
        op(30);
        move(0, d[0]);
        move(d[1], d[2]);
        move(d[3], 0);
        break;
      }
      case 8: {
        int d[4];
        for (int& v : d) { v = small(); number(v); }
        op(31);
        move(d[0], 0);
        move(d[1], d[2]);
        move(0, d[3]);
        break;
      }
      case 9: op(9); break;
      case 10: {  // Hints.
        int kind = static_cast<int>(g.below(5));
        int count = kind < 2 ? 2 : kind < 4 ? 6 : 0;
        for (int i = 0; i < count; i++) { number(small()); }
        if (kind == 0) { op(1); }
        if (kind == 1) { op(3); }
        if (kind == 2) { esc(1); }
        if (kind == 3) { esc(2); }
        if (kind == 4) { esc(0); }
        break;
      }
      case 11: {  // A subroutine that draws.
        if (routines.empty()) { break; }
        size_t k = g.below(routines.size());
        s += t1Num(firstRoutine + static_cast<int>(k));
        op(10);
        for (auto& d : routines[k].second) { move(d.first, d.second); }
        r->label("subroutine");
        break;
      }
      case 12: {  // A replacement of hints: the routine 4 is called by way of "1 3 callothersubr pop callsubr".
        s += t1Num(4) + t1Num(1) + t1Num(3);
        esc(16);
        esc(17);
        op(10);
        r->label("hint replacement");
        break;
      }
      default: {  // Flex: a flat curve, by the routines 0, 1 and 2.
        s += t1Num(1);
        op(10);
        int rx = small(), ry = small();
        // The reference point is one of the points of the curve, as seen from the start point.
        int d[6][2];
        for (auto& p : d) { p[0] = small(); p[1] = small(); }
        // Relative to the reference point, the first control point.
        auto rel = [&](int dx, int dy) { number(dx); number(dy); op(21); s += t1Num(2); op(10); move(dx, dy); };
        rel(rx, ry);
        for (auto& p : d) { rel(p[0], p[1]); }
        number(50);
        s += t1Num(x) + t1Num(y) + t1Num(0);
        op(10);
        r->label("flex");
        break;
      }
    }
  }
  op(9);
  op(14);
  return s;
}

}  // namespace ppv
