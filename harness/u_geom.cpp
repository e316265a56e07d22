// C23: geometry and ordering of page elements, against independently written models.
#include <algorithm>
#include <cmath>
#include <limits>
#include <string>
#include <vector>

#include "./pbt.h"
#include "Types.h"
#include "utils/Comparators.h"
#include "utils/MathUtils.h"
#include "utils/PdfElementsUtils.h"

using std::string;
using std::vector;
using namespace ppv;
using ppp::types::PdfElement;
using ppp::types::PdfPosition;
using ppp::types::PdfWord;
namespace math = ppp::utils::math;
namespace el = ppp::utils::elements;
namespace cmp = ppp::utils::comparators;

/** A coordinate in tenths (as all coordinates are rounded to one decimal). */
static int64_t coord(Gen& g, int64_t range) { return g.around(-range, range); }

// _________________________________________________________________________________________________
PPV_PROP("C23", "tolerance", 3000000, 40000000, "pairs of numbers that are far apart, close to each "
    "other, or exactly at the tolerance (on a binary grid, so that the reference is exact), random "
    "tolerances incl. the default; non-trivial: the numbers differ by at most two tolerances") {
  // All values are multiples of 2^-10, so that sums and differences are exact.
  double tol = static_cast<double>(g.below(2049)) / 1024;
  double a = static_cast<double>(g.around(-200000, 200000)) / 1024;
  double b;
  switch (g.below(4)) {
    case 0: b = static_cast<double>(g.around(-200000, 200000)) / 1024; break;
    case 1: b = a + tol; break;
    case 2: b = a - tol; break;
    default: b = a + static_cast<double>(g.around(-4096, 4096)) / 1024;
  }
  bool dflt = g.chance(20);
  r.showIf([&] { return cat("a=", a, " b=", b, " tolerance=", dflt ? "default" : cat(tol)); });
  double d = a - b;
  if (dflt) {
    // The default tolerance lies strictly between 0 and 2^-10.
    PPV_CHECK(math::equal(a, b) == (d == 0), a, " ", b);
    PPV_CHECK(math::larger(a, b) == (d > 0), a, " ", b);
    PPV_CHECK(math::smaller(a, b) == (d < 0), a, " ", b);
    PPV_CHECK(math::equalOrLarger(a, b) == (d >= 0), a, " ", b);
    PPV_CHECK(math::equalOrSmaller(a, b) == (d <= 0), a, " ", b);
    PPV_CHECK(math::equal(a, a + 0.00005) && math::equal(a + 0.00005, a), a);
    PPV_CHECK(!math::larger(a + 0.00005, a) && !math::smaller(a, a + 0.00005), a);
    PPV_CHECK(math::equalOrLarger(a, a + 0.00005) && math::equalOrSmaller(a + 0.00005, a), a);
    PPV_CHECK(!math::equal(a, a + 0.0002) && math::larger(a + 0.0002, a)
        && math::smaller(a, a + 0.0002), a);
  } else {
    PPV_CHECK(math::equal(a, b, tol) == (std::fabs(d) <= tol), a, " ", b, " ", tol);
    PPV_CHECK(math::larger(a, b, tol) == (d > tol), a, " ", b, " ", tol);
    PPV_CHECK(math::smaller(a, b, tol) == (d < -tol), a, " ", b, " ", tol);
    PPV_CHECK(math::equalOrLarger(a, b, tol) == (d >= -tol), a, " ", b, " ", tol);
    PPV_CHECK(math::equalOrSmaller(a, b, tol) == (d <= tol), a, " ", b, " ", tol);
    double c = static_cast<double>(g.around(-200000, 200000)) / 1024;
    PPV_CHECK(math::between(c, a, b, tol) == (c >= a - tol && c <= b + tol), c, " in ", a, " ", b,
        " ", tol);
  }
  vector<double> v = { a, b, static_cast<double>(g.around(-99999, 99999)) / 7,
    static_cast<double>(g.around(-99999, 99999)) / 3 };
  vector<double> s = v;
  std::sort(s.begin(), s.end());
  PPV_CHECK(math::minimum(v[0], v[1]) == std::min(a, b) && math::maximum(v[0], v[1])
      == std::max(a, b), a, " ", b);
  PPV_CHECK(math::minimum(v[0], v[1], v[2]) == std::min({ v[0], v[1], v[2] })
      && math::maximum(v[0], v[1], v[2]) == std::max({ v[0], v[1], v[2] }), a, " ", b, " ", v[2]);
  PPV_CHECK(math::minimum(v[0], v[1], v[2], v[3]) == s[0] && math::maximum(v[0], v[1], v[2], v[3])
      == s[3], a, " ", b, " ", v[2], " ", v[3]);
  r.nontrivial(std::fabs(d) <= 2 * tol);
  r.label("exactly at the tolerance", std::fabs(d) == tol);
}

// _________________________________________________________________________________________________
PPV_PROP("C23", "round", 2000000, 30000000, "random decimals n/10^k rounded to 0..k digits, compared "
    "to exact integer arithmetic (halves away from zero, with room for representation errors at "
    "exact halves); non-trivial: digits are actually dropped") {
  int k = static_cast<int>(g.below(6));
  int64_t n = g.around(-100000000, 100000000);
  unsigned int digits = static_cast<unsigned int>(g.below(k + 1));
  int64_t pow = 1;
  for (int i = 0; i < k; i++) { pow *= 10; }
  int64_t drop = 1;
  for (int i = digits; i < k; i++) { drop *= 10; }
  double d = static_cast<double>(n) / static_cast<double>(pow);
  r.showIf([&] { return cat("round(", d, ", ", digits, ")"); });
  double actual = digits == 0 && g.chance(50) ? math::round(d) : math::round(d, digits);
  int64_t a = n < 0 ? -n : n;
  int64_t q = a / drop;
  int64_t rem = a % drop;
  double unit = static_cast<double>(pow / drop);
  int64_t sign = n < 0 ? -1 : 1;
  double up = static_cast<double>(sign * (q + 1)) / unit;
  double down = static_cast<double>(sign * q) / unit;
  double eps = 1e-9 * (1 + std::fabs(d));
  bool isUp = std::fabs(actual - up) <= eps;
  bool isDown = std::fabs(actual - down) <= eps;
  if (2 * rem > drop) {
    PPV_CHECK(isUp, "round(", d, ", ", digits, ") = ", actual, ", expected ", up);
  } else if (2 * rem < drop) {
    PPV_CHECK(isDown, "round(", d, ", ", digits, ") = ", actual, ", expected ", down);
  } else {
    PPV_CHECK(isUp || (isDown && digits > 0), "round(", d, ", ", digits, ") = ", actual);
  }
  r.nontrivial(drop > 1 && rem != 0);
  r.label("exact half", 2 * rem == drop);
}

// _________________________________________________________________________________________________
PPV_PROP("C23", "rotation", 2000000, 30000000, "random boxes with each rotation; the box in reading "
    "direction must be the box mapped by the rotation: its extents along and across the reading "
    "direction are non-negative and the edges are those of the original box; non-trivial: a "
    "rotated box with a positive area") {
  PdfPosition p;
  int64_t x = coord(g, 8000), y = coord(g, 8000), w = g.small(0, 3000), h = g.small(0, 3000);
  p.leftX = x / 10.0;
  p.upperY = y / 10.0;
  p.rightX = (x + w) / 10.0;
  p.lowerY = (y + h) / 10.0;
  p.rotation = static_cast<int>(g.below(4));
  r.showIf([&] { return p.toString(); });
  PPV_CHECK(std::fabs(p.getWidth() - w / 10.0) < 1e-9 && std::fabs(p.getHeight() - h / 10.0) < 1e-9,
      p.toString());
  // The corners of the text, in the order left, upper, right, lower of the text.
  double e[4][4] = {
    { p.leftX, p.upperY, p.rightX, p.lowerY },
    { p.upperY, p.rightX, p.lowerY, p.leftX },
    { p.rightX, p.lowerY, p.leftX, p.upperY },
    { p.lowerY, p.leftX, p.upperY, p.rightX } };
  const double* q = e[p.rotation];
  PPV_CHECK(p.getRotLeftX() == q[0], p.toString());
  PPV_CHECK(p.getRotUpperY() == q[1], p.toString());
  PPV_CHECK(p.getRotRightX() == q[2], p.toString());
  PPV_CHECK(p.getRotLowerY() == q[3], p.toString());
  bool swapped = p.rotation % 2 == 1;
  PPV_CHECK(std::fabs(p.getRotWidth() - (swapped ? h : w) / 10.0) < 1e-9, p.toString(),
      " has a width of ", p.getRotWidth(), " in reading direction");
  PPV_CHECK(std::fabs(p.getRotHeight() - (swapped ? w : h) / 10.0) < 1e-9, p.toString(),
      " has a height of ", p.getRotHeight(), " in reading direction");
  r.nontrivial(p.rotation != 0 && w > 0 && h > 0);
}

// _________________________________________________________________________________________________
PPV_PROP("C23", "gaps-overlaps", 2000000, 30000000, "random pairs of upright boxes on a grid of "
    "tenths (disjoint, touching, nested, overlapping, empty; also left of or above the page): gaps, "
    "overlap ratios and equalities compared to integer arithmetic, and symmetric in the two "
    "boxes; non-trivial: the boxes overlap partly or touch in one dimension") {
  int64_t b[2][4];
  for (auto& k : b) {
    k[0] = coord(g, 120);
    k[1] = coord(g, 120);
    k[2] = k[0] + g.small(0, 80);
    k[3] = k[1] + g.small(0, 80);
  }
  if (g.chance(30)) {  // Make them touch or coincide in a coordinate.
    int i = static_cast<int>(g.below(4));
    int64_t delta = b[0][(i + 2) % 4] - b[1][i];
    b[1][i % 2] += delta;
    b[1][i % 2 + 2] += delta;
  }
  PdfWord w1(1, b[0][0] / 10.0, b[0][1] / 10.0, b[0][2] / 10.0, b[0][3] / 10.0, 0, 0);
  PdfWord w2(1, b[1][0] / 10.0, b[1][1] / 10.0, b[1][2] / 10.0, b[1][3] / 10.0, 0, 0);
  r.showIf([&] { return w1.pos->toString() + " " + w2.pos->toString(); });
  string ctx = w1.pos->toString() + " " + w2.pos->toString();
  bool partly = false;
  for (int dim = 0; dim < 2; dim++) {
    int64_t s1 = b[0][dim], e1 = b[0][dim + 2], s2 = b[1][dim], e2 = b[1][dim + 2];
    // The gap: from the end of the first to the start of the second.
    double gap = dim == 0 ? el::computeHorizontalGap(&w1, &w2) : el::computeVerticalGap(&w1, &w2);
    double gap2 = dim == 0 ? el::computeHorizontalGap(&w2, &w1) : el::computeVerticalGap(&w2, &w1);
    if (s1 != s2) {
      double expected = (s1 < s2 ? s2 - e1 : s1 - e2) / 10.0;
      PPV_CHECK(std::fabs(gap - expected) < 1e-9, "gap ", dim, " = ", gap, ", expected ", expected,
          ": ", ctx);
      PPV_CHECK(std::fabs(gap2 - gap) < 1e-9, "the gap is not symmetric: ", ctx);
    } else {
      PPV_CHECK(std::fabs(gap - (s1 - e1) / 10.0) < 1e-9 || std::fabs(gap - (s1 - e2) / 10.0) < 1e-9,
          "gap ", dim, " = ", gap, ": ", ctx);
    }
    int64_t overlap = std::max<int64_t>(0, std::min(e1, e2) - std::max(s1, s2));
    double r1 = e1 > s1 ? static_cast<double>(overlap) / static_cast<double>(e1 - s1) : 0;
    double r2 = e2 > s2 ? static_cast<double>(overlap) / static_cast<double>(e2 - s2) : 0;
    auto rat = dim == 0 ? el::computeXOverlapRatios(&w1, &w2) : el::computeYOverlapRatios(&w1, &w2);
    PPV_CHECK(std::fabs(rat.first - r1) < 1e-6 && std::fabs(rat.second - r2) < 1e-6,
        "overlap ratios ", dim, " = ", rat.first, ", ", rat.second, ", expected ", r1, ", ", r2, ": ",
        ctx);
    // The ends of an interval may be given in any order.
    auto raw = el::computeOverlapRatios(e1 / 10.0, s1 / 10.0, s2 / 10.0, e2 / 10.0);
    PPV_CHECK(std::fabs(raw.first - r1) < 1e-6 && std::fabs(raw.second - r2) < 1e-6,
        "overlap ratios of swapped interval: ", raw.first, ", ", raw.second, ": ", ctx);
    double mx = dim == 0 ? el::computeMaxXOverlapRatio(&w1, &w2)
        : el::computeMaxYOverlapRatio(&w1, &w2);
    PPV_CHECK(std::fabs(mx - std::max(r1, r2)) < 1e-6, "max overlap ratio ", dim, " = ", mx, ": ", ctx);
    partly = partly || (overlap > 0 && r1 < 1 && r2 < 1) || e1 == s2 || e2 == s1;
  }
  // Equality of edges with a tolerance of (t + 0.5) tenths, so that it is never at the boundary.
  int64_t t = g.small(0, 40);
  double tol = (static_cast<double>(t) + 0.5) / 10.0;
  auto eq = [&](int i) { return std::abs(b[0][i] - b[1][i]) <= t; };
  PPV_CHECK(el::computeHasEqualLeftX(&w1, &w2, tol) == eq(0), "equal leftX, ", tol, ": ", ctx);
  PPV_CHECK(el::computeHasEqualUpperY(&w1, &w2, tol) == eq(1), "equal upperY, ", tol, ": ", ctx);
  PPV_CHECK(el::computeHasEqualRightX(&w1, &w2, tol) == eq(2), "equal rightX, ", tol, ": ", ctx);
  PPV_CHECK(el::computeHasEqualLowerY(&w1, &w2, tol) == eq(3), "equal lowerY, ", tol, ": ", ctx);
  PPV_CHECK(std::fabs(el::computeLeftXOffset(&w1, &w2) - (b[0][0] - b[1][0]) / 10.0) < 1e-9, ctx);
  PPV_CHECK(std::fabs(el::computeRightXOffset(&w1, &w2) - (b[0][2] - b[1][2]) / 10.0) < 1e-9, ctx);
  w1.fontSize = static_cast<double>(g.below(30));
  w2.fontSize = w1.fontSize + static_cast<double>(g.around(-3, 3));
  w1.fontName = g.pick(vector<string>{ "", "A", "ABC+A" });
  w2.fontName = g.pick(vector<string>{ "", "A", "ABC+A" });
  double ftol = static_cast<double>(g.below(4)) + 0.5;
  PPV_CHECK(el::computeHasEqualFontSize(&w1, &w2, ftol)
      == (std::fabs(w1.fontSize - w2.fontSize) <= ftol), w1.fontSize, " ", w2.fontSize, " ", ftol);
  PPV_CHECK(el::computeHasEqualFont(&w1, &w2) == (w1.fontName == w2.fontName), w1.fontName, " ",
      w2.fontName);
  r.nontrivial(partly);
}

// _________________________________________________________________________________________________
PPV_PROP("C23", "sorting", 300000, 5000000, "random lists of boxes (many equal coordinates, negative "
    "ones, all rotations) sorted by each of the orders; the result must be a permutation that is "
    "ordered by the respective edge, and the orders must be strict weak orders on the list; "
    "non-trivial: at least five boxes with ties") {
  int n = static_cast<int>(g.many(0, 14));
  vector<PdfWord*> words;
  bool sameRotation = g.chance(50);
  int rot = static_cast<int>(g.below(4));
  int64_t span = g.chance(50) ? 3 : 4000;
  for (int i = 0; i < n; i++) {
    int64_t x = coord(g, span), y = coord(g, span);
    int64_t w = g.small(0, span), h = g.small(0, span);
    words.push_back(new PdfWord(1, x / 10.0, y / 10.0, (x + w) / 10.0, (y + h) / 10.0,
        sameRotation ? rot : static_cast<int>(g.below(4)), 0));
  }
  r.showIf([&] {
    string s;
    for (auto* w : words) { s += w->pos->toString() + " "; }
    return s;
  });
  struct Order {
    const char* name;
    std::function<bool(const PdfElement*, const PdfElement*)> less;
    std::function<double(const PdfPosition*)> key;  // Ascending.
  };
  auto rotLeft = [](const PdfPosition* p) {
    double v[4] = { p->leftX, p->upperY, p->rightX, p->lowerY };
    return v[p->rotation];
  };
  auto rotLower = [](const PdfPosition* p) {
    double v[4] = { p->lowerY, p->leftX, p->upperY, p->rightX };
    return v[p->rotation];
  };
  vector<Order> orders = {
    { "leftX asc", cmp::LeftXAscComparator(), [](const PdfPosition* p) { return p->leftX; } },
    { "rightX desc", cmp::RightXDescComparator(), [](const PdfPosition* p) { return -p->rightX; } },
    { "upperY asc", cmp::UpperYAscComparator(), [](const PdfPosition* p) { return p->upperY; } },
    { "rot leftX asc", cmp::RotLeftXAscComparator(), [&](const PdfPosition* p) { return rotLeft(p); } },
    { "rot leftX desc", cmp::RotLeftXDescComparator(), [&](const PdfPosition* p) { return -rotLeft(p); } },
    { "rot lowerY asc", cmp::RotLowerYAscComparator(), [&](const PdfPosition* p) { return rotLower(p); } },
    { "rot lowerY desc", cmp::RotLowerYDescComparator(), [&](const PdfPosition* p) { return -rotLower(p); } } };
  bool ties = false;
  for (const auto& o : orders) {
    for (auto* a : words) {
      for (auto* b : words) {
        bool expected = o.key(a->pos) < o.key(b->pos) - 0.05;
        PPV_CHECK(o.less(a, b) == expected, o.name, ": ", a->pos->toString(), " before ",
            b->pos->toString(), " should be ", expected);
        ties = ties || (a != b && !o.less(a, b) && !o.less(b, a));
      }
    }
    vector<PdfElement*> sorted(words.begin(), words.end());
    std::sort(sorted.begin(), sorted.end(), o.less);
    for (size_t i = 1; i < sorted.size(); i++) {
      PPV_CHECK(o.key(sorted[i - 1]->pos) < o.key(sorted[i]->pos) + 0.05, o.name, " not sorted");
    }
  }
  for (auto* w : words) { delete w; }
  r.nontrivial(n >= 5 && ties);
}
