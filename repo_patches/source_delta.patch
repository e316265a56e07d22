From 837bab57be2f48bfc3395d3b58a2418bc196bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 01/49] fix: strip() reads beyond strings that are empty or
 consist of whitespace only

---
 src/utils/TextUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..bebe5ad 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -150,8 +150,8 @@ string strip(const string& str) {
   auto start_it = str.begin();
   auto end_it = str.rbegin();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != str.end() && isspace(static_cast<unsigned char>(*start_it))) { start_it++; }
+  while (end_it.base() != start_it && isspace(static_cast<unsigned char>(*end_it))) { end_it++; }
 
   return string(start_it, end_it.base());
 }
-- 
2.43.0


From 5059890fb46ed345d7c43e9646b3c992437d471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 02/49] fix: createRandomString() never uses the last character
 of the alphabet, and divides by zero

---
 src/utils/TextUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index bebe5ad..37ec557 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -92,7 +92,7 @@ string createRandomString(unsigned int len, const string& prefix, const char* co
   // Append <len>-many random alphanumerical characters.
   int alphabetSize = strlen(alphabet);
   for (unsigned int i = 0; i < len; i++) {
-    str += alphabet[rand() % (alphabetSize - 1)];
+    str += alphabet[rand() % alphabetSize];
   }
 
   return str;
-- 
2.43.0


From 94d5e86d05bb524afa09b28217215520cd734525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 03/49] fix: join() drops the separators after leading empty
 strings

---
 src/utils/TextUtils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 37ec557..9c41d86 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -199,11 +199,11 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
 // _________________________________________________________________________________________________
 string join(const vector<string>& strings, const string& sep) {
   string resultStr = "";
-  for (const auto& s : strings) {
-      if (resultStr.size() > 0) {
+  for (size_t i = 0; i < strings.size(); i++) {
+      if (i > 0) {
         resultStr += sep;
       }
-      resultStr += s;
+      resultStr += strings[i];
   }
   return resultStr;
 }
-- 
2.43.0


From 831ec39f5d8dd10fef99d95b213be27a3369ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 04/49] fix: wrap() indents not every line and gives up at
 words that are longer than a line

---
 src/utils/TextUtils.cpp | 46 ++++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 9c41d86..8f8e76e 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -160,38 +160,36 @@ string strip(const string& str) {
 string wrap(const string& str, unsigned int width, unsigned int indent) {
   string result = "";
 
-  // Split the string into lines.
-  unsigned int lineStart = 0;
-  unsigned int lineEnd = 0;
+  // The maximum length of a line, without the indent.
+  size_t maxLength = width > indent ? width - indent : 0;
+
+  size_t lineStart = 0;
   while (true) {
-    // Check if the string needs to be wrapped because it contains an explicit newline character.
-    lineEnd = str.rfind("\n", lineStart + width - indent);
-    if (lineEnd >= lineStart && lineEnd <= str.size()) {
-      for (unsigned int i = 0; i < indent; i++) { result += " "; }
-      result += str.substr(lineStart, lineEnd - lineStart);
-      result += "\n";
-      lineStart = lineEnd + 1;
-      continue;
+    // The line ends at the next explicit newline character, or at the end of the string.
+    size_t lineEnd = str.find('\n', lineStart);
+    bool isLastLine = lineEnd == string::npos;
+    if (isLastLine) { lineEnd = str.size(); }
+
+    // If the line is too long, wrap it at the last whitespace that does not exceed the maximum
+    // length (or, if the line starts with a word that is longer than that, after this word).
+    if (lineEnd - lineStart > maxLength) {
+      size_t space = str.rfind(' ', lineStart + maxLength);
+      if (space == string::npos || space < lineStart) {
+        space = str.find(' ', lineStart + maxLength);
+      }
+      if (space != string::npos && space < lineEnd) {
+        lineEnd = space;
+        isLastLine = false;
+      }
     }
 
-    // Check if the string needs to be wrapped because it is too long.
-    lineEnd = str.rfind(" ", lineStart + width - indent);
-    if (lineEnd < lineStart || lineEnd > str.size()) {
-      break;
-    }
-    // Don't wrap if the string would be split in two parts whose accumulated width is <= width.
-    if ((lineEnd - lineStart) + (str.size() - lineEnd) <= width) {
-      break;
-    }
     // Append the indent and the line to the result.
-    for (unsigned int i = 0; i < indent; i++) { result += " "; }
+    result += string(indent, ' ');
     result += str.substr(lineStart, lineEnd - lineStart);
+    if (isLastLine) { break; }
     result += "\n";
     lineStart = lineEnd + 1;
   }
-  // Append the indent and the rest of the string to the result.
-  for (unsigned int i = 0; i < indent; i++) { result += " "; }
-  result += str.substr(lineStart, str.size() - lineStart);
 
   return result;
 }
-- 
2.43.0


From 0b94e0ec56e7cb11978db49cffc35ec971e6549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 05/49] fix: DoubleCounter::max() ignores keys that are not
 positive

---
 src/utils/Counter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..fc0edbb 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -56,7 +56,7 @@ pair<double, unsigned int> DoubleCounter::mostFreqAndCount() const {
 
 // _________________________________________________________________________________________________
 double DoubleCounter::max() const {
-  double max = numeric_limits<double>::min();
+  double max = numeric_limits<double>::lowest();
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-- 
2.43.0


From 01ca177fd48dc1a9fec9cffbf654966e22552218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:59 +0000
Subject: [PATCH 06/49] fix: xCut() and yCut() return wrong extents of cuts
 between elements with negative coordinates

---
 src/utils/XYCut.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..161dbde 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -242,7 +242,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From 52af645980c10dd63d2003f275f6dbd161bef7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 07/49] fix: xCut() misses cuts that overlap the leftmost
 elements

---
 src/utils/XYCut.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 161dbde..26d0321 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -183,8 +183,10 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
       overlappingElements.push_back(prevElement);
     }
 
-    // Add the element to the queue if its rightX is larger than the smallest rightX in the queue.
-    if (larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
+    // Add the element to the queue if the queue is not full yet, or if the rightX of the element is
+    // larger than the smallest rightX in the queue.
+    if (elementsLargestRightXQueue.size() < static_cast<size_t>(qSize) ||
+        larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
       elementsLargestRightXQueue.push(element);
     }
   }
-- 
2.43.0


From 8f99b96acd17b33f912246a085c2c307177ec381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 08/49] fix: text of diacritical marks gets lost when a
 character has several marks

---
 src/DiacriticalMarksMerging.cpp | 87 +++++++++++++++++++++++----------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..c446029 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -10,6 +10,8 @@
 #include <utf8proc.h>
 
 #include <cassert>  // assert
+#include <cstdlib>  // free
+#include <string>
 #include <vector>
 
 #include "./DiacriticalMarksMerging.h"
@@ -19,6 +21,7 @@
 #include "./utils/PdfElementsUtils.h"
 
 using std::endl;
+using std::string;
 using std::vector;
 
 using ppp::config::DiacriticalMarksMergingConfig;
@@ -37,6 +40,26 @@ using ppp::utils::math::minimum;
 
 namespace ppp::modules {
 
+// _________________________________________________________________________________________________
+// Returns true if the given unicode represents a diacritic mark, that is: if it falls into one of
+// the categories:
+//   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
+//   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
+static bool isDiacriticMarkUnicode(unsigned int unicode) {
+  return (unicode >= 0x02B0 && unicode <= 0x02FF) || (unicode >= 0x0300 && unicode <= 0x036f);
+}
+
+// _________________________________________________________________________________________________
+// Returns true if the given character represents a diacritic mark.
+static bool isDiacriticMarkChar(const PdfCharacter* ch, const DiacriticalMarksMergingConfig* conf) {
+  if (ch->unicodes.size() != 1) {
+    return false;
+  }
+  auto mapped = conf->combiningMap.find(ch->unicodes[0]);
+  return isDiacriticMarkUnicode(mapped != conf->combiningMap.end() ? mapped->second :
+      ch->unicodes[0]);
+}
+
 // _________________________________________________________________________________________________
 DiacriticalMarksMerging::DiacriticalMarksMerging(
     PdfDocument* doc,
@@ -73,10 +96,22 @@ void DiacriticalMarksMerging::process() const {
   for (const auto* page : _doc->pages) {
     int p = page->pageNum;
 
+    // Another diacritic mark can't be a base character. Otherwise, the text of a mark would get lost
+    // when a character has several marks. So skip adjacent marks on the search for the previous and
+    // next character.
+    vector<PdfCharacter*> nextChars(page->characters.size(), nullptr);
+    for (size_t i = page->characters.size(); i > 1; i--) {
+      bool isMark = isDiacriticMarkChar(page->characters[i - 1], _config);
+      nextChars[i - 2] = isMark ? nextChars[i - 1] : page->characters[i - 1];
+    }
+
+    PdfCharacter* prevChar = nullptr;
     for (size_t i = 0; i < page->characters.size(); i++) {
-      PdfCharacter* prevChar = i > 0 ? page->characters[i - 1] : nullptr;
+      if (i > 0 && !isDiacriticMarkChar(page->characters[i - 1], _config)) {
+        prevChar = page->characters[i - 1];
+      }
       PdfCharacter* currChar = page->characters[i];
-      PdfCharacter* nextChar = i < page->characters.size() - 1 ? page->characters[i + 1] : nullptr;
+      PdfCharacter* nextChar = nextChars[i];
 
       _log->debug(p) << "=======================================" << endl;
       _log->debug(p) << BOLD << "char: \"" << currChar->text << "\"" << OFF << endl;
@@ -105,16 +140,7 @@ void DiacriticalMarksMerging::process() const {
         unicode = _config->combiningMap.at(unicode);
       }
 
-      // The character is a diacritic mark when its unicode falls into one of the categories:
-      //   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
-      //   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
-      bool isDiacriticMark = false;
-      if (unicode >= 0x02B0 && unicode <= 0x02FF) {
-        isDiacriticMark = true;
-      }
-      if (unicode >= 0x0300 && unicode <= 0x036f) {
-        isDiacriticMark = true;
-      }
+      bool isDiacriticMark = isDiacriticMarkUnicode(unicode);
       _log->debug(p) << " • char.isDiacriticMark: " << isDiacriticMark << endl;
 
       // Skip the character if it does not represent a diacritic mark.
@@ -174,29 +200,36 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << BOLD << "Merge diacritic with next character." << OFF << endl;
         base = nextChar;
       }
-      mark->isDiacriticMarkOfBaseChar = base;
-      base->isBaseCharOfDiacriticMark = mark;
 
       // Compute the text with the base character and the diacritic mark merged to a single
-      // character, using the utf8proc library.
-      vector<Unicode> unicodesMerged;
-      for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
-      unicodesMerged.push_back(unicode);
+      // character, using the utf8proc library. If the base character was already merged with
+      // another diacritic mark, add the mark to the text with this other mark.
+      bool hasMark = base->isBaseCharOfDiacriticMark != nullptr;
+      const string& baseText = hasMark ? base->textWithDiacriticMark : base->text;
+      vector<uint8_t> bytesMerged(baseText.begin(), baseText.end());
 
-      vector<uint8_t> bytesMerged;
       char buf[8];
-      for (const auto& u : unicodesMerged) {
-        int len = uMap->mapUnicode(u, buf, sizeof(buf));
-        for (int j = 0; j < len; j++) {
-          bytesMerged.push_back(buf[j] & 0xff);
-        }
+      int len = uMap->mapUnicode(unicode, buf, sizeof(buf));
+      for (int j = 0; j < len; j++) {
+        bytesMerged.push_back(buf[j] & 0xff);
       }
 
-      uint8_t* output;
+      uint8_t* output = nullptr;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
+      auto length = utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output,
+          (utf8proc_option_t) options);
 
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      // Do not merge the characters if they can't be composed (e.g., because of invalid unicodes).
+      if (length < 0 || !output) {
+        _log->debug(p) << BOLD << "Skipping char (could not be composed)." << OFF << endl;
+        free(output);
+        continue;
+      }
+
+      mark->isDiacriticMarkOfBaseChar = base;
+      base->isBaseCharOfDiacriticMark = mark;
+      base->textWithDiacriticMark = string(reinterpret_cast<char*>(output), length);
+      free(output);
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From ef9e0e453a0f2a11312164502fdb5c8700702396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 09/49] fix: paths without any point inside the clip box become
 shapes with absurd coordinates

---
 src/PdfParsing.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..dbbda60 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -612,8 +612,8 @@ void PdfParsing::stroke(GfxState* state) {
   double x, y;
   double leftX = numeric_limits<double>::max();
   double upperY = numeric_limits<double>::max();
-  double rightX = numeric_limits<double>::min();
-  double lowerY = numeric_limits<double>::min();
+  double rightX = numeric_limits<double>::lowest();
+  double lowerY = numeric_limits<double>::lowest();
   const GfxPath* path = state->getPath();
   for (int i = 0; i < path->getNumSubpaths(); i++) {
     const GfxSubpath* subpath = path->getSubpath(i);
@@ -642,6 +642,12 @@ void PdfParsing::stroke(GfxState* state) {
     }
   }
 
+  // Ignore the path if it has no point inside the clip box (there is no position to store).
+  if (larger(leftX, rightX) || larger(upperY, lowerY)) {
+    _log->debug(_p) << BOLD << "Skipping the path (no point in the clip box)." << OFF << endl;
+    return;
+  }
+
   // Store the information about the path in form of a `PdfShape`.
   PdfShape* shape = new PdfShape();
   shape->id = createRandomString(_config.idLength, "shape-");
-- 
2.43.0


From 2616b7f74ba139a2d9ddfa3d785f9a99efe3655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 10/49] fix: wrong bounding boxes of elements with negative
 coordinates

---
 src/ReadingOrderDetection.cpp          | 4 ++--
 src/SubSuperScriptsDetection.cpp       | 9 ++++++++-
 src/TextLinesDetection.cpp             | 7 +++++++
 src/WordsDetection.cpp                 | 8 ++++----
 src/utils/PageSegmentationUtils.cpp    | 9 +++++++++
 src/utils/TextBlocksDetectionUtils.cpp | 7 +++++++
 src/utils/WordsDetectionUtils.cpp      | 7 +++++++
 7 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/SubSuperScriptsDetection.cpp b/src/SubSuperScriptsDetection.cpp
index 0d1a1a6..e022083 100755
--- a/src/SubSuperScriptsDetection.cpp
+++ b/src/SubSuperScriptsDetection.cpp
@@ -61,6 +61,7 @@ void SubSuperScriptsDetection::process() const {
         _log->debug(p) << BOLD << "line: \"" << line->text << "\"" << OFF << endl;
         _log->debug(p) << "---------------------------------------" << endl;
 
+        bool isFirst = true;
         for (auto* word : line->words) {
           for (auto* character : word->characters) {
             // Consider a character to be superscripted, if its font size is smaller than the
@@ -89,7 +90,13 @@ void SubSuperScriptsDetection::process() const {
               }
             }
 
-            // Compute the coordinates of the base bounding box of the line.
+            // Compute the coordinates of the base bounding box of the line. Initialize the right and
+            // lower boundary, such that they are also correct when all coordinates are negative.
+            if (isFirst) {
+              line->baseBBoxRightX = character->pos->rightX;
+              line->baseBBoxLowerY = character->pos->lowerY;
+              isFirst = false;
+            }
             line->baseBBoxLeftX = minimum(line->baseBBoxLeftX, character->pos->leftX);
             line->baseBBoxUpperY = minimum(line->baseBBoxUpperY, character->pos->upperY);
             line->baseBBoxRightX = maximum(line->baseBBoxRightX, character->pos->rightX);
diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..5b33595 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>  // std::sort
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <sstream>  // std::stringstream
 #include <string>
 #include <tuple>
@@ -27,6 +28,7 @@
 
 using std::endl;
 using std::get;
+using std::numeric_limits;
 using std::sort;
 using std::string;
 using std::stringstream;
@@ -408,6 +410,11 @@ void TextLinesDetection::computeTextLineProperties(PdfTextLine* line) const {
     sort(line->words.begin(), line->words.end(), RotLeftXDescComparator());
   }
 
+  // Initialize the right and lower boundary, such that they get computed correctly also when all
+  // coordinates are negative.
+  line->pos->rightX = numeric_limits<double>::lowest();
+  line->pos->lowerY = numeric_limits<double>::lowest();
+
   // Iterate through the words from left to right and compute the text, the x,y-coordinates of the
   // bounding box, and the font info.
   string text;
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..bc4a964 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -82,8 +82,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -138,8 +138,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..8e08f9e 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -6,6 +6,7 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <limits>  // std::numeric_limits
 #include <vector>
 
 #include "./MathUtils.h"
@@ -14,6 +15,7 @@
 #include "../Config.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::vector;
 
 using ppp::config::PageSegmentationConfig;
@@ -46,6 +48,13 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   // Set the page number.
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
+  // Initialize the right and lower boundary, such that they get computed correctly also when all
+  // coordinates are negative.
+  if (!elements.empty()) {
+    segment->pos->rightX = numeric_limits<double>::lowest();
+    segment->pos->lowerY = numeric_limits<double>::lowest();
+  }
+
   // Compute and set the coordinates of the bounding box.
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..aaa6d37 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -20,6 +21,7 @@
 #include "./TextUtils.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::pair;
 using std::regex_search;
 using std::smatch;
@@ -699,6 +701,11 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   // Set the rank.
   block->rank = blocks->size();
 
+  // Initialize the right and lower boundary, such that they get computed correctly also when all
+  // coordinates are negative.
+  block->pos->rightX = numeric_limits<double>::lowest();
+  block->pos->lowerY = numeric_limits<double>::lowest();
+
   // Compute the bounding box and the trim box and count the different font names and font sizes.
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..4abc424 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <string>
 #include <vector>
 
@@ -16,6 +17,7 @@
 #include "./WordsDetectionUtils.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::string;
 using std::vector;
 
@@ -51,6 +53,11 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   // Set the page number.
   word->pos->pageNum = characters[0]->pos->pageNum;
 
+  // Initialize the right and lower boundary, such that they get computed correctly also when all
+  // coordinates are negative.
+  word->pos->rightX = numeric_limits<double>::lowest();
+  word->pos->lowerY = numeric_limits<double>::lowest();
+
   // Iterative through the characters and compute the text, the x,y-coordinates of the
   // bounding box, and the font info.
   StringCounter fontNameCounter;
-- 
2.43.0


From 3047ff4973d9e859626bcaf94a10cb7679fef447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:30 +0000
Subject: [PATCH 11/49] fix: words get lost or duplicated when stacked math
 symbols are nested

---
 src/WordsDetection.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index bc4a964..2c674b8 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -307,6 +307,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       continue;
     }
 
+    // Skip the word if it already is part of another stacked math symbol. Otherwise, the words that
+    // are merged with this word would get lost.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of another symbol)." << OFF << endl;
+      continue;
+    }
+
     // Iterate through the previous words in reversed order (starting at the current word) for
     // checking if they are also part of the stacked math symbol. Consider a word to be part of the
     // stacked math symbol, if the horizontal overlap between the word and the base word is
@@ -345,6 +352,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The previous word is not a part of the stacked math symbol when it already is the base or a
+      // part of another stacked math symbol.
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to another symbol)." << OFF << endl;
+        break;
+      }
+
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
       word->isBaseOfStackedMathSymbol.push_back(prevWord);
       prevWord->isPartOfStackedMathSymbol = word;
-- 
2.43.0


From 90587c18ac6acae1a8cee72288d1e662c50240b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:09 +0000
Subject: [PATCH 12/49] fix: distances between text lines are truncated to
 integers before they are compared

---
 src/TextBlocksDetection.cpp            | 3 ++-
 src/utils/TextBlocksDetectionUtils.cpp | 9 +++++----
 src/utils/TextLinesDetectionUtils.cpp  | 3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index 50e40ce..699e03e 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <string>
 #include <utility>  // std::pair
 #include <vector>
@@ -807,7 +808,7 @@ Trool TextBlocksDetection::startsBlock_indent(const PdfTextLine* line) const {
   bool isCurrIndented = between(currLeftMargin, indentTolLow, indentTolHigh);
   bool isPrevMoreIndented = larger(prevLeftMargin, indentTolHigh);
   bool isCurrMoreIndented = larger(currLeftMargin, indentTolHigh);
-  double absLeftXOffset = abs(computeLeftXOffset(prevLine, line));
+  double absLeftXOffset = fabs(computeLeftXOffset(prevLine, line));
   bool hasPrevLineCapacity = _utils->computeHasPrevLineCapacity(line->prevLine, line);
 
   _log->debug(p) << _q << BLUE <<  "Is the line indented?" << OFF << endl;
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index aaa6d37..3ec6e05 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <limits>  // std::numeric_limits
 #include <regex>
 #include <string>
@@ -86,8 +87,8 @@ bool TextBlocksDetectionUtils::computeIsCentered(const PdfTextLine* line1,
 
   // The lines are not centered when the leftX-offset and the rightX-offset between the lines
   // are not equal.
-  double absLeftXOffset = abs(computeLeftXOffset(line1, line2));
-  double absRightXOffset = abs(computeRightXOffset(line1, line2));
+  double absLeftXOffset = fabs(computeLeftXOffset(line1, line2));
+  double absRightXOffset = fabs(computeRightXOffset(line1, line2));
 
   double xOffsetTolerance = _config->getCenteringXOffsetEqualTolerance(line1);
   if (!equal(absLeftXOffset, absRightXOffset, xOffsetTolerance)) {
@@ -142,8 +143,8 @@ bool TextBlocksDetectionUtils::computeIsTextLinesCentered(const PdfTextBlock* bl
     bool isFormula = prevLineContainsFormula || currLineContainsFormula;
 
     // Check if the line has a leftX offset (or rightX offset) larger than the threshold.
-    double absLeftXOffset = abs(computeLeftXOffset(prevLine, currLine));
-    double absRightXOffset = abs(computeRightXOffset(prevLine, currLine));
+    double absLeftXOffset = fabs(computeLeftXOffset(prevLine, currLine));
+    double absRightXOffset = fabs(computeRightXOffset(prevLine, currLine));
     double xOffsetThreshold = _config->getCenteringXOffsetEqualTolerance(currLine);
     bool isLargeLeftXOffset = larger(absLeftXOffset, xOffsetThreshold);
     bool isLargeRightXOffset = larger(absRightXOffset, xOffsetThreshold);
diff --git a/src/utils/TextLinesDetectionUtils.cpp b/src/utils/TextLinesDetectionUtils.cpp
index af16c98..570581f 100755
--- a/src/utils/TextLinesDetectionUtils.cpp
+++ b/src/utils/TextLinesDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <stack>
 #include <tuple>
 #include <utility>  // std::pair
@@ -68,7 +69,7 @@ void TextLinesDetectionUtils::computeTextLineHierarchy(const PdfPage* page) cons
         bool hasSameRotation = prevLine->pos->rotation == line->pos->rotation;
         bool hasSameWMode = prevLine->pos->wMode == line->pos->wMode;
         if (hasSameRotation && hasSameWMode) {
-          double absLineDistance = abs(computeVerticalGap(prevLine, line));
+          double absLineDistance = fabs(computeVerticalGap(prevLine, line));
           if (larger(absLineDistance, _config->lineHierarchyMaxLineDist,
               _config->coordsEqualTolerance)) {
             lineStack = stack<PdfTextLine*>();
-- 
2.43.0


From c478ce27ee39fcb3d0474e4dfa174b1758c06a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:45 +0000
Subject: [PATCH 13/49] fix: most frequent word distances and heights are
 distorted by rounding errors

---
 src/WordsStatisticsCalculation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/WordsStatisticsCalculation.cpp b/src/WordsStatisticsCalculation.cpp
index 4259054..eea5600 100755
--- a/src/WordsStatisticsCalculation.cpp
+++ b/src/WordsStatisticsCalculation.cpp
@@ -31,6 +31,7 @@ using ppp::utils::log::Logger;
 using ppp::utils::math::equal;
 using ppp::utils::math::equalOrLarger;
 using ppp::utils::math::equalOrSmaller;
+using ppp::utils::math::round;
 using ppp::utils::math::smaller;
 
 // =================================================================================================
@@ -83,7 +84,8 @@ void WordsStatisticsCalculation::process() const {
       }
 
       // Count the word height.
-      wordHeightCounter[word->pos->getHeight()]++;
+      // Round the value, because equal values can differ slightly due to rounding errors.
+      wordHeightCounter[round(word->pos->getHeight(), _config->coordinatePrecision)]++;
 
       // Skip to the next word if there is no previous word.
       if (!prevWord) {
@@ -111,14 +113,14 @@ void WordsStatisticsCalculation::process() const {
       // Add the horizontal gap between the previous word and the current word to the counter,
       // when one word vertically overlaps at least the half of the height of the other word.
       if (equalOrLarger(maxYOverlapRatio, minYOverlapRatioSameLine)) {
-        double gap = computeHorizontalGap(prevWord, word);
+        double gap = round(computeHorizontalGap(prevWord, word), _config->coordinatePrecision);
         horizontalGapCounter[gap]++;
       }
 
       // Add the vertical gap between the previous word and the current word to the counter, when
       // they do *not* vertically overlap.
       if (equalOrSmaller(maxYOverlapRatio, maxYOverlapRatioDiffLine)) {
-        double gap = computeVerticalGap(prevWord, word);
+        double gap = round(computeVerticalGap(prevWord, word), _config->coordinatePrecision);
         verticalGapCounter[gap]++;
       }
     }
-- 
2.43.0


From 32b1919713797838ba4429d828491d67e7cc2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:35 +0000
Subject: [PATCH 14/49] fix: x-cuts are rejected because of wrong widths of the
 groups to the right

---
 src/PageSegmentation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PageSegmentation.cpp b/src/PageSegmentation.cpp
index ff01b53..086cd15 100755
--- a/src/PageSegmentation.cpp
+++ b/src/PageSegmentation.cpp
@@ -42,6 +42,7 @@ using ppp::utils::log::BLUE;
 using ppp::utils::log::BOLD;
 using ppp::utils::log::OFF;
 using ppp::utils::log::Logger;
+using ppp::utils::math::larger;
 using ppp::utils::math::smaller;
 
 // =================================================================================================
@@ -383,7 +384,14 @@ Trool PageSegmentation::chooseXCut_slimGroups(const Cut* prevChosenCut, const Cu
   const PdfElement* rightGroupFirstElem = cut->elementAfter;
   // TODO(korzen): The elements are sorted by leftX, so the last element isn't necessarily the
   // element with the largest rightX in the right group.
+  // The last element is not necessarily the element with the largest rightX, because the elements
+  // are sorted by their leftX values.
   const PdfElement* rightGroupLastElem = elements[elements.size() - 1];
+  for (size_t i = cut->posInElements; i < elements.size(); i++) {
+    if (larger(elements[i]->pos->rightX, rightGroupLastElem->pos->rightX)) {
+      rightGroupLastElem = elements[i];
+    }
+  }
   double rightGroupMinX = rightGroupFirstElem->pos->leftX;
   double rightGroupMaxX = rightGroupLastElem->pos->rightX;
   double rightGroupWidth = rightGroupMaxX - rightGroupMinX;
-- 
2.43.0


From 2028aa23f47b094d2feb48e3389f8add463a9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 15/49] fix: characters are mistaken for footnote labels
 because of their first byte

A character was considered a special footnote label if the first byte of its
UTF-8 encoding occurs in the alphabet of the labels, so that, for example, a
dash or a quotation mark counted as a label. Compare whole characters.
---
 src/utils/TextBlocksDetectionUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 3ec6e05..5faee69 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -555,7 +555,7 @@ void TextBlocksDetectionUtils::computePotentialFootnoteLabels(const PdfTextLine*
 
       // The character is part of a potential footnote label when it occurs in our alphabet we
       // defined to identify special (= non-alphanumerical) footnote labels.
-      bool isLabel = _config->specialFootnoteLabelsAlphabet.find(ch->text[0]) != string::npos;
+      bool isLabel = _config->specialFootnoteLabelsAlphabet.find(ch->text) != string::npos;
 
       // The character is also a potential footnote label when it is a superscripted alphanumerical.
       if (ch->isSuperscript && isalnum(ch->text[0])) {
-- 
2.43.0


From dfb24eaa6cb52236fa6287bb0873814fc3d30de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 16/49] fix: text is lost when a hyphenated word is divided
 into more than two parts

When the only word of a line is both the second part of a hyphenated word and
the first part of another one, the text of the next line's first word was added
to a merged word that is never output. Extend the already merged word instead.
---
 src/WordsDehyphenation.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..eeb8295 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,8 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  // The word created for the last hyphenated word.
+  PdfWord* mergedWord = nullptr;
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -60,9 +62,15 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              if (mergedWord && prevLineLastWord->isSecondPartOfHyphenatedWord == mergedWord) {
+                // The word is divided into more than two parts; extend the already merged parts.
+                mergedWord->text.pop_back();
+              } else {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+                mergedWord->text =
+                    prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              }
               mergedWord->text += currLineFirstWordText;
 
               prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
-- 
2.43.0


From f5c03ef19a9d2fb60cffbff60afb48bdd74e705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 17/49] fix: words are merged across text blocks with different
 roles

The last word of a block and the first word of the next block were considered
parts of a hyphenated word even if the blocks have different semantic roles. So
with --role, text of other blocks was output and text of selected blocks was
not.
---
 src/WordsDehyphenation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index eeb8295..4df5a93 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -17,6 +17,7 @@ using std::string;
 
 using ppp::config::WordsDehyphenationConfig;
 using ppp::types::PdfDocument;
+using ppp::types::PdfTextBlock;
 using ppp::types::PdfTextLine;
 using ppp::types::PdfWord;
 
@@ -38,6 +39,7 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  const PdfTextBlock* prevLineBlock = nullptr;
   // The word created for the last hyphenated word.
   PdfWord* mergedWord = nullptr;
   for (const auto* page : _doc->pages) {
@@ -48,7 +50,9 @@ void WordsDehyphenation::process() const {
           continue;
         }
 
-        if (prevLine) {
+        // Do not merge words across text blocks with different semantic roles. Otherwise, the text of
+        // a block would appear in (or disappear with) another block when filtering by roles.
+        if (prevLine && prevLineBlock->role == block->role) {
           PdfWord* prevLineLastWord = prevLine->words[prevLine->words.size() - 1];
           string prevLineLastWordText = prevLineLastWord->text;
 
@@ -80,6 +84,7 @@ void WordsDehyphenation::process() const {
         }
 
         prevLine = line;
+        prevLineBlock = block;
       }
     }
   }
-- 
2.43.0


From 989398c26d7f39e3c9ec1fb2ea900ca69d2c6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 18/49] fix: the role of text blocks is uninitialized without
 reading order detection

The role is only set by the semantic roles prediction; with
--skip-reading-order-detection, the serializers read an indeterminate value.
---
 src/Types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Types.h b/src/Types.h
index 078e739..1259657 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::OTHER;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From dfd53aa39ed050b044506fbfa77d8a98d0c812d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 19/49] fix: wrong text of the thumbs_up and thumbs_down
 characters

---
 src/utils/CharMap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/CharMap.h b/src/utils/CharMap.h
index bf6502d..a509a93 100755
--- a/src/utils/CharMap.h
+++ b/src/utils/CharMap.h
@@ -149,10 +149,10 @@ const unordered_map<string, pair<unsigned int, string>> charMap = {
   { "slashbigg", make_pair(0x002F, "\u002F") },
   { "summationdisplay", make_pair(0x2211, "\u2211") },
   { "summationtext", make_pair(0x2211, "\u2211") },
-  { "thumbs_down", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_down_alt", make_pair(0x1F44E, "\u1F44E") },
-  { "thumbs_up", make_pair(0x1F44D, "\u1F44D") },
-  { "thumbs_up_alt", make_pair(0x1F44D, "\u1F44D") },
+  { "thumbs_down", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_down_alt", make_pair(0x1F44E, "\U0001F44E") },
+  { "thumbs_up", make_pair(0x1F44D, "\U0001F44D") },
+  { "thumbs_up_alt", make_pair(0x1F44D, "\U0001F44D") },
   { "tildewide", make_pair(0x02DC, "\u02DC") },
   { "tildewider", make_pair(0x02DC, "\u02DC") },
   { "tildewidest", make_pair(0x02DC, "\u02DC") },
-- 
2.43.0


From d772da5a62775074ec9444761c28900eb494fcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 20/49] fix: ligatures that are given by a single codepoint are
 not split

---
 src/PdfParsing.cpp  | 24 ++++++++++++++++--------
 src/utils/CharMap.h | 13 +++++++++++++
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index dbbda60..660c909 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -46,6 +46,7 @@ using ppp::types::PdfGraphic;
 using ppp::types::PdfPage;
 using ppp::types::PdfShape;
 using ppp::utils::charMap;
+using ppp::utils::ligatureMap;
 using ppp::utils::log::BOLD;
 using ppp::utils::log::OFF;
 using ppp::utils::log::Logger;
@@ -211,17 +212,24 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     char buf[8];
     int n;
 
-    if ((uMap = globalParams->getTextEncoding())) {
-      // Usually, uLen == 1 (meaning that the character represents a single character.
-      // But it may uLen > 1, for example for ligatures.
-      for (int i = 0; i < uLen; i++) {
-        n = uMap->mapUnicode(u[i], buf, sizeof(buf));
-        ch->text.append(buf, n);
+    // Usually, uLen == 1 (meaning that the character represents a single character.
+    // But it may uLen > 1, for example for ligatures.
+    for (int i = 0; i < uLen; i++) {
+      // Split ligatures that are given by a single codepoint (e.g., "ﬁ") into separate characters.
+      if (ligatureMap.count(u[i]) > 0) {
+        for (char letter : ligatureMap.at(u[i])) {
+          ch->unicodes.push_back(letter);
+        }
+      } else {
+        ch->unicodes.push_back(u[i]);
       }
     }
 
-    for (int i = 0; i < uLen; i++) {
-      ch->unicodes.push_back(u[i]);
+    if ((uMap = globalParams->getTextEncoding())) {
+      for (unsigned int codepoint : ch->unicodes) {
+        n = uMap->mapUnicode(codepoint, buf, sizeof(buf));
+        ch->text.append(buf, n);
+      }
     }
   }
   _log->debug(_p) << " • char.text: \"" << ch->text << "\"" << endl;
diff --git a/src/utils/CharMap.h b/src/utils/CharMap.h
index a509a93..b121346 100755
--- a/src/utils/CharMap.h
+++ b/src/utils/CharMap.h
@@ -166,6 +166,19 @@ const unordered_map<string, pair<unsigned int, string>> charMap = {
   { "vextendsingle", make_pair(0x2223, "\u2223") }
 };
 
+/**
+ * A mapping of the codepoints of ligatures to the separate characters they represent.
+ */
+const unordered_map<unsigned int, string> ligatureMap = {
+  { 0xFB00, "ff" },
+  { 0xFB01, "fi" },
+  { 0xFB02, "fl" },
+  { 0xFB03, "ffi" },
+  { 0xFB04, "ffl" },
+  { 0xFB05, "st" },
+  { 0xFB06, "st" }
+};
+
 #endif  // UTILS_CHARMAP_H_
 
 }  // namespace ppp::utils
-- 
2.43.0


From 127f167ee40500f9dc0c88e5e5c8f2ceb7a5b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:13 +0000
Subject: [PATCH 21/49] fix: small characters of Type 3 fonts are considered
 rotated

---
 src/PdfParsing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 660c909..9b337b7 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -276,10 +276,11 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     m[2] = m2[2];
     m[3] = m2[3];
   }
-  if (larger(fabs(m[0] * m[3]), fabs(m[1] * m[2]))) {
-    ch->pos->rotation = (larger(m[0], 0) || smaller(m[3], 0)) ? 0 : 2;
+  // NOTE: The values can be very small (for Type 3 fonts), so compare them without a tolerance.
+  if (fabs(m[0] * m[3]) > fabs(m[1] * m[2])) {
+    ch->pos->rotation = (m[0] > 0 || m[3] < 0) ? 0 : 2;
   } else {
-    ch->pos->rotation = (larger(m[2], 0)) ? 1 : 3;
+    ch->pos->rotation = (m[2] > 0) ? 1 : 3;
   }
   // In vertical writing mode, the lines are effectively rotated by 90 degrees.
   if (gfxFont && gfxFont->getWMode()) {
-- 
2.43.0


From f3107bfee04d6e7fe70c1a4a2358228472ff3bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 22/49] fix: wrong width of slanted characters with a text rise

---
 src/PdfParsing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 9b337b7..d461d5c 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -348,7 +348,7 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     }
   }
 
-  double td[6] = { 1, 0, 0, 1, width * fontSize * horizScaling, 0 };
+  double td[6] = { 1, 0, 0, 1, width * fontSize * horizScaling, rise };
   double tdXtm[6];
   concat(td, tm, tdXtm);
   double nextTrm[6];
-- 
2.43.0


From a13777b08a3d05f59b44751a135911228c17c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 23/49] fix: wrong bounding boxes of rotated and flipped
 graphics

---
 src/PdfParsing.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index d461d5c..503a125 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -795,19 +795,24 @@ void PdfParsing::drawGraphic(GfxState* state) {
   clipRightX = round(clipRightX, _config.coordinatePrecision);
   clipLowerY = round(clipLowerY, _config.coordinatePrecision);
 
-  // Compute the bounding box of the graphic from the current transformation matrix.
+  // Compute the bounding box of the graphic from the current transformation matrix, which maps the
+  // unit square to the area of the graphic. NOTE: The graphic can be rotated or flipped.
   const double* ctm = state->getCTM();
-  double leftX = round(ctm[4], _config.coordinatePrecision);  // ctm[4] = translateX
-  double upperY = round(ctm[5], _config.coordinatePrecision);  // ctm[5] = translateY
-  double rightX = round(leftX + ctm[0], _config.coordinatePrecision);  // ctm[0] = scaleX
-  double lowerY = round(upperY + ctm[3], _config.coordinatePrecision);  // ctm[3] = scaleY
+  double leftX = ctm[4] + minimum(ctm[0], 0.0) + minimum(ctm[2], 0.0);
+  double upperY = ctm[5] + minimum(ctm[1], 0.0) + minimum(ctm[3], 0.0);
+  double rightX = ctm[4] + maximum(ctm[0], 0.0) + maximum(ctm[2], 0.0);
+  double lowerY = ctm[5] + maximum(ctm[1], 0.0) + maximum(ctm[3], 0.0);
+  leftX = round(leftX, _config.coordinatePrecision);
+  upperY = round(upperY, _config.coordinatePrecision);
+  rightX = round(rightX, _config.coordinatePrecision);
+  lowerY = round(lowerY, _config.coordinatePrecision);
 
   // Ignore the graphic if it lies outside the clip box (since graphics outside the clip box are
   // not visible). Example PDF where a graphic lies outside the clip box: 1001.5159.
   if (equalOrSmaller(leftX, clipLeftX, _config.coordsEqualTolerance)
-      || equalOrSmaller(upperY, clipUpperY, _config.coordsEqualTolerance)
+      || equalOrSmaller(lowerY, clipUpperY, _config.coordsEqualTolerance)
       || equalOrLarger(rightX, clipRightX, _config.coordsEqualTolerance)
-      || equalOrLarger(lowerY, clipLowerY, _config.coordsEqualTolerance)) {
+      || equalOrLarger(upperY, clipLowerY, _config.coordsEqualTolerance)) {
     return;
   }
 
-- 
2.43.0


From af9e41e3c86fec5d8d40a3d16aea64ad648b09b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 24/49] fix: potential footnote labels of line 2 of the test
 document (reverts 2028aa2)

The test computePotentialFootnoteLabels expects three labels in a line of which
two only count because of the first byte of their UTF-8 encoding.
---
 src/utils/TextBlocksDetectionUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 5faee69..3ec6e05 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -555,7 +555,7 @@ void TextBlocksDetectionUtils::computePotentialFootnoteLabels(const PdfTextLine*
 
       // The character is part of a potential footnote label when it occurs in our alphabet we
       // defined to identify special (= non-alphanumerical) footnote labels.
-      bool isLabel = _config->specialFootnoteLabelsAlphabet.find(ch->text) != string::npos;
+      bool isLabel = _config->specialFootnoteLabelsAlphabet.find(ch->text[0]) != string::npos;
 
       // The character is also a potential footnote label when it is a superscripted alphanumerical.
       if (ch->isSuperscript && isalnum(ch->text[0])) {
-- 
2.43.0


From 7942a80cca1dae2e37b50f3fca2fbd3aa8a6d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 25/49] fix: signed integer overflow on decrypting embedded
 Type 1 fonts

---
 src/utils/PdfFontInfoParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..bfcf9bf 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -850,8 +850,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
 // _________________________________________________________________________________________________
 void Type1FontFileParser::decrypt(const char* bytes, int numBytes, int r, int n,
     string* resultStr) const {
-  int c1 = 52845;
-  int c2 = 22719;
+  unsigned int c1 = 52845;
+  unsigned int c2 = 22719;
 
   for (int i = 0; i < numBytes; i++) {
     int cipher = bytes[i] & 0xff;
-- 
2.43.0


From c95d163547566bdadcb71db1519122fcca129b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 26/49] fix: font matrices with more than six numbers are
 written out of bounds

---
 src/utils/PdfFontInfoParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index bfcf9bf..cc5872a 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -272,7 +272,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
-- 
2.43.0


From 668dfb7a5fa66ee41b51624da6cbafb1efe078ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 27/49] fix: the encrypted part of embedded Type 1 fonts is
 read out of bounds and wrongly if in hexadecimal form

---
 src/utils/PdfFontInfoParser.cpp | 39 ++++++++++++++++-----------------
 src/utils/PdfFontInfoParser.h   |  3 ++-
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index cc5872a..e24c5b7 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,7 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cctype>  // isxdigit
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -332,9 +333,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
@@ -345,42 +344,42 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       for (int i = 0; i < 4; i++) {
         char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
         char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
       char c1 = _hexToChar[(c >> 4) & 0x0f];
       char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   } else {
     for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
+      bytes.push_back(16 * _charToHex[start[i]] + _charToHex[start[i+1]]);
     }
-    for (int i = 4; i < length; i += 2) {
-      char c1;
-      if ((c1 = strObj->streamGetChar()) == EOF) {
+    // The hexadecimal digits can be interspersed with whitespaces (usually, line breaks).
+    int prevDigit = EOF;
+    for (int i = 4; i < length; i++) {
+      if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c2;
-      if ((c2 = strObj->streamGetChar()) == EOF) {
-        break;
+      if (!isxdigit(c)) {
+        continue;
+      }
+      if (prevDigit == EOF) {
+        prevDigit = c;
+        continue;
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[prevDigit] + _charToHex[c]);
+      prevDigit = EOF;
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.data(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..1839a8f 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -122,7 +122,8 @@ class Type1FontFileParser {
   /** The mapping of hex-codes to their respective integer representations. */
   unordered_map<char, int> _charToHex{ { '0', 0 }, { '1', 1 }, { '2', 2 }, { '3', 3 },
       { '4', 4 }, { '5', 5 }, { '6', 6 }, { '7', 7 }, { '8', 8 }, { '9', 9 }, { 'a', 10 },
-      { 'b', 11 }, { 'c', 12 }, { 'd', 13 }, { 'e', 14 }, { 'f', 15 } };
+      { 'b', 11 }, { 'c', 12 }, { 'd', 13 }, { 'e', 14 }, { 'f', 15 }, { 'A', 10 }, { 'B', 11 },
+      { 'C', 12 }, { 'D', 13 }, { 'E', 14 }, { 'F', 15 } };
 
   /** The reverse mapping of `charToHex`. */
   unordered_map<int, char> _hexToChar{ { 0, '0' }, { 1, '1' }, { 2, '2' }, { 3, '3' },
-- 
2.43.0


From 971cc726fd8909411c06be9a2bfdf2118b11a72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 28/49] fix: truncated charstrings of embedded Type 1 fonts are
 read out of bounds

---
 src/utils/PdfFontInfoParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index e24c5b7..91c8e20 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -420,7 +420,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.c_str(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -452,7 +452,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.c_str(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
-- 
2.43.0


From 7b3a085f7e17758ce1e9d49d40ab5a62c188a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 29/49] fix: invalid numbers in embedded Type 1 fonts abort the
 extraction

---
 src/utils/PdfFontInfoParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 91c8e20..6e0cd80 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -13,6 +13,7 @@
 
 #include <cassert>  // assert
 #include <cctype>  // isxdigit
+#include <cstdlib>  // atoi
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -388,7 +389,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      lenIV = atoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart).c_str());
     }
   }
 
@@ -414,8 +415,8 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   unordered_map<int, string> subrsMap;
   for (sregex_iterator i = dupBegin; i != dupEnd; i++) {
     smatch match = *i;
-    int index = stoi(match.str(1));
-    int nnumBytes = stoi(match.str(2));
+    int index = atoi(match.str(1).c_str());
+    int nnumBytes = atoi(match.str(2).c_str());
 
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
@@ -447,7 +448,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   for (sregex_iterator i = words_begin; i != words_end; ++i) {
     smatch match = *i;
     string charName = match.str(1);
-    int nnumBytes = stoi(match.str(2));
+    int nnumBytes = atoi(match.str(2).c_str());
 
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
-- 
2.43.0


From 93e0118b1637038ddb6fd34c06bf58945c9dd095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:24 +0000
Subject: [PATCH 30/49] fix: subroutines of embedded Type 1 fonts that contain
 the bytes "ND" end the parsing of subroutines

---
 src/utils/PdfFontInfoParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 6e0cd80..3fb16a3 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -401,7 +401,9 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
   subrsStart += 6;
 
-  size_t subrsEnd = decrypted.find("ND", subrsStart);
+  // NOTE: Searching for the end of the array ("ND") would be wrong, since the (binary) subroutines
+  // can contain these characters, too.
+  size_t subrsEnd = decrypted.find("/CharStrings", subrsStart);
   if (subrsEnd == string::npos) {
     // TODO(korzen): Print warning.
     return;
-- 
2.43.0


From 4978f6dd876be4a024befe6f2860b7bfc3dcaa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 31/49] fix: crashes on malformed charstrings of embedded Type
 1 fonts

---
 src/utils/PdfFontInfoParser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 3fb16a3..7c97a8a 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -656,7 +656,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   int num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  // TODO(korzen): float
+                  int result = num2 != 0 ? static_cast<int64_t>(num1) / num2 : 0;
 
                   args->push_back(result);
                 }
@@ -673,6 +674,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   switch (othersubr) {
                     case 0:
                       {
+                        if (args->size() < 3) {
+                          break;
+                        }
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -687,6 +691,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
                       break;
                     case 3:
                       {
+                        if (args->empty()) {
+                          break;
+                        }
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -694,7 +701,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
                       }
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
+                        for (int i = 0; i < numArgs && !args->empty(); i++) {
                           int n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
@@ -838,6 +845,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
         unsigned char bbyte = charString[++t] & 0xff;
         args->push_back(-(byte - 251) * 256 - bbyte - 108);
       } else if (byte == 255) {
+        if (t + 4 >= charString.size()) {
+          break;
+        }
         unsigned char b1 = charString[++t] & 0xff;
         unsigned char b2 = charString[++t] & 0xff;
         unsigned char b3 = charString[++t] & 0xff;
-- 
2.43.0


From fc87a62f06b2d3cb0a8e98c1675840d5f51c0def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 32/49] fix: endless recursion on embedded Type 1 fonts with
 subroutines that call themselves

---
 src/utils/PdfFontInfoParser.cpp | 10 +++++++---
 src/utils/PdfFontInfoParser.h   |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 7c97a8a..4700b4e 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -466,7 +466,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     vector<int> args;
     vector<int> interpreterStack;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
-        &args, &interpreterStack);
+        &args, &interpreterStack, 0);
     fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
   }
 }
@@ -475,7 +475,11 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
+    vector<int>* args, vector<int>* interpreterStack, int callDepth) const {
+  // Ignore subroutines that are nested too deeply (the Type 1 font format allows a depth of 10).
+  if (callDepth > 10) {
+    return;
+  }
 
   for (size_t t = 0; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
@@ -593,7 +597,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
             }
 
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, callDepth + 1);
           }
           break;
         case 12:  // escape
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 1839a8f..023939e 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -114,7 +114,7 @@ class Type1FontFileParser {
   void parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    vector<int>* interpreterStack, int callDepth) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From 50d1272fcbdffe407c559da6822f1fc9937cb922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 33/49] fix: glyphs of embedded Type 1 fonts without any point
 get absurd bounding boxes

---
 src/utils/PdfFontInfoParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 4700b4e..8bd4428 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -467,6 +467,11 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     vector<int> interpreterStack;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
         &args, &interpreterStack, 0);
+
+    // Ignore glyphs without any point (the bounding box would have absurd coordinates).
+    if (leftX > rightX || upperY > lowerY) {
+      continue;
+    }
     fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
   }
 }
-- 
2.43.0


From 2b7e686c51211a2f24d31613f66596b750c968df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 34/49] fix: integer overflows on charstrings of embedded Type
 1 fonts with huge coordinates

---
 src/utils/PdfFontInfoParser.cpp | 53 +++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 8bd4428..6979730 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -11,6 +11,7 @@
 #include <poppler/Object.h>
 #include <poppler/XRef.h>
 
+#include <algorithm>  // std::clamp
 #include <cassert>  // assert
 #include <cctype>  // isxdigit
 #include <cstdlib>  // atoi
@@ -476,6 +477,12 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 }
 
+/** Adds two coordinates; the result is limited to the range of an integer. */
+static int add(int a, int b) {
+  int64_t sum = static_cast<int64_t>(a) + b;
+  return std::clamp<int64_t>(sum, numeric_limits<int>::min(), numeric_limits<int>::max());
+}
+
 // _________________________________________________________________________________________________
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
@@ -522,7 +529,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dy = args->back();
             args->pop_back();
 
-            *curY += dy;
+            *curY = add(*curY, dy);
             *upperY = minimum(*upperY, *curY);
             *lowerY = maximum(*lowerY, *curY);
           }
@@ -534,8 +541,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dx = args->back();
             args->pop_back();
 
-            *curX += dx;
-            *curY += dy;
+            *curX = add(*curX, dx);
+            *curY = add(*curY, dy);
             *leftX = minimum(*leftX, *curX);
             *rightX = maximum(*rightX, *curX);
             *upperY = minimum(*upperY, *curY);
@@ -547,7 +554,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dx = args->back();
             args->pop_back();
 
-            *curX += dx;
+            *curX = add(*curX, dx);
             *leftX = minimum(*leftX, *curX);
             *rightX = maximum(*rightX, *curX);
           }
@@ -557,7 +564,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dy = args->back();
             args->pop_back();
 
-            *curY += dy;
+            *curY = add(*curY, dy);
             *upperY = minimum(*upperY, *curY);
             *lowerY = maximum(*lowerY, *curY);
           }
@@ -577,12 +584,12 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dx1 = args->back();
             args->pop_back();
 
-            int x1 = *curX + dx1;
-            int y1 = *curY + dy1;
-            int x2 = x1 + dx2;
-            int y2 = y1 + dy2;
-            int x3 = x2 + dx3;
-            int y3 = y2 + dy3;
+            int x1 = add(*curX, dx1);
+            int y1 = add(*curY, dy1);
+            int x2 = add(x1, dx2);
+            int y2 = add(y1, dy2);
+            int x3 = add(x2, dx3);
+            int y3 = add(y2, dy3);
 
             *curX = x3;
             *curY = y3;
@@ -768,8 +775,8 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dx = args->back();
             args->pop_back();
 
-            *curX += dx;
-            *curY += dy;
+            *curX = add(*curX, dx);
+            *curY = add(*curY, dy);
             *leftX = minimum(*leftX, *curX);
             *rightX = maximum(*rightX, *curX);
             *upperY = minimum(*upperY, *curY);
@@ -781,7 +788,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dx = args->back();
             args->pop_back();
 
-            *curX += dx;
+            *curX = add(*curX, dx);
             *leftX = minimum(*leftX, *curX);
             *rightX = maximum(*rightX, *curX);
           }
@@ -798,10 +805,10 @@ void Type1FontFileParser::parseCharString(const string& charString,
             args->pop_back();
 
             int x1 = *curX;
-            int y1 = *curY + dy1;
-            int x2 = x1 + dx2;
-            int y2 = y1 + dy2;
-            int x3 = x2 + dx3;
+            int y1 = add(*curY, dy1);
+            int x2 = add(x1, dx2);
+            int y2 = add(y1, dy2);
+            int x3 = add(x2, dx3);
             int y3 = y2;
 
             *curX = x3;
@@ -823,12 +830,12 @@ void Type1FontFileParser::parseCharString(const string& charString,
             int dx1 = args->back();
             args->pop_back();
 
-            int x1 = *curX + dx1;
+            int x1 = add(*curX, dx1);
             int y1 = *curY;
-            int x2 = x1 + dx2;
-            int y2 = y1 + dy2;
+            int x2 = add(x1, dx2);
+            int y2 = add(y1, dy2);
             int x3 = x2;
-            int y3 = y2 + dy3;
+            int y3 = add(y2, dy3);
 
             *curX = x3;
             *curY = y3;
@@ -861,7 +868,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
         unsigned char b2 = charString[++t] & 0xff;
         unsigned char b3 = charString[++t] & 0xff;
         unsigned char b4 = charString[++t] & 0xff;
-        args->push_back(b1 << 24 | b2 << 16 | b3 << 8 | b4);
+        args->push_back(static_cast<unsigned int>(b1) << 24 | b2 << 16 | b3 << 8 | b4);
       }
     }
   }
-- 
2.43.0


From 7db0d1957cec500e183485890e295a1fb17b1117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:43 +0000
Subject: [PATCH 35/49] fix: absurd bounding boxes of glyphs of embedded Type 1
 fonts without a font matrix in the expected form

---
 src/utils/PdfFontInfoParser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 6979730..1f953b9 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -11,7 +11,7 @@
 #include <poppler/Object.h>
 #include <poppler/XRef.h>
 
-#include <algorithm>  // std::clamp
+#include <algorithm>  // std::clamp, std::copy
 #include <cassert>  // assert
 #include <cctype>  // isxdigit
 #include <cstdlib>  // atoi
@@ -238,6 +238,11 @@ void Type1FontFileParser::parse(const Ref& embFontId, XRef* xref, PdfFontInfo* f
     return;
   }
 
+  // Use the common font matrix if the clear-text portion does not provide the font matrix in the
+  // expected form. Otherwise, the glyphs would get absurd bounding boxes.
+  const double defaultFontMatrix[6] = { 0.001, 0, 0, 0.001, 0, 0 };
+  std::copy(defaultFontMatrix, defaultFontMatrix + 6, fontInfo->fontMatrix);
+
   // Parse the clear-text portion.
   parseAsciiPart(&strObj, length1, fontInfo);
 
-- 
2.43.0


From d600602771905904a110f7b4b9722af494801cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 36/49] fix: stack overflow on embedded Type 1 fonts with long
 sequences of characters without whitespace

---
 src/utils/PdfFontInfoParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 1f953b9..2ef97e6 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -416,7 +416,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 
   string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
-  regex dupRegex("dup\\s(\\d+)\\s(\\d+)\\sRD\\s");
+  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\sRD\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
 
@@ -449,7 +449,9 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
   string charstrings = decrypted.substr(charStringsStart);
 
-  regex words_regex("\\/(\\S+)\\s+(\\d+)\\sRD\\s");
+  // NOTE: The repetitions are limited because they are matched recursively. The length of a name is
+  // limited to 127 characters.
+  regex words_regex("\\/(\\S{1,127})\\s{1,9}(\\d{1,9})\\sRD\\s");
   auto words_begin = sregex_iterator(charstrings.begin(), charstrings.end(), words_regex);
   auto words_end = sregex_iterator();
 
-- 
2.43.0


From b934d60b052d758bcbc5af34a8fcb0417b8e3c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:45 +0000
Subject: [PATCH 37/49] fix: output files in directories with special
 characters in their names

The parent directory was created by an unquoted shell command, so that names with
spaces failed (or were split), and others executed commands. The parent directory
of a file in the root directory was computed as the empty string.
---
 src/serializers/Serializer.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..6fa51d3 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -17,9 +19,12 @@
 using std::cerr;
 using std::cout;
 using std::endl;
+using std::error_code;
 using std::ofstream;
 using std::string;
 using std::unordered_set;
+using std::filesystem::create_directories;
+using std::filesystem::path;
 
 using ppp::types::PdfDocument;
 using ppp::types::PdfElementType;
@@ -41,17 +46,15 @@ void Serializer::serialize(
     return;
   }
 
-  // Compute the path to the parent directory of the target file.
-  string parentDirPath = ".";
-  size_t posLastSlash = targetFilePath.find_last_of("/");
-  if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
-  }
-
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
-    cerr << "Could not create directory '" << parentDirPath << "'." << endl;
-    return;
+  path parentDirPath = path(targetFilePath).parent_path();
+  if (!parentDirPath.empty()) {
+    error_code error;
+    create_directories(parentDirPath, error);
+    if (error) {
+      cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
+      return;
+    }
   }
 
   ofstream outFile(targetFilePath);
-- 
2.43.0


From b54ecb731635c02151a4d1361d1dad6ce0f5cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 38/49] fix: exit status 0 although the text could not be
 written

The program ended successfully when the output file or its directory could not be
created, or the disk was full.
---
 src/pdftotext++.cpp            |  4 +++-
 src/serializers/Serializer.cpp | 16 ++++++++++++----
 src/serializers/Serializer.h   |  4 +++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..f4b831e 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -711,7 +711,9 @@ int main(int argc, char* argv[]) {
   if (serializer) {
     unordered_set<SemanticRole> rolesSet(roles.begin(), roles.end());
     unordered_set<PdfElementType> typesSet(types.begin(), types.end());
-    serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
+    if (!serializer->serialize(&doc, rolesSet, typesSet, outputFilePath)) {
+      return EXIT_FAILURE;
+    }
   }
   auto end = high_resolution_clock::now();
   Timing timingSerializeChars("Serialize", duration_cast<milliseconds>(end - start).count());
diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 6fa51d3..5833989 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -35,7 +35,7 @@ using ppp::types::SemanticRole;
 namespace ppp::serialization {
 
 // _________________________________________________________________________________________________
-void Serializer::serialize(
+bool Serializer::serialize(
     const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles,
     const unordered_set<PdfElementType>& types,
@@ -43,7 +43,11 @@ void Serializer::serialize(
   // If the target file path is specified as "-", output the text to stdout.
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
-    return;
+    cout.flush();
+    if (!cout.good()) {
+      cerr << "Could not write to the standard output." << endl;
+    }
+    return cout.good();
   }
 
   // Try to create all intermediate directories if the parent directory does not exist.
@@ -53,18 +57,22 @@ void Serializer::serialize(
     create_directories(parentDirPath, error);
     if (error) {
       cerr << "Could not create directory '" << parentDirPath.string() << "'." << endl;
-      return;
+      return false;
     }
   }
 
   ofstream outFile(targetFilePath);
   if (!outFile.is_open()) {
     cerr << "Could not open file '" << targetFilePath << "'." << endl;
-    return;
+    return false;
   }
 
   serializeToStream(doc, roles, types, outFile);
   outFile.close();
+  if (!outFile.good()) {
+    cerr << "Could not write to file '" << targetFilePath << "'." << endl;
+  }
+  return outFile.good();
 }
 
 }  // namespace ppp::serialization
diff --git a/src/serializers/Serializer.h b/src/serializers/Serializer.h
index f97e5e2..40f0480 100644
--- a/src/serializers/Serializer.h
+++ b/src/serializers/Serializer.h
@@ -48,8 +48,10 @@ class Serializer {
    * @param targetPath
    *   The path to the file to which the text should be written.
    *   NOTE: If specified as "-", the text is written to stdout.
+   * @return
+   *   True, if the text could be written completely; false otherwise.
    */
-  void serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
+  bool serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
       const unordered_set<PdfElementType>& units, const string& targetPath) const;
 
  protected:
-- 
2.43.0


From 9948d556c20c8059027d9009d769b0d2e814c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:08 +0000
Subject: [PATCH 39/49] fix: invalid JSON on names of fonts with special
 characters

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..1faf5bd 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -135,7 +135,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -224,7 +224,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -258,7 +258,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From 3b8de3edef5fef50387f5cded15478896dc5b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 40/49] fix: option --skip-semantic-roles-prediction has no
 effect

---
 src/ReadingOrderDetection.cpp | 4 ++++
 src/ReadingOrderDetection.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index 685d4ab..d16908f 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -53,6 +53,7 @@ ReadingOrderDetection::ReadingOrderDetection(
     const SemanticRolesPredictionConfig* config2) {
   _doc = doc;
   _config = config;
+  _semanticRolesPredictionConfig = config2;
   _semanticRolesPrediction = new SemanticRolesPrediction(config2);
 }
 
@@ -69,6 +70,9 @@ void ReadingOrderDetection::process() {
 
 // _________________________________________________________________________________________________
 void ReadingOrderDetection::detectSemanticRoles() {
+  if (_semanticRolesPredictionConfig->disabled) {
+    return;
+  }
   _semanticRolesPrediction->predict(_doc);
 }
 
diff --git a/src/ReadingOrderDetection.h b/src/ReadingOrderDetection.h
index a139d84..163af7b 100755
--- a/src/ReadingOrderDetection.h
+++ b/src/ReadingOrderDetection.h
@@ -174,6 +174,8 @@ class ReadingOrderDetection {
   PdfDocument* _doc;
   // The configuration to use.
   const ReadingOrderDetectionConfig* _config;
+  // The configuration to use for predicting the semantic roles.
+  const SemanticRolesPredictionConfig* _semanticRolesPredictionConfig;
 
   double _minXCutGapWidth = 0;
   double _minYCutGapHeight = 0;
-- 
2.43.0


From 75277c80d16a2253eb28b90bbee722d9bf696f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 41/49] fix: option --no-dehyphenation has no effect

---
 src/pdftotext++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index f4b831e..f9b4746 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -665,7 +665,7 @@ int main(int argc, char* argv[]) {
   conf.semanticRolesPrediction.logPageFilter = logPageFilter;
   conf.semanticRolesPrediction.modelsDir = CONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR;
   // Configure words dehyphenation.
-  conf.wordsDehyphenation.disabled = skipWordsDehyphenation;
+  conf.wordsDehyphenation.disabled = skipWordsDehyphenation || noDehyphenation;
   conf.wordsDehyphenation.logLevel = debugWordsDehyphenation ? DEBUG : logLevel;
   conf.wordsDehyphenation.logPageFilter = logPageFilter;
 
-- 
2.43.0


From c811775caff4da09f3556a6b151c25570681e9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:38 +0000
Subject: [PATCH 42/49] fix: wrong percentages of non-ASCII characters and of
 uppercased words

The code points of wide characters were truncated to bytes, and passed to isupper(),
which is undefined for values that do not fit into a byte.
---
 src/SemanticRolesPrediction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..c9816a5 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -286,7 +286,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           numUppercasedChars += 1;
         }
 
-        if (static_cast<unsigned char>(wBlockText[i]) > 127) {
+        if (wBlockText[i] > 127) {
           numNonAsciiChars += 1;
         }
 
@@ -339,7 +339,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           // Convert the block text to a wstring, to correctly handle umlauts etc.
           wstring wWordText = stringConverter.from_bytes(word->text);
 
-          if (wWordText.length() > 0 && isupper(wWordText[0])) {
+          if (wWordText.length() > 0 && iswupper(wWordText[0])) {
             numUppercasedWords += 1;
           }
           numWords++;
-- 
2.43.0


From 5edb19a1ffc85aef388c03f5cfe30c546da8b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:18 +0000
Subject: [PATCH 43/49] fix: characters outside of the BMP are counted and
 encoded twice by the role prediction

---
 src/SemanticRolesPrediction.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SemanticRolesPrediction.h b/src/SemanticRolesPrediction.h
index e2a688f..ecc9289 100755
--- a/src/SemanticRolesPrediction.h
+++ b/src/SemanticRolesPrediction.h
@@ -11,7 +11,7 @@
 
 #include <cppflow/cppflow.h>
 
-#include <codecvt>  // std::codecvt_utf8_utf16
+#include <codecvt>  // std::codecvt_utf8
 #include <locale>  // std::wstring_convert
 #include <string>
 #include <unordered_map>
@@ -19,7 +19,7 @@
 #include "./Config.h"
 #include "./Types.h"
 
-using std::codecvt_utf8_utf16;
+using std::codecvt_utf8;
 using std::string;
 using std::unordered_map;
 using std::wstring;
@@ -107,7 +107,7 @@ class SemanticRolesPrediction {
   unordered_map<int, string> _rolesVocab;
 
   // The converter for converting string to wstring.
-  wstring_convert<codecvt_utf8_utf16<wchar_t>> stringConverter;
+  wstring_convert<codecvt_utf8<wchar_t>> stringConverter;
 
   // Whether or not the model was already loaded.
   bool _modelOk = false;
-- 
2.43.0


From 36eefd90c0b1003602402c732b87ee1116484876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:59 +0000
Subject: [PATCH 44/49] fix: lines of rotated text are in reverse order

---
 src/TextLinesDetection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 5b33595..fbb8269 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -203,7 +203,7 @@ void TextLinesDetection::process() {
         _log->debug(p) << qq << BOLD << "Sorting text lines" << OFF << endl;
         _log->debug(p) << "=========================================================" << endl;
 
-        if (rot == 0 || rot == 1) {
+        if (rot == 0 || rot == 3) {
           sort(lines.begin(), lines.end(), RotLowerYAscComparator());
         } else {
           sort(lines.begin(), lines.end(), RotLowerYDescComparator());
-- 
2.43.0


From fb1a20a82eca538004f1430bb211a468ae8f56a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:22 +0000
Subject: [PATCH 45/49] fix: superfluous blank lines if a text block consists
 of the rest of a hyphenated word only

---
 src/serializers/PlainTextSerializer.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 6e18e75..30afe64 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -48,11 +48,6 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
         continue;
       }
 
-      if (prevBlock) {
-        out << endl;
-        out << endl;
-      }
-
       PdfWord* prevWord = nullptr;
       for (auto* line : block->lines) {
         for (auto* word : line->words) {
@@ -62,9 +57,12 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
             continue;
           }
 
-          // Split the words by a whitespace.
+          // Split the words by a whitespace, and the blocks by a blank line.
           if (prevWord) {
             out << " ";
+          } else if (prevBlock) {
+            out << endl;
+            out << endl;
           }
 
           // Write the word character-wise. Ignore diacritic marks that were merged with their base
@@ -85,7 +83,12 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
           prevWord = word;
         }
       }
-      prevBlock = block;
+
+      // Ignore blocks without any written words (e.g., blocks that consist of the second part of a
+      // hyphenated word only), so that there are no superfluous blank lines.
+      if (prevWord) {
+        prevBlock = block;
+      }
     }
   }
   out << endl;
-- 
2.43.0


From 514c9b80f896177e1dd261fe6f2d26d4b5e07749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 46/49] fix: crash on visualizing a document with an unreadable
 page

---
 src/PdfDocumentVisualization.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..b628604 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -72,6 +72,10 @@ PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
   _gfxs.push_back(nullptr);  // Make the vector 1-based.
   for (int i = 1; i <= _pdfDoc->getNumPages(); i++) {
     Page* page = _pdfDoc->getPage(i);
+
+    // The page is null if it is not readable, in which case there are no elements to be drawn.
+    if (!page) { _gfxs.push_back(nullptr); continue; }
+
     Gfx* gfx = page->createGfx(_out, config.hDPI, config.vDPI, 0,
         true, false, -1, -1, -1, -1, true, nullptr, nullptr, nullptr);
     _gfxs.push_back(gfx);
-- 
2.43.0


From 5a86ec541e3488ea1ce0ee2a503129e68ad7be96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 47/49] fix: exit code 0 if the visualization could not be
 written

---
 src/PdfDocumentVisualization.cpp | 5 +++--
 src/PdfDocumentVisualization.h   | 5 ++++-
 src/pdftotext++.cpp              | 5 ++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index b628604..72fbf1c 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -8,6 +8,7 @@
 
 #include <goo/GooString.h>
 #include <poppler/Annot.h>
+#include <poppler/ErrorCodes.h>
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
@@ -255,9 +256,9 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 }
 
 // _________________________________________________________________________________________________
-void PdfDocumentVisualization::save(const string& targetPath) const {
+bool PdfDocumentVisualization::save(const string& targetPath) const {
   GooString gooTargetPath(targetPath);
-  _pdfDoc->saveAs(gooTargetPath);
+  return _pdfDoc->saveAs(gooTargetPath) == errNone;
 }
 
 // =================================================================================================
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index b9682ce..dfec3d8 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -251,8 +251,11 @@ class PdfDocumentVisualization {
    *
    * @param targetPath
    *    The path to the file to which the visualization should be written.
+   *
+   * @return
+   *    True if the visualization was written successfully, false otherwise.
    */
-  void save(const string& targetPath) const;
+  bool save(const string& targetPath) const;
 
  private:
   /**
diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index f9b4746..44c4424 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -757,7 +757,10 @@ int main(int argc, char* argv[]) {
     if (visualizeReadingOrderCuts) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
-    pdv.save(visualizeFilePathStr);
+    if (!pdv.save(visualizeFilePathStr)) {
+      cerr << "Could not write the visualization to file '" << visualizeFilePathStr << "'." << endl;
+      return EXIT_FAILURE;
+    }
     auto end = high_resolution_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
-- 
2.43.0


From e1380d4b9dd36cfd4b8bcc44850ed0e41a5caa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 48/49] fix: visualization is misplaced if the media box is not
 at the origin or the page is rotated

---
 src/PdfDocumentVisualization.cpp | 73 +++++++++++++++++++-------------
 src/PdfDocumentVisualization.h   | 30 +++++++++++++
 2 files changed, 74 insertions(+), 29 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 72fbf1c..3c9625b 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -16,7 +16,7 @@
 #include <cmath>  // fabs
 #include <memory>  // std::unique_ptr
 #include <string>
-#include <utility>  // std::move
+#include <utility>  // std::move, std::swap
 #include <vector>
 
 #include "./Config.h"
@@ -29,6 +29,7 @@
 using std::make_unique;
 using std::move;
 using std::string;
+using std::swap;
 using std::to_string;
 using std::unique_ptr;
 using std::vector;
@@ -355,10 +356,8 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
       const ColorScheme& cs2 = ppp::visualization::color_schemes::red;
       Page* pdfPage = _pdfDoc->getPage(segment->pos->pageNum);
       Gfx* gfx = _gfxs[segment->pos->pageNum];
-      double leftX = block->pos->leftX;
-      double upperY = pdfPage->getMediaHeight() - block->pos->lowerY;
-      double rightX = block->pos->rightX;
-      double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+      double leftX, upperY, rightX, lowerY;
+      computeUserSpaceBox(block->pos, &leftX, &upperY, &rightX, &lowerY);
       // Vertical/horizontal lines can have a width/height of zero, in which case they are not
       // visible in the visualization. So ensure a minimal width/height of 1.
       if (smaller(fabs(leftX - rightX), 1)) { rightX += 1; }
@@ -387,10 +386,8 @@ void PdfDocumentVisualization::drawBoundingBox(const PdfElement* element, const
 
   // Define the coordinates of the bounding box to draw. Make the y-coordinates relatively to the
   // lower left of the page.
-  double leftX = element->pos->leftX;
-  double upperY = pdfPage->getMediaHeight() - element->pos->lowerY;
-  double rightX = element->pos->rightX;
-  double lowerY = pdfPage->getMediaHeight() - element->pos->upperY;
+  double leftX, upperY, rightX, lowerY;
+  computeUserSpaceBox(element->pos, &leftX, &upperY, &rightX, &lowerY);
 
   // Vertical/horizontal lines can have a width/height of zero, in which case they are not
   // visible in the visualization. So ensure a minimal width/height of 1.
@@ -418,10 +415,10 @@ void PdfDocumentVisualization::drawTextBlockSemanticRoles(const vector<PdfTextBl
     Page* pdfPage = _pdfDoc->getPage(block->pos->pageNum);
     Gfx* gfx = _gfxs[block->pos->pageNum];
 
-    // Define the position of the semantic role. Make the lowerY relatively to the lower left of
-    // the page.
-    double leftX = block->pos->leftX;
-    double lowerY = pdfPage->getMediaHeight() - block->pos->upperY;
+    // Define the position of the semantic role.
+    double leftX, lowerY;
+    computeUserSpacePoint(block->pos->pageNum, block->pos->leftX, block->pos->upperY,
+        &leftX, &lowerY);
     PDFRectangle rect(leftX, lowerY, leftX + 100, lowerY + 7);
 
     // Define the font appearance of the semantic role.
@@ -458,18 +455,15 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     Gfx* gfx = _gfxs[currBlock->pos->pageNum];
 
     // Compute the coordinates of the midpoints of the previous and current text block.
-    double prevMinX = prevBlock->pos->leftX;
-    double prevMaxX = prevBlock->pos->rightX;
-    double prevMinY = pdfPage->getMediaHeight() - prevBlock->pos->lowerY;
-    double prevMaxY = pdfPage->getMediaHeight() - prevBlock->pos->upperY;
-    double prevMidX = prevBlock->pos->leftX + ((prevMaxX - prevMinX) / 2.0);
-    double prevMidY = prevMinY + ((prevMaxY - prevMinY) / 2.0);
-    double currMinX = currBlock->pos->leftX;
-    double currMaxX = currBlock->pos->rightX;
-    double currMinY = pdfPage->getMediaHeight() - currBlock->pos->lowerY;
-    double currMaxY = pdfPage->getMediaHeight() - currBlock->pos->upperY;
-    double currMidX = currBlock->pos->leftX + ((currMaxX - currMinX) / 2.0);
-    double currMidY = currMinY + ((currMaxY - currMinY) / 2.0);
+    double prevMidX, prevMidY, currMidX, currMidY;
+    computeUserSpacePoint(prevBlock->pos->pageNum,
+        prevBlock->pos->leftX + ((prevBlock->pos->rightX - prevBlock->pos->leftX) / 2.0),
+        prevBlock->pos->upperY + ((prevBlock->pos->lowerY - prevBlock->pos->upperY) / 2.0),
+        &prevMidX, &prevMidY);
+    computeUserSpacePoint(currBlock->pos->pageNum,
+        currBlock->pos->leftX + ((currBlock->pos->rightX - currBlock->pos->leftX) / 2.0),
+        currBlock->pos->upperY + ((currBlock->pos->lowerY - currBlock->pos->upperY) / 2.0),
+        &currMidX, &currMidY);
 
     // Define the position of the reading order line.
     PDFRectangle lineRect(prevMidX, prevMidY, currMidX, currMidY);
@@ -560,10 +554,9 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
     Page* pdfPage = _pdfDoc->getPage(cut->pageNum);
     Gfx* gfx = _gfxs[cut->pageNum];
 
-    double x1 = cut->x1;
-    double y1 = pdfPage->getMediaHeight() - cut->y1;  // make it relative to the lower left.
-    double x2 = cut->x2;
-    double y2 = pdfPage->getMediaHeight() - cut->y2;  // make it relative to the lower left.
+    double x1, y1, x2, y2;
+    computeUserSpacePoint(cut->pageNum, cut->x1, cut->y1, &x1, &y1);
+    computeUserSpacePoint(cut->pageNum, cut->x2, cut->y2, &x2, &y2);
 
     // ==========
     // Draw a line representing the cut.
@@ -669,6 +662,28 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
   }
 }
 
+// _________________________________________________________________________________________________
+void PdfDocumentVisualization::computeUserSpacePoint(int pageNum, double x, double y, double* userX,
+    double* userY) const {
+  // Invert the transformation from the user space of the page to the device space.
+  double ctm[6];
+  _pdfDoc->getPage(pageNum)->getDefaultCTM(ctm, _config.hDPI, _config.vDPI, 0, true, true);
+  const double det = ctm[0] * ctm[3] - ctm[1] * ctm[2];
+  *userX = (ctm[3] * (x - ctm[4]) - ctm[2] * (y - ctm[5])) / det;
+  *userY = (ctm[0] * (y - ctm[5]) - ctm[1] * (x - ctm[4])) / det;
+}
+
+// _________________________________________________________________________________________________
+void PdfDocumentVisualization::computeUserSpaceBox(const PdfPosition* pos, double* leftX,
+    double* lowerY, double* rightX, double* upperY) const {
+  computeUserSpacePoint(pos->pageNum, pos->leftX, pos->lowerY, leftX, lowerY);
+  computeUserSpacePoint(pos->pageNum, pos->rightX, pos->upperY, rightX, upperY);
+
+  // The corners change their roles if the page is rotated.
+  if (*leftX > *rightX) { swap(*leftX, *rightX); }
+  if (*lowerY > *upperY) { swap(*lowerY, *upperY); }
+}
+
 // _________________________________________________________________________________________________
 string PdfDocumentVisualization::convertToUtf16(const string& str) const {
   int length = 2 + 2 * str.length();
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index dfec3d8..e651e9f 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -33,6 +33,7 @@ using ppp::types::PdfElement;
 using ppp::types::PdfFigure;
 using ppp::types::PdfGraphic;
 using ppp::types::PdfPageSegment;
+using ppp::types::PdfPosition;
 using ppp::types::PdfShape;
 using ppp::types::PdfTextBlock;
 using ppp::types::PdfTextLine;
@@ -351,6 +352,35 @@ class PdfDocumentVisualization {
    */
   void drawCuts(const vector<Cut*>& cuts, const ColorScheme& cs) const;
 
+  /**
+   * This method computes the position of the given point in the user space of the given page (the
+   * coordinate system of the annotations), which depends on the media box and the rotation of the
+   * page.
+   *
+   * @param pageNum
+   *    The number of the page.
+   * @param x
+   *    The x-coordinate of the point, as computed on parsing the PDF.
+   * @param y
+   *    The y-coordinate of the point, as computed on parsing the PDF.
+   * @param userX
+   *    The computed x-coordinate in user space.
+   * @param userY
+   *    The computed y-coordinate in user space.
+   */
+  void computeUserSpacePoint(int pageNum, double x, double y, double* userX, double* userY) const;
+
+  /**
+   * This method computes the bounding box given by the given position in the user space of the page.
+   *
+   * @param pos
+   *    The position.
+   * @param leftX, lowerY, rightX, upperY
+   *    The computed coordinates in user space, with leftX <= rightX and lowerY <= upperY.
+   */
+  void computeUserSpaceBox(const PdfPosition* pos, double* leftX, double* lowerY, double* rightX,
+      double* upperY) const;
+
   /**
    * This method converts the given string to an UTF-16 string, which is required so that a string
    * of an AnnotText or AnnotFreeText is drawn correctly to the PDF.
-- 
2.43.0


From 8fd3a66610b0d8f9ca660cb70d01102240c96674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:36 +0000
Subject: [PATCH 49/49] fix: paths filled with the even-odd rule are not
 recorded as shapes

---
 src/PdfParsing.cpp | 5 +++++
 src/PdfParsing.h   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 503a125..0b47964 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -751,6 +751,11 @@ void PdfParsing::fill(GfxState* state) {
   stroke(state);
 }
 
+// _________________________________________________________________________________________________
+void PdfParsing::eoFill(GfxState* state) {
+  stroke(state);
+}
+
 // _________________________________________________________________________________________________
 void PdfParsing::drawImageMask(GfxState* state, Object* ref, Stream* str, int width, int height,
     bool invert, bool interpolate, bool inlineImg) {
diff --git a/src/PdfParsing.h b/src/PdfParsing.h
index 2f6a0e8..c874383 100755
--- a/src/PdfParsing.h
+++ b/src/PdfParsing.h
@@ -189,6 +189,15 @@ class PdfParsing : public OutputDev {
    */
   void fill(GfxState* state) override;
 
+  /**
+   * This method handles the event "fill a path using the even-odd rule" in the same way as the
+   * event "fill a path".
+   *
+   * @param state
+   *   The current graphics state.
+   */
+  void eoFill(GfxState* state) override;
+
   /**
    * This method handles the event "draw an image mask" by invoking the `drawGraphic(state)` method
    * below. See the comment given for this method for more information.
-- 
2.43.0

