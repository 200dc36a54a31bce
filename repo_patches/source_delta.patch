From 77380e24929a34fff10c7afdd321df35936ddfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 01/29] fix: fail when the extracted text could not be written
 completely

---
 src/pdftotext++.cpp            |  8 +++++++-
 src/serializers/Serializer.cpp | 20 ++++++++++++++++----
 src/serializers/Serializer.h   |  6 +++++-
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 90fe394..fb96e36 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -707,11 +707,12 @@ int main(int argc, char* argv[]) {
   //     noScripts);
   //   serializer.serialize(outputFilePath);
   // }
+  bool isSerialized = true;
   Serializer* serializer = ppp::serialization::getSerializer(format);
   if (serializer) {
     unordered_set<SemanticRole> rolesSet(roles.begin(), roles.end());
     unordered_set<PdfElementType> typesSet(types.begin(), types.end());
-    serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
+    isSerialized = serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
   }
   auto end = high_resolution_clock::now();
   Timing timingSerializeChars("Serialize", duration_cast<milliseconds>(end - start).count());
@@ -783,5 +784,10 @@ int main(int argc, char* argv[]) {
     }
   }
 
+  // Fail if the extracted text could not be delivered.
+  if (!isSerialized) {
+    return 4;
+  }
+
   return EXIT_SUCCESS;
 }
diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..13265ad 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -30,7 +30,7 @@ using ppp::types::SemanticRole;
 namespace ppp::serialization {
 
 // _________________________________________________________________________________________________
-void Serializer::serialize(
+bool Serializer::serialize(
     const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles,
     const unordered_set<PdfElementType>& types,
@@ -38,7 +38,12 @@ void Serializer::serialize(
   // If the target file path is specified as "-", output the text to stdout.
   if (targetFilePath.size() == 1 && targetFilePath[0] == '-') {
     serializeToStream(doc, roles, types, cout);
-    return;
+    cout.flush();
+    if (!cout) {
+      cerr << "Could not write the text to the standard output." << endl;
+      return false;
+    }
+    return true;
   }
 
   // Compute the path to the parent directory of the target file.
@@ -51,17 +56,24 @@ void Serializer::serialize(
   // Try to create all intermediate directories if the parent directory does not exist.
   if (system(("mkdir -p " + parentDirPath).c_str())) {
     cerr << "Could not create directory '" << parentDirPath << "'." << endl;
-    return;
+    return false;
   }
 
   ofstream outFile(targetFilePath);
   if (!outFile.is_open()) {
     cerr << "Could not open file '" << targetFilePath << "'." << endl;
-    return;
+    return false;
   }
 
   serializeToStream(doc, roles, types, outFile);
   outFile.close();
+
+  // Check if the text was written completely (for example, the disk could have been full).
+  if (!outFile) {
+    cerr << "Could not write the text to file '" << targetFilePath << "'." << endl;
+    return false;
+  }
+  return true;
 }
 
 }  // namespace ppp::serialization
diff --git a/src/serializers/Serializer.h b/src/serializers/Serializer.h
index f97e5e2..c298bfa 100644
--- a/src/serializers/Serializer.h
+++ b/src/serializers/Serializer.h
@@ -48,8 +48,12 @@ class Serializer {
    * @param targetPath
    *   The path to the file to which the text should be written.
    *   NOTE: If specified as "-", the text is written to stdout.
+   *
+   * @return
+   *   True if the text was written completely, and false otherwise (in which case an error message
+   *   was written to stderr).
    */
-  void serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
+  bool serialize(const PdfDocument* doc, const unordered_set<SemanticRole>& roles,
       const unordered_set<PdfElementType>& units, const string& targetPath) const;
 
  protected:
-- 
2.43.0


From 9060774d1a1b72bdcbdb11adfc31c3dd9f9f618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 02/29] fix: reject an output format that has no serializer
 instead of writing nothing

---
 src/pdftotext++.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index fb96e36..43732ab 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -598,6 +598,13 @@ int main(int argc, char* argv[]) {
     return EXIT_SUCCESS;
   }
 
+  // Abort if there is no serializer for the requested format.
+  if (!ppp::serialization::getSerializer(format)) {
+    cerr << "The requested output format is not supported. ";
+    cerr << "Type \"" << programName << " --help\" for printing the help." << endl;
+    return EXIT_FAILURE;
+  }
+
   // Disable the log output of Tensorflow.
   char env[] = "TF_CPP_MIN_LOG_LEVEL=3";
   putenv(env);
-- 
2.43.0


From 271af6959281b29a5c68a76046159beba4de7a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 03/29] fix: create missing directories without a shell, taking
 the path literally

---
 src/serializers/Serializer.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 13265ad..1187e7b 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>  // std::filesystem::create_directories, std::filesystem::path
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -17,6 +19,9 @@
 using std::cerr;
 using std::cout;
 using std::endl;
+using std::error_code;
+using std::filesystem::create_directories;
+using std::filesystem::path;
 using std::ofstream;
 using std::string;
 using std::unordered_set;
@@ -47,15 +52,16 @@ bool Serializer::serialize(
   }
 
   // Compute the path to the parent directory of the target file.
-  string parentDirPath = ".";
-  size_t posLastSlash = targetFilePath.find_last_of("/");
-  if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
-  }
+  path parentDirPath = path(targetFilePath).parent_path();
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
-    cerr << "Could not create directory '" << parentDirPath << "'." << endl;
+  error_code error;
+  if (!parentDirPath.empty()) {
+    create_directories(parentDirPath, error);
+  }
+  if (error) {
+    cerr << "Could not create directory '" << parentDirPath.string() << "': " << error.message();
+    cerr << "." << endl;
     return false;
   }
 
-- 
2.43.0


From ca5e6e410a3c53bccc495eb02fa70939c5ee4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 04/29] fix: keep to the bounds of the buffers when reading
 embedded Type 1 fonts

---
 src/utils/PdfFontInfoParser.cpp | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 46cbeac..bba5024 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -272,7 +272,7 @@ void Type1FontFileParser::parseAsciiPart(Object* strObj, int length, PdfFontInfo
             istringstream lineSS(line.substr(lSquarePos, rSquarePos - lSquarePos));
             double d;
             int k = 0;
-            while (lineSS >> d) {
+            while (k < 6 && lineSS >> d) {
               fontInfo->fontMatrix[k++] = d;
             }
           }
@@ -332,9 +332,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     }
   }
 
-  int numBytes = isPfb ? length : length / 2;
-  char* bytes = new char[numBytes];
-  int b = 0;
+  string bytes;
   int c;
 
   if (isPfb) {
@@ -345,42 +343,37 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
       for (int i = 0; i < 4; i++) {
         char c1 = _hexToChar[(start[i] >> 4) & 0x0f];
         char c2 = _hexToChar[start[i] & 0x0f];
-        bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-        b++;
+        bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
       }
     }
 
-    for (int i = b; i < length; i++) {
+    for (int i = bytes.size(); i < length; i++) {
       if ((c = strObj->streamGetChar()) == EOF) {
         break;
       }
       char c1 = _hexToChar[(c >> 4) & 0x0f];
       char c2 = _hexToChar[c & 0x0f];
-      bytes[b] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   } else {
     for (int i = 0; i < 4; i += 2) {
-      bytes[i] = 16 * _charToHex[start[i]] + _charToHex[start[i+1]];
-      b++;
+      bytes.push_back(16 * _charToHex[start[i]] + _charToHex[start[i+1]]);
     }
     for (int i = 4; i < length; i += 2) {
-      char c1;
+      int c1;
       if ((c1 = strObj->streamGetChar()) == EOF) {
         break;
       }
-      char c2;
+      int c2;
       if ((c2 = strObj->streamGetChar()) == EOF) {
         break;
       }
-      bytes[i] = 16 * _charToHex[c1] + _charToHex[c2];
-      b++;
+      bytes.push_back(16 * _charToHex[c1] + _charToHex[c2]);
     }
   }
 
   string decrypted;
-  decrypt(bytes, b, 55665, 4, &decrypted);
-  delete[] bytes;
+  decrypt(bytes.data(), bytes.size(), 55665, 4, &decrypted);
 
   // Parse the "/lenIV" part.
   int lenIV = 4;
@@ -421,7 +414,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string dupstring = subrs.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedDupString;
-    decrypt(dupstring.c_str(), nnumBytes, 4330, lenIV, &decryptedDupString);
+    decrypt(dupstring.c_str(), dupstring.size(), 4330, lenIV, &decryptedDupString);
 
     subrsMap[index] = decryptedDupString;
   }
@@ -453,7 +446,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     string charstring = charstrings.substr(match.position() + match.length(), nnumBytes);
 
     string decryptedCharString;
-    decrypt(charstring.c_str(), nnumBytes, 4330, lenIV, &decryptedCharString);
+    decrypt(charstring.c_str(), charstring.size(), 4330, lenIV, &decryptedCharString);
 
     int leftX = numeric_limits<int>::max();
     int upperY = numeric_limits<int>::max();
-- 
2.43.0


From 1b8b245c95df60b86ce0b8759e13f82adef1d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 05/29] fix: do not abort on malformed numbers in embedded Type
 1 fonts

---
 src/utils/PdfFontInfoParser.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index bba5024..9faeda5 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -382,7 +382,10 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     lenIVStart += 7;
     size_t lenIVEnd = decrypted.find(" ", lenIVStart);
     if (lenIVEnd != string::npos) {
-      lenIV = stoi(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      istringstream lenIVSS(decrypted.substr(lenIVStart, lenIVEnd - lenIVStart));
+      if (!(lenIVSS >> lenIV)) {
+        lenIV = 4;
+      }
     }
   }
 
@@ -401,7 +404,9 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
   }
 
   string subrs = decrypted.substr(subrsStart, subrsEnd - subrsStart);
-  regex dupRegex("dup\\s(\\d+)\\s(\\d+)\\sRD\\s");
+  // NOTE: The repetitions are bounded to keep the numbers within the range of an int, and the
+  // recursion of the regex engine (one level per repetition) within the bounds of the stack.
+  regex dupRegex("dup\\s(\\d{1,9})\\s(\\d{1,9})\\sRD\\s");
   auto dupBegin = sregex_iterator(subrs.begin(), subrs.end(), dupRegex);
   auto dupEnd = sregex_iterator();
 
@@ -434,7 +439,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 
   string charstrings = decrypted.substr(charStringsStart);
 
-  regex words_regex("\\/(\\S+)\\s+(\\d+)\\sRD\\s");
+  regex words_regex("\\/(\\S{1,127})\\s{1,9}(\\d{1,9})\\sRD\\s");
   auto words_begin = sregex_iterator(charstrings.begin(), charstrings.end(), words_regex);
   auto words_end = sregex_iterator();
 
-- 
2.43.0


From 7d06e349769111b131ca1d5867ffcb342325f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 06/29] fix: interpret malformed Type 1 character descriptions
 without crashing

---
 src/utils/PdfFontInfoParser.cpp | 42 +++++++++++++++++++++------------
 src/utils/PdfFontInfoParser.h   |  2 +-
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 9faeda5..7c6871b 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -12,6 +12,7 @@
 #include <poppler/XRef.h>
 
 #include <cassert>  // assert
+#include <cstdint>  // int64_t
 #include <limits>
 #include <memory>  // std::shared_ptr
 #include <regex>
@@ -188,6 +189,9 @@ PdfFontInfo* PdfFontInfoParser::parse(
 
 // ================================================================================================
 
+// The maximum number of subroutine calls to follow on interpreting the description of a character.
+static constexpr int MAX_NUM_SUBR_CALLS = 1000;
+
 // _________________________________________________________________________________________________
 void Type1FontFileParser::parse(const Ref& embFontId, XRef* xref, PdfFontInfo* fontInfo) {
   assert(xref);
@@ -461,8 +465,9 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
     int curY = 0;
     vector<int> args;
     vector<int> interpreterStack;
+    int numSubrCalls = 0;
     parseCharString(decryptedCharString, subrsMap, &curX, &curY, &leftX, &upperY, &rightX, &lowerY,
-        &args, &interpreterStack);
+        &args, &interpreterStack, &numSubrCalls);
     fontInfo->glyphBoundingBoxes[charName] = make_tuple(leftX, upperY, rightX, lowerY);
   }
 }
@@ -471,7 +476,7 @@ void Type1FontFileParser::parseEncryptedPart(Object* strObj, int length,
 void Type1FontFileParser::parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY,
-    vector<int>* args, vector<int>* interpreterStack) const {
+    vector<int>* args, vector<int>* interpreterStack, int* numSubrCalls) const {
 
   for (size_t t = 0; t < charString.size(); t++) {
     unsigned char byte = charString[t] & 0xff;
@@ -588,13 +593,18 @@ void Type1FontFileParser::parseCharString(const string& charString,
               break;
             }
 
+            // Don't follow subroutines that (mutually) call each other forever.
+            if (++(*numSubrCalls) > MAX_NUM_SUBR_CALLS) {
+              break;
+            }
+
             parseCharString(subrs.at(index), subrs, curX, curY, leftX, upperY, rightX, lowerY, args,
-                interpreterStack);
+                interpreterStack, numSubrCalls);
           }
           break;
         case 12:  // escape
           {
-            unsigned char byte2 = charString[++t] & 0xff;
+            unsigned char byte2 = (++t < charString.size() ? charString[t] : 0) & 0xff;
 
             switch (byte2) {
               case 0:  // dotsection
@@ -652,7 +662,9 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   int num1 = args->back();
                   args->pop_back();
 
-                  int result = num1 / num2;  // TODO(korzen): float
+                  // Use 64 bits, because the smallest int divided by -1 does not fit into 32 bits.
+                  int64_t num1L = num1;
+                  int result = num2 != 0 ? num1L / num2 : 0;  // TODO(korzen): float
 
                   args->push_back(result);
                 }
@@ -668,7 +680,7 @@ void Type1FontFileParser::parseCharString(const string& charString,
                   interpreterStack->clear();
                   switch (othersubr) {
                     case 0:
-                      {
+                      if (args->size() >= 3) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
@@ -682,15 +694,15 @@ void Type1FontFileParser::parseCharString(const string& charString,
                     case 1:
                       break;
                     case 3:
-                      {
+                      if (args->size() >= 1) {
                         int n1 = args->back();
                         args->pop_back();
                         interpreterStack->push_back(n1);
-                        break;
                       }
+                      break;
                     default:
                       {
-                        for (int i = 0; i < numArgs; i++) {
+                        for (int i = 0; i < numArgs && args->size() > 0; i++) {
                           int n1 = args->back();
                           args->pop_back();
                           interpreterStack->push_back(n1);
@@ -828,16 +840,16 @@ void Type1FontFileParser::parseCharString(const string& charString,
       if (byte <= 246) {
         args->push_back(byte - 139);
       } else if (byte >= 247 && byte <= 250) {
-        unsigned char bbyte = charString[++t] & 0xff;
+        unsigned char bbyte = (++t < charString.size() ? charString[t] : 0) & 0xff;
         args->push_back((byte - 247) * 256 + bbyte + 108);
       } else if (byte >= 251 && byte <= 254) {
-        unsigned char bbyte = charString[++t] & 0xff;
+        unsigned char bbyte = (++t < charString.size() ? charString[t] : 0) & 0xff;
         args->push_back(-(byte - 251) * 256 - bbyte - 108);
       } else if (byte == 255) {
-        unsigned char b1 = charString[++t] & 0xff;
-        unsigned char b2 = charString[++t] & 0xff;
-        unsigned char b3 = charString[++t] & 0xff;
-        unsigned char b4 = charString[++t] & 0xff;
+        unsigned char b1 = (++t < charString.size() ? charString[t] : 0) & 0xff;
+        unsigned char b2 = (++t < charString.size() ? charString[t] : 0) & 0xff;
+        unsigned char b3 = (++t < charString.size() ? charString[t] : 0) & 0xff;
+        unsigned char b4 = (++t < charString.size() ? charString[t] : 0) & 0xff;
         args->push_back(b1 << 24 | b2 << 16 | b3 << 8 | b4);
       }
     }
diff --git a/src/utils/PdfFontInfoParser.h b/src/utils/PdfFontInfoParser.h
index 33971db..d3e13af 100755
--- a/src/utils/PdfFontInfoParser.h
+++ b/src/utils/PdfFontInfoParser.h
@@ -114,7 +114,7 @@ class Type1FontFileParser {
   void parseCharString(const string& charString,
     const unordered_map<int, string>& subrs, int* curX, int* curY,
     int* leftX, int* upperY, int* rightX, int* lowerY, vector<int>* args,
-    vector<int>* interpreterStack) const;
+    vector<int>* interpreterStack, int* numSubrCalls) const;
 
   /** TODO(korzen) */
   void decrypt(const char* bytes, int numBytes, int r, int n, string* resultStr) const;
-- 
2.43.0


From 3ee743dd8cc7473aaa9de6cbc235a2ec386152d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 07/29] fix: identify fonts without a name by their id, not by
 their address

---
 src/PdfParsing.cpp              | 9 +++++----
 src/utils/PdfFontInfoParser.cpp | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..fd3362b 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -134,10 +134,11 @@ void PdfParsing::updateFont(GfxState* state) {
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. In this case, use the pointer address of the font instead.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. In this case, use the id of the font instead (and not, for example,
+  // its address: the address differs from run to run, and can be shared by different fonts).
+  stringstream gfxFontId;
+  gfxFontId << "font-" << gfxFont->getID()->num << "-" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
   const optional<string> gooFontName = gfxFont->getName();
   if (gooFontName) {
     fontName = move(*gooFontName);
diff --git a/src/utils/PdfFontInfoParser.cpp b/src/utils/PdfFontInfoParser.cpp
index 7c6871b..f68e3df 100755
--- a/src/utils/PdfFontInfoParser.cpp
+++ b/src/utils/PdfFontInfoParser.cpp
@@ -62,10 +62,10 @@ PdfFontInfo* PdfFontInfoParser::parse(
   }
 
   // Get the font name. In some cases (e.g., if the type of the font is "type-3"), the gfxFont
-  // may not provide a font name. So use the pointer address of the font as default font name.
-  stringstream gfxFontAddress;
-  gfxFontAddress << gfxFont;
-  string fontName = gfxFontAddress.str();
+  // may not provide a font name. So use the id of the font as default font name.
+  stringstream gfxFontId;
+  gfxFontId << "font-" << gfxFont->getID()->num << "-" << gfxFont->getID()->gen;
+  string fontName = gfxFontId.str();
 
   // If the font provide a font name, take this.
   const std::optional<string> gooFontName = gfxFont->getName();
-- 
2.43.0


From 7055ad2bd359eb4d3b959f017f14b0bc73c12f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:42 +0000
Subject: [PATCH 08/29] fix: report every error of the extraction instead of
 aborting

---
 src/pdftotext++.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 43732ab..02d3737 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -33,7 +33,6 @@ using std::cout;
 using std::endl;
 using std::exception;
 using std::fixed;
-using std::invalid_argument;
 using std::locale;
 using std::setprecision;
 using std::setw;
@@ -680,13 +679,13 @@ int main(int argc, char* argv[]) {
   vector<Timing> timings;
 
   int status = 0;
-  // TODO(korzen): Don't use the invalid argument exception; it is currently thrown by
-  // SemanticRolesPredictor. Instead, use the exit code to check if something went wrong.
+  // TODO(korzen): Don't use exceptions; they are currently thrown by SemanticRolesPredictor.
+  // Instead, use the exit code to check if something went wrong.
   try {
     PdfToTextPlusPlus engine(&conf);
     status = engine.process(&doc, &timings);
-  } catch (const invalid_argument& ia) {
-    cerr << "An error occurred: " << ia.what() << '\n';
+  } catch (const exception& e) {
+    cerr << "An error occurred: " << e.what() << '\n';
     return 3;
   }
 
-- 
2.43.0


From 8887a576456c4765801d02dca05f1d79bf851d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:52 +0000
Subject: [PATCH 09/29] fix: fail when the visualization could not be produced
 or written

---
 src/PdfDocumentVisualization.cpp | 61 +++++++++++++++++++++++++++-----
 src/PdfDocumentVisualization.h   | 20 ++++++++++-
 src/pdftotext++.cpp              |  8 ++++-
 3 files changed, 78 insertions(+), 11 deletions(-)

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 0b94730..3de9eb9 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -8,11 +8,14 @@
 
 #include <goo/GooString.h>
 #include <poppler/Annot.h>
+#include <poppler/ErrorCodes.h>
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
 #include <poppler/PDFDocFactory.h>
 
 #include <cmath>  // fabs
+#include <cstdio>  // fopen, fclose
+#include <iostream>  // std::cerr
 #include <memory>  // std::unique_ptr
 #include <string>
 #include <utility>  // std::move
@@ -25,6 +28,8 @@
 #include "./utils/MathUtils.h"
 #include "./utils/PdfElementsUtils.h"
 
+using std::cerr;
+using std::endl;
 using std::make_unique;
 using std::move;
 using std::string;
@@ -62,6 +67,9 @@ PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
   GooString gooPdfFilePath(pdfFilePath);
   _pdfDoc = PDFDocFactory().createPDFDoc(gooPdfFilePath);
 
+  // Check if the document could be loaded (it could have been removed or changed meanwhile).
+  _ok = _pdfDoc->isOk();
+
   _doc = new PdfDocument();
 
   PdfParsingConfig ppConfig;
@@ -70,8 +78,13 @@ PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
 
   // Create a Gfx for each PDF page.
   _gfxs.push_back(nullptr);  // Make the vector 1-based.
-  for (int i = 1; i <= _pdfDoc->getNumPages(); i++) {
+  for (int i = 1; _ok && i <= _pdfDoc->getNumPages(); i++) {
     Page* page = _pdfDoc->getPage(i);
+    // Ignore the page if it can't be loaded; there are no elements on it.
+    if (!page) {
+      _gfxs.push_back(nullptr);
+      continue;
+    }
     Gfx* gfx = page->createGfx(_out, config.hDPI, config.vDPI, 0,
         true, false, -1, -1, -1, -1, true, nullptr, nullptr, nullptr);
     _gfxs.push_back(gfx);
@@ -251,9 +264,34 @@ void PdfDocumentVisualization::visualizeReadingOrderCuts(const vector<Cut*>& cut
 }
 
 // _________________________________________________________________________________________________
-void PdfDocumentVisualization::save(const string& targetPath) const {
-  GooString gooTargetPath(targetPath);
-  _pdfDoc->saveAs(gooTargetPath);
+bool PdfDocumentVisualization::save(const string& targetPath) const {
+  if (!_ok) {
+    cerr << "An error occurred: could not load the PDF file for visualizing it." << endl;
+    return false;
+  }
+
+  // NOTE: Poppler does not report write errors. So check the state of the file after writing.
+  FILE* file = fopen(targetPath.c_str(), "wb");
+  bool saved = file != nullptr;
+  if (file) {
+    FileOutStream out(file, 0);
+    saved = _pdfDoc->saveAs(&out) == errNone;
+    saved = fflush(file) == 0 && !ferror(file) && saved;
+    saved = fclose(file) == 0 && saved;
+  }
+  if (!saved) {
+    cerr << "An error occurred: could not write the visualization to \"" << targetPath << "\".";
+    cerr << endl;
+  }
+  return saved;
+}
+
+// _________________________________________________________________________________________________
+Page* PdfDocumentVisualization::getPage(int pageNum) const {
+  bool exists = pageNum >= 1 && pageNum < static_cast<int>(_gfxs.size()) && _gfxs[pageNum];
+  Page* page = exists ? _pdfDoc->getPage(pageNum) : nullptr;
+  _ok = _ok && page;
+  return page;
 }
 
 // =================================================================================================
@@ -348,7 +386,8 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
     // Draw the (preliminary) text blocks stored in the segment
     for (const auto* block : segment->blocks) {
       const ColorScheme& cs2 = ppp::visualization::color_schemes::red;
-      Page* pdfPage = _pdfDoc->getPage(segment->pos->pageNum);
+      Page* pdfPage = getPage(segment->pos->pageNum);
+      if (!pdfPage) { continue; }
       Gfx* gfx = _gfxs[segment->pos->pageNum];
       double leftX = block->pos->leftX;
       double upperY = pdfPage->getMediaHeight() - block->pos->lowerY;
@@ -377,7 +416,8 @@ void PdfDocumentVisualization::drawPageSegmentBoundingBoxes(
 // _________________________________________________________________________________________________
 void PdfDocumentVisualization::drawBoundingBox(const PdfElement* element, const ColorScheme& cs)
       const {
-  Page* pdfPage = _pdfDoc->getPage(element->pos->pageNum);
+  Page* pdfPage = getPage(element->pos->pageNum);
+  if (!pdfPage) { return; }
   Gfx* gfx = _gfxs[element->pos->pageNum];
 
   // Define the coordinates of the bounding box to draw. Make the y-coordinates relatively to the
@@ -410,7 +450,8 @@ void PdfDocumentVisualization::drawTextBlockSemanticRoles(const vector<PdfTextBl
     const ColorScheme& cs) const {
   // Iterate through the text blocks and draw the semantic role of each.
   for (const auto* block : blocks) {
-    Page* pdfPage = _pdfDoc->getPage(block->pos->pageNum);
+    Page* pdfPage = getPage(block->pos->pageNum);
+    if (!pdfPage) { continue; }
     Gfx* gfx = _gfxs[block->pos->pageNum];
 
     // Define the position of the semantic role. Make the lowerY relatively to the lower left of
@@ -449,7 +490,8 @@ void PdfDocumentVisualization::drawReadingOrder(const vector<PdfTextBlock*>& blo
     PdfTextBlock* prevBlock = blocks[i - 1];
     PdfTextBlock* currBlock = blocks[i];
 
-    Page* pdfPage = _pdfDoc->getPage(currBlock->pos->pageNum);
+    Page* pdfPage = getPage(currBlock->pos->pageNum);
+    if (!pdfPage) { continue; }
     Gfx* gfx = _gfxs[currBlock->pos->pageNum];
 
     // Compute the coordinates of the midpoints of the previous and current text block.
@@ -552,7 +594,8 @@ void PdfDocumentVisualization::drawCuts(const vector<Cut*>& cuts, const ColorSch
 
     const ColorScheme& cos = cut->isChosen ? cs : color_schemes::gray;
 
-    Page* pdfPage = _pdfDoc->getPage(cut->pageNum);
+    Page* pdfPage = getPage(cut->pageNum);
+    if (!pdfPage) { continue; }
     Gfx* gfx = _gfxs[cut->pageNum];
 
     double x1 = cut->x1;
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index b9682ce..46a9256 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -251,10 +251,25 @@ class PdfDocumentVisualization {
    *
    * @param targetPath
    *    The path to the file to which the visualization should be written.
+   *
+   * @return
+   *    True if the visualization was written completely, false otherwise.
    */
-  void save(const string& targetPath) const;
+  bool save(const string& targetPath) const;
 
  private:
+  /**
+   * This method returns the page with the given number, or nullptr if there is no such page. In the
+   * latter case, it remembers that the visualization is incomplete.
+   *
+   * @param pageNum
+   *    The (1-based) page number.
+   *
+   * @return
+   *    The page with the given number, or nullptr.
+   */
+  Page* getPage(int pageNum) const;
+
   /**
    * TODO(korzen): This method draws the bounding boxes of the non-text elements (e.g., figures and
    * shapes) stored in `_doc` to the visualization.
@@ -363,6 +378,9 @@ class PdfDocumentVisualization {
   // The PDF document to process.
   unique_ptr<PDFDoc> _pdfDoc;
 
+  // Whether or not the PDF document and all pages to draw on could be loaded.
+  mutable bool _ok = true;
+
   // The configuration to use
   PdfDocumentVisualizationConfig _config;
 
diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 02d3737..ba54dc7 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -725,6 +725,7 @@ int main(int argc, char* argv[]) {
   timings.push_back(timingSerializeChars);
 
   // Visualize the extraction result, if requested by the user.
+  bool isVisualized = true;
   const string visualizeFilePathStr(visualizeFilePath);
   if (!visualizeFilePathStr.empty()) {
     auto start = high_resolution_clock::now();
@@ -762,7 +763,7 @@ int main(int argc, char* argv[]) {
     if (visualizeReadingOrderCuts) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
-    pdv.save(visualizeFilePathStr);
+    isVisualized = pdv.save(visualizeFilePathStr);
     auto end = high_resolution_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
@@ -795,5 +796,10 @@ int main(int argc, char* argv[]) {
     return 4;
   }
 
+  // Fail if the visualization could not be produced.
+  if (!isVisualized) {
+    return 5;
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From ad7c6020a2496eebdab300998c165b94ae792e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 10/29] fix: measure running times with a clock that is never
 set back

---
 src/PdfToTextPlusPlus.cpp | 56 +++++++++++++++++++--------------------
 src/pdftotext++.cpp       | 12 ++++-----
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/PdfToTextPlusPlus.cpp b/src/PdfToTextPlusPlus.cpp
index 8e09d15..9ad5c33 100755
--- a/src/PdfToTextPlusPlus.cpp
+++ b/src/PdfToTextPlusPlus.cpp
@@ -12,7 +12,7 @@
 #include <poppler/PDFDocFactory.h>
 
 #include <cassert>  // assert
-#include <chrono>  // std::chrono::high_resolution_clock, etc.
+#include <chrono>  // std::chrono::steady_clock, etc.
 #include <memory>  // std::unique_ptr
 #include <string>
 #include <vector>
@@ -33,7 +33,7 @@
 #include "./WordsStatisticsCalculation.h"
 
 using std::chrono::duration_cast;
-using std::chrono::high_resolution_clock;
+using std::chrono::steady_clock;
 using std::chrono::milliseconds;
 using std::make_unique;
 using std::string;
@@ -77,10 +77,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
   globalParams = make_unique<GlobalParams>();
 
   // (1) Load the PDF file. Abort if it couldn't be loaded successfully.
-  auto start = high_resolution_clock::now();
+  auto start = steady_clock::now();
   GooString gooPdfFilePath(doc->pdfFilePath);
   unique_ptr<PDFDoc> pdfDoc = PDFDocFactory().createPDFDoc(gooPdfFilePath);
-  auto end = high_resolution_clock::now();
+  auto end = steady_clock::now();
   auto duration = duration_cast<milliseconds>(end - start).count();
   if (timings) {
     timings->push_back(Timing("Load PDF", duration));
@@ -91,7 +91,7 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (2) Parse the content streams of the PDF file for the characters, graphics and shapes.
   PdfParsing pp(doc, _config->pdfParsing);
-  start = high_resolution_clock::now();
+  start = steady_clock::now();
   pdfDoc->displayPages(
     &pp,
     1,  // firstPage
@@ -102,7 +102,7 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
     true,  // useMediaBox
     false,  // crop
     false);  // printing
-  end = high_resolution_clock::now();
+  end = steady_clock::now();
   duration = duration_cast<milliseconds>(end - start).count();
   if (timings) {
     timings->push_back(Timing("Parse PDF", duration));
@@ -110,10 +110,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (3) Calculate glyphs statistics, for example: the most frequent font size.
   if (_config->glyphsStatisticsCalculation.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     GlyphsStatisticsCalculation gsc(doc, &_config->glyphsStatisticsCalculation);
     gsc.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Calculate glyph statistics", duration));
@@ -122,10 +122,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (4) Merge the combining diacritical marks with their base characters.
   if (_config->diacriticalMarksMerging.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     DiacriticalMarksMerging dmm(doc, &_config->diacriticalMarksMerging);
     dmm.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Merge combining diacritics", duration));
@@ -134,10 +134,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (5) Detect the words.
   if (_config->wordsDetection.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     WordsDetection wd(doc, &_config->wordsDetection);
     wd.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Detect words", duration));
@@ -146,10 +146,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (6) Compute some statistics about the words, for example: the most frequent word height.
   if (_config->wordsStatisticsCalculation.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     WordsStatisticsCalculation wsc(doc, &_config->wordsStatisticsCalculation);
     wsc.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Calculate words statistics", duration));
@@ -158,10 +158,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (7) Segment the pages of the document (for identifying columns).
   if (_config->pageSegmentation.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     PageSegmentation ps(doc, &_config->pageSegmentation);
     ps.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Segment pages", duration));
@@ -170,10 +170,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (8) Detect the text lines.
   if (_config->textLinesDetection.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     TextLinesDetection tld(doc, &_config->textLinesDetection);
     tld.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Detect lines", duration));
@@ -192,10 +192,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (9) Detect subscripted and superscripted characters.
   if (_config->subSuperScriptsDetection.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     SubSuperScriptsDetection ssd(doc, &_config->subSuperScriptsDetection);
     ssd.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Detect sub/superscripts", duration));
@@ -204,10 +204,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (10) Compute some statistics about the text lines, for example: the most frequent indentation.
   if (_config->textLinesStatisticsCalculation.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     TextLinesStatisticsCalculation tlsc(doc, &_config->textLinesStatisticsCalculation);
     tlsc.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Calculate text line statistics", duration));
@@ -216,10 +216,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (11) Detect the text blocks.
   if (_config->textBlocksDetection.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     TextBlocksDetection tbd(doc, &_config->textBlocksDetection);
     tbd.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Detect text blocks", duration));
@@ -228,13 +228,13 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (12) Detect the reading order of the text blocks.
   if (_config->readingOrderDetection.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     ReadingOrderDetection rod(
       doc,
       &_config->readingOrderDetection,
       &_config->semanticRolesPrediction);
     rod.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Detect reading order", duration));
@@ -243,10 +243,10 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (13) Dehyphenate words, if not deactivated by the user.
   if (_config->wordsDehyphenation.disabled == false) {
-    start = high_resolution_clock::now();
+    start = steady_clock::now();
     WordsDehyphenation wdh(doc, &_config->wordsDehyphenation);
     wdh.process();
-    end = high_resolution_clock::now();
+    end = steady_clock::now();
     duration = duration_cast<milliseconds>(end - start).count();
     if (timings) {
       timings->push_back(Timing("Dehyphenate words", duration));
diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index ba54dc7..d2f9448 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -8,7 +8,7 @@
 
 #include <boost/program_options.hpp>
 
-#include <chrono>    // std::chrono::high_resolution_clock
+#include <chrono>    // std::chrono::steady_clock
 #include <cstdlib>   // putenv
 #include <iomanip>   // std::setw, std::setprecision
 #include <iostream>  // std::cout
@@ -40,7 +40,7 @@ using std::string;
 using std::unordered_set;
 using std::vector;
 using std::chrono::duration_cast;
-using std::chrono::high_resolution_clock;
+using std::chrono::steady_clock;
 using std::chrono::milliseconds;
 
 using boost::program_options::bool_switch;
@@ -696,7 +696,7 @@ int main(int argc, char* argv[]) {
 
   // Serialize the extraction result. If one of the --output-* options is used, output the text in
   // JSONL format. Otherwise, output the text as continuous text.
-  auto start = high_resolution_clock::now();
+  auto start = steady_clock::now();
   // if (outputPages || outputChars || outputFigures || outputShapes || outputWords|| outputBlock) {
   //   JsonlSerializer serializer(&doc,
   //     outputPages,
@@ -720,7 +720,7 @@ int main(int argc, char* argv[]) {
     unordered_set<PdfElementType> typesSet(types.begin(), types.end());
     isSerialized = serializer->serialize(&doc, rolesSet, typesSet, outputFilePath);
   }
-  auto end = high_resolution_clock::now();
+  auto end = steady_clock::now();
   Timing timingSerializeChars("Serialize", duration_cast<milliseconds>(end - start).count());
   timings.push_back(timingSerializeChars);
 
@@ -728,7 +728,7 @@ int main(int argc, char* argv[]) {
   bool isVisualized = true;
   const string visualizeFilePathStr(visualizeFilePath);
   if (!visualizeFilePathStr.empty()) {
-    auto start = high_resolution_clock::now();
+    auto start = steady_clock::now();
     PdfDocumentVisualization pdv(pdfFilePath, conf.pdfDocumentVisualization);
     if (visualizeChars) {
       pdv.visualizeCharacters(doc, ppp::visualization::color_schemes::blue);
@@ -764,7 +764,7 @@ int main(int argc, char* argv[]) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
     isVisualized = pdv.save(visualizeFilePathStr);
-    auto end = high_resolution_clock::now();
+    auto end = steady_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
   }
-- 
2.43.0


From 9c7441b55c89abd54b3179dd567988ff54055c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 11/29] fix: print the running times also with an unknown
 locale or without any measurable time

---
 src/pdftotext++.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index d2f9448..7ba73f3 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -772,7 +772,8 @@ int main(int argc, char* argv[]) {
   // Print the running times needed by the different pipeline steps, if requested by the user.
   if (printRunningTimes) {
     // Print the values with thousands separator.
-    cout.imbue(locale(""));
+    // NOTE: the user's locale may be unknown to the system, in which case it can't be used.
+    try { cout.imbue(locale("")); } catch (const exception& e) {}
     // Print the values with a precision of one decimal point.
     cout << fixed;
     cout << setprecision(1);
@@ -785,7 +786,8 @@ int main(int argc, char* argv[]) {
       string prefix = " * " + timing.name + ":";
       cout << std::left << setw(25) << prefix;
       cout << std::right << setw(4) << timing.time << " ms ";
-      double time = round(timing.time / static_cast<double>(timeTotal) * 100, 1);
+      double time = timeTotal > 0 ?
+          round(timing.time / static_cast<double>(timeTotal) * 100, 1) : 0;
       cout << "(" << time << "%)";
       cout << endl;
     }
-- 
2.43.0


From 042e18cdee5de2a29314bb6891cb514244f7af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:38 +0000
Subject: [PATCH 12/29] fix: compute the maximum of values that are not
 positive

---
 src/utils/Counter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..9cb13a5 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -56,12 +56,12 @@ pair<double, unsigned int> DoubleCounter::mostFreqAndCount() const {
 
 // _________________________________________________________________________________________________
 double DoubleCounter::max() const {
-  double max = numeric_limits<double>::min();
+  double max = numeric_limits<double>::lowest();
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-    if (it->second > 0 && larger(it->first, max)) {
-      max = it->first;
+    if (it->second > 0) {
+      if (larger(it->first, max)) { max = it->first; }
       entryFound = true;
     }
   }
-- 
2.43.0


From e5eb7fd034f00335d44ddd36ce731bf95f2a5304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 13/29] fix: merge diacritical marks also if their text cannot
 be composed

---
 src/DiacriticalMarksMerging.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..8bd765f 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -192,11 +192,14 @@ void DiacriticalMarksMerging::process() const {
         }
       }
 
-      uint8_t* output;
+      uint8_t* output = nullptr;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
+      utf8proc_map(bytesMerged.data(), bytesMerged.size(), &output, (utf8proc_option_t) options);
 
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      // Keep the text of the characters as it is if it can't be merged.
+      base->textWithDiacriticMark = output ? reinterpret_cast<char*>(output) :
+          base->text + mark->text;
+      free(output);
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From b1187b9f6e2879795420a033a2429c153be7ac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 14/29] fix: read the vocabularies to their end and fail if
 that is not possible

---
 src/SemanticRolesPrediction.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 43ed1f9..d261a2c 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -87,12 +87,7 @@ void SemanticRolesPrediction::readModel() {
 
   // Read the vocabulary line by line, where each line is of form <token>TAB<id>.
   wstring wline;
-  while (true) {
-    std::getline(bpeVocabFile, wline);
-
-    // Abort if the end of file was reached.
-    if (bpeVocabFile.eof()) { break; }
-
+  while (std::getline(bpeVocabFile, wline)) {
     // Split the line "<token>TAB<id>" into "<token>" and "<id>".
     size_t posTab = wline.find(L"\t");
     if (posTab == string::npos) { continue; }
@@ -100,6 +95,10 @@ void SemanticRolesPrediction::readModel() {
     int tokenId = stoi(wline.substr(posTab + 1));
     _bpeVocab.insert(make_pair(token, tokenId));
   }
+  // Abort if the file couldn't be read to its end.
+  if (bpeVocabFile.bad()) {
+    throw invalid_argument("Could not read vocab file \"" + bpeVocabFilePath + "\"");
+  }
 
   // -----------
   // Read the roles vocabulary.
@@ -109,11 +108,7 @@ void SemanticRolesPrediction::readModel() {
     throw invalid_argument("Could not load vocab file \"" + rolesVocabFilePath + "\"");
   }
   string line;
-  while (true) {
-    std::getline(vocabFile, line);
-    if (vocabFile.eof()) {
-      break;
-    }
+  while (std::getline(vocabFile, line)) {
     size_t posTab = line.find("\t");
     if (posTab == string::npos) { continue; }
 
@@ -121,6 +116,10 @@ void SemanticRolesPrediction::readModel() {
     int roleId = stoi(line.substr(posTab + 1));
     _rolesVocab[roleId] = roleStr;
   }
+  // Abort if the file couldn't be read to its end.
+  if (vocabFile.bad()) {
+    throw invalid_argument("Could not read vocab file \"" + rolesVocabFilePath + "\"");
+  }
 
   bpeVocabFile.close();
   // No need to delete codecvt.
-- 
2.43.0


From fe649cf232e267ca67e6fae1ffd686e13f33aa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 15/29] fix: fail if the output of the semantic roles model
 does not fit the text blocks

---
 src/SemanticRolesPrediction.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index d261a2c..7606fa2 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -9,6 +9,7 @@
 #include <cppflow/cppflow.h>
 
 #include <cassert>  // assert
+#include <cmath>  // std::isnan
 #include <codecvt>  // std::codecvt_utf8
 #include <fstream>  // std::wifstream
 #include <limits>  // std::numeric_limits
@@ -34,6 +35,7 @@ using std::wstring;
 using ppp::config::SemanticRolesPredictionConfig;
 using ppp::types::PdfDocument;
 using ppp::types::PdfFontInfo;
+using ppp::types::SEMANTIC_ROLE_NAMES;
 using ppp::types::SemanticRole;
 using ppp::utils::BytePairEncoder;
 
@@ -142,19 +144,29 @@ void SemanticRolesPrediction::predict(const PdfDocument* doc) {
   }, { "StatefulPartitionedCall:0" })[0];
 
   vector<int64_t> shape = output.shape().get_data<int64_t>();
-  assert(shape.size() == 2);
-  int64_t yDim = shape[1];
-
   vector<float> outputData = output.get_data<float>();
 
+  // Abort if the output does not provide exactly one probability per text block and semantic role.
+  int64_t numBlocks = 0;
+  for (const auto* page : doc->pages) { numBlocks += page->blocks.size(); }
+  int64_t numRoles = SEMANTIC_ROLE_NAMES.size();
+  if (shape.size() != 2 || shape[0] != numBlocks || shape[1] != numRoles ||
+      static_cast<int64_t>(outputData.size()) != numBlocks * numRoles) {
+    throw invalid_argument("The output of the semantic roles model has an unexpected shape");
+  }
+  int64_t yDim = shape[1];
+
   // For each block, determine the role with the highest probability.
   int blockIndex = 0;
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // For the block, find the role with the highest probability.
-      float maxProb = 0;
+      float maxProb = -numeric_limits<float>::infinity();
       int64_t maxSemanticRoleNum = 0;
       for (int64_t roleNum = 0; roleNum < yDim; roleNum++) {
+        if (std::isnan(outputData[blockIndex * yDim + roleNum])) {
+          throw invalid_argument("The output of the semantic roles model is not a number");
+        }
         if (outputData[blockIndex * yDim + roleNum] > maxProb) {
           maxProb = outputData[blockIndex * yDim + roleNum];
           maxSemanticRoleNum = roleNum;
-- 
2.43.0


From 0c7c38c61c27e5a701e9a18fedc03a483cc7a05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 16/29] fix: do not use a semantic roles model that was read
 only partially

---
 src/SemanticRolesPrediction.cpp | 13 ++++++-------
 src/SemanticRolesPrediction.h   |  3 ++-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 7606fa2..6f50223 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -13,6 +13,7 @@
 #include <codecvt>  // std::codecvt_utf8
 #include <fstream>  // std::wifstream
 #include <limits>  // std::numeric_limits
+#include <memory>  // std::make_unique
 #include <string>
 #include <utility>  // std::make_pair
 #include <vector>
@@ -25,6 +26,7 @@
 using std::ifstream;
 using std::invalid_argument;
 using std::make_pair;
+using std::make_unique;
 using std::numeric_limits;
 using std::stoi;
 using std::string;
@@ -49,11 +51,7 @@ SemanticRolesPrediction::SemanticRolesPrediction(const SemanticRolesPredictionCo
 }
 
 // _________________________________________________________________________________________________
-SemanticRolesPrediction::~SemanticRolesPrediction() {
-  if (_modelOk) {
-    delete _model;
-  }
-}
+SemanticRolesPrediction::~SemanticRolesPrediction() = default;
 
 // _________________________________________________________________________________________________
 void SemanticRolesPrediction::readModel() {
@@ -70,8 +68,7 @@ void SemanticRolesPrediction::readModel() {
   string bpeVocabFilePath = modelsDirPath + "/bpe-vocab.tsv";
   string rolesVocabFilePath = modelsDirPath + "/roles-vocab.tsv";
 
-  _model = new cppflow::model(modelsDirPath);
-  _modelOk = true;
+  _model = make_unique<cppflow::model>(modelsDirPath);
 
   // -----------
   // Read the BPE vocabulary.
@@ -125,6 +122,8 @@ void SemanticRolesPrediction::readModel() {
 
   bpeVocabFile.close();
   // No need to delete codecvt.
+
+  _modelOk = true;
 }
 
 // _________________________________________________________________________________________________
diff --git a/src/SemanticRolesPrediction.h b/src/SemanticRolesPrediction.h
index e2a688f..9fe5e39 100755
--- a/src/SemanticRolesPrediction.h
+++ b/src/SemanticRolesPrediction.h
@@ -13,6 +13,7 @@
 
 #include <codecvt>  // std::codecvt_utf8_utf16
 #include <locale>  // std::wstring_convert
+#include <memory>  // std::unique_ptr
 #include <string>
 #include <unordered_map>
 
@@ -99,7 +100,7 @@ class SemanticRolesPrediction {
 
   // The model loaded from file.
   // tensorflow::SavedModelBundle _bundle;
-  cppflow::model* _model;
+  std::unique_ptr<cppflow::model> _model;
 
   // The mapping of byte pairs to integer ids, for example: {"para": 0; "eff": 1, "icient": 2}.
   unordered_map<wstring, int> _bpeVocab;
-- 
2.43.0


From 5fed2c3d37492b934b517ab3a70c52d58114d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:18 +0000
Subject: [PATCH 17/29] fix: check whether a word starts with an upper case
 letter for all Unicode characters

---
 src/SemanticRolesPrediction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 6f50223..6e66347 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -349,7 +349,7 @@ cppflow::tensor SemanticRolesPrediction::createLayoutInputTensor(const PdfDocume
           // Convert the block text to a wstring, to correctly handle umlauts etc.
           wstring wWordText = stringConverter.from_bytes(word->text);
 
-          if (wWordText.length() > 0 && isupper(wWordText[0])) {
+          if (wWordText.length() > 0 && iswupper(wWordText[0])) {
             numUppercasedWords += 1;
           }
           numWords++;
-- 
2.43.0


From 9e9493a8ec8b82a3685e4f8a1a28ea8518a424c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 18/29] fix: encode characters that are lone surrogates as the
 replacement character

---
 src/PdfParsing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index fd3362b..88d7c9c 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -216,7 +216,9 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
       // Usually, uLen == 1 (meaning that the character represents a single character.
       // But it may uLen > 1, for example for ligatures.
       for (int i = 0; i < uLen; i++) {
-        n = uMap->mapUnicode(u[i], buf, sizeof(buf));
+        // Replace lone surrogates by the replacement character; they can't be encoded in UTF-8.
+        bool isSurrogate = u[i] >= 0xd800 && u[i] <= 0xdfff;
+        n = uMap->mapUnicode(isSurrogate ? 0xfffd : u[i], buf, sizeof(buf));
         ch->text.append(buf, n);
       }
     }
-- 
2.43.0


From 0746e12836e8f98bfec92c6f6d35c1c1f89f9e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:54 +0000
Subject: [PATCH 19/29] fix: define the role of text blocks whose role was not
 predicted

---
 src/Types.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Types.h b/src/Types.h
index 078e739..ae01c01 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -755,8 +755,8 @@ class PdfTextBlock : public PdfTextElement {
   // A reference to the segment of which this text block is a part.
   const PdfPageSegment* segment = nullptr;
 
-  // The semantic role of this text block.
-  SemanticRole role;
+  // The semantic role of this text block (OTHER, as long as it was not predicted).
+  SemanticRole role = SemanticRole::OTHER;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From 4b225fcc31fe130f7a672b6d03cf8eef98189b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:56 +0000
Subject: [PATCH 20/29] fix: do not predict semantic roles if the user asked to
 skip that

---
 src/SemanticRolesPrediction.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SemanticRolesPrediction.cpp b/src/SemanticRolesPrediction.cpp
index 6e66347..0592fc2 100755
--- a/src/SemanticRolesPrediction.cpp
+++ b/src/SemanticRolesPrediction.cpp
@@ -130,6 +130,11 @@ void SemanticRolesPrediction::readModel() {
 void SemanticRolesPrediction::predict(const PdfDocument* doc) {
   assert(doc);
 
+  // Do nothing if the prediction of the semantic roles was deactivated by the user.
+  if (_config->disabled) {
+    return;
+  }
+
   if (!_modelOk) {
     readModel();
   }
-- 
2.43.0


From 691416793eddc854ff7e173e3c4585774d780a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:45 +0000
Subject: [PATCH 21/29] fix: ignore implausible bounding boxes of glyphs from
 damaged font files

---
 src/PdfParsing.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 88d7c9c..103e59a 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -447,9 +447,17 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
     rightX = maximum(leftX3, rightX3);
     lowerY = maximum(upperY3, lowerY3);
 
+    // Ignore the alternative bounding box if it is implausibly large, measured by the font size.
+    // This is the case for glyphs whose description in the embedded font file is damaged.
+    bool isPlausible = true;
+    for (double coordinate : { leftX2, upperY2, rightX2, lowerY2 }) {
+      isPlausible = isPlausible && fabs(coordinate) <= 10;
+    }
+
     // Update the bounding box when the alternative bounding box has a larger vertical extent.
     double tolerance = _config.coordsEqualTolerance;
-    if (smaller(upperY, posUpperY, tolerance) || larger(lowerY, posLowerY, tolerance)) {
+    if (isPlausible &&
+        (smaller(upperY, posUpperY, tolerance) || larger(lowerY, posLowerY, tolerance))) {
       posLeftX = leftX;
       posUpperY = upperY;
       posRightX = rightX;
-- 
2.43.0


From 84ed7a569e0ab6702e1ece2a6b8963862ebf3aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 22/29] fix: do not lose the last parts of words that are
 hyphenated more than once

---
 src/WordsDehyphenation.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..abb74c3 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,8 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  // The merged word that the last word of the previous line is the last part of (if any).
+  PdfWord* prevMergedWord = nullptr;
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -46,6 +48,7 @@ void WordsDehyphenation::process() const {
           continue;
         }
 
+        PdfWord* currMergedWord = nullptr;
         if (prevLine) {
           PdfWord* prevLineLastWord = prevLine->words[prevLine->words.size() - 1];
           string prevLineLastWordText = prevLineLastWord->text;
@@ -60,18 +63,28 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              // NOTE: if the previous line consists of a single word that is itself a part of a
+              // hyphenated word, the word is split over more than two lines. So extend the word.
+              PdfWord* mergedWord = prevMergedWord;
+              if (!mergedWord) {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+                mergedWord->text = prevLineLastWordText;
+                prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
+              }
+              mergedWord->text.pop_back();
               mergedWord->text += currLineFirstWordText;
-
-              prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
               currLineFirstWord->isSecondPartOfHyphenatedWord = mergedWord;
+
+              if (line->words.size() == 1) {
+                currMergedWord = mergedWord;
+              }
             }
           }
         }
 
         prevLine = line;
+        prevMergedWord = currMergedWord;
       }
     }
   }
-- 
2.43.0


From 15d6b44d0caf8bf4cffa805b98c601b3d841e5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:52 +0000
Subject: [PATCH 23/29] fix: a word belongs to at most one stacked math symbol

A word between two symbols was put into both of them and hence output twice; a
word that belonged to a symbol that is itself part of another one was lost.
---
 src/WordsDetection.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..8de3c1b 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -307,6 +307,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       continue;
     }
 
+    // Skip the word if it is already part of another stacked math symbol. A word belongs to at most
+    // one stacked math symbol, otherwise it (or its own parts) would be output twice or not at all.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of stacked math symbol)." << OFF << endl;
+      continue;
+    }
+
     // Iterate through the previous words in reversed order (starting at the current word) for
     // checking if they are also part of the stacked math symbol. Consider a word to be part of the
     // stacked math symbol, if the horizontal overlap between the word and the base word is
@@ -345,6 +352,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The previous word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol.
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to another stacked math symbol)." << OFF << endl;
+        break;
+      }
+
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
       word->isBaseOfStackedMathSymbol.push_back(prevWord);
       prevWord->isPartOfStackedMathSymbol = word;
@@ -387,6 +402,14 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
         break;
       }
 
+      // The next word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol.
+      if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "is *not* part of the stacked math symbol "
+            << "(belongs to another stacked math symbol)." << OFF << endl;
+        break;
+      }
+
       word->isBaseOfStackedMathSymbol.push_back(nextWord);
       nextWord->isPartOfStackedMathSymbol = word;
       _log->debug(p) << BOLD << "is part of the stacked math symbol." << OFF << endl;
-- 
2.43.0


From 1af0d688af03b5a5fca735c9ab62f6fec3de5d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 24/29] fix: drop the check for formats without a serializer,
 which the option parser already rejects

---
 src/pdftotext++.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index 7ba73f3..ca485e6 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -597,13 +597,6 @@ int main(int argc, char* argv[]) {
     return EXIT_SUCCESS;
   }
 
-  // Abort if there is no serializer for the requested format.
-  if (!ppp::serialization::getSerializer(format)) {
-    cerr << "The requested output format is not supported. ";
-    cerr << "Type \"" << programName << " --help\" for printing the help." << endl;
-    return EXIT_FAILURE;
-  }
-
   // Disable the log output of Tensorflow.
   char env[] = "TF_CPP_MIN_LOG_LEVEL=3";
   putenv(env);
-- 
2.43.0


From 0f613ddb0b4da9cba1bbee8a0e58ca5eac9ee3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:30 +0000
Subject: [PATCH 25/29] fix: keep every diacritical mark of a character that
 has several

---
 src/DiacriticalMarksMerging.cpp | 83 +++++++++++++++++++--------------
 src/DiacriticalMarksMerging.h   | 17 +++++--
 2 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index 8bd765f..1df7990 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -10,6 +10,7 @@
 #include <utf8proc.h>
 
 #include <cassert>  // assert
+#include <string>
 #include <vector>
 
 #include "./DiacriticalMarksMerging.h"
@@ -19,6 +20,7 @@
 #include "./utils/PdfElementsUtils.h"
 
 using std::endl;
+using std::string;
 using std::vector;
 
 using ppp::config::DiacriticalMarksMergingConfig;
@@ -69,14 +71,23 @@ void DiacriticalMarksMerging::process() const {
   // diacritical mark. If so, compute the horizontal overlap with the respective previous and next
   // character. Merge the diacritic mark with the character yielding the larger horizontal overlap.
   // If the horizontal overlap with both character is zero, do not merge the diacritic mark with
-  // any character.
+  // any character. The previous and next character are the nearest characters that do not represent
+  // a diacritical mark, so that all marks of a character with several marks are merged with it.
   for (const auto* page : _doc->pages) {
     int p = page->pageNum;
 
+    // For each character, compute the next character that does not represent a diacritical mark.
+    vector<PdfCharacter*> nextChars(page->characters.size(), nullptr);
+    for (size_t i = page->characters.size(); i > 1; i--) {
+      PdfCharacter* next = page->characters[i - 1];
+      nextChars[i - 2] = isDiacriticMark(getUnicode(next)) ? nextChars[i - 1] : next;
+    }
+
+    PdfCharacter* lastNonMark = nullptr;
     for (size_t i = 0; i < page->characters.size(); i++) {
-      PdfCharacter* prevChar = i > 0 ? page->characters[i - 1] : nullptr;
+      PdfCharacter* prevChar = lastNonMark;
       PdfCharacter* currChar = page->characters[i];
-      PdfCharacter* nextChar = i < page->characters.size() - 1 ? page->characters[i + 1] : nullptr;
+      PdfCharacter* nextChar = nextChars[i];
 
       _log->debug(p) << "=======================================" << endl;
       _log->debug(p) << BOLD << "char: \"" << currChar->text << "\"" << OFF << endl;
@@ -92,34 +103,12 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << " • char.rotLowerY: " << currChar->pos->getRotLowerY() << endl;
       }
 
-      // Skip the character if it does not contain exactly one unicode.
-      if (currChar->unicodes.size() != 1) {
-         _log->debug(p) << BOLD << "Skipping character (more than one unicode)." << OFF << endl;
-        continue;
-      }
-
-      // Get the unicode of the character. If it is contained in combininMap, replace the unicode
-      // by its combining equivalent.
-      unsigned int unicode = currChar->unicodes[0];
-      if (_config->combiningMap.count(unicode) > 0) {
-        unicode = _config->combiningMap.at(unicode);
-      }
-
-      // The character is a diacritic mark when its unicode falls into one of the categories:
-      //   - "Spacing Modifier Letters" (that is: into the range 02B0 - 02FF),
-      //   - "Combining Diacritic Marks" (that is: into the range 0300 - 036F)
-      bool isDiacriticMark = false;
-      if (unicode >= 0x02B0 && unicode <= 0x02FF) {
-        isDiacriticMark = true;
-      }
-      if (unicode >= 0x0300 && unicode <= 0x036f) {
-        isDiacriticMark = true;
-      }
-      _log->debug(p) << " • char.isDiacriticMark: " << isDiacriticMark << endl;
-
       // Skip the character if it does not represent a diacritic mark.
-      if (!isDiacriticMark) {
+      Unicode unicode = getUnicode(currChar);
+      _log->debug(p) << " • char.isDiacriticMark: " << isDiacriticMark(unicode) << endl;
+      if (!isDiacriticMark(unicode)) {
         _log->debug(p) << BOLD << "Skipping character (no diacritical mark)." << OFF << endl;
+        lastNonMark = currChar;
         continue;
       }
 
@@ -174,16 +163,20 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << BOLD << "Merge diacritic with next character." << OFF << endl;
         base = nextChar;
       }
-      mark->isDiacriticMarkOfBaseChar = base;
-      base->isBaseCharOfDiacriticMark = mark;
 
       // Compute the text with the base character and the diacritic mark merged to a single
       // character, using the utf8proc library.
+      // If the base character was already merged with other marks, keep these marks.
+      string textUnmerged = base->isBaseCharOfDiacriticMark ? base->textWithDiacriticMark : base->text;
+      vector<uint8_t> bytesMerged;
       vector<Unicode> unicodesMerged;
-      for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
+      if (base->isBaseCharOfDiacriticMark) {
+        bytesMerged.assign(textUnmerged.begin(), textUnmerged.end());
+      } else {
+        unicodesMerged.assign(base->unicodes.begin(), base->unicodes.end());
+      }
       unicodesMerged.push_back(unicode);
 
-      vector<uint8_t> bytesMerged;
       char buf[8];
       for (const auto& u : unicodesMerged) {
         int len = uMap->mapUnicode(u, buf, sizeof(buf));
@@ -194,13 +187,17 @@ void DiacriticalMarksMerging::process() const {
 
       uint8_t* output = nullptr;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(bytesMerged.data(), bytesMerged.size(), &output, (utf8proc_option_t) options);
+      auto length = utf8proc_map(bytesMerged.data(), bytesMerged.size(), &output,
+          (utf8proc_option_t) options);
 
       // Keep the text of the characters as it is if it can't be merged.
-      base->textWithDiacriticMark = output ? reinterpret_cast<char*>(output) :
-          base->text + mark->text;
+      base->textWithDiacriticMark = output ? string(reinterpret_cast<char*>(output), length) :
+          textUnmerged + mark->text;
       free(output);
 
+      mark->isDiacriticMarkOfBaseChar = base;
+      base->isBaseCharOfDiacriticMark = mark;
+
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
       base->pos->upperY = minimum(base->pos->upperY, mark->pos->upperY);
@@ -217,4 +214,18 @@ void DiacriticalMarksMerging::process() const {
   }
 }
 
+// _________________________________________________________________________________________________
+Unicode DiacriticalMarksMerging::getUnicode(const PdfCharacter* ch) const {
+  if (ch->unicodes.size() != 1) {
+    return 0;
+  }
+  auto it = _config->combiningMap.find(ch->unicodes[0]);
+  return it != _config->combiningMap.end() ? it->second : ch->unicodes[0];
+}
+
+// _________________________________________________________________________________________________
+bool DiacriticalMarksMerging::isDiacriticMark(Unicode unicode) const {
+  return (unicode >= 0x02B0 && unicode <= 0x02FF) || (unicode >= 0x0300 && unicode <= 0x036F);
+}
+
 }  // namespace ppp::modules
diff --git a/src/DiacriticalMarksMerging.h b/src/DiacriticalMarksMerging.h
index e6013d9..0f4e33f 100755
--- a/src/DiacriticalMarksMerging.h
+++ b/src/DiacriticalMarksMerging.h
@@ -14,6 +14,7 @@
 #include "./utils/Log.h"
 
 using ppp::config::DiacriticalMarksMergingConfig;
+using ppp::types::PdfCharacter;
 using ppp::types::PdfDocument;
 using ppp::utils::log::Logger;
 
@@ -49,9 +50,10 @@ class DiacriticalMarksMerging {
    *
    * The basic approach is as follows: The characters of each page are iterated. For each
    * character, it is checked whether or not it represents a diacritic mark. If so, the horizontal
-   * overlap with the respective previous and next character is computed. The diacritic mark is
-   * then merged with the character yielding the larger horizontal overlap (if this overlap exceeds
-   * a certain threshold).
+   * overlap with the respective previous and next character that does not represent a diacritic
+   * mark is computed. The diacritic mark is then merged with the character yielding the larger
+   * horizontal overlap (if this overlap exceeds a certain threshold). If several marks are merged
+   * with the same character, all of them are kept.
    *
    * Let `mark` be a diacritic mark and `base` the base character with which the diacritic mark
    * should be merged. The actual merging process is realized as follows:
@@ -68,6 +70,15 @@ class DiacriticalMarksMerging {
   void process() const;
 
  private:
+  /**
+   * Returns the unicode of the given character, in its combining variant if there is one. Returns 0
+   * if the character does not consist of exactly one unicode.
+   */
+  Unicode getUnicode(const PdfCharacter* ch) const;
+
+  /** Returns true if the given (combining) unicode represents a diacritic mark. */
+  bool isDiacriticMark(Unicode unicode) const;
+
   // The PDF document to process.
   PdfDocument* _doc;
   // The configuration to use.
-- 
2.43.0


From 1b96a56300c25527b02858927c09e0089b77e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:57 +0000
Subject: [PATCH 26/29] fix: report that the PDF was changed before it was
 visualized

---
 src/pdftotext++.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/pdftotext++.cpp b/src/pdftotext++.cpp
index ca485e6..ecc8ade 100755
--- a/src/pdftotext++.cpp
+++ b/src/pdftotext++.cpp
@@ -6,6 +6,8 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <sys/stat.h>  // stat
+
 #include <boost/program_options.hpp>
 
 #include <chrono>    // std::chrono::steady_clock
@@ -14,6 +16,7 @@
 #include <iostream>  // std::cout
 #include <locale>    // imbue
 #include <string>
+#include <tuple>
 #include <unordered_set>
 #include <vector>
 
@@ -37,6 +40,7 @@ using std::locale;
 using std::setprecision;
 using std::setw;
 using std::string;
+using std::tuple;
 using std::unordered_set;
 using std::vector;
 using std::chrono::duration_cast;
@@ -152,6 +156,16 @@ void printVersionMessage() {
   cout << programName << ", version " << version << endl;
 }
 
+/**
+ * This method returns a fingerprint of the given file (its identity, size, and the time of its last
+ * modification), for checking if the file was changed between two points in time.
+ */
+tuple<dev_t, ino_t, off_t, time_t, int64_t> getFileFingerprint(const string& filePath) {
+  struct stat s = {};
+  stat(filePath.c_str(), &s);
+  return { s.st_dev, s.st_ino, s.st_size, s.st_mtim.tv_sec, s.st_mtim.tv_nsec };
+}
+
 // =================================================================================================
 
 /**
@@ -671,6 +685,9 @@ int main(int argc, char* argv[]) {
   PdfDocument doc(pdfFilePath);
   vector<Timing> timings;
 
+  // The PDF is read once more for visualizing it. Check that it does not change in the meantime.
+  auto fingerprint = getFileFingerprint(pdfFilePath);
+
   int status = 0;
   // TODO(korzen): Don't use exceptions; they are currently thrown by SemanticRolesPredictor.
   // Instead, use the exit code to check if something went wrong.
@@ -757,6 +774,10 @@ int main(int argc, char* argv[]) {
       pdv.visualizeReadingOrderCuts(doc, ppp::visualization::color_schemes::blue);
     }
     isVisualized = pdv.save(visualizeFilePathStr);
+    if (isVisualized && fingerprint != getFileFingerprint(pdfFilePath)) {
+      cerr << "An error occurred: the PDF file was changed while visualizing it." << endl;
+      isVisualized = false;
+    }
     auto end = steady_clock::now();
     Timing timingVisualizing("Visualize", duration_cast<milliseconds>(end - start).count());
     timings.push_back(timingVisualizing);
-- 
2.43.0


From 6f8f1297fa66f122fbc07b3b224f98a4ce6e3546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 27/29] fix: bounding boxes of elements left of or above the
 page

The right and lower bounds were accumulated starting at the smallest positive
number, so that boxes of elements with negative coordinates extended to 0 and
gaps between characters left of the page were not seen.
---
 src/ReadingOrderDetection.cpp          | 4 ++--
 src/TextLinesDetection.cpp             | 2 ++
 src/Types.h                            | 4 ++--
 src/WordsDetection.cpp                 | 8 ++++----
 src/utils/PageSegmentationUtils.cpp    | 4 ++++
 src/utils/TextBlocksDetectionUtils.cpp | 2 ++
 src/utils/WordsDetectionUtils.cpp      | 2 ++
 src/utils/XYCut.cpp                    | 4 ++--
 8 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..010284e 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -414,6 +414,8 @@ void TextLinesDetection::computeTextLineProperties(PdfTextLine* line) const {
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   DoubleCounter baseCounter;
+  line->pos->rightX = numeric_limits<double>::lowest();
+  line->pos->lowerY = numeric_limits<double>::lowest();
   for (size_t i = 0; i < line->words.size(); i++) {
     PdfWord* word = line->words[i];
 
diff --git a/src/Types.h b/src/Types.h
index ae01c01..cc8ce30 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -664,8 +664,8 @@ class PdfTextLine : public PdfTextElement {
   // text line that are *not* subscripted or superscripted.
   double baseBBoxLeftX = numeric_limits<double>::max();
   double baseBBoxUpperY = numeric_limits<double>::max();
-  double baseBBoxRightX = numeric_limits<double>::min();
-  double baseBBoxLowerY = numeric_limits<double>::min();
+  double baseBBoxRightX = numeric_limits<double>::lowest();
+  double baseBBoxLowerY = numeric_limits<double>::lowest();
 
   // The maximum font size among the characters in this text line.
   double maxFontSize = 0.0;
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index 8de3c1b..9a214c5 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -82,8 +82,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -138,8 +138,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..3eec9e5 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -47,6 +47,10 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
   // Compute and set the coordinates of the bounding box.
+  if (!elements.empty()) {
+    segment->pos->rightX = numeric_limits<double>::lowest();
+    segment->pos->lowerY = numeric_limits<double>::lowest();
+  }
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
     segment->pos->upperY = minimum(segment->pos->upperY, element->pos->upperY);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..8a0f3dd 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -702,6 +702,8 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   // Compute the bounding box and the trim box and count the different font names and font sizes.
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
+  block->pos->rightX = numeric_limits<double>::lowest();
+  block->pos->lowerY = numeric_limits<double>::lowest();
   for (size_t i = 0; i < lines.size(); i++) {
     PdfTextLine* prevLine = i > 0 ? lines[i-1] : nullptr;
     PdfTextLine* currLine = lines[i];
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..21444b0 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -56,6 +56,8 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
   string text;
+  word->pos->rightX = numeric_limits<double>::lowest();
+  word->pos->lowerY = numeric_limits<double>::lowest();
   for (auto* ch : characters) {
     // Update the x,y-coordinates of the bounding box.
     word->pos->leftX = minimum(word->pos->leftX, ch->pos->leftX);
diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..161dbde 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -242,7 +242,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From ea8b88c5b86269f09287d03fa68fd6b1fd135b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 28/29] fix: bounding boxes of words that are rotated by 180
 degrees

The leftX of a character that is rotated by 180 degrees is larger than its
rightX; the box of its word left out the first and the last character.
---
 src/utils/WordsDetectionUtils.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index 21444b0..8635d4c 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -60,10 +60,11 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   word->pos->lowerY = numeric_limits<double>::lowest();
   for (auto* ch : characters) {
     // Update the x,y-coordinates of the bounding box.
-    word->pos->leftX = minimum(word->pos->leftX, ch->pos->leftX);
-    word->pos->upperY = minimum(word->pos->upperY, ch->pos->upperY);
-    word->pos->rightX = maximum(word->pos->rightX, ch->pos->rightX);
-    word->pos->lowerY = maximum(word->pos->lowerY, ch->pos->lowerY);
+    // NOTE: The leftX of a character that is rotated by 180 degrees is larger than its rightX.
+    word->pos->leftX = minimum(word->pos->leftX, minimum(ch->pos->leftX, ch->pos->rightX));
+    word->pos->upperY = minimum(word->pos->upperY, minimum(ch->pos->upperY, ch->pos->lowerY));
+    word->pos->rightX = maximum(word->pos->rightX, maximum(ch->pos->leftX, ch->pos->rightX));
+    word->pos->lowerY = maximum(word->pos->lowerY, maximum(ch->pos->upperY, ch->pos->lowerY));
 
     // Compose the text. If the char was merged with a diacritic mark, append the text with the
     // diacritic mark. If the char is a diacritic mark which was merged with a base char, ignore
-- 
2.43.0


From f365aa040341c275f1929198cad5aa6d64b39974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:02 +0000
Subject: [PATCH 29/29] fix: fail if the PDF cannot be read to its end instead
 of processing a part of it

Poppler takes a read error for the end of the file. With a read error in the middle of the PDF, the
run ended with exit status 0 and only a part of the text (or a truncated visualization).
---
 src/PdfDocumentVisualization.cpp |  6 +--
 src/PdfDocumentVisualization.h   |  3 ++
 src/PdfToTextPlusPlus.cpp        |  7 ++--
 src/utils/PdfLoader.h            | 67 ++++++++++++++++++++++++++++++++
 4 files changed, 77 insertions(+), 6 deletions(-)
 create mode 100644 src/utils/PdfLoader.h

diff --git a/src/PdfDocumentVisualization.cpp b/src/PdfDocumentVisualization.cpp
index 3de9eb9..f664998 100755
--- a/src/PdfDocumentVisualization.cpp
+++ b/src/PdfDocumentVisualization.cpp
@@ -11,7 +11,6 @@
 #include <poppler/ErrorCodes.h>
 #include <poppler/PDFDoc.h>
 #include <poppler/PDFDocEncoding.h>
-#include <poppler/PDFDocFactory.h>
 
 #include <cmath>  // fabs
 #include <cstdio>  // fopen, fclose
@@ -27,6 +26,7 @@
 #include "./Types.h"
 #include "./utils/MathUtils.h"
 #include "./utils/PdfElementsUtils.h"
+#include "./utils/PdfLoader.h"
 
 using std::cerr;
 using std::endl;
@@ -54,6 +54,7 @@ using ppp::types::PdfTextLine;
 using ppp::types::PdfWord;
 using ppp::types::SemanticRole;
 using ppp::utils::elements::getSemanticRoleName;
+using ppp::utils::loadPdf;
 using ppp::utils::math::smaller;
 
 // =================================================================================================
@@ -64,8 +65,7 @@ namespace ppp::visualization {
 PdfDocumentVisualization::PdfDocumentVisualization(const string& pdfFilePath,
     const PdfDocumentVisualizationConfig& config) {
   // Load the PDF document.
-  GooString gooPdfFilePath(pdfFilePath);
-  _pdfDoc = PDFDocFactory().createPDFDoc(gooPdfFilePath);
+  _pdfDoc = loadPdf(pdfFilePath, &_pdf);
 
   // Check if the document could be loaded (it could have been removed or changed meanwhile).
   _ok = _pdfDoc->isOk();
diff --git a/src/PdfDocumentVisualization.h b/src/PdfDocumentVisualization.h
index 46a9256..73ba104 100755
--- a/src/PdfDocumentVisualization.h
+++ b/src/PdfDocumentVisualization.h
@@ -375,6 +375,9 @@ class PdfDocumentVisualization {
    */
   string convertToUtf16(const string& str) const;
 
+  // The content of the PDF file (it is used by _pdfDoc, and must outlive it).
+  string _pdf;
+
   // The PDF document to process.
   unique_ptr<PDFDoc> _pdfDoc;
 
diff --git a/src/PdfToTextPlusPlus.cpp b/src/PdfToTextPlusPlus.cpp
index 9ad5c33..89466ee 100755
--- a/src/PdfToTextPlusPlus.cpp
+++ b/src/PdfToTextPlusPlus.cpp
@@ -9,7 +9,6 @@
 #include <goo/GooString.h>
 #include <poppler/GlobalParams.h>
 #include <poppler/PDFDoc.h>
-#include <poppler/PDFDocFactory.h>
 
 #include <cassert>  // assert
 #include <chrono>  // std::chrono::steady_clock, etc.
@@ -31,6 +30,7 @@
 #include "./WordsDehyphenation.h"
 #include "./WordsDetection.h"
 #include "./WordsStatisticsCalculation.h"
+#include "./utils/PdfLoader.h"
 
 using std::chrono::duration_cast;
 using std::chrono::steady_clock;
@@ -55,6 +55,7 @@ using ppp::modules::WordsDetection;
 using ppp::modules::WordsStatisticsCalculation;
 using ppp::types::PdfDocument;
 using ppp::types::Timing;
+using ppp::utils::loadPdf;
 
 // =================================================================================================
 
@@ -78,8 +79,8 @@ int PdfToTextPlusPlus::process(PdfDocument* doc, vector<Timing>* timings) const
 
   // (1) Load the PDF file. Abort if it couldn't be loaded successfully.
   auto start = steady_clock::now();
-  GooString gooPdfFilePath(doc->pdfFilePath);
-  unique_ptr<PDFDoc> pdfDoc = PDFDocFactory().createPDFDoc(gooPdfFilePath);
+  string pdf;
+  unique_ptr<PDFDoc> pdfDoc = loadPdf(doc->pdfFilePath, &pdf);
   auto end = steady_clock::now();
   auto duration = duration_cast<milliseconds>(end - start).count();
   if (timings) {
diff --git a/src/utils/PdfLoader.h b/src/utils/PdfLoader.h
new file mode 100644
index 0000000..0954e0d
--- /dev/null
+++ b/src/utils/PdfLoader.h
@@ -0,0 +1,67 @@
+/**
+ * Copyright 2023, University of Freiburg,
+ * Chair of Algorithms and Data Structures.
+ * Author: Claudius Korzen <korzen@cs.uni-freiburg.de>.
+ *
+ * Modified under the Poppler project - http://poppler.freedesktop.org
+ */
+
+#ifndef UTILS_PDFLOADER_H_
+#define UTILS_PDFLOADER_H_
+
+#include <goo/GooString.h>
+#include <poppler/Error.h>
+#include <poppler/ErrorCodes.h>
+#include <poppler/Object.h>
+#include <poppler/PDFDoc.h>
+#include <poppler/PDFDocFactory.h>
+#include <poppler/Stream.h>
+
+#include <cstdio>  // fopen, fread, ferror, fclose
+#include <memory>  // std::unique_ptr, std::make_unique
+#include <string>
+
+// =================================================================================================
+
+namespace ppp::utils {
+
+/**
+ * This method loads the given PDF file.
+ *
+ * NOTE: The file is read at once and in full, because Poppler takes an error that occurs while
+ * reading (a part of) a file for the end of the file, and silently ignores the rest of it.
+ *
+ * @param pdfFilePath
+ *    The path to the PDF file.
+ * @param data
+ *    The string to which the content of the file is written. It must outlive the returned document.
+ *
+ * @return
+ *    The document. If the file could not be read, the document is not ok and has an error code.
+ */
+inline std::unique_ptr<PDFDoc> loadPdf(const std::string& pdfFilePath, std::string* data) {
+  FILE* file = fopen(pdfFilePath.c_str(), "rb");
+  if (!file) {
+    // Let Poppler report the error (or handle the path, if it is not the path to a file but an URI).
+    return PDFDocFactory().createPDFDoc(GooString(pdfFilePath));
+  }
+
+  char buffer[16384];
+  size_t numBytes = 0;
+  data->clear();
+  while ((numBytes = fread(buffer, 1, sizeof(buffer), file)) > 0) {
+    data->append(buffer, numBytes);
+  }
+  bool isRead = !ferror(file);
+  fclose(file);
+
+  if (!isRead) {
+    error(errIO, -1, "Couldn't read file '{0:s}'.", pdfFilePath.c_str());
+    return PDFDoc::ErrorPDFDoc(errFileIO, std::make_unique<GooString>(pdfFilePath));
+  }
+  return std::make_unique<PDFDoc>(new MemStream(data->data(), 0, data->size(), Object(objNull)));
+}
+
+}  // namespace ppp::utils
+
+#endif  // UTILS_PDFLOADER_H_
-- 
2.43.0

