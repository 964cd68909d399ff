From 3ad7b3b310665f53c651af7c57213de3105557d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:41 +0000
Subject: [PATCH 01/43] fix: surplus query letters before the first match cost
 an insertion, not a deletion

---
 src/LevenshteinIndex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..7e532b3 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -105,7 +105,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
-- 
2.43.0


From f6bcda15770dda5337494c04586039bd99245051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:41 +0000
Subject: [PATCH 02/43] fix: do not prune branches that a cheap transposition
 can still bring within the limit

---
 src/LevenshteinIndex.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7e532b3..7d7e1b8 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -154,7 +154,8 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition skips over this row, so the branch is only dead if the previous row is too.
+    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From dc79c7ff62ba987c5a7fdd263aa5dd798b3ccfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:41 +0000
Subject: [PATCH 03/43] fix: make the substitution lookup table follow the same
 rules as the slow path

---
 include/ErrorValues.hh |  4 ++--
 src/ErrorValues.cc     | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 76686b3..0084191 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -52,8 +52,8 @@ private:
     ErrorValuesPrivate *p;
 
     void clearLUT();
-    void addToLUT(Letter l1, Letter l2, int value);
-    void addGroupErrorToLUT(const Word &groupLetters, const int error);
+    void addToLUT(Letter l1, Letter l2);
+    void addGroupErrorToLUT(const Word &groupLetters);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..197cc87 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -87,7 +87,7 @@ void ErrorValues::setError(Letter l1, Letter l2, const int error) {
     }
     pair<Letter, Letter> in(l1, l2);
     p->singleErrors[in] = error;
-    addToLUT(l1, l2, error);
+    addToLUT(l1, l2);
 }
 
 int ErrorValues::getSubstituteError(Letter l1, Letter l2) const {
@@ -143,19 +143,19 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
             p->groupMap[curLetter] = newGroupID;
         }
     }
-    addGroupErrorToLUT(groupLetters, error);
+    addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
-void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error) {
+void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
             Letter l1 = groupLetters[i];
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
-            addToLUT(l1, l2, error);
+            addToLUT(l1, l2);
         }
     }
 }
@@ -266,8 +266,13 @@ void ErrorValues::addStandardErrors() {
     addKeyboardErrors();
 }
 
-void ErrorValues::addToLUT(Letter l1, Letter l2, int value) {
+/*
+ * The lookup table caches what substituteErrorSlow says. In particular
+ * equal letters always match and single errors override group errors.
+ */
+void ErrorValues::addToLUT(Letter l1, Letter l2) {
     if(l1 < LUT_LETTERS && l2 < LUT_LETTERS) {
+        const int value = substituteErrorSlow(l1, l2);
         p->lut[LUT_OFFSET(l1, l2)] = value;
         p->lut[LUT_OFFSET(l2, l1)] = value;
     }
-- 
2.43.0


From 7e53b55d5307e1206852487b0396a30b28ae97bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:41 +0000
Subject: [PATCH 04/43] fix: rejecting an error group must not add part of it

---
 src/ErrorValues.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 197cc87..a398801 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -133,15 +133,14 @@ void ErrorValues::clearErrors() {
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     size_t newGroupID = p->groupErrors.size();
+    // Check everything first so that a rejected group leaves no traces.
+    for(size_t i = 0; i < groupLetters.length(); i++) {
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
     p->groupErrors.push_back(error);
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
-        }
+        p->groupMap[groupLetters[i]] = newGroupID;
     }
     addGroupErrorToLUT(groupLetters);
 
-- 
2.43.0


From 5324ef70dda45c35b7d00c49df7d3b03b6ffde5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:41 +0000
Subject: [PATCH 05/43] fix: keyboard errors must cover neighbours on the
 bottom row too

---
 src/ErrorValues.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index a398801..a6182e3 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -197,13 +197,17 @@ void ErrorValues::addKeyboardErrors() {
 
     const Letter *keyboard_layout[4] = {line1, line2, line3, line4};
     const size_t lineLens[] = {11, 11, 12, 10};
+    for(size_t i = 0; i < 4; i++) {
+        const Letter *cur_row = keyboard_layout[i];
+        for(size_t j1=0; j1 + 1 < lineLens[i]; j1++) {
+            setError(cur_row[j1], cur_row[j1+1], error);
+        }
+    }
     for(size_t i = 0; i < 3; i++) {
         const Letter *cur_row = keyboard_layout[i];
         const Letter *next_row = keyboard_layout[i+1];
         for(size_t j1=0; j1 < lineLens[i]; j1++) {
             Letter l1 = cur_row[j1];
-            if(j1 + 1 < lineLens[i])
-                setError(l1, cur_row[j1+1], error);
             if(j1 > 0 && j1-1 < lineLens[i+1])
                 setError(l1, next_row[j1-1], error);
             if(j1 < lineLens[i+1])
-- 
2.43.0


From 65b6bc424353ed770a2b45400a79f73c17510f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:41 +0000
Subject: [PATCH 06/43] fix: number pad errors must cover the keys in the first
 row and column

---
 src/ErrorValues.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index a6182e3..4c15eb8 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -251,11 +251,11 @@ void ErrorValues::addNumberpadErrors() {
     for(int j=0; j<h; j++) {
         for(int i=0; i<w; i++) {
             setPadError(padNumbers[j][i], padLetters[j][i], letterCount[j][i], sameButton);
-            if(i-1 > 0)
+            if(i-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j][i-1], letterCount[j][i-1], adjacentButton);
             if(i+1 < w)
                 setPadError(padNumbers[j][i], padLetters[j][i+1], letterCount[j][i+1], adjacentButton);
-            if(j-1 > 0)
+            if(j-1 >= 0)
                 setPadError(padNumbers[j][i], padLetters[j-1][i], letterCount[j-1][i], adjacentButton);
             if(j+1 < h)
                 setPadError(padNumbers[j][i], padLetters[j+1][i], letterCount[j+1][i], adjacentButton);
-- 
2.43.0


From b62cb34e0d4d73fb8e18384d704240b9dc14faaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 07/43] fix: the accent group of y must contain y itself

---
 share/latinAccentedLetterGroups.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/latinAccentedLetterGroups.txt b/share/latinAccentedLetterGroups.txt
index cb3d2f0..b0287a2 100644
--- a/share/latinAccentedLetterGroups.txt
+++ b/share/latinAccentedLetterGroups.txt
@@ -20,5 +20,5 @@ uúùŭûǔůüǘǜǚǖűũṹųūṻủȕȗưứừữửựụṳṷṵ
 vṽṿ
 wẃẁŵẅẇẉẘ
 xẍẋ
-ýỳŷẙÿỹẏȳỷỵɏƴ
+yýỳŷẙÿỹẏȳỷỵɏƴ
 zźẑžżẓẕƶ
-- 
2.43.0


From 7494353ec2616a60a79d741600cd735090543475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 08/43] fix: rendering a word must never write past the buffer
 and always terminate it

---
 src/ColumbusHelpers.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..fde4171 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -95,6 +95,10 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
 }
 
 void internalToUtf8(const Letter* source, unsigned int characters, char *buf, unsigned int bufsize) {
+    if(bufsize == 0) {
+        throw std::runtime_error("Could not convert internal string to UTF-8, buffer has no room for the terminator.");
+    }
+    buf[0] = 0; // The caller gets a proper string even if we fail.
     iconv_t ic = iconv_open("UTF-8", INTERNAL_ENCODING);
     char *inBuf = reinterpret_cast<char*>(const_cast<Letter*>(source));
     char *outBuf;
@@ -105,17 +109,17 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
     }
 
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    outBytes = bufsize-1; // Leave room for the terminator.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
     badConvertedCharacters = iconv(ic, &inBuf, &inBytes, &outBuf, &outBytes);
     iconv_close(ic);
+    resultStringSize = outBytesOriginal - outBytes;
+    buf[resultStringSize] = 0; // Always null terminated.
     if(badConvertedCharacters == (size_t)-1) {
         throw std::runtime_error("Could not convert internal string to UTF-8.");
     }
-    resultStringSize = outBytesOriginal - outBytes;
-    buf[resultStringSize] = 0; // Null terminated, just in case.
 }
 
 double hiresTimestamp() {
-- 
2.43.0


From 50041cf85df4eb6b3892309482c0d2a3d75dca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 09/43] fix: do not leak the conversion buffer when text is not
 valid UTF-8

---
 src/ColumbusHelpers.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index fde4171..22d1034 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -70,6 +70,7 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
+        delete []txt;
         std::string err("Could not convert UTF8-string to internal representation: ");
         err += (const char*)(utf8Text);
         throw std::runtime_error(err);
-- 
2.43.0


From a1723a4ce3279755289a54dc091bf9d806c3ce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 10/43] fix: do not leak the word buffer when splitting fails

---
 src/ColumbusHelpers.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 22d1034..5fb32a2 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -174,9 +174,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
         try {
             Word w(word);
             list.addWord(w);
-        } catch(std::invalid_argument &ex) {
+        } catch(...) {
             delete []word;
-            throw ex;
+            throw;
         }
     } while(end < strSize);
     delete []word;
-- 
2.43.0


From 1175bd233515cdf47253608c92fb20153f4f348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 11/43] fix: lower-case letters outside the basic plane too

---
 src/ColumbusHelpers.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 5fb32a2..e7ab0b5 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -32,6 +32,7 @@
 #include <cstring>
 #include <sys/time.h>
 #include <unicode/uchar.h>
+#include <unicode/utf16.h>
 #include <cstdlib>
 
 COL_NAMESPACE_START
@@ -90,7 +91,14 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     text[resultStringSize] = 0; // Null terminated.
     // Now convert all letters to lower case, because we don't care about case difference when matching.
     for(size_t i=0; i<resultStringSize; i++) {
-        text[i] = lowerLetter(text[i]);
+        if(text[i].isHighSurrogate() && i+1 < resultStringSize) {
+            const UChar32 lowered = u_tolower(U16_GET_SUPPLEMENTARY(text[i], text[i+1]));
+            text[i] = Letter(U16_LEAD(lowered));
+            text[i+1] = Letter(U16_TRAIL(lowered));
+            i++;
+        } else {
+            text[i] = lowerLetter(text[i]);
+        }
     }
     return text;
 }
-- 
2.43.0


From 77c16848ff4c3858cb959a202bd5cc8683ad3f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 12/43] fix: creating a word from zero letters must not read
 before the array

---
 src/Word.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..211733f 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -59,7 +59,10 @@ Word::Word(Word &&w) :
     w.text = 0;
 }
 
-Word::Word(Letter *letters, size_t length) {
+Word::Word(Letter *letters, size_t length) : text(nullptr), len(0) {
+    if(length == 0) {
+        return;
+    }
     if(letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
-- 
2.43.0


From 192f7373ba3463f8189623e9cd593ad8278f80db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 13/43] fix: reject a lone high surrogate wherever it is

---
 src/Word.cc | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 211733f..fe94522 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -169,35 +169,17 @@ bool Word::hasWhitespace() {
  * Verify that we don't.
  */
 bool Word::hasBrokenSurrogates() {
-    bool expectSurrogate = false;
-    bool expectHigh = true;
     for(unsigned int i=0; i < len; ++i) {
-       Letter cur = text[i];
-	if(expectSurrogate && !cur.isSurrogate()) {
+        if(text[i].isLowSurrogate()) {
             return true;
-	}
-
-        if(cur.isSurrogate()) {
-            if(expectHigh && !cur.isHighSurrogate()) {
+        }
+        if(text[i].isHighSurrogate()) {
+            // Must be followed immediately by its other half.
+            if(i+1 >= len || !text[i+1].isLowSurrogate()) {
                 return true;
             }
-
-            assert(expectHigh || (!expectHigh && cur.isLowSurrogate()));
-            if(expectHigh) {
-                expectHigh = false;
-                expectSurrogate = true;
-            }
-            else { // Low surrogate
-                expectHigh = true;
-                expectSurrogate = false;
-            }
-        }
-#if 0
-        else {
-            expectHigh = true;
-            expectSurrogate = false;
+            ++i;
         }
-#endif /* 0 */
     }
     return false;
 }
-- 
2.43.0


From 6bc9b7b0557cca9ddcdb65b4ffd7ea4a56183416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 14/43] fix: a failed assignment must not leave a word with a
 length but no letters

---
 src/Word.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index fe94522..8859848 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -93,10 +93,13 @@ Word::~Word() {
 }
 
 void Word::convertString(const char *utf8Word) {
-    text = utf8ToInternal(utf8Word, len);
+    unsigned int newLen = 0;
+    text = utf8ToInternal(utf8Word, newLen);
+    len = newLen;
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with whitespace in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
@@ -104,6 +107,7 @@ void Word::convertString(const char *utf8Word) {
     else if(hasBrokenSurrogates()) {
         delete []text;
         text = nullptr;
+        len = 0;
         std::string err("Tried to create a word with broken surrogates in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
-- 
2.43.0


From bc0332fff59e0ed9324c2564da4ed11e4200e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 15/43] fix: joining empty words must not copy from a null
 pointer

---
 src/Word.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 8859848..c328a4b 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -253,8 +253,10 @@ Word Word::join(const Word &w) const {
     size_t newLen = length() + w.length();
     result.len = newLen;
     result.text = new Letter[newLen+1];
-    memcpy(result.text, text, len*sizeof(Letter));
-    memcpy(result.text + len, w.text, w.len*sizeof(Letter));
+    if(len > 0)
+        memcpy(result.text, text, len*sizeof(Letter));
+    if(w.len > 0)
+        memcpy(result.text + len, w.text, w.len*sizeof(Letter));
     result.text[newLen] = '\0';
     return result;
 }
-- 
2.43.0


From ab6d4b549c731e81c9dbc39c7bc47eb45aa5f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 16/43] fix: running out of memory while assigning a word must
 not leave it with freed letters

---
 src/Word.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index c328a4b..46609a1 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -118,14 +118,14 @@ void Word::duplicateFrom(const Word &w) {
     if(this == &w) {
         return;
     }
-    delete []text;
-    len = w.len;
-    if(len == 0) {
-        text = 0;
-    } else {
-        text = new Letter[len+1];
-        memcpy(text, w.text, (len+1)*sizeof(Letter));
+    Letter *newText = nullptr;
+    if(w.len > 0) {
+        newText = new Letter[w.len+1];
+        memcpy(newText, w.text, (w.len+1)*sizeof(Letter));
     }
+    delete []text; // Only once nothing can fail any more.
+    text = newText;
+    len = w.len;
 }
 
 Letter Word::operator[](unsigned int i) const {
-- 
2.43.0


From df7c7e11fb20ce8c385000302255375cd472d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 17/43] fix: storing the empty word must not throw

---
 src/Trie.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..b32d081 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -169,10 +169,9 @@ TrieOffset Trie::addNewSibling(const TrieOffset node, const TrieOffset sibling,
 TrieOffset Trie::insertWord(const Word &word, const WordID wordID) {
     size_t i=0;
     TrieOffset node = p->root;
-    Letter lw = word[0];
 
-    // A word mustn't begin with a broken surrogate pair.
-    if(lw.isSurrogate() && !lw.isHighSurrogate()) {
+    // A word mustn't begin with a broken surrogate pair. The empty word is stored in the root.
+    if(word.length() > 0 && word[0].isSurrogate() && !word[0].isHighSurrogate()) {
         assert(false);
     }
 
-- 
2.43.0


From e4eee75a97104e2f645ce448adb421f02245f46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:10 +0000
Subject: [PATCH 18/43] fix: unmap the trie's backing storage when it is
 destroyed

---
 src/Trie.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Trie.cc b/src/Trie.cc
index b32d081..bc2eec7 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -89,6 +89,7 @@ Trie::Trie() {
 
 
 Trie::~Trie() {
+    munmap(p->map, p->h->totalSize);
     fclose(p->f);
     delete p;
 }
-- 
2.43.0


From ed84b9ba1fc01bbd8ee4688b161d8144190afe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 19/43] fix: release the temporary file when creating a trie
 fails

---
 src/Trie.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index bc2eec7..9fd12dd 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -77,10 +77,17 @@ Trie::Trie() {
     if(!p->f) {
         string msg("Could not create temporary file: ");
         msg += strerror(errno);
+        delete p;
         throw runtime_error(msg);
     }
     p->map = nullptr;
-    expand();
+    try {
+        expand();
+    } catch(...) {
+        fclose(p->f);
+        delete p;
+        throw;
+    }
     p->h->firstFree = sizeof(TrieHeader);
     p->root = p->h->firstFree;
     p->h->numWords = 0;
-- 
2.43.0


From d018b694db73189d04504c7f3460f3e5ffc4f436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 20/43] fix: a trie that fails to grow must keep its contents

---
 src/Trie.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 9fd12dd..9e9afd3 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -103,14 +103,10 @@ Trie::~Trie() {
 
 void Trie::expand() {
     TrieOffset newSize;
+    TrieOffset oldSize = 0;
     if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
+        oldSize = p->h->totalSize;
         newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
     } else {
         newSize = 1024;
     }
@@ -119,19 +115,27 @@ void Trie::expand() {
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    // Keep the old mapping until the new one exists, so that the trie stays usable if this fails.
+    char *newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
+    char *oldMap = p->map;
+    p->map = newMap;
     if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
     p->h = (TrieHeader*)p->map;
     p->h->totalSize = newSize;
     assert(p->h->totalSize > p->h->firstFree);
+    if(oldMap && munmap(oldMap, oldSize) != 0) {
+        string err = "Munmap failed: ";
+        err += strerror(errno);
+        throw runtime_error(err);
+    }
 }
 
 TrieOffset Trie::append(const char *data, const int size) {
-- 
2.43.0


From e0454025116688b6b4f432ce01513d5414d93d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 21/43] fix: a failure while storing a word must not break the
 id mapping

---
 src/WordStore.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/WordStore.cc b/src/WordStore.cc
index 7e79d0f..be61660 100644
--- a/src/WordStore.cc
+++ b/src/WordStore.cc
@@ -56,9 +56,14 @@ WordID WordStore::getID(const Word &w) {
     if(p->words.hasWord(w)) {
         return p->words.getWordID(p->words.findWord(w));
     }
-    TrieOffset node = p->words.insertWord(w, p->wordIndex.size());
-    p->wordIndex.push_back(node);
-    WordID result = p->wordIndex.size()-1;
+    WordID result = p->wordIndex.size();
+    p->wordIndex.push_back(0); // First, so that a failure can't leave behind a word without an entry.
+    try {
+        p->wordIndex[result] = p->words.insertWord(w, result);
+    } catch(...) {
+        p->wordIndex.pop_back();
+        throw;
+    }
     return result;
 }
 
-- 
2.43.0


From d5b5f96083dd166a8f864bfb45451d55163a2589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 22/43] fix: running out of memory must not leave an indexed
 word without a count

---
 src/LevenshteinIndex.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 7d7e1b8..d608e82 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -81,15 +81,9 @@ int LevenshteinIndex::getDefaultError() {
 void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     if(word.length() == 0)
         return;
-    auto it = p->wordCounts.find(wordID);
-    size_t newCount;
-    if(it != p->wordCounts.end()) {
-        newCount = p->wordCounts[wordID] + 1;
-    } else {
-        newCount = 1;
-    }
+    size_t &count = p->wordCounts[wordID]; // Zero if new. Can run out of memory, so do it first.
     p->trie.insertWord(word, wordID);
-    p->wordCounts[wordID] = newCount;
+    const size_t newCount = ++count;
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
     if(p->maxCount < newCount)
-- 
2.43.0


From 1ca8618c485ec9b214868d2af5418d6d428b89fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 23/43] fix: running out of memory while converting text must
 throw, not abort

---
 src/ColumbusHelpers.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index e7ab0b5..4e7a925 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -27,7 +27,7 @@
 #include <iconv.h>
 #include <cstdio>
 #include <cerrno>
-#include <cassert>
+#include <new>
 #include <stdexcept>
 #include <cstring>
 #include <sys/time.h>
@@ -58,9 +58,14 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     }
 
     unsigned int inputLen = strlen((const char*)(utf8Text));
-    txt = (char*)new Letter[inputLen+1];
     tmp = strdup((const char*)(utf8Text)); // Iconv should take a const pointer but does not. Protect against it screwing up.
-    assert(tmp);
+    txt = (char*)new(std::nothrow) Letter[inputLen+1];
+    if(!tmp || !txt) {
+        free(tmp);
+        delete []txt;
+        iconv_close(ic);
+        throw std::bad_alloc();
+    }
     inBytes = inputLen;
     outBytes = sizeof(Letter)*(inBytes+1);
     outBytesOriginal = outBytes;
-- 
2.43.0


From 1e81a10efc9c68536568a9c01cfaa353a2acb464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 24/43] fix: do not leak the rendering buffer when a word can
 not be rendered

---
 src/Word.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 46609a1..da144be 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -20,6 +20,7 @@
 #include "Word.hh"
 #include <cstring>
 #include <stdexcept>
+#include <vector>
 #include <cassert>
 #include <cstring>
 #include "ColumbusHelpers.hh"
@@ -241,11 +242,9 @@ void Word::toUtf8(char *buf, unsigned int bufSize) const {
 
 string Word::asUtf8() const {
     size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.
-    char *u8 = new char[strSize];
-    toUtf8(u8, strSize);
-    string result(u8);
-    delete []u8;
-    return result;
+    std::vector<char> u8(strSize);
+    toUtf8(&u8[0], strSize);
+    return string(&u8[0]);
 }
 
 Word Word::join(const Word &w) const {
-- 
2.43.0


From 27d8961b165af96b7d917ec5a27f1ba6a62096f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 25/43] fix: copying the i-th result must copy the one that
 reading it shows

---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..b033aee 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -88,6 +88,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired(); // The index means the same thing as in getDocumentID.
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From c57136de7967f2331262d926b8d7adc4dc9aa12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 26/43] fix: objects that have been moved from can be assigned
 to again

---
 src/MatchResults.cc | 2 ++
 src/WordList.cc     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index b033aee..75887d3 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -61,6 +61,8 @@ const MatchResults& MatchResults::operator=(MatchResults &&other) {
 
 const MatchResults& MatchResults::operator=(const MatchResults &other) {
     if(this != &other) {
+        if(!p) // We have been moved from.
+            p = new MatchResultsPrivate();
         *p = *other.p;
     }
     return *this;
diff --git a/src/WordList.cc b/src/WordList.cc
index 8fec94a..c4eb6a6 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -64,6 +64,8 @@ void WordList::addWord(const Word &w) {
 const WordList& WordList::operator=(const WordList &l) {
     if(this == &l)
         return *this;
+    if(!p) // We have been moved from.
+        p = new WordListPrivate();
     p->words = l.p->words;
     return *this;
 }
-- 
2.43.0


From a714d3645fa405b1434fb10a78deca12fa04b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 27/43] fix: adding match results to themselves must not read
 freed memory

---
 src/MatchResults.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index 75887d3..c3a03e8 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -77,7 +77,8 @@ void MatchResults::addResult(DocumentID id, double relevancy) {
 }
 
 void MatchResults::addResults(const MatchResults &r) {
-    p->results.insert(p->results.end(), r.p->results.begin(), r.p->results.end());
+    const vector<pair<double, DocumentID> > added(r.p->results); // A copy, because r can be this object.
+    p->results.insert(p->results.end(), added.begin(), added.end());
     p->sorted = false;
 }
 
-- 
2.43.0


From 2a243e264e9e7763d547eb2deaa733411b67f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 28/43] fix: col_match_results_get_relevancy must return the
 relevancy

---
 src/ColumbusCAPI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d405f69 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,9 +203,9 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
-        fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
+        fprintf(stderr, "Exception when getting result relevancy: %s\n", e.what());
     }
     return -1.0;
 }
-- 
2.43.0


From 8873438d62914da2e5fc2b25a2b7b73c7f1fb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 29/43] fix: filtering must not store the words of the filter

---
 src/Matcher.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..82cf295 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -237,8 +237,10 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
-        bool termFound = p->reverseIndex.documentHasTerm(
-                p->store.getID(value), p->store.getID(filterName), id);
+        // Asking for the ID of an unknown word would add it to the store.
+        bool termFound = p->store.hasWord(value) && p->store.hasWord(filterName) &&
+                p->reverseIndex.documentHasTerm(
+                        p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
             return false;
         }
-- 
2.43.0


From 713ae6467298fe56496ca0d714b88ae24e6a90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 30/43] fix: an empty COLUMBUS_DATADIR must not be read out of
 bounds

---
 src/ColumbusSlow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusSlow.cc b/src/ColumbusSlow.cc
index b641a4d..bfe95b0 100644
--- a/src/ColumbusSlow.cc
+++ b/src/ColumbusSlow.cc
@@ -36,7 +36,7 @@ string findDataFile(const string &baseName) {
     const char *envvarDir;
 
     envvarDir = getenv(varname);
-    if(envvarDir) {
+    if(envvarDir && *envvarDir) {
         s = envvarDir;
         if(s[s.length()-1] != '/')
             s += "/";
-- 
2.43.0


From 8c6ce23f14fe8784d1abc0d82966cb5e9a60a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 31/43] fix: reject null letters inside a word, they corrupt
 the trie

---
 src/Word.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index da144be..87906bb 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -73,6 +73,13 @@ Word::Word(Letter *letters, size_t length) : text(nullptr), len(0) {
         len = length;
     }
     memcpy(text, letters, length*sizeof(Letter));
+    for(unsigned int i=0; i<len; i++) {
+        if(text[i] == 0) {
+            delete []text;
+            text = nullptr;
+            throw std::invalid_argument("Tried to create a Word with a null letter.");
+        }
+    }
     if(hasWhitespace()) {
         delete []text;
         text = nullptr;
-- 
2.43.0


From bb720be6131994b064639bcaea927615dbb2576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:28 +0000
Subject: [PATCH 32/43] fix: a word taken from a Python word list must outlive
 changes to the list

Adding a word can move the words of the list elsewhere, so a reference
into the list dangles even while the list is alive. Hand out a copy.
---
 python/columbus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 63babf5..9e016c8 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -43,7 +43,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def(init<const WordList &>())
             .def("__len__", &WordList::size)
             .def("__getitem__", &WordList::operator[],
-                    return_internal_reference<>())
+                    return_value_policy<copy_const_reference>())
             .def("add_word", &WordList::addWord)
             ;
 
-- 
2.43.0


From 094f235f73fb7c1fab6bcb7b9ce34e78ca7da8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:28 +0000
Subject: [PATCH 33/43] fix: accept letters in Python calls

There was no conversion from a number to Letter, so set_error and
get_substitute_error could not be called at all.
---
 python/columbus.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/columbus.cc b/python/columbus.cc
index 9e016c8..588f82e 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -28,6 +28,9 @@ void (Document::*addAdaptor) (const Word &, const std::string &) = &Document::ad
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
 BOOST_PYTHON_MODULE(columbus) {
+    // Letters are plain numbers in Python.
+    implicitly_convertible<Letter_, Letter>();
+
     class_<Corpus, boost::noncopyable>("Corpus", init<>())
         .def("size", &Corpus::size)
         .def("add_document", &Corpus::addDocument)
-- 
2.43.0


From a4560c84e0abd4f28d75916608c10e5ae7821b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:18 +0000
Subject: [PATCH 34/43] fix: splitting None in Python must raise an error, not
 crash

Boost.Python passes None as a null pointer to functions taking a C string.
---
 python/columbus.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 588f82e..0a11b63 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -27,6 +27,12 @@ using namespace Columbus;
 void (Document::*addAdaptor) (const Word &, const std::string &) = &Document::addText;
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
+// Taking a string reference makes Boost.Python reject None, which it would pass
+// as a null pointer to a function that takes a plain C string.
+static WordList splitAdaptor(const std::string &text) {
+    return splitToWords(text.c_str());
+}
+
 BOOST_PYTHON_MODULE(columbus) {
     // Letters are plain numbers in Python.
     implicitly_convertible<Letter_, Letter>();
@@ -50,7 +56,7 @@ BOOST_PYTHON_MODULE(columbus) {
             .def("add_word", &WordList::addWord)
             ;
 
-    def("split_to_words", splitToWords);
+    def("split_to_words", splitAdaptor);
 
     class_<Document>("Document", init<DocumentID>())
             .def(init<const Document&>())
-- 
2.43.0


From 2f8e5502358ca3ac9f70ebc6578ec05db3e767ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:34 +0000
Subject: [PATCH 35/43] fix: release a new index, with its file and mapping, if
 it can not be registered

---
 src/Matcher.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 82cf295..1c4f532 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -35,6 +35,7 @@
 #include <cassert>
 #include <stdexcept>
 #include <map>
+#include <memory>
 #include <set>
 #include <vector>
 #include <algorithm>
@@ -302,8 +303,10 @@ void Matcher::addToIndex(const Word &word, const WordID wordID, const WordID ind
     LevenshteinIndex *target;
     IndIterator it = p->indexes.find(indexID);
     if(it == p->indexes.end()) {
-        target = new LevenshteinIndex();
+        unique_ptr<LevenshteinIndex> created(new LevenshteinIndex()); // Not leaked if the map can not grow.
+        target = created.get();
         p->indexes[indexID] = target;
+        created.release();
     } else {
         target = it->second;
     }
-- 
2.43.0


From 45f902ab885588e098d609eb60a7c3b2dcbf7ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:34 +0000
Subject: [PATCH 36/43] fix: running out of memory while adding an error group
 must not leave part of it

---
 include/ErrorValues.hh |  1 +
 src/ErrorValues.cc     | 28 ++++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/ErrorValues.hh b/include/ErrorValues.hh
index 0084191..7fed854 100644
--- a/include/ErrorValues.hh
+++ b/include/ErrorValues.hh
@@ -54,6 +54,7 @@ private:
     void clearLUT();
     void addToLUT(Letter l1, Letter l2);
     void addGroupErrorToLUT(const Word &groupLetters);
+    void removeGroupsFrom(const size_t firstGroupID);
     int substituteErrorSlow(Letter l1, Letter l2) const;
     void setPadError(const Letter number, const char letters[4], int letterCount, int error);
 
diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 4c15eb8..38b32d4 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -139,14 +139,38 @@ void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
             throw runtime_error("Tried to add letter to two different error groups.");
     }
     p->groupErrors.push_back(error);
-    for(size_t i = 0; i < groupLetters.length(); i++) {
-        p->groupMap[groupLetters[i]] = newGroupID;
+    try {
+        for(size_t i = 0; i < groupLetters.length(); i++) {
+            p->groupMap[groupLetters[i]] = newGroupID;
+        }
+    } catch(...) {
+        removeGroupsFrom(newGroupID);
+        throw;
     }
     addGroupErrorToLUT(groupLetters);
 
     debugMessage("Added error group: %s\n", groupLetters.asUtf8().c_str());
 }
 
+/*
+ * Undo groups that were added by an operation that failed.
+ */
+void ErrorValues::removeGroupsFrom(const size_t firstGroupID) {
+    for(auto it = p->groupMap.begin(); it != p->groupMap.end();) {
+        if(it->second >= firstGroupID)
+            it = p->groupMap.erase(it);
+        else
+            ++it;
+    }
+    while(p->groupErrors.size() > firstGroupID)
+        p->groupErrors.pop_back();
+    for(int i=0; i<LUT_LETTERS; i++) {
+        for(int j=i; j<LUT_LETTERS; j++) {
+            addToLUT(i, j);
+        }
+    }
+}
+
 void ErrorValues::addGroupErrorToLUT(const Word &groupLetters) {
     for(size_t i=0; i<groupLetters.length(); i++) {
         for(size_t j=i; j<groupLetters.length(); j++) {
-- 
2.43.0


From bd8c1bb8c335c1348bf7a7b48520563f94c9e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:34 +0000
Subject: [PATCH 37/43] fix: accent groups that can not be read completely must
 not be added in part

---
 src/ErrorValues.cc | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 38b32d4..c2ea907 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -203,11 +203,22 @@ void ErrorValues::addAccents(accentGroups group) {
         s += dataFile;
         throw runtime_error(s);
     }
-    while(getline(ifile, line)) {
-        Word group(line.c_str());
-        if(group.length() == 0)
-            continue;
-        setGroupError(group, getDefaultGroupError());
+    const size_t firstGroupID = p->groupErrors.size();
+    try {
+        while(getline(ifile, line)) {
+            Word group(line.c_str());
+            if(group.length() == 0)
+                continue;
+            setGroupError(group, getDefaultGroupError());
+        }
+        if(ifile.bad()) {
+            string s = "Could not read data file ";
+            s += dataFile;
+            throw runtime_error(s);
+        }
+    } catch(...) {
+        removeGroupsFrom(firstGroupID); // So that trying again does not clash with what was read this time.
+        throw;
     }
 }
 
@@ -288,9 +299,15 @@ void ErrorValues::addNumberpadErrors() {
 }
 
 void ErrorValues::addStandardErrors() {
-    addAccents(latinAccentGroup);
-    addAccents(greekAccentGroup);
-    addKeyboardErrors();
+    const size_t firstGroupID = p->groupErrors.size();
+    try {
+        addAccents(latinAccentGroup);
+        addAccents(greekAccentGroup);
+        addKeyboardErrors();
+    } catch(...) {
+        removeGroupsFrom(firstGroupID);
+        throw;
+    }
 }
 
 /*
-- 
2.43.0


From ca7281d8187b8c6a51d11a40e4eefa986b43a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:07:34 +0000
Subject: [PATCH 38/43] fix: release what a constructor or conversion holds
 when memory runs out

---
 src/ColumbusHelpers.cc |  6 +++++-
 src/Document.cc        |  4 +---
 src/ErrorMatrix.cc     | 14 +++++++++++---
 src/MatchResults.cc    |  3 +--
 src/ResultFilter.cc    |  7 ++++++-
 src/Trie.cc            |  5 +++--
 src/WordList.cc        |  3 +--
 7 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 4e7a925..8210dd7 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -87,7 +87,11 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
     if(bytesWritten < inputLen) {
         // Shrink allocated memory size to exactly the produced string.
         size_t newArraySize = bytesWritten + sizeof(Letter);
-        char *newtxt = new char[newArraySize];
+        char *newtxt = new(std::nothrow) char[newArraySize];
+        if(!newtxt) {
+            delete []txt;
+            throw std::bad_alloc();
+        }
         memcpy(newtxt, txt, newArraySize);
         delete []txt;
         txt = newtxt;
diff --git a/src/Document.cc b/src/Document.cc
index c444f3f..630fabe 100644
--- a/src/Document.cc
+++ b/src/Document.cc
@@ -41,9 +41,7 @@ Document::Document(DocumentID id) {
 }
 
 Document::Document(const Document& d) {
-    p = new DocumentPrivate();
-    p->id = d.p->id;
-    p->texts = d.p->texts;
+    p = new DocumentPrivate(*d.p);
 }
 
 Document::~Document() {
diff --git a/src/ErrorMatrix.cc b/src/ErrorMatrix.cc
index b7a51bd..0d9d7ab 100644
--- a/src/ErrorMatrix.cc
+++ b/src/ErrorMatrix.cc
@@ -27,9 +27,17 @@ COL_NAMESPACE_START
 ErrorMatrix::ErrorMatrix(const size_t rows_, const size_t columns_, const int insertError, const int deletionError) :
     rows(rows_),
     columns(columns_) {
-    m = new int*[rows+1];
-    for(size_t i=0; i<=rows; i++) {
-        m[i] = new int[columns+1];
+    m = new int*[rows+1]();
+    try {
+        for(size_t i=0; i<=rows; i++) {
+            m[i] = new int[columns+1];
+        }
+    } catch(...) {
+        for(size_t i=0; i<=rows; i++) {
+            delete []m[i];
+        }
+        delete []m;
+        throw;
     }
     for(size_t i=0; i<=columns; i++) {
         m[0][i] = i*insertError;
diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c3a03e8..a4c82fd 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -37,8 +37,7 @@ MatchResults::MatchResults() {
 }
 
 MatchResults::MatchResults(const MatchResults &other) {
-    p = new MatchResultsPrivate();
-    *p = *other.p;
+    p = new MatchResultsPrivate(*other.p);
 }
 
 MatchResults::MatchResults(MatchResults &&other) {
diff --git a/src/ResultFilter.cc b/src/ResultFilter.cc
index 209d44b..e5acac0 100644
--- a/src/ResultFilter.cc
+++ b/src/ResultFilter.cc
@@ -32,7 +32,12 @@ struct ResultFilterPrivate {
 
 ResultFilter::ResultFilter() {
     p = new ResultFilterPrivate();
-    addNewTerm();
+    try {
+        addNewTerm();
+    } catch(...) {
+        delete p;
+        throw;
+    }
 }
 
 ResultFilter::~ResultFilter() {
diff --git a/src/Trie.cc b/src/Trie.cc
index 9e9afd3..34ed2ff 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -75,9 +75,10 @@ Trie::Trie() {
     p = new TriePrivate();
     p->f = tmpfile();
     if(!p->f) {
-        string msg("Could not create temporary file: ");
-        msg += strerror(errno);
+        const int reason = errno;
         delete p;
+        string msg("Could not create temporary file: ");
+        msg += strerror(reason);
         throw runtime_error(msg);
     }
     p->map = nullptr;
diff --git a/src/WordList.cc b/src/WordList.cc
index c4eb6a6..249aa5b 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -35,8 +35,7 @@ WordList::WordList() {
 }
 
 WordList::WordList(const WordList &wl) {
-    p = new WordListPrivate();
-    p->words = wl.p->words;
+    p = new WordListPrivate(*wl.p);
 }
 
 WordList::WordList(WordList &&wl) {
-- 
2.43.0


From 4ed748703e7c113a1ee2ebeb755b78f184e01414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:43:15 +0000
Subject: [PATCH 39/43] fix: fill the table of random numbers that word hashes
 are made of

---
 src/Word.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/Word.cc b/src/Word.cc
index 87906bb..8cceff1 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -40,6 +40,30 @@ const static uint64_t randomNumbers[randomArrSize] = {
 0x435dc2030e1bd3bb, 0xba03839edae53f8c, 0x74918b9786b2ecf6,  0x183041d61d4e02d, 0xaa1dc5c7c7c5fb5b, 0x939564fc52bece9b, 0x3a3faae9201160d0, 0xc20d3f67a52cb7b6,
 0x77ad9b3c19bda0f9, 0x65696731011860b4,  0xae6b011d726f2fe, 0xba5217bd2b48005f, 0x8f8e100ae6ba4e9d, 0x51967f54690c822d, 0x261a8bf80c1d6890, 0x58cb529d19f0856f,
 0xc45e7d76ca927907, 0xc15c5589af3dbef0, 0xa8175814c7ff20f6, 0xaec21b2f3fddfc14,  0xaf247b61fd25583, 0x2d784f3af2691077, 0x58f3a2b1743759c6, 0x77115ac165a120a9,
+0x7b21ef2ecb49a2b1, 0x84383462b4840cc4, 0xc51149d0b6ea8a5c, 0x377c36c09c37d74b, 0xf2234534f9e8a973, 0x054b9495d84c3e79, 0x90d181da410264e9, 0xb15de681febb3238,
+0x5caa663b7191aa35, 0x0e1eb892dca2659d, 0x9bb5cb1c465a4f53, 0xad93ba820ce0a7e0, 0x2ea92abdaa7c98aa, 0x48728096b977a685, 0x9b39ca5a070717d9, 0x81da9b3b7c8e53d9,
+0x4cb0ca6a5492ccac, 0x8fb5ac5acf7bcccb, 0x37761e968d3fe030, 0x0191af520efd7f25, 0x39cc8fcf3b50ec81, 0x0fb1a0a57a682074, 0xf69c1b26edf6ca65, 0x50eaf92a2abf4715,
+0x00cb989363332d07, 0xfb49fd5eb1ec1714, 0x0e5f6db1cd783274, 0xf8c1ebe523b6438b, 0x50619e6f88f9a423, 0x34f40d483630871b, 0xda2b1fc8930be6c9, 0x169008724392873a,
+0xca594f2e6dafed2d, 0x70a1fb41d7a518da, 0x9c1df301d94278a3, 0x8626aeed3928be73, 0x0b0f66e84d66137b, 0xa95f1b28ba4dcbef, 0xc1d3cbf59c494cf9, 0x38db5d65dc83501b,
+0xfa7d5b5a5a205b26, 0x15f20fd7060931a9, 0x18e6e58ae9698f1b, 0x2d42242677fcbff9, 0xa211ebfc69b34504, 0x0d599f98671d5d8d, 0xd583408f7c6acd0e, 0xc826a938ed8c4860,
+0xdd478bf0929cd181, 0xa853582eb8558921, 0x12d858eb45921c42, 0x3e871966964f6876, 0xd6935e44983bbe81, 0xac88abff2e0dec4a, 0xd1008ecef3fbc821, 0x771dddb17b19660e,
+0x68f53e07fc366481, 0x6e27c66039571111, 0x28ff11e97f0c08c9, 0x7b28b0dbc8fedcbb, 0x570edfc4035d4df7, 0xbbf0ccdd108cfdff, 0x20b42e017b9b06bd, 0x899e2ca4b0f5956f,
+0x73e768ffdca0d699, 0x4b121e9e27d011f7, 0x0e0227549e1f5f7e, 0x98cecfca84d0dc56, 0xe2b8e1256cb480bb, 0x80a8855daa3b427a, 0x7d264a39e0ca3f1b, 0x43689cab6915eab9,
+0x7a87099c72b5e114, 0xdf909823c4b7ad97, 0xb59088d6ff3e6c60, 0xf0523c96e1f9cc93, 0xb6f8660bd27afab2, 0x7b319d00b61e5d44, 0x9227d06d4f53091c, 0x5242d5589b607a4a,
+0x6857bb16511f98a9, 0xe07e278a9f985a17, 0x3a1af80483ededfc, 0x3aa1afeec1e57e8a, 0x650e31f2decdab5b, 0x939aa1d35495edae, 0x9b8ef508f585e2ac, 0x88ddba53ee6edb9a,
+0x0ef6ac255025d8ea, 0xd84866030a979439, 0x4f62f4937ffadedb, 0x49fd0a6048b0b101, 0xc6acf65d9f5d307d, 0xcbe577fa99705ef4, 0xafbdc16e0b3fdcf5, 0x2ed4d8400f3e0739,
+0x73fcd3d68e1280fe, 0xf988bfbee235a44b, 0x17ef995d289f2aad, 0xd2167d76cc08d755, 0x82d88a9461aca4f2, 0x235a17df07129803, 0xf1d4e27af20a195a, 0x85487448cca9a5a5,
+0xef42b8ea79a61461, 0x6182952357802ff1, 0x00bfff38e33ec77e, 0x199a24273cd5206d, 0x74d5a0c712497b4c, 0x9321b4ce115bca15, 0x8f7ff4b47d9aa3aa, 0x2c7c4c8fadde8a83,
+0x64a1e250610b26eb, 0x9873b980857ff929, 0x1e48b26b52cf3880, 0x72b0337936bf41f2, 0x0dfae4d9d9b5b432, 0xee6094231ab2e73b, 0x2d34963be96d02ed, 0xb9848191193352bf,
+0xd9688f2551b462e0, 0xa6bd9146babe30f9, 0xa94e30cbdb611e0f, 0x7bb99bc4afb84bef, 0xa07a3e96619c5f66, 0xca3e699b8679b5c2, 0xf69f873403b82484, 0xaf0b9792b1cd61df,
+0xe9e8fc0306ad6370, 0x9d8dfa9a7b1cefbf, 0x93b7b13b9fa2eb39, 0xa80a472d3ca9341f, 0xe648447ab115adb6, 0xeccd3a73df0f8774, 0xc3850b73bf652d40, 0xe96cffcdc7065526,
+0xddf4a45002b05c0c, 0xa28d333c6ecee27c, 0xfda3f0f1387cdde3, 0xd2a3c04d0cd93960, 0x0f4629467c38aa7e, 0x09cdf77e4db44525, 0xbf42681791af27f0, 0x0cd8686faa765afa,
+0x7aeed579a4102359, 0x4b28c49a5c3ad003, 0x0a4d9facc32609a9, 0x5d2a1b25a82d8391, 0x5749e620c4f8c41f, 0x6cbdde8f63a94694, 0x7f9b8647dc8d6316, 0xd76bf72e22710f6b,
+0xd45843efe46a2e4a, 0x3e546c8b3f2fc075, 0x720b1b00807137d3, 0xc7d752d39dd36646, 0x33b38e3162441ee4, 0x0ee66cac7737a63b, 0x3bc1f448df56dbaa, 0x28fa84164179653f,
+0x48444e2e8f283de2, 0x9609674294f2689b, 0xe18bfa6dc72ed43a, 0xb938819c324ee5e3, 0xa1351769ad7abc14, 0x7dfb29923f0d7217, 0x345c0d45bbd4e0a4, 0x9e337c307e475c71,
+0x518374d23e3d4174, 0x608041bb4a6a16f0, 0x8bfc0107273dc561, 0xc32159821f706699, 0xa0e52adb7dfb61b6, 0x09acf9cbd1e4751e, 0x7080aa513c68adca, 0x20dc64d276110488,
+0x917ba6072872f44b, 0xa7622037544900ff, 0xdfe43e6ef4921bd2, 0x3d3f507632d035f1, 0xab8c035dfe731c17, 0xe70c8a2612edca15, 0x4b25d20ef679a5d6, 0x0573d1134101158f,
+0x844bd59370788e76, 0x7370df65f63edf71, 0x95914d4c7ae512c1, 0xb56410a6d6c0d319, 0x884ce476e9cfb4b3, 0x28417b9afe767388, 0xc81573bec6bc09cc, 0x4ac6e41e0f847773,
 };
 
 Word::Word() : text(0), len(0){
-- 
2.43.0


From 329d9bd22cb72710bdc4fe8622b84c65d565bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:58 +0000
Subject: [PATCH 40/43] fix: the hash of a (field, word) pair must depend on
 the field in its low bits too

---
 src/Matcher.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 1c4f532..2236aa0 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -57,15 +57,22 @@ using google::sparse_hash_set;
 COL_NAMESPACE_START
 using namespace std;
 
+/*
+ * Spread all bits of a key over the low ones, which are the only
+ * ones that some hash table implementations look at.
+ */
+static size_t mixBits(uint64_t key) {
+    key ^= key >> 33;
+    key *= 0xff51afd7ed558ccdULL;
+    key ^= key >> 33;
+    key *= 0xc4ceb9fe1a85ec53ULL;
+    key ^= key >> 33;
+    return (size_t) key;
+}
+
 struct idhasher : std::unary_function<const pair<WordID, WordID>, size_t> {
     size_t operator() ( const pair<WordID, WordID> &p) const {
-        size_t w1 = p.first;
-        size_t w2 = p.second;
-        if(sizeof(size_t) > sizeof(WordID)) {
-            return (w1 << 32) | w2; // Assuming size_t is 64 bits.
-        } else {
-            return w1 ^ w2;
-        }
+        return mixBits(((uint64_t) p.first << 32) | p.second);
     }
 };
 
-- 
2.43.0


From 8ea3e375c635c73190ff32e86776a61cbd660cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:49:03 +0000
Subject: [PATCH 41/43] fix: hash document ids so that aligned ids do not
 collide

---
 src/Matcher.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 2236aa0..0a3ba94 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -76,7 +76,14 @@ struct idhasher : std::unary_function<const pair<WordID, WordID>, size_t> {
     }
 };
 
-typedef hashset<DocumentID> DocumentSet;
+// Document ids are often addresses, whose low bits are all the same.
+struct docidhasher : std::unary_function<const DocumentID, size_t> {
+    size_t operator() (const DocumentID &id) const {
+        return mixBits(id);
+    }
+};
+
+typedef hashset<DocumentID, docidhasher> DocumentSet;
 typedef hashmap<WordID, LevenshteinIndex*> IndexMap;
 typedef hashmap<std::pair<WordID, WordID>, DocumentSet, idhasher > ReverseIndexData; // Index name, word, documents.
 
-- 
2.43.0


From c9c68757183e37bd2e53293167bc631745428cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:27:15 +0000
Subject: [PATCH 42/43] fix: let queryindex read lines of any length and a last
 line without a line break

---
 tools/queryindex.cc | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/tools/queryindex.cc b/tools/queryindex.cc
index 1b8022a..d71e784 100644
--- a/tools/queryindex.cc
+++ b/tools/queryindex.cc
@@ -25,27 +25,25 @@
 #include <cstdio>
 #include <stdexcept>
 #include <cstdlib>
+#include <fstream>
 #include <string>
-#include <cstring>
-#include <cassert>
 
 using namespace Columbus;
 
 void load_data(LevenshteinIndex &ind, WordStore &s, char *file) {
-    FILE *f = fopen(file, "r");
-    char buffer[1024];
+    std::ifstream f(file);
+    std::string line; // Of any length, and the last one need not have a \n.
     if(!f) {
         printf("Could not open file %s.\n", file);
         exit(1);
     }
-    while(fgets(buffer, 1024, f) != NULL) {
-        unsigned int slen = strlen(buffer);
-        assert(buffer[slen-1] == '\n');
-        buffer[slen-1] = '\0'; // Chop the \n.
-        Word w(buffer);
+    while(std::getline(f, line)) {
+        Word w(line);
         ind.insertWord(w, s.getID(w));
     }
-    fclose(f);
+    if(f.bad()) {
+        throw std::runtime_error("Could not read data file");
+    }
 }
 
 void queryAndPrint(LevenshteinIndex &ind, WordStore &s, Word &query, int maxError) {
@@ -57,10 +55,7 @@ void queryAndPrint(LevenshteinIndex &ind, WordStore &s, Word &query, int maxErro
         return;
     }
     for(size_t i=0; i<matches.size(); i++) {
-        const unsigned int bufSize = 1024;
-        char buf[bufSize];
-        s.getWord(matches.getMatch(i)).toUtf8(buf, bufSize);
-        printf("%s %d\n", buf, matches.getMatchError(i));
+        printf("%s %d\n", s.getWord(matches.getMatch(i)).asUtf8().c_str(), matches.getMatchError(i));
     }
 }
 
-- 
2.43.0


From f68a009f8876e8fb367ead8903d881d856de33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:24:59 +0000
Subject: [PATCH 43/43] fix: search must not overrun its matrix after an
 insertion that failed half-way

---
 src/LevenshteinIndex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index d608e82..0f6308e 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -82,10 +82,11 @@ void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     if(word.length() == 0)
         return;
     size_t &count = p->wordCounts[wordID]; // Zero if new. Can run out of memory, so do it first.
-    p->trie.insertWord(word, wordID);
-    const size_t newCount = ++count;
+    // Also first, because an insertion that fails can leave nodes as deep as the word.
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
+    p->trie.insertWord(word, wordID);
+    const size_t newCount = ++count;
     if(p->maxCount < newCount)
         p->maxCount = newCount;
     return;
-- 
2.43.0

