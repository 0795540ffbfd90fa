From dc07680c43102fc75f017372e4b14642c95758a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 01/25] fix: col_match_results_get_relevancy returns the
 relevancy, not the document ID

---
 src/ColumbusCAPI.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ColumbusCAPI.cc b/src/ColumbusCAPI.cc
index 5fd3bbf..d405f69 100644
--- a/src/ColumbusCAPI.cc
+++ b/src/ColumbusCAPI.cc
@@ -203,9 +203,9 @@ DocumentID col_match_results_get_id(ColMatchResults mr, size_t i) {
 double col_match_results_get_relevancy(ColMatchResults mr, size_t i) {
     try {
         MatchResults *results = reinterpret_cast<MatchResults*>(mr);
-        return results->getDocumentID(i);
+        return results->getRelevancy(i);
     } catch(exception &e) {
-        fprintf(stderr, "Exception when getting result document ID: %s\n", e.what());
+        fprintf(stderr, "Exception when getting result relevancy: %s\n", e.what());
     }
     return -1.0;
 }
-- 
2.43.0


From 543c4c1d215fd758b45e852b99546460461eeed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 02/25] fix: unmap the trie storage and release it when trie
 construction fails

---
 src/Trie.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0710356..46186a9 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -40,6 +40,7 @@
 #include<stdexcept>
 #include<string>
 #include<vector>
+#include<memory>
 #include<cassert>
 
 using namespace std;
@@ -69,10 +70,18 @@ struct TriePrivate {
     char *map;
     TrieHeader *h;
     TrieOffset root;
+
+    ~TriePrivate() {
+        if(map)
+            munmap(map, h->totalSize);
+        if(f)
+            fclose(f);
+    }
 };
 
 Trie::Trie() {
-    p = new TriePrivate();
+    unique_ptr<TriePrivate> guard(new TriePrivate());
+    p = guard.get();
     p->f = tmpfile();
     if(!p->f) {
         string msg("Could not create temporary file: ");
@@ -85,11 +94,11 @@ Trie::Trie() {
     p->root = p->h->firstFree;
     p->h->numWords = 0;
     addNewNode(0);
+    guard.release();
 }
 
 
 Trie::~Trie() {
-    fclose(p->f);
     delete p;
 }
 
-- 
2.43.0


From 5ce018b98924f1fc9720342fb27adeb24e8ab0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 03/25] fix: keep the old trie mapping until the grown one
 exists

---
 src/Trie.cc | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/Trie.cc b/src/Trie.cc
index 46186a9..0732fd8 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -103,15 +103,12 @@ Trie::~Trie() {
 }
 
 void Trie::expand() {
+    TrieOffset oldSize = 0;
     TrieOffset newSize;
+    char *newMap;
     if(p->map) {
-        TrieOffset oldSize = p->h->totalSize;
+        oldSize = p->h->totalSize;
         newSize = oldSize*2;
-        if(munmap(p->map, oldSize) != 0) {
-            string err = "Munmap failed: ";
-            err += strerror(errno);
-            throw runtime_error(err);
-        }
     } else {
         newSize = 1024;
     }
@@ -120,13 +117,23 @@ void Trie::expand() {
         err += strerror(errno);
         throw runtime_error(err);
     }
-    p->map = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
+    newMap = (char*)mmap(NULL, newSize, PROT_READ | PROT_WRITE, MAP_SHARED,
                   fileno(p->f), 0);
-    if(p->map == MAP_FAILED) {
+    if(newMap == MAP_FAILED) {
         string err = "MMap failed: ";
         err += strerror(errno);
         throw runtime_error(err);
     }
+    // Give up the old mapping only after the new one exists, so that a
+    // failure leaves the trie as it was.
+    if(p->map && munmap(p->map, oldSize) != 0) {
+        int munmapError = errno;
+        munmap(newMap, newSize);
+        string err = "Munmap failed: ";
+        err += strerror(munmapError);
+        throw runtime_error(err);
+    }
+    p->map = newMap;
     if(madvise(p->map, newSize, MADV_RANDOM | MADV_WILLNEED) != 0) {
         fprintf(stderr, "Problem with madvise: %s\n", strerror(errno));
     }
-- 
2.43.0


From 5f2dcb9bc0c52b36e6b51d8c64412b1cc6ea10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 04/25] fix: a failed insertion leaves LevenshteinIndex
 consistent

---
 src/LevenshteinIndex.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index b144e87..4399ab9 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -88,10 +88,13 @@ void LevenshteinIndex::insertWord(const Word &word, const WordID wordID) {
     } else {
         newCount = 1;
     }
-    p->trie.insertWord(word, wordID);
-    p->wordCounts[wordID] = newCount;
+    // The depth and the counter must exist before the word can be found, because
+    // the steps below may fail.
     if(word.length() > p->longestWordLength)
         p->longestWordLength = word.length();
+    size_t &count = p->wordCounts[wordID];
+    p->trie.insertWord(word, wordID);
+    count = newCount;
     if(p->maxCount < newCount)
         p->maxCount = newCount;
     return;
-- 
2.43.0


From 66f69702dfd049983cd49f6a6933f1cd186a0ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 05/25] fix: do not hand out the same word ID twice after a
 failed registration

---
 src/WordStore.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/WordStore.cc b/src/WordStore.cc
index 7e79d0f..a2decb1 100644
--- a/src/WordStore.cc
+++ b/src/WordStore.cc
@@ -56,9 +56,14 @@ WordID WordStore::getID(const Word &w) {
     if(p->words.hasWord(w)) {
         return p->words.getWordID(p->words.findWord(w));
     }
-    TrieOffset node = p->words.insertWord(w, p->wordIndex.size());
-    p->wordIndex.push_back(node);
-    WordID result = p->wordIndex.size()-1;
+    WordID result = p->wordIndex.size();
+    p->wordIndex.push_back(0); // Can fail, so must be done before the word gets its ID.
+    try {
+        p->wordIndex[result] = p->words.insertWord(w, result);
+    } catch(...) {
+        p->wordIndex.pop_back();
+        throw;
+    }
     return result;
 }
 
-- 
2.43.0


From 0f369ca2289a4371b10de4f0e1dc031a0cbe89ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 06/25] fix: utf8ToInternal releases its buffers and converter
 on failure

---
 src/ColumbusHelpers.cc | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 7d916ed..cd30c3c 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -33,6 +33,8 @@
 #include <sys/time.h>
 #include <unicode/uchar.h>
 #include <cstdlib>
+#include <memory>
+#include <string>
 
 COL_NAMESPACE_START
 
@@ -44,30 +46,27 @@ static Letter lowerLetter(Letter l) {
 }
 
 Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
-    iconv_t ic = iconv_open(INTERNAL_ENCODING, "UTF-8");
-    char *tmp;
-    char *txt;
+    iconv_t ic;
     char *inBuf;
     char *outBuf;
     size_t badConvertedCharacters;
     size_t inBytes, outBytes, outBytesOriginal;
     size_t bytesWritten;
+
+    unsigned int inputLen = strlen((const char*)(utf8Text));
+    std::unique_ptr<Letter[]> text(new Letter[inputLen+1]);
+    std::string tmp(utf8Text); // Iconv should take a const pointer but does not. Protect against it screwing up.
+    ic = iconv_open(INTERNAL_ENCODING, "UTF-8");
     if (ic == (iconv_t)-1) {
         throw std::runtime_error("Could not create iconv converter.");
     }
-
-    unsigned int inputLen = strlen((const char*)(utf8Text));
-    txt = (char*)new Letter[inputLen+1];
-    tmp = strdup((const char*)(utf8Text)); // Iconv should take a const pointer but does not. Protect against it screwing up.
-    assert(tmp);
     inBytes = inputLen;
     outBytes = sizeof(Letter)*(inBytes+1);
     outBytesOriginal = outBytes;
 
-    inBuf = tmp;
-    outBuf = txt;
+    inBuf = &tmp[0];
+    outBuf = reinterpret_cast<char*>(text.get());
     badConvertedCharacters = iconv(ic, &inBuf, &inBytes, &outBuf, &outBytes);
-    free(tmp);
     iconv_close(ic);
     if(badConvertedCharacters == (size_t)-1) {
         std::string err("Could not convert UTF8-string to internal representation: ");
@@ -79,19 +78,16 @@ Letter* utf8ToInternal(const char *utf8Text, unsigned int &resultStringSize) {
 
     if(bytesWritten < inputLen) {
         // Shrink allocated memory size to exactly the produced string.
-        size_t newArraySize = bytesWritten + sizeof(Letter);
-        char *newtxt = new char[newArraySize];
-        memcpy(newtxt, txt, newArraySize);
-        delete []txt;
-        txt = newtxt;
+        std::unique_ptr<Letter[]> newText(new Letter[resultStringSize+1]);
+        memcpy(newText.get(), text.get(), bytesWritten);
+        text.swap(newText);
     }
-    Letter* text = reinterpret_cast<Letter*>(txt);
     text[resultStringSize] = 0; // Null terminated.
     // Now convert all letters to lower case, because we don't care about case difference when matching.
     for(size_t i=0; i<resultStringSize; i++) {
         text[i] = lowerLetter(text[i]);
     }
-    return text;
+    return text.release();
 }
 
 void internalToUtf8(const Letter* source, unsigned int characters, char *buf, unsigned int bufsize) {
-- 
2.43.0


From c64469719876ca9582c7a64b4758e6cde8148bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 07/25] fix: a failed assignment leaves a Word intact

---
 src/Word.cc | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index 98e9d30..e28edb7 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -90,35 +90,33 @@ Word::~Word() {
 }
 
 void Word::convertString(const char *utf8Word) {
-    text = utf8ToInternal(utf8Word, len);
-    if(hasWhitespace()) {
-        delete []text;
-        text = nullptr;
+    Word result; // Replace the old contents only when everything has succeeded.
+    result.text = utf8ToInternal(utf8Word, result.len);
+    if(result.hasWhitespace()) {
         std::string err("Tried to create a word with whitespace in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
     }
-    else if(hasBrokenSurrogates()) {
-        delete []text;
-        text = nullptr;
+    else if(result.hasBrokenSurrogates()) {
         std::string err("Tried to create a word with broken surrogates in it: ");
         err += (const char*)utf8Word;
         throw std::invalid_argument(err);
     }
+    *this = std::move(result);
 }
 
 void Word::duplicateFrom(const Word &w) {
     if(this == &w) {
         return;
     }
+    Letter *newText = nullptr;
+    if(w.len != 0) {
+        newText = new Letter[w.len+1];
+        memcpy(newText, w.text, (w.len+1)*sizeof(Letter));
+    }
     delete []text;
+    text = newText;
     len = w.len;
-    if(len == 0) {
-        text = 0;
-    } else {
-        text = new Letter[len+1];
-        memcpy(text, w.text, (len+1)*sizeof(Letter));
-    }
 }
 
 Letter Word::operator[](unsigned int i) const {
@@ -271,9 +269,6 @@ Word Word::join(const Word &w) const {
 }
 
 Word& Word::operator=(const char *utf8Word) {
-    delete []text;
-    text = nullptr;
-    len = 0;
     convertString(utf8Word);
     return *this;
 }
-- 
2.43.0


From c83332416d104167201c6e391ae84ddbe0c81d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 08/25] fix: reject a Word ending in, or with two consecutive,
 high surrogates

---
 src/Word.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Word.cc b/src/Word.cc
index e28edb7..75c25d8 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -168,7 +168,7 @@ bool Word::hasBrokenSurrogates() {
     bool expectHigh = true;
     for(unsigned int i=0; i < len; ++i) {
        Letter cur = text[i];
-	if(expectSurrogate && !cur.isSurrogate()) {
+	if(expectSurrogate && !cur.isLowSurrogate()) {
             return true;
 	}
 
@@ -194,7 +194,7 @@ bool Word::hasBrokenSurrogates() {
         }
 #endif /* 0 */
     }
-    return false;
+    return expectSurrogate; // A high surrogate at the end lacks its pair.
 }
 
 bool Word::operator==(const Word &w) const {
-- 
2.43.0


From ce764fba7a3fa439626b4330f4ed32160be788d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 09/25] fix: split does not leak its buffer or slice the
 exception when a word is rejected

---
 src/ColumbusHelpers.cc | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index cd30c3c..70f0484 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -137,8 +137,7 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
     unsigned int strSize = strlen(utf8Text);
     size_t begin, end;
     end = 0;
-    char *word = 0;
-    unsigned int bufSize = 0;
+    std::string word;
 
     do {
         begin = end;
@@ -146,7 +145,6 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
             begin++;
         }
         if(begin >= strSize) {
-            delete []word;
             return list;
         }
         end = begin+1;
@@ -154,23 +152,9 @@ WordList split(const char *utf8Text, const Letter *splitChars, int numChars) {
             end++;
         }
         // End points to one past the last letter.
-        unsigned int wordLen = end-begin;
-        if(wordLen +1 > bufSize) {
-            delete[] word;
-            word = new char[wordLen+1];
-            bufSize = wordLen + 1;
-        }
-        memcpy(word, utf8Text+begin, wordLen);
-        word[wordLen] = '\0';
-        try {
-            Word w(word);
-            list.addWord(w);
-        } catch(std::invalid_argument &ex) {
-            delete []word;
-            throw ex;
-        }
+        word.assign(utf8Text+begin, end-begin);
+        list.addWord(Word(word));
     } while(end < strSize);
-    delete []word;
     return list;
 }
 
-- 
2.43.0


From 0cdb6b24c99c6ad4f861c46921215fb7995a8d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 10/25] fix: failed copies of word lists, documents and results
 neither leak nor half-modify the target

---
 src/Document.cc     | 12 ++++++------
 src/MatchResults.cc |  7 ++++---
 src/WordList.cc     |  7 ++++---
 3 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/Document.cc b/src/Document.cc
index c444f3f..f756e7b 100644
--- a/src/Document.cc
+++ b/src/Document.cc
@@ -41,9 +41,7 @@ Document::Document(DocumentID id) {
 }
 
 Document::Document(const Document& d) {
-    p = new DocumentPrivate();
-    p->id = d.p->id;
-    p->texts = d.p->texts;
+    p = new DocumentPrivate(*d.p);
 }
 
 Document::~Document() {
@@ -51,7 +49,8 @@ Document::~Document() {
 }
 
 void Document::addText(const Word &field, const WordList &words) {
-    p->texts[field] = words;
+    WordList newText(words); // Copy first so a failure leaves the document as it was.
+    p->texts[field] = std::move(newText);
 }
 
 void Document::addText(const Word &field, const char *textAsUtf8) {
@@ -87,8 +86,9 @@ void Document::getFieldNames(WordList &list) const {
 const Document& Document::operator=(const Document&d) {
     if(this == &d)
         return *this;
-    p->id = d.p->id;
-    p->texts = d.p->texts;
+    DocumentPrivate *newp = new DocumentPrivate(*d.p);
+    delete p;
+    p = newp;
     return *this;
 }
 
diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index c08d762..266b171 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -37,8 +37,7 @@ MatchResults::MatchResults() {
 }
 
 MatchResults::MatchResults(const MatchResults &other) {
-    p = new MatchResultsPrivate();
-    *p = *other.p;
+    p = new MatchResultsPrivate(*other.p);
 }
 
 MatchResults::MatchResults(MatchResults &&other) {
@@ -61,7 +60,9 @@ const MatchResults& MatchResults::operator=(MatchResults &&other) {
 
 const MatchResults& MatchResults::operator=(const MatchResults &other) {
     if(this != &other) {
-        *p = *other.p;
+        MatchResultsPrivate *newp = new MatchResultsPrivate(*other.p);
+        delete p;
+        p = newp;
     }
     return *this;
 }
diff --git a/src/WordList.cc b/src/WordList.cc
index 8fec94a..f891b64 100644
--- a/src/WordList.cc
+++ b/src/WordList.cc
@@ -35,8 +35,7 @@ WordList::WordList() {
 }
 
 WordList::WordList(const WordList &wl) {
-    p = new WordListPrivate();
-    p->words = wl.p->words;
+    p = new WordListPrivate(*wl.p);
 }
 
 WordList::WordList(WordList &&wl) {
@@ -64,7 +63,9 @@ void WordList::addWord(const Word &w) {
 const WordList& WordList::operator=(const WordList &l) {
     if(this == &l)
         return *this;
-    p->words = l.p->words;
+    WordListPrivate *newp = new WordListPrivate(*l.p);
+    delete p;
+    p = newp;
     return *this;
 }
 
-- 
2.43.0


From 48d2de45b0e6314d4286633e19de5f36fab23d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 11/25] fix: release memory when an allocation fails half-way

---
 src/ErrorMatrix.cc  | 14 +++++++++++---
 src/Matcher.cc      |  5 ++++-
 src/ResultFilter.cc |  3 ++-
 src/Word.cc         |  9 ++++-----
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/ErrorMatrix.cc b/src/ErrorMatrix.cc
index b7a51bd..0d9d7ab 100644
--- a/src/ErrorMatrix.cc
+++ b/src/ErrorMatrix.cc
@@ -27,9 +27,17 @@ COL_NAMESPACE_START
 ErrorMatrix::ErrorMatrix(const size_t rows_, const size_t columns_, const int insertError, const int deletionError) :
     rows(rows_),
     columns(columns_) {
-    m = new int*[rows+1];
-    for(size_t i=0; i<=rows; i++) {
-        m[i] = new int[columns+1];
+    m = new int*[rows+1]();
+    try {
+        for(size_t i=0; i<=rows; i++) {
+            m[i] = new int[columns+1];
+        }
+    } catch(...) {
+        for(size_t i=0; i<=rows; i++) {
+            delete []m[i];
+        }
+        delete []m;
+        throw;
     }
     for(size_t i=0; i<=columns; i++) {
         m[0][i] = i*insertError;
diff --git a/src/Matcher.cc b/src/Matcher.cc
index 726d92d..821c588 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -38,6 +38,7 @@
 #include <set>
 #include <vector>
 #include <algorithm>
+#include <memory>
 
 #ifdef HAS_SPARSE_HASH
 #include <google/sparse_hash_map>
@@ -300,8 +301,10 @@ void Matcher::addToIndex(const Word &word, const WordID wordID, const WordID ind
     LevenshteinIndex *target;
     IndIterator it = p->indexes.find(indexID);
     if(it == p->indexes.end()) {
-        target = new LevenshteinIndex();
+        unique_ptr<LevenshteinIndex> newIndex(new LevenshteinIndex());
+        target = newIndex.get();
         p->indexes[indexID] = target;
+        newIndex.release();
     } else {
         target = it->second;
     }
diff --git a/src/ResultFilter.cc b/src/ResultFilter.cc
index 209d44b..97aecd6 100644
--- a/src/ResultFilter.cc
+++ b/src/ResultFilter.cc
@@ -28,11 +28,12 @@ using namespace std;
 
 struct ResultFilterPrivate {
     vector<vector<pair<Word, Word>>> termList;
+
+    ResultFilterPrivate() : termList(1) {}
 };
 
 ResultFilter::ResultFilter() {
     p = new ResultFilterPrivate();
-    addNewTerm();
 }
 
 ResultFilter::~ResultFilter() {
diff --git a/src/Word.cc b/src/Word.cc
index 75c25d8..378d019 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -22,6 +22,7 @@
 #include <stdexcept>
 #include <cassert>
 #include <cstring>
+#include <memory>
 #include "ColumbusHelpers.hh"
 
 using namespace std;
@@ -250,11 +251,9 @@ void Word::toUtf8(char *buf, unsigned int bufSize) const {
 
 string Word::asUtf8() const {
     size_t strSize = 4*(len+1); // One codepoint is max 4 bytes in UTF-8.
-    char *u8 = new char[strSize];
-    toUtf8(u8, strSize);
-    string result(u8);
-    delete []u8;
-    return result;
+    unique_ptr<char[]> u8(new char[strSize]);
+    toUtf8(u8.get(), strSize);
+    return string(u8.get());
 }
 
 Word Word::join(const Word &w) const {
-- 
2.43.0


From 5e05f47eb198eba4c0ffde743a453010d719a18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 12/25] fix: internalToUtf8 does not write past the end of the
 buffer

---
 src/ColumbusHelpers.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ColumbusHelpers.cc b/src/ColumbusHelpers.cc
index 70f0484..4fec36f 100644
--- a/src/ColumbusHelpers.cc
+++ b/src/ColumbusHelpers.cc
@@ -96,12 +96,17 @@ void internalToUtf8(const Letter* source, unsigned int characters, char *buf, un
     char *outBuf;
     size_t badConvertedCharacters;
     size_t inBytes, outBytes, outBytesOriginal, resultStringSize;
+    if (bufsize == 0) {
+        if(ic != (iconv_t)-1)
+            iconv_close(ic);
+        throw std::runtime_error("No room to convert internal string to UTF-8.");
+    }
     if (ic == (iconv_t)-1) {
         throw std::runtime_error("Could not create iconv converter.");
     }
 
     inBytes = characters*sizeof(Letter);
-    outBytes = bufsize;
+    outBytes = bufsize-1; // Leave room for the terminator.
     outBytesOriginal = outBytes;
 
     outBuf = buf;
-- 
2.43.0


From f0758e3557512e0b591c6b1782ce5931bbad1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 13/25] fix: find words whose cheapest match inserts at the
 start or transposes cheaply

---
 src/LevenshteinIndex.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 4399ab9..28cc4a6 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -108,7 +108,7 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
     TrieOffset root;
     TrieOffset sibling;
     ErrorMatrix em(p->longestWordLength+1, query.length()+1,
-            e.getDeletionError(), e.getStartInsertionError(query.length()));
+            e.getInsertionError(), e.getStartInsertionError(query.length()));
 
     assert(em.get(0, 0) == 0);
     if(query.length() > 0)
@@ -157,7 +157,8 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
-    if(em.minError(depth) <= maxError) {
+    // A transposition reaches back two rows, so the previous row may still matter.
+    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
         TrieOffset sibling = p->trie.getSiblingList(node);
         while(sibling != 0) {
             Letter l = p->trie.getLetter(sibling);
-- 
2.43.0


From 9e6d5ac4f7ff016089b87f5fdf8757343594d707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:11 +0000
Subject: [PATCH 14/25] fix: result filters do not modify the word store

---
 src/Matcher.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Matcher.cc b/src/Matcher.cc
index 821c588..42be62d 100644
--- a/src/Matcher.cc
+++ b/src/Matcher.cc
@@ -238,7 +238,9 @@ static bool subtermsMatch(MatcherPrivate *p, const ResultFilter &filter, size_t
     for(size_t subTerm=0; subTerm < filter.numSubTerms(term); subTerm++) {
         const Word &filterName = filter.getField(term, subTerm);
         const Word &value = filter.getWord(term, subTerm);
-        bool termFound = p->reverseIndex.documentHasTerm(
+        // Searching must not register new words.
+        bool termFound = p->store.hasWord(value) && p->store.hasWord(filterName) &&
+            p->reverseIndex.documentHasTerm(
                 p->store.getID(value), p->store.getID(filterName), id);
         if(!termFound) {
             return false;
-- 
2.43.0


From c3fcddecbe79f7e4858b2758c33afae51e63df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:43 +0000
Subject: [PATCH 15/25] fix: report read errors of accent data files

---
 src/ErrorValues.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index 870c730..e0424ae 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -186,6 +186,11 @@ void ErrorValues::addAccents(accentGroups group) {
             continue;
         setGroupError(group, getDefaultGroupError());
     }
+    if(ifile.bad() || !ifile.eof()) {
+        string s = "Could not read data file ";
+        s += dataFile;
+        throw runtime_error(s);
+    }
 }
 
 void ErrorValues::addKeyboardErrors() {
-- 
2.43.0


From 4087902c337a6830e70015a3aafaa64f46484b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:43 +0000
Subject: [PATCH 16/25] fix: a rejected error group changes nothing

---
 src/ErrorValues.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index e0424ae..c6945fd 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -133,15 +133,22 @@ void ErrorValues::clearErrors() {
 
 void ErrorValues::setGroupError(const Word &groupLetters, const int error) {
     size_t newGroupID = p->groupErrors.size();
-    p->groupErrors.push_back(error);
+    // Check everything first and roll back on failure so that a rejected group changes nothing.
     for(size_t i = 0; i < groupLetters.length(); i++) {
-        Letter curLetter = groupLetters[i];
-        if(isInGroup(curLetter)) {
-            if(p->groupMap.find(curLetter)->second != newGroupID)
-                throw runtime_error("Tried to add letter to two different error groups.");
-        } else {
-            p->groupMap[curLetter] = newGroupID;
+        if(isInGroup(groupLetters[i]))
+            throw runtime_error("Tried to add letter to two different error groups.");
+    }
+    p->groupErrors.push_back(error);
+    try {
+        for(size_t i = 0; i < groupLetters.length(); i++) {
+            p->groupMap[groupLetters[i]] = newGroupID;
+        }
+    } catch(...) {
+        for(size_t i = 0; i < groupLetters.length(); i++) {
+            p->groupMap.erase(groupLetters[i]);
         }
+        p->groupErrors.pop_back();
+        throw;
     }
     addGroupErrorToLUT(groupLetters, error);
 
-- 
2.43.0


From 9f779c0c5c3c16f829bf6a69dc9507334210fcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:43 +0000
Subject: [PATCH 17/25] fix: the error lookup table agrees with the slow path

---
 src/ErrorValues.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ErrorValues.cc b/src/ErrorValues.cc
index c6945fd..41a1c45 100644
--- a/src/ErrorValues.cc
+++ b/src/ErrorValues.cc
@@ -162,6 +162,9 @@ void ErrorValues::addGroupErrorToLUT(const Word &groupLetters, const int error)
             Letter l2 = groupLetters[j];
             if(l1 == l2)
                 continue;
+            // An explicit error overrides the group's, just like in substituteErrorSlow.
+            if(p->singleErrors.find(l1 < l2 ? make_pair(l1, l2) : make_pair(l2, l1)) != p->singleErrors.end())
+                continue;
             addToLUT(l1, l2, error);
         }
     }
@@ -279,6 +282,8 @@ void ErrorValues::addStandardErrors() {
 }
 
 void ErrorValues::addToLUT(Letter l1, Letter l2, int value) {
+    if(l1 == l2)
+        return; // Substituting a letter with itself is always free.
     if(l1 < LUT_LETTERS && l2 < LUT_LETTERS) {
         p->lut[LUT_OFFSET(l1, l2)] = value;
         p->lut[LUT_OFFSET(l2, l1)] = value;
-- 
2.43.0


From 3471e9dde9b7ba95c2ab62bee20bd565c8b59374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:43 +0000
Subject: [PATCH 18/25] fix: MatchResults::copyResult copies the entry reported
 at that position

---
 src/MatchResults.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MatchResults.cc b/src/MatchResults.cc
index 266b171..e1a5c2c 100644
--- a/src/MatchResults.cc
+++ b/src/MatchResults.cc
@@ -89,6 +89,7 @@ void MatchResults::copyResult(const MatchResults &other, const size_t i) {
     if(i >= other.p->results.size()) {
         throw out_of_range("Tried to copy an out-of-range result.");
     }
+    other.sortIfRequired(); // Positions are those that the getters report.
     p->results.push_back(other.p->results[i]);
     p->sorted = false;
 }
-- 
2.43.0


From 0ef370c683130331c9fbad338eee6787d844598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:43 +0000
Subject: [PATCH 19/25] fix: an empty COLUMBUS_DATADIR is not read out of
 bounds

---
 src/ColumbusSlow.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ColumbusSlow.cc b/src/ColumbusSlow.cc
index b641a4d..10d09ee 100644
--- a/src/ColumbusSlow.cc
+++ b/src/ColumbusSlow.cc
@@ -38,7 +38,7 @@ string findDataFile(const string &baseName) {
     envvarDir = getenv(varname);
     if(envvarDir) {
         s = envvarDir;
-        if(s[s.length()-1] != '/')
+        if(s.empty() || s[s.length()-1] != '/')
             s += "/";
         s += baseName;
     } else {
-- 
2.43.0


From 0591114e4c784eb026477e90dbc2c9319f79302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:22:57 +0000
Subject: [PATCH 20/25] fix: Python's ErrorValues accepts letters

set_error and get_substitute_error take a Letter, which is a class that
Python integers did not convert to, so both could not be called.
---
 python/columbus.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/columbus.cc b/python/columbus.cc
index 63babf5..5fb7782 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -28,6 +28,9 @@ void (Document::*addAdaptor) (const Word &, const std::string &) = &Document::ad
 MatchResults (Matcher::*queryAdaptor) (const std::string &) = &Matcher::match;
 
 BOOST_PYTHON_MODULE(columbus) {
+    // Letters are plain integers in Python.
+    implicitly_convertible<Letter_, Letter>();
+
     class_<Corpus, boost::noncopyable>("Corpus", init<>())
         .def("size", &Corpus::size)
         .def("add_document", &Corpus::addDocument)
-- 
2.43.0


From f2f142b41b3e784f06eaa70e0e2bd3ef37b527a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:24:17 +0000
Subject: [PATCH 21/25] fix: words read from a WordList in Python outlive
 changes to the list

__getitem__ handed out a reference into the list's vector, which dangles
as soon as add_word reallocates it.
---
 python/columbus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/columbus.cc b/python/columbus.cc
index 5fb7782..8cef2ca 100644
--- a/python/columbus.cc
+++ b/python/columbus.cc
@@ -45,8 +45,9 @@ BOOST_PYTHON_MODULE(columbus) {
     class_<WordList>("WordList", init<>())
             .def(init<const WordList &>())
             .def("__len__", &WordList::size)
+            // A reference would dangle when the list grows.
             .def("__getitem__", &WordList::operator[],
-                    return_internal_reference<>())
+                    return_value_policy<copy_const_reference>())
             .def("add_word", &WordList::addWord)
             ;
 
-- 
2.43.0


From a210097ccd1988017b3be4640ecbe17637cef838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:03 +0000
Subject: [PATCH 22/25] fix: an empty letter array makes an empty word

Word(Letter*, 0) read the letter before the array to look for a terminator.
---
 src/Word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Word.cc b/src/Word.cc
index 378d019..6c01d99 100644
--- a/src/Word.cc
+++ b/src/Word.cc
@@ -61,7 +61,7 @@ Word::Word(Word &&w) :
 }
 
 Word::Word(Letter *letters, size_t length) {
-    if(letters[length-1] == 0) {
+    if(length > 0 && letters[length-1] == 0) {
         text = new Letter[length];
         len = length-1;
     } else {
-- 
2.43.0


From 99f9c19efa8ff16cc10f573e5561047d3fdd089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:03 +0000
Subject: [PATCH 23/25] fix: a trie that can not grow any more reports it

Doubling a 2 GiB backing file wrapped the 32-bit size around to zero: the file
was truncated and everything stored in it lost with a bus error.
---
 src/Trie.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Trie.cc b/src/Trie.cc
index 0732fd8..1969981 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -109,6 +109,8 @@ void Trie::expand() {
     if(p->map) {
         oldSize = p->h->totalSize;
         newSize = oldSize*2;
+        if(newSize <= oldSize)
+            throw runtime_error("The trie can not grow any more.");
     } else {
         newSize = 1024;
     }
-- 
2.43.0


From 5405223b4f286af61dd558c7448aedb720265a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:03 +0000
Subject: [PATCH 24/25] fix: fuzzy lookup does not recurse once per letter

With free end deletions every stored word is walked to its end, so one word of a
hundred thousand letters overflowed the stack. Walk depth first with a vector.
---
 include/LevenshteinIndex.hh |  2 +-
 src/LevenshteinIndex.cc     | 39 ++++++++++++++++++++++---------------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/LevenshteinIndex.hh b/include/LevenshteinIndex.hh
index 6c01325..4ebd31c 100644
--- a/include/LevenshteinIndex.hh
+++ b/include/LevenshteinIndex.hh
@@ -35,7 +35,7 @@ class COL_PUBLIC LevenshteinIndex final {
 private:
     LevenshteinIndexPrivate *p;
 
-    void searchRecursive(const Word &query, TrieOffset node, const ErrorValues &e,
+    bool searchNode(const Word &query, TrieOffset node, const ErrorValues &e,
             const Letter letter, const Letter previousLetter, const size_t depth, ErrorMatrix &em,
             IndexMatches &matches, const int max_error) const;
 
diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index 28cc4a6..a77984c 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -115,11 +115,26 @@ void LevenshteinIndex::findWords(const Word &query, const ErrorValues &e, const
         assert(em.get(0, 1) == e.getInsertionError());
     root = p->trie.getRoot();
     sibling = p->trie.getSiblingList(root);
-    while(sibling != 0) {
-        Letter l = p->trie.getLetter(sibling);
-        TrieOffset nextNode = p->trie.getChild(sibling);
-        searchRecursive(query, nextNode, e, l, (Letter)0, 1, em, matches, maxError);
-        sibling = p->trie.getNextSibling(sibling);
+    // Depth first without recursion, as words may be longer than the stack is deep.
+    vector<TrieOffset> path; // The siblings that lead to the current one.
+    while(sibling != 0 || !path.empty()) {
+        if(sibling == 0) {
+            // All siblings done, continue from the parent.
+            sibling = p->trie.getNextSibling(path.back());
+            path.pop_back();
+            continue;
+        }
+        Letter previousLetter = path.empty() ? (Letter)0 : p->trie.getLetter(path.back());
+        TrieOffset node = p->trie.getChild(sibling);
+        TrieOffset children = 0;
+        if(searchNode(query, node, e, p->trie.getLetter(sibling), previousLetter, path.size()+1, em, matches, maxError))
+            children = p->trie.getSiblingList(node);
+        if(children != 0) {
+            path.push_back(sibling);
+            sibling = children;
+        } else {
+            sibling = p->trie.getNextSibling(sibling);
+        }
     }
     matches.sort();
 }
@@ -144,7 +159,7 @@ int LevenshteinIndex::findOptimalError(const Letter letter, const Letter previou
     return min(insertError, min(deleteError, min(substituteError, transposeError)));
 }
 
-void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const ErrorValues &e,
+bool LevenshteinIndex::searchNode(const Word &query, TrieOffset node, const ErrorValues &e,
         const Letter letter, const Letter previousLetter, const size_t depth, ErrorMatrix &em,
         IndexMatches &matches, const int maxError) const {
 
@@ -153,20 +168,12 @@ void LevenshteinIndex::searchRecursive(const Word &query, TrieOffset node, const
         em.set(depth, i, minError);
     }
 
-    // Error row evaluated. Now check if a word was found and continue recursively.
+    // Error row evaluated. Now check if a word was found and whether longer ones can be.
     if(em.totalError(depth) <= maxError && p->trie.getWordID(node) != INVALID_WORDID) {
         matches.addMatch(query, p->trie.getWordID(node), em.totalError(depth));
     }
     // A transposition reaches back two rows, so the previous row may still matter.
-    if(em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError) {
-        TrieOffset sibling = p->trie.getSiblingList(node);
-        while(sibling != 0) {
-            Letter l = p->trie.getLetter(sibling);
-            TrieOffset nextNode = p->trie.getChild(sibling);
-            searchRecursive(query, nextNode, e, l, letter, depth+1, em, matches, maxError);
-            sibling = p->trie.getNextSibling(sibling);
-        }
-    }
+    return em.minError(depth) <= maxError || em.minError(depth-1) + e.getTransposeError() <= maxError;
 }
 
 size_t LevenshteinIndex::wordCount(const WordID queryID) const {
-- 
2.43.0


From 3908538442025568edcbc85f6c88a046265e4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:44:40 +0000
Subject: [PATCH 25/25] fix: words with a zero letter can be indexed and looked
 up

The head of a sibling list has no letter and must not be taken for the
letter zero, and there is no previous letter to transpose on the first row.
---
 src/LevenshteinIndex.cc |  2 +-
 src/Trie.cc             | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/LevenshteinIndex.cc b/src/LevenshteinIndex.cc
index a77984c..2619115 100644
--- a/src/LevenshteinIndex.cc
+++ b/src/LevenshteinIndex.cc
@@ -151,7 +151,7 @@ int LevenshteinIndex::findOptimalError(const Letter letter, const Letter previou
     int substituteError = em.get(depth-1, i-1) + e.getSubstituteError(query.text[i-1], letter);
 
     int transposeError;
-    if(i > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {
+    if(i > 1 && depth > 1 && query.text[i - 1] == previousLetter && query.text[i - 2] == letter) {
         transposeError = em.get(depth-2, i-2) + e.getTransposeError();
     } else {
         transposeError = insertError + 10000; // Ensures this will not be chosen.
diff --git a/src/Trie.cc b/src/Trie.cc
index 1969981..1feb6c4 100644
--- a/src/Trie.cc
+++ b/src/Trie.cc
@@ -198,15 +198,16 @@ TrieOffset Trie::insertWord(const Word &word, const WordID wordID) {
         Letter l = word[i];
         TrieOffset searcher = node;
         //TrieNode *n = (TrieNode*)(p->map + searcher);
-        TrieOffset sibl = searcher + sizeof(TrieNode);
+        const TrieOffset head = searcher + sizeof(TrieNode); // Starts the list, has no letter.
+        TrieOffset sibl = head;
         TriePtrs *ptrs = (TriePtrs*)(p->map + sibl);
 
-        while(ptrs->sibling != 0 && ptrs->l != l) {
+        while(ptrs->sibling != 0 && (sibl == head || ptrs->l != l)) {
             sibl = ptrs->sibling;
             ptrs = (TriePtrs*)(p->map + sibl);
         }
 
-        if(ptrs->l == l) {
+        if(sibl != head && ptrs->l == l) {
             node = ptrs->child;
         } else {
             node = addNewSibling(node, sibl, l);
@@ -242,14 +243,15 @@ TrieOffset Trie::findWord(const Word &word) const {
     for(size_t i=0; word.length() > i; i++) {
         Letter l = word[i];
         TrieOffset searcher = node;
-        TrieOffset sibl = searcher + sizeof(TrieNode);
+        const TrieOffset head = searcher + sizeof(TrieNode); // Starts the list, has no letter.
+        TrieOffset sibl = head;
         TriePtrs *ptrs = (TriePtrs*)(p->map + sibl);
-        while(ptrs->sibling != 0 && ptrs->l != l) {
+        while(ptrs->sibling != 0 && (sibl == head || ptrs->l != l)) {
             sibl = ptrs->sibling;
             ptrs = (TriePtrs*)(p->map + sibl);
         }
 
-        if(ptrs->l != l)
+        if(sibl == head || ptrs->l != l)
             return 0;
         node = ptrs->child;
     }
-- 
2.43.0

