From cfd4e26a4143853d562dcdbcfb370c084a2938d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 001/149] fix: base16/base32 decoders: the case-insensitive
 table was built for caseSensitive=true

The default (case insensitive) decoders filled only one case and read
uninitialised table entries for the other one.
---
 src/lightspeed/utils/base16.cpp | 2 +-
 src/lightspeed/utils/base32.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base16.cpp b/src/lightspeed/utils/base16.cpp
index 85e9b5b..d7a0e77 100644
--- a/src/lightspeed/utils/base16.cpp
+++ b/src/lightspeed/utils/base16.cpp
@@ -96,7 +96,7 @@ void Base16ToByteConvert::flush() {
 void Base16ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 0xF);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 0xF);
diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 8aa8c2b..528d35b 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -203,7 +203,7 @@ void Base32ToByteConvert::flush() {
 void Base32ToByteConvert::initTable(ConstStrA t, bool caseSensitive = false) {
 	//for performance reason, do not fill other items, it expects valid format if base64
 
-	if (caseSensitive) {
+	if (!caseSensitive) {
 		for (natural i = 0; i < t.length(); i++) {
 			table[(unsigned int)(toupper(t[i]))] = (byte)(i & 31);
 			table[(unsigned int)(tolower(t[i]))] = (byte)(i & 31);
-- 
2.43.0


From 3e95f58faaef745b18d0a035c1b6d9b86228c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 002/149] fix: base32 encoder without padding dropped the last
 character

flush() prepares the character holding the remaining bits, but the count of
readable characters was rounded down.
---
 src/lightspeed/utils/base32.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/base32.cpp b/src/lightspeed/utils/base32.cpp
index 528d35b..6517990 100644
--- a/src/lightspeed/utils/base32.cpp
+++ b/src/lightspeed/utils/base32.cpp
@@ -41,7 +41,8 @@ const char &ByteToBase32Convert::getNext() {
 		needItems = true;
 		hasItems = false;
 	} else {
-		hasItems = readpos < wrbyte*8/5;
+		//after flush, the partial last character can be read as well
+		hasItems = readpos < (eolb?(wrbyte*8+4)/5:wrbyte*8/5);
 	}
 	return out;
 }
@@ -120,7 +121,7 @@ void ByteToBase32Convert::flush() {
 	}
 
 	//unlock hasItems only if there are chars to read.
-	hasItems = readpos < wrbyte*8/5;
+	hasItems = readpos < (wrbyte*8+4)/5;
 }
 
 Base32ToByteConvert::Base32ToByteConvert()
-- 
2.43.0


From eadd65d9768928d63b351a522dc6748b4b4393c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 003/149] fix: base85 encoder repeated stale characters when
 flushed with no pending bytes

flush() announced items even if the input length was a multiple of four
(or zero, when the output buffer has never been filled).
---
 src/lightspeed/utils/base85.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 50f0006..13582b5 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -102,10 +102,10 @@ void ByteToBase85Convert::flush() {
 
 		for (natural i = 0; i < remain; i++) write(0);
 		maxreadpos -= remain;
+		this->hasItems = true;
 	}
 	this->eolb = true;
 	this->needItems = false;
-	this->hasItems = true;
 }
 
 Base85ToByteConvert::Base85ToByteConvert()
-- 
2.43.0


From 560cf50b1ac4a7a8638bfdee030a3dbae315570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 004/149] fix: base85 decoder read out of its buffer when one
 character remains at flush

The count of bytes to read became zero, which is never reached by the read
position, so the reader walked through 256 bytes behind the buffer.
---
 src/lightspeed/utils/base85.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightspeed/utils/base85.cpp b/src/lightspeed/utils/base85.cpp
index 13582b5..721d95c 100644
--- a/src/lightspeed/utils/base85.cpp
+++ b/src/lightspeed/utils/base85.cpp
@@ -154,6 +154,11 @@ void Base85ToByteConvert::write(const char &item) {
 	}
 }
 void Base85ToByteConvert::flush() {
+	if (eolb) return;
+	if (wrpos == 1) {
+		//single character doesn't carry a whole byte
+		reset();
+	}
 	if (wrpos) {
 		natural remain = 5-wrpos;
 		for (natural i = 0; i < remain; i++)
-- 
2.43.0


From 15863bcf84a561f2773e91fb99cd38f72a109a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 005/149] fix: HexDecoder with custom digits started with one
 (uninitialised) item ready

---
 src/lightspeed/utils/base64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.h b/src/lightspeed/utils/base64.h
index c612e68..be22022 100644
--- a/src/lightspeed/utils/base64.h
+++ b/src/lightspeed/utils/base64.h
@@ -211,7 +211,7 @@ namespace LightSpeed {
 	class HexDecoder: public IteratorFilterBase<In,Out,HexDecoder<In,Out> > {
 	public:
 		HexDecoder():idx(0) {loadHexChars("0123456789abcdef");}
-		HexDecoder(ConstStrA hexchars):idx(2) {loadHexChars(hexchars);}
+		HexDecoder(ConstStrA hexchars):idx(0) {loadHexChars(hexchars);}
         bool needItems() const;
         void input(const In &x);
         bool hasItems() const;
-- 
2.43.0


From c2677870eaac21db1b056735c49cbfc77c9197ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 006/149] fix: Base64Decoder lost the last two bytes of an
 unpadded text

Three characters without padding hold two bytes, two characters one byte.
---
 src/lightspeed/utils/base64.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/base64.tcc b/src/lightspeed/utils/base64.tcc
index 8f43dd9..457a973 100644
--- a/src/lightspeed/utils/base64.tcc
+++ b/src/lightspeed/utils/base64.tcc
@@ -145,7 +145,7 @@ Base64DecoderT<Char,Bin>::Base64DecoderT():buffer(0),cycle(0),eos(7) {
 template<typename Char, typename Bin>
 void Base64DecoderT<Char,Bin>::flush() {
 	if (cycle < 4 && cycle > 0) {
-		eos = 7 - cycle;
+		eos = cycle + 3;
 		cycle = 4;
 	}
 }
-- 
2.43.0


From 38daaa321bdd4b7ed2657cad94d8e93c46453123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 007/149] fix: UTF-8 encoder produced overlong sequences for
 the last code point of each length

---
 src/lightspeed/base/streams/utf.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 9984d42..7cfca2f 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -89,19 +89,19 @@ namespace LightSpeed {
      if (c < 128) {
              fbyte = (char)c;
              parts = 0;
-     } else if (c < 0x7ff) { // xx011 1111 1111
+     } else if (c <= 0x7ff) { // xx011 1111 1111
          fbyte = (char)(c >> 6) | 0xC0;
          parts = 1;
-     } else if (c < 0xffff) {
+     } else if (c <= 0xffff) {
          fbyte  = (char)(c >> 12) | 0xE0;
          parts = 2;
-     } else if (c < 0x1fffff) {
+     } else if (c <= 0x1fffff) {
          fbyte = (char)(c >> 18) | 0xF0;
          parts = 3;
-     } else if (c < 0x3ffffff) {
+     } else if (c <= 0x3ffffff) {
          fbyte = (char)(c >> 24) | 0xF8;
          parts = 4;
-     } else if (c < 0x7ffffff) {
+     } else if (c <= 0x7fffffff) {
          fbyte = (char)(c >> 30) | 0xFC;
          parts = 5;
      } else  {
@@ -200,19 +200,19 @@ void WideToUtf8Convert::write(const wchar_t& item) {
     if (c < 128) {
             fbyte = (char)c;
             parts = 0;
-    } else if (c < 0x7ff) { // xx011 1111 1111
+    } else if (c <= 0x7ff) { // xx011 1111 1111
         fbyte = (char)(c >> 6) | 0xC0;
         parts = 1;
-    } else if (c < 0xffff) {
+    } else if (c <= 0xffff) {
         fbyte  = (char)(c >> 12) | 0xE0;
         parts = 2;
-    } else if (c < 0x1fffff) {
+    } else if (c <= 0x1fffff) {
         fbyte = (char)(c >> 18) | 0xF0;
         parts = 3;
-    } else if (c < 0x3ffffff) {
+    } else if (c <= 0x3ffffff) {
         fbyte = (char)(c >> 24) | 0xF8;
         parts = 4;
-    } else if (c < 0x7ffffff) {
+    } else if (c <= 0x7fffffff) {
         fbyte = (char)(c >> 30) | 0xFC;
         parts = 5;
     } else  {
-- 
2.43.0


From 0b39dbc58fd4243ef77074b405be7137ad8e28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 008/149] fix: UTF-8 decoders silently dropped the invalid byte
 0xFF

---
 src/lightspeed/base/streams/utf.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lightspeed/base/streams/utf.cpp b/src/lightspeed/base/streams/utf.cpp
index 7cfca2f..e62c8ab 100644
--- a/src/lightspeed/base/streams/utf.cpp
+++ b/src/lightspeed/base/streams/utf.cpp
@@ -55,6 +55,11 @@ namespace LightSpeed {
              accum = a & 0x01, state = 5;
          } else if (a >= 0xFE && a < 0xFF) {
              accum = 0, state = 6;
+         } else {
+			 if (!skipInvChars)
+				throw InvalidUTF8Character(THISLOCATION, a);
+			 accum = a;
+			 state = 0;
          }
      } else {
          if (a >= 0x80 && a < 0xc0) {
@@ -164,6 +169,11 @@ void Utf8ToWideConvert::write(const char& item) {
             outchar = a & 0x01, state = 5;
         } else if (a >= 0xFE && a < 0xFF) {
             outchar = 0, state = 6;
+        } else {
+			 if (!skipInvChars)
+				throw InvalidUTF8Character(THISLOCATION, a);
+			 outchar = a;
+			 state = 0;
         }
     } else {
         if (a >= 0x80 && a < 0xc0) {
-- 
2.43.0


From 78c99bbf71521d24ac5d83009b4de267b51e832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:48 +0000
Subject: [PATCH 009/149] fix: QueryParser returned an extra empty field
 instead of the next one after an empty item

---
 src/lightspeed/utils/queryParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/queryParser.cpp b/src/lightspeed/utils/queryParser.cpp
index 4879e8b..6c56902 100644
--- a/src/lightspeed/utils/queryParser.cpp
+++ b/src/lightspeed/utils/queryParser.cpp
@@ -63,11 +63,12 @@ void QueryParser::preload() {
 		ConstStrA field;
 		ConstStrA val;
 		if (q == naturalNull) {
-			if (itm.empty()) preload();
-			else {
-				field = itm;
-				val = ConstStrA("1");
+			if (itm.empty()) {
+				preload();
+				return;
 			}
+			field = itm;
+			val = ConstStrA("1");
 		} else {
 			field = itm.head(q);
 			val = itm.offset(q+1);
-- 
2.43.0


From c07fa1e0ddd5240d6e9cf2f70b587395b3f6dc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 010/149] fix: JSON parser failed on a document containing just
 a single digit

---
 src/lightspeed/utils/json/jsonparser.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index c7c3c09..45a9d49 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -207,7 +207,8 @@ template<typename T>
 PNode Parser<T>::parseValue(char firstChar) {
 
 	strBuff.clear();
-	char c = iter.peek();
+	//number can be the last item of the text
+	char c = iter.hasItems()?iter.peek():(char)0;
 	if (isspace(firstChar)) {
 		while(isspace(c)) {
 			iter.skip();
-- 
2.43.0


From da562e8a442b1385e6abe82b5a93b05c3b5c64f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 011/149] fix: JSON parser silently truncated integers which do
 not fit into 64 bits

---
 src/lightspeed/utils/json/jsonparser.tcc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index 45a9d49..e34279e 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -12,7 +12,27 @@ double strtod(const char *string, char **endPtr);
 
 namespace JSON {
 
+namespace _intr {
+
+	///Determines, whether decimal number can be stored in specified signed type without overflow
+	template<typename Num>
+	bool decimalFitsTo(ConstStrA text) {
+		const lnatural maxVal = (lnatural(1) << (sizeof(Num)*8-1)) - 1;
+		lnatural val = 0;
+		bool neg = false;
+		for (natural i = 0; i < text.length(); i++) {
+			char c = text[i];
+			if (c == '-') neg = true;
+			if (c < '0' || c > '9') continue;
+			lnatural limit = maxVal + (neg?1:0);
+			lnatural digit = c - '0';
+			if (val > (limit - digit)/10) return false;
+			val = val * 10 + digit;
+		}
+		return true;
+	}
 
+}
 
 template<typename T>
 Value Parser<T>::parse() {
@@ -230,7 +250,7 @@ PNode Parser<T>::parseValue(char firstChar) {
 
 	if (isFloat == false) {
 		AutoArray<char>::Iterator iter = strBuff.getFwIter();
-		if (strBuff.length() <= ((sizeof(integer)*10000+1818)/3636)) {
+		if (_intr::decimalFitsTo<integer>(strBuff)) {
 			integer x;
 			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
 				throw ParseError_t(THISLOCATION,strBuff);
@@ -240,7 +260,7 @@ PNode Parser<T>::parseValue(char firstChar) {
 			} else {
 				return factory->newValue(x);
 			}
-		} else if (strBuff.length() <= ((sizeof(linteger)*10000+1818)/3636)) {
+		} else if (_intr::decimalFitsTo<linteger>(strBuff)) {
 			linteger x;
 			if (!parseSignedNumber(iter,x,10) || iter.hasItems())
 				throw ParseError_t(THISLOCATION,strBuff);
-- 
2.43.0


From 9e73188e7d9a54a4207a5be90591a626d29592df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 012/149] fix: JSON objects were compared by identity of their
 fields, not by values

---
 src/lightspeed/utils/json/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d5a6132..d0504dc 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -89,7 +89,7 @@ bool Object::operator==(const INode &other) const {
 		iter.hasItems();) {
 		const FieldNode *e1 = iter.getNext();
 		const FieldNode *e2 = iter2.getNext();
-		if (e1->data.key != e2->data.key || (e1->data.value) != (e2->data.value)) return false;
+		if (e1->data.key != e2->data.key || *(e1->data.value) != *(e2->data.value)) return false;
 	}
 	return true;
 }
-- 
2.43.0


From 3ca405fe9ed923cb78a6e355db296442c9112621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 013/149] fix: JSON strings with characters above U+FFFF did
 not survive escaping

---
 src/lightspeed/utils/json/jsonparser.h       |  1 +
 src/lightspeed/utils/json/jsonparser.tcc     | 26 +++++++++++++++++---
 src/lightspeed/utils/json/jsonserializer.h   |  1 +
 src/lightspeed/utils/json/jsonserializer.tcc | 23 +++++++++++------
 4 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/utils/json/jsonparser.h b/src/lightspeed/utils/json/jsonparser.h
index 577b77c..fa1c0d1 100644
--- a/src/lightspeed/utils/json/jsonparser.h
+++ b/src/lightspeed/utils/json/jsonparser.h
@@ -54,6 +54,7 @@ protected:
 	char storedChar;
 
 	void parseRawString();
+	void appendUtf8(wchar_t c);
 	char getNextEatW();
 	char getNextWithStored();
 	ConstStrA arrayIndexStr(natural i);
diff --git a/src/lightspeed/utils/json/jsonparser.tcc b/src/lightspeed/utils/json/jsonparser.tcc
index e34279e..540e1c7 100644
--- a/src/lightspeed/utils/json/jsonparser.tcc
+++ b/src/lightspeed/utils/json/jsonparser.tcc
@@ -81,8 +81,11 @@ template<typename T>
 void Parser<T>::parseRawString() {
 	char x = iter.getNext();
 		strBuff.clear();
+		wchar_t high = 0;
 		while (x != '"') {
 			if (x != '\\') {
+				if (high) appendUtf8(high);
+				high = 0;
 				strBuff.add(x);
 			} else {
 				x = iter.getNext();
@@ -109,19 +112,36 @@ void Parser<T>::parseRawString() {
 								}
 							}
 							wchar_t wy = (wchar_t)::LightSpeed::_intr::stringToUnsignedNumber<natural>(buff,16);
-							WideToUtf8Filter flt;
-							flt.input(wy);
-							while (flt.hasItems()) strBuff.add(flt.output());
+							if (high) {
+								//combine surrogate pair to the single character
+								if (wy >= 0xDC00 && wy <= 0xDFFF)
+									wy = 0x10000 + ((high - 0xD800) << 10) + (wy - 0xDC00);
+								else
+									appendUtf8(high);
+								high = 0;
+							}
+							if (wy >= 0xD800 && wy <= 0xDBFF) high = wy;
+							else appendUtf8(wy);
 							x = iter.getNext();
 							continue;
 						}
 					default: throw ErrorMessageException(THISLOCATION, "Neocekavana escape sekvence");
 					//TODO: vymyslet lepsi vyjimku
 				}
+				if (high) appendUtf8(high);
+				high = 0;
 				strBuff.add(y);
 			}
 			x = iter.getNext();
 		}
+		if (high) appendUtf8(high);
+}
+
+template<typename T>
+void Parser<T>::appendUtf8(wchar_t c) {
+	WideToUtf8Filter flt;
+	flt.input(c);
+	while (flt.hasItems()) strBuff.add(flt.output());
 }
 
 
diff --git a/src/lightspeed/utils/json/jsonserializer.h b/src/lightspeed/utils/json/jsonserializer.h
index 0a9f43f..27c023f 100644
--- a/src/lightspeed/utils/json/jsonserializer.h
+++ b/src/lightspeed/utils/json/jsonserializer.h
@@ -53,6 +53,7 @@ public:
 
 
 protected:
+	void writeEscaped(wchar_t c);
 	void serializeArray(const INode *json);
 	void serializeBool(const INode *json);
 	void serializeDeleted(const INode *);
diff --git a/src/lightspeed/utils/json/jsonserializer.tcc b/src/lightspeed/utils/json/jsonserializer.tcc
index fa2ec77..5a0d704 100644
--- a/src/lightspeed/utils/json/jsonserializer.tcc
+++ b/src/lightspeed/utils/json/jsonserializer.tcc
@@ -85,9 +85,7 @@ void Serializer<T>::serializeString(ConstStrW str) {
 	for (ConstStrW::Iterator oiter = str.getFwIter(); oiter.hasItems();) {
 		wchar_t c = oiter.getNext();
 		if (c > 0x7F) {
-			TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-			fmt.setBase(16);
-			fmt("\\u%{04}1") << (unsigned int)c;
+			writeEscaped(c);
 		} else {
 			writeChar<char>((char)c,iter);
 		}
@@ -107,10 +105,7 @@ void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 				while (!flt.hasItems()) flt.input(oiter.getNext());
 				flt.flush();
 				while (flt.hasItems()) {
-					wchar_t cu = flt.output();
-					TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
-					fmt.setBase(16);
-					fmt("\\u%{04}1") << (unsigned int)cu;
+					writeEscaped(flt.output());
 				}
 			} catch (Exception &e) {
 				throw SerializeError_t(THISLOCATION,str) << e;
@@ -122,6 +117,20 @@ void Serializer<T>::serializeStringEscUTF(ConstStrA str) {
 	iter.write('"');
 }
 
+template<typename T>
+void Serializer<T>::writeEscaped(wchar_t c) {
+	TextOut<IWriteIterator<char, T> &, StaticAlloc<32> > fmt(iter);
+	fmt.setBase(16);
+	if (c > 0xFFFF) {
+		//characters outside of BMP are written as surrogate pair
+		unsigned int x = (unsigned int)c - 0x10000;
+		fmt("\\u%{04}1") << (0xD800 + (x >> 10));
+		fmt("\\u%{04}1") << (0xDC00 + (x & 0x3FF));
+	} else {
+		fmt("\\u%{04}1") << (unsigned int)c;
+	}
+}
+
 template<typename T>
 void Serializer<T>::serializeObjectNode(const ConstKeyValue &n) {
 	if (escapeUTF8)
-- 
2.43.0


From bc78a92af6f9b1a3868fc5c280561f8b684b518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 014/149] fix: JSON::Path::copy never finished, deleting of a
 copied path looped and released a wrong address

---
 src/lightspeed/utils/json/json.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/utils/json/json.cpp b/src/lightspeed/utils/json/json.cpp
index d0504dc..c7bfa4a 100644
--- a/src/lightspeed/utils/json/json.cpp
+++ b/src/lightspeed/utils/json/json.cpp
@@ -1108,13 +1108,13 @@ Path *Path::copyRecurse(Path * trg, char  *strBuff) const {
 		//advence pointer in buffer
 		strBuff+=index;
 		//copy rest of path to retrieve new pointer
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//construct path item at give position, use returned pointer as parent
 		//and use text from string buffer as name
 		return new((void *)trg) Path(*out, ConstStrA(c, index));
 	} else {
 		//if it is index, just construct rest of path
-		Path *out = copyRecurse(trg+1,strBuff);
+		Path *out = parent.copyRecurse(trg+1,strBuff);
 		//copy rest of path to retrieve new pointer
 
 		return new((void *)trg) Path(*out, index);
@@ -1138,14 +1138,14 @@ void Path::operator delete(void *ptr) {
 	//calculate reqSize
 	natural reqSize = sizeof(IRuntimeAlloc *);
 
-	for (const Path *p = reinterpret_cast<Path *>(ptr); ptr != &root; p = &p->parent) {
+	for (const Path *p = reinterpret_cast<Path *>(ptr); p != &root; p = &p->parent) {
 		//reserve space for element
 		reqSize+=sizeof(Path);
 		//if it is key, then reserve space for name
 		if (p->isKey()) reqSize+=p->getKey().length();
 	}
 	//deallocate memory
-	alc->dealloc(a,reqSize);
+	alc->dealloc(a-1,reqSize);
 
 }
 void *Path::operator new(size_t , void *p) {
-- 
2.43.0


From 7eb378c5d916ab0d20958e0cbbbcdcf6e4c8ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:45 +0000
Subject: [PATCH 015/149] fix: the lowest signed number could not be converted
 to text

---
 src/lightspeed/base/text/textFormat.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.cpp b/src/lightspeed/base/text/textFormat.cpp
index e5bb247..49c49e1 100644
--- a/src/lightspeed/base/text/textFormat.cpp
+++ b/src/lightspeed/base/text/textFormat.cpp
@@ -64,7 +64,8 @@ ConstStrA numberToStringSigned(T num, char *string, natural size, natural base)
 	} else {
 		if (num < 0) {
 			*string='-';
-			ConstStrA z = numberToString(-num,string+1,size-1,base);
+			//convert as unsigned, the lowest number has no positive counterpart
+			ConstStrA z = numberToStringUnsigned(lnatural(0)-lnatural(linteger(num)),string+1,size-1,base);
 			if (z == nil) return nil;
 			return ConstStrA(string,1+z.length());
 		}
-- 
2.43.0


From e54a766b5c3386f6ba6b3c1a2842e2f852e2d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 016/149] fix: AutoArray operations given its own item or
 itself used released memory; erase(at,naturalNull) overflowed

---
 src/lightspeed/base/containers/autoArray.h   |  2 ++
 src/lightspeed/base/containers/autoArray.tcc | 29 ++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/autoArray.h b/src/lightspeed/base/containers/autoArray.h
index f99745d..23fe441 100644
--- a/src/lightspeed/base/containers/autoArray.h
+++ b/src/lightspeed/base/containers/autoArray.h
@@ -298,6 +298,8 @@ namespace LightSpeed {
         
 
         void reserveAt(natural pos, natural count);
+        ///Returns index of the item, if it is stored in this array, otherwise naturalNull
+        natural ownIndex(const T &item) const;
         void unreserveAt(natural pos, natural count);
 
     };
diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index abbf795..2b945b8 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -80,10 +80,19 @@ void AutoArrayT<T,Alloc>::reserve(natural items) {
 	if (items > usedSz) addExtra(items - usedSz);
 }
 
+template<typename T, typename Alloc>
+natural AutoArrayT<T,Alloc>::ownIndex(const T &item) const {
+	const T *base = allocBk.getBase();
+	if (&item >= base && &item < base + usedSz) return &item - base;
+	else return naturalNull;
+}
+
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item) {
+	//item can be a part of this array
+	natural pos = ownIndex(item);
 	addExtra(1);
-	new((void *)(allocBk.getBase()+usedSz)) T(item);
+	new((void *)(allocBk.getBase()+usedSz)) T(pos == naturalNull?item:allocBk.getBase()[pos]);
 	++usedSz;
 
 }
@@ -91,9 +100,11 @@ void AutoArrayT<T,Alloc>::add(const T &item) {
 
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::add(const T &item, natural count) {
+	//item can be a part of this array
+	natural pos = ownIndex(item);
 	addExtra(count);
 	for (natural i = 0; i < count; i++) {
-    	new((void *)(allocBk.getBase()+usedSz)) T(item);
+    	new((void *)(allocBk.getBase()+usedSz)) T(pos == naturalNull?item:allocBk.getBase()[pos]);
     	++usedSz;
 	}
 }
@@ -125,8 +136,11 @@ void AutoArrayT<T,Alloc>::insert(natural at, const T &init, natural count) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
 	if (at == usedSz)
 		return add(init, count);
+	//item can be a part of this array, then it can be moved by the reservation
+	natural pos = ownIndex(init);
+	if (pos != naturalNull && pos >= at) pos += count;
 	WriteInsertIter writ(*this,at,count);
-	while (count--) writ.write(init);
+	while (count--) writ.write(pos == naturalNull?init:allocBk.getBase()[pos]);
 }
 
 template<typename T, typename Alloc>
@@ -170,7 +184,7 @@ void AutoArrayT<T,Alloc>::erase(natural at, natural count) {
     if (at > usedSz) {
 		throwRangeException_FromTo<natural>(THISLOCATION,0,usedSz,at);
     }
-	if (at+count > usedSz) count = usedSz - at;
+	if (count > usedSz - at) count = usedSz - at;
 	if (count) {
 		destruct<T>(allocBk.getBase()+at,count);
 		unreserveAt(at,count);
@@ -226,6 +240,7 @@ AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc> &AutoArrayT<T,Alloc>::operator=(const AutoArrayT &arr) {
+    if (&arr == this) return *this;
     clear();
     natural sz = arr.length();
     if (sz > 0) {
@@ -268,9 +283,11 @@ void AutoArrayT<T,Alloc>::swap(AutoArrayT<T,Alloc> &other) {
 template<typename T, typename Alloc>
 template<typename A, typename B>
 void AutoArrayT<T,Alloc>::append(const ArrayT<A,B> &arr) {
-    addExtra(arr.length());
+    //length is stored, because the array can be appended to itself
+    natural count = arr.length();
+    addExtra(count);
     typename ArrayT<A,B>::Iterator iter = arr.getFwIter();
-    while (iter.hasItems()) {
+    while (count-- && iter.hasItems()) {
         add(iter.getNext());
     }
 }
-- 
2.43.0


From 4b5a82ff0cfcbd9e8f6b38b17f7d5dfda6df754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 017/149] fix: AutoArray insert of zero items destroyed the
 items behind, failed move during insert was ignored

---
 src/lightspeed/base/containers/autoArray.tcc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 2b945b8..3e092c3 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -206,14 +206,12 @@ void AutoArrayT<T,Alloc>::clear() {
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::reserveAt(natural pos, natural count) {
 
+	//nothing to do - don't move items to the same position
+	if (count == 0) return;
 	//add space for new items
 	this->addExtra(count);
-	try {
-		//move items at position
-		move(allocBk.getBase()+pos,usedSz - pos,allocBk.getBase()+pos+count);
-	} catch (...) {
-
-	}
+	//move items at position
+	move(allocBk.getBase()+pos,usedSz - pos,allocBk.getBase()+pos+count);
 	//update size of array
 	usedSz+=count;
 }
@@ -221,6 +219,7 @@ void AutoArrayT<T,Alloc>::reserveAt(natural pos, natural count) {
 template<typename T, typename Alloc>
 void AutoArrayT<T,Alloc>::unreserveAt(natural pos, natural count) {
 
+	if (count == 0) return;
 	try {
 		//move items at position
 		move(allocBk.getBase()+pos+count,usedSz - pos - count,allocBk.getBase()+pos);
-- 
2.43.0


From cf568d511fc9a2d4d095e1eef599ecdf3d500741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:07 +0000
Subject: [PATCH 018/149] fix: ObjManip construct initialized only the first
 item of array of primitive types

---
 src/lightspeed/base/objmanip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/objmanip.h b/src/lightspeed/base/objmanip.h
index 1c4efca..038e162 100644
--- a/src/lightspeed/base/objmanip.h
+++ b/src/lightspeed/base/objmanip.h
@@ -361,7 +361,7 @@ namespace LightSpeed {
 
 		static T * construct(void *ptr, natural count, const T &src) {
 			for (natural i = 0; i < count ; i++)
-				copyOne(&src,reinterpret_cast<T *>(ptr));
+				copyOne(&src,reinterpret_cast<T *>(ptr)+i);
 			return reinterpret_cast<T *>(ptr);
 		}
 
-- 
2.43.0


From c8966d149f973054df64c04161478f24b118a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 019/149] fix: Deque never finished the rollback when moving of
 an item throws

---
 src/lightspeed/base/containers/deque.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 2b56a32..8814af9 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -189,7 +189,7 @@ namespace LightSpeed {
 				}
 			}
 			~MoveOp() {
-				if (i < count) for (natural j = 0; j < i; i++) {
+				if (i < count) for (natural j = 0; j < i; j++) {
 					natural srcIndex = (offset + j) % wrap;
 					MoveObject<T>::doMove(newPos + j, oldPos + srcIndex);
 				}
-- 
2.43.0


From ac5306780f45e8c4e8251b2a975066d0850d9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 020/149] fix: Deque: pushing an item of the same deque used
 released memory

---
 src/lightspeed/base/containers/deque.tcc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index 8814af9..dfd1e2c 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -158,13 +158,27 @@ namespace LightSpeed {
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	void Deque<T, Alloc>::pushFront(ConstRef val)
 	{
-		pushFront(Constructor1<T,T>(val));
+		if (isFull()) {
+			//value can be an item of this container - expansion would invalidate it
+			T tmp(val);
+			tryExpand();
+			pushFront(Constructor1<T,T>(tmp));
+		} else {
+			pushFront(Constructor1<T,T>(val));
+		}
 	}
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	void Deque<T, Alloc>::pushBack(ConstRef val)
 	{
-		pushBack(Constructor1<T,T>(val));
+		if (isFull()) {
+			//value can be an item of this container - expansion would invalidate it
+			T tmp(val);
+			tryExpand();
+			pushBack(Constructor1<T,T>(tmp));
+		} else {
+			pushBack(Constructor1<T,T>(val));
+		}
 	}
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
-- 
2.43.0


From 9fe685b4fee2ca627394690ead59c627c4a22a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:53 +0000
Subject: [PATCH 021/149] fix: copy of Deque (Queue, Stack) contained
 uninitialized items

---
 src/lightspeed/base/containers/deque.h   | 2 ++
 src/lightspeed/base/containers/deque.tcc | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/lightspeed/base/containers/deque.h b/src/lightspeed/base/containers/deque.h
index e25ad50..4c92bda 100644
--- a/src/lightspeed/base/containers/deque.h
+++ b/src/lightspeed/base/containers/deque.h
@@ -27,6 +27,8 @@ public:
 	typedef T Impl;
 
 	Deque();
+	///Copies the container
+	Deque(const Deque &other);
 	Deque(const Alloc &alloc);
 	~Deque();
 
diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index dfd1e2c..c347574 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -24,6 +24,14 @@ namespace LightSpeed {
 
 	}
 
+	template<typename T, typename Alloc /*= StdAlloc*/>
+	Deque<T, Alloc>::Deque(const Deque &other)
+		:Super(other), memBlock(other.memBlock,other.length()), head(0), tail(0)
+	{
+		natural cnt = other.length();
+		for (natural i = 0; i < cnt; i++) pushFront(other.at(i));
+	}
+
 	template<typename T, typename Alloc /*= StdAlloc*/>
 	Deque<T, Alloc>::Deque(const Alloc &alloc)
 		:memBlock(alloc,0), head(0), tail(0)
-- 
2.43.0


From 276d38ff05b1fe8c55ded4b4579fe598cc72b570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 022/149] fix: LinkedList: copy was reversed, getLast returned
 the first item, removing of the last item left a dangling pointer

---
 src/lightspeed/base/containers/linkedList.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 1d405ac..2789eac 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -107,7 +107,7 @@ namespace LightSpeed {
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
 			for (Iterator i = other.getFwIter();i.hasItems();)
-				insertFirst(i.getNext());
+				add(i.getNext());
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
@@ -120,10 +120,12 @@ namespace LightSpeed {
 		void swap(LinkedList &other) {
 			std::swap(first,other.first);
 			std::swap(last,other.last);
+			std::swap(fact,other.fact);
 		}
 
 		///assignment operator
 		LinkedList &operator=(const LinkedList &other) {
+			if (&other == this) return *this;
 			clear();
 			for (Iterator i = other.getFwIter();i.hasItems();)
 				add(i.getNext());
@@ -252,7 +254,9 @@ namespace LightSpeed {
 			if (iter.prev == 0) return removeFirst();
 			ListItem *prv = const_cast<ListItem *>(iter.prev);
 			ListItem *ret = const_cast<ListItem *>(iter.cur);
+			if (ret == 0) return 0;
 			prv->next = ret->next;
+			if (ret == last) last = prv;
 			ret->next = 0;
 			return ret;
 		}
@@ -277,7 +281,7 @@ namespace LightSpeed {
 
 		///Retrieves last item
 		const T &getLast() const {
-			if (last) return first->value;
+			if (last) return last->value;
 			else throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 			throw;
 		}
-- 
2.43.0


From 5b63973ad6a813c98e9918bf6eb490c0557175af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 023/149] fix: AVL tree called methods on null pointers,
 optimized builds crashed on insert to an empty tree

---
 src/lightspeed/base/containers/avltree.h      |  8 +--
 src/lightspeed/base/containers/avltreenode.h  | 59 +++++++++++++------
 .../base/containers/avltreenode.tcc           |  2 +-
 3 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index e3784ae..78da1ed 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -204,8 +204,7 @@ namespace LightSpeed {
 		 */
 		Iterator insert(Node *nd, bool *exist = 0) {
 			typename Node::Iterator itr;
-			bool done = false;
-			Node *newroot = tree->insert(NodeCmp(cmpOper),nd,done,&itr);
+			Node *newroot = Node::insert(tree,NodeCmp(cmpOper),nd,&itr);
 			if (newroot == 0) {
 				if (*exist) *exist = true;
 			} else {
@@ -288,7 +287,7 @@ namespace LightSpeed {
 		 */
 		bool erase(const T &value) {
 			Node *removedNode;
-			tree = tree->remove(NodeCmp(cmpOper), value, removedNode);
+			tree = Node::remove(tree,NodeCmp(cmpOper), Node::getSearchNode(value), removedNode);
 			if (removedNode) {
 				count--;
 				allocFactory->destroyInstance(removedNode);
@@ -307,9 +306,8 @@ namespace LightSpeed {
 		 * pointer must be deallocated manually
 		 */
 		Node *remove(const Node *nd) {
-			bool done = false;
 			Node *removedNode;
-			tree = tree->remove(NodeCmp(cmpOper),nd,done,removedNode);
+			tree = Node::remove(tree,NodeCmp(cmpOper),nd,removedNode);
 			if (removedNode) count --;
 			return removedNode;
 
diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index 6fc84a7..ddf0792 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -325,9 +325,40 @@ protected:
 		dirty = true;
 	}
 
+public:
+	///Retrieves fake node which can be used to search the value
 	static const AvlTreeNode *getSearchNode(const T &value);
 
-public:
+	///Inserts new node into the tree
+	/**
+	 * @param root root of the tree, can be 0 if the tree is empty
+	 * @return new root of the tree or 0, if the node already exists in the tree
+	 */
+	template<typename NodeCmp>
+	static AvlTreeNode *insert(AvlTreeNode *root, const NodeCmp &cmp, AvlTreeNode *newNode,
+			Iterator *toStorePath = 0) {
+		bool done = false;
+		if (root == 0) {
+			if (toStorePath) *toStorePath = Iterator(newNode,Direction::forward);
+			return newNode;
+		} else {
+			return root->insert(cmp,newNode,done,toStorePath);
+		}
+	}
+
+	///Removes node by value
+	/**
+	 * @param root root of the tree, can be 0 if the tree is empty
+	 * @return new root of the tree
+	 */
+	template<typename NodeCmp>
+	static AvlTreeNode *remove(AvlTreeNode *root, const NodeCmp &cmp, const AvlTreeNode *toDel,
+			AvlTreeNode *& removedNode) {
+		bool done = false;
+		removedNode = 0;
+		return root == 0?root:root->remove(cmp,toDel,done,removedNode);
+	}
+
 	///Inserts new node into the tree, where this item is root
 	/**
 	 *
@@ -344,17 +375,12 @@ public:
 			bool &done, Iterator *toStorePath = 0) {
 
 		if (toStorePath && !toStorePath->hasItems()) {
-			PNode *pathStore = toStorePath?
-					static_cast<PrivateIter *>(toStorePath)->allocPath():0;
+			PNode *pathStore = static_cast<PrivateIter *>(toStorePath)->allocPath();
 			PNode res = insert(cmp,newNode,done,toStorePath);
 			if (res) *pathStore = res; else *pathStore = this;
 			return res;
 		}
 
-		//if this is NULL, return newNode as new root
-		if (checkNull(this)) {
-			return newNode;
-		}
 		int dir;
 
 		//select direction
@@ -366,7 +392,7 @@ public:
 		PNode *pathStore = toStorePath?
 				static_cast<PrivateIter *>(toStorePath)->allocPath():0;
 		//insert into subtree
-		AvlTreeNode *nd = link(dir)->insert(cmp,newNode,done,toStorePath);
+		AvlTreeNode *nd = link(dir) == 0?newNode:link(dir)->insert(cmp,newNode,done,toStorePath);
 		//if NULL returned, item has not been inserted, because already exists
 		if (nd == 0) {
 			if (toStorePath)
@@ -423,11 +449,6 @@ public:
 	AvlTreeNode *remove(const NodeCmp &cmp, const AvlTreeNode *toDel,
 			bool &done, AvlTreeNode *& removedNode) {
 
-		if (checkNull(this)) {
-			removedNode = 0;
-			done = true;
-			return this;
-		}
 		int dir;
 		if (cmp(toDel,this)) dir = 0;
 		else if (cmp(this,toDel)) dir = 1;
@@ -438,6 +459,11 @@ public:
 			return ret;
 		}
 
+		if (link(dir) == 0) {
+			removedNode = 0;
+			done = true;
+			return this;
+		}
 		link(dir) = link(dir)->remove(cmp,toDel,done,removedNode);
 		//make whole path from down to the top dirty
 		dirty = true;
@@ -524,9 +550,6 @@ public:
 	 * @note do not call on null pointer, it will not return zero */
 	natural count() const;
 
-	bool checkNull(AvlTreeNode *x) {
-		return x == 0;
-	}
 };
 
 template<typename NodeOrder, typename T, typename LinkT = AvlTreeNodeTraits<T> >
@@ -542,7 +565,7 @@ public:
 
 	Iterator insert(AvlTreeNode<T, LinkT> *nd, bool *exists = 0) {
 		Iterator out;
-		AvlTreeNode<T, LinkT> *x = tree->insert(order,nd,&out);
+		AvlTreeNode<T, LinkT> *x = AvlTreeNode<T, LinkT>::insert(tree,order,nd,&out);
 		if (exists) *exists = x == 0;
 		if (x) {tree = x; count++;}
 		return out;
@@ -561,7 +584,7 @@ public:
 
 	AvlTreeNode<T, LinkT> *remove(const AvlTreeNode<T, LinkT> &nd)  {
 		AvlTreeNode<T, LinkT> *out;
-		tree = tree->remove(order,&nd,out);
+		tree = AvlTreeNode<T, LinkT>::remove(tree,order,&nd,out);
 		if (out) count--;
 		return out;
 	}
diff --git a/src/lightspeed/base/containers/avltreenode.tcc b/src/lightspeed/base/containers/avltreenode.tcc
index 4ec20be..4bbec03 100644
--- a/src/lightspeed/base/containers/avltreenode.tcc
+++ b/src/lightspeed/base/containers/avltreenode.tcc
@@ -306,7 +306,7 @@ natural AvlTreeNode<T, LinkT>::maxHeight() const {
 
 template<typename T, typename LinkT>
 natural AvlTreeNode<T, LinkT>::aproxCount() const {
-	if (left == 0) return right->aproxCount() + 1;
+	if (left == 0) return (right == 0?0:right->aproxCount()) + 1;
 	if (right == 0) return left->aproxCount() + 1;
 	if (balance == 0) {
 		return 1 + 2 * left->aproxCount();
-- 
2.43.0


From cb21d147e009f81adf2650383b029dee3c48070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 024/149] fix: AVL tree insert returned wrong iterator and
 information about existing item

---
 src/lightspeed/base/containers/avltree.h     | 8 ++++----
 src/lightspeed/base/containers/avltreenode.h | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 78da1ed..6f2222c 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -166,7 +166,7 @@ namespace LightSpeed {
 		 * @return iterator, where item has been placed
 		 */
 		Iterator insert(const T &value, bool *exist = 0) {
-			bool ex;
+			bool ex = false;
 			if (exist == 0) exist = &ex;
 			Node *k = allocFactory->createInstanceUsing<Node,T>(value);
 			*exist = true;
@@ -184,7 +184,7 @@ namespace LightSpeed {
 		 * @return iterator, where item has been placed
 		 */
 		Iterator insert(T &&value, bool *exist = 0) {
-			bool ex;
+			bool ex = false;
 			if (exist == 0) exist = &ex;
 			Node *k = allocFactory->createInstanceUsing<Node,T>(std::move(value));
 			*exist = true;
@@ -206,11 +206,11 @@ namespace LightSpeed {
 			typename Node::Iterator itr;
 			Node *newroot = Node::insert(tree,NodeCmp(cmpOper),nd,&itr);
 			if (newroot == 0) {
-				if (*exist) *exist = true;
+				if (exist) *exist = true;
 			} else {
 				tree = newroot;
 				count++;
-				if (*exist) *exist = false;
+				if (exist) *exist = false;
 			}
 			return Iterator(itr);
 		}
diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index ddf0792..cd97ee1 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -377,7 +377,12 @@ public:
 		if (toStorePath && !toStorePath->hasItems()) {
 			PNode *pathStore = static_cast<PrivateIter *>(toStorePath)->allocPath();
 			PNode res = insert(cmp,newNode,done,toStorePath);
-			if (res) *pathStore = res; else *pathStore = this;
+			if (res) {
+				//rotations performed during insert could invalidate the path
+				*toStorePath = Iterator(cmp,res,newNode,Direction::forward);
+			} else {
+				*pathStore = this;
+			}
 			return res;
 		}
 
-- 
2.43.0


From fe36670c18a4e1714cb213322aaf0484340f994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 025/149] fix: assignment of AVLTree to itself lost all items

---
 src/lightspeed/base/containers/avltree.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 6f2222c..8d9daab 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -128,6 +128,7 @@ namespace LightSpeed {
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
+			if (&other == this) return *this;
 			clear();
 			insert(other);
 			return *this;
-- 
2.43.0


From a4fc4c5b5ee4a5c211d97b87dbbd68a141b9df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 026/149] fix: comparison of AVL tree iterators read
 uninitialized path items

---
 src/lightspeed/base/containers/avltreenode.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/avltreenode.tcc b/src/lightspeed/base/containers/avltreenode.tcc
index 4bbec03..623cf42 100644
--- a/src/lightspeed/base/containers/avltreenode.tcc
+++ b/src/lightspeed/base/containers/avltreenode.tcc
@@ -100,9 +100,9 @@ bool AvlTreeNode<T, LinkT>::Iterator::lessThan(const Iterator &other) const {
 			return other.path[i-1]->link(dir) == path[i];
 		}
 	if (pathlen < other.pathlen) {
-		return path[cmplen] == other.path[cmplen - 1]->link(dir);
+		return other.path[cmplen] == path[cmplen - 1]->link(1-dir);
 	} else if (pathlen > other.pathlen) {
-		return path[cmplen-1]->link(1-dir) == other.path[cmplen];
+		return path[cmplen] == other.path[cmplen - 1]->link(dir);
 	} else
 		return false;
 }
-- 
2.43.0


From 10b24a7f998d5510735941ca281b0648710d0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 027/149] fix: erasing from MapReduce left stale results on
 nodes along the path

---
 src/lightspeed/base/containers/avltreenode.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/containers/avltreenode.tcc b/src/lightspeed/base/containers/avltreenode.tcc
index 623cf42..3cd7bf9 100644
--- a/src/lightspeed/base/containers/avltreenode.tcc
+++ b/src/lightspeed/base/containers/avltreenode.tcc
@@ -234,6 +234,8 @@ AvlTreeNode<T, LinkT> *AvlTreeNode<T, LinkT>::takeRightMost(AvlTreeNode<T, LinkT
 		//left subtree is new root
 		return root->left;
 	}
+	//subtree is going to be changed
+	root->dirty = true;
 	//there are more right nodes
 	//recursive enter to function, result is new root of right subtree
 	root->right = takeRightMost(root->right,rm,done);
-- 
2.43.0


From 433eefee688f5db3ecce60935e8cbb66e9c891cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 028/149] fix: AvlTreeBasic count after remove by iterator and
 after clear

---
 src/lightspeed/base/containers/avltreenode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/avltreenode.h b/src/lightspeed/base/containers/avltreenode.h
index cd97ee1..e009cd9 100644
--- a/src/lightspeed/base/containers/avltreenode.h
+++ b/src/lightspeed/base/containers/avltreenode.h
@@ -598,7 +598,7 @@ public:
 		bool done = false;
 		AvlTreeNode<T, LinkT> *nd = iter.peek();
 		tree = static_cast<AvlTreeNode<T, LinkT> *>(tree->remove(iter,done));
-		if (done) count--;
+		count--;
 		return nd;
 	}
 
@@ -611,6 +611,7 @@ public:
 		if (tree) {
 			tree->clear(eraser);
 			tree = 0;
+			count = 0;
 		}
 	}
 
-- 
2.43.0


From 905b33dde50ba4585052a58d7b991a2591c7c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 029/149] fix: Map operators + and - and compare could not be
 compiled, difference ignored the left side

---
 src/lightspeed/base/containers/map.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lightspeed/base/containers/map.h b/src/lightspeed/base/containers/map.h
index 122bbfc..12fb990 100644
--- a/src/lightspeed/base/containers/map.h
+++ b/src/lightspeed/base/containers/map.h
@@ -318,8 +318,8 @@ namespace LightSpeed {
 			while(iter1.hasItems() && iter2.hasItems()) {
 				const KeyValue &a = iter1.getNext();
 				const KeyValue &b = iter2.getNext();
-				if (tree.cmpOper(a.key,b.key)) return cmpResultLess;
-				if (tree.cmpOper(b.key,a.key)) return cmpResultGreater;
+				if (tree.getCompareOperator()(a,b)) return cmpResultLess;
+				if (tree.getCompareOperator()(b,a)) return cmpResultGreater;
 			}
 			if (iter1.hasItems()) return cmpResultGreater;
 			else if (iter2.hasItems()) return cmpResultLess;
@@ -349,20 +349,16 @@ namespace LightSpeed {
 		enum Exclude{exclude};
 		enum Include{include};
 
-		Map(const Map &other, const Map &other2, Exclude ) {
-			(*this)-=other;
+		Map(const Map &other, const Map &other2, Exclude ):tree(other.tree) {
 			(*this)-=other2;
 		}
-		Map(const Map &other, const Map &other2, Include ) {
-			(*this)+=other;
+		Map(const Map &other, const Map &other2, Include ):tree(other.tree) {
 			(*this)+=other2;
 		}
-		Map(const Map &other, const KeyValue &other2, Exclude ) {
-			(*this)-=other;
+		Map(const Map &other, const KeyValue &other2, Exclude ):tree(other.tree) {
 			(*this)-=other2;
 		}
-		Map(const Map &other, const KeyValue &other2, Include ) {
-			(*this)+=other;
+		Map(const Map &other, const KeyValue &other2, Include ):tree(other.tree) {
 			(*this)+=other2;
 		}
 
-- 
2.43.0


From 3f44fb24397fe21092ec1e9772ee78ee27be4b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 030/149] fix: Set operators + and - could not be compiled,
 difference ignored the left side

---
 src/lightspeed/base/containers/set.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index 067351b..b607103 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -38,20 +38,20 @@ namespace LightSpeed {
 		}
 		Set &operator+=(const Set &other) {
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
-				insert(iter.getNext());
+				Super::insert(iter.getNext());
 			return *this;
 		}
 		Set &operator+=(const T &item) {
-				insert(item);			
+				Super::insert(item);
 				return *this;
 		}
 		Set &operator-=(const Set &other) {
 			for (typename Set::Iterator iter = other.getFwIter();iter.hasItems();)
-				remove(iter.getNext());
+				Super::erase(iter.getNext());
 			return *this;
 		}
 		Set &operator-=(const T &item) {
-				remove(item);
+				Super::erase(item);
 				return *this;
 		}
 
@@ -74,20 +74,16 @@ namespace LightSpeed {
 		enum Exclude{exclude};
 		enum Include{include};
 
-		Set(const Set &other, const Set &other2, Exclude ) {
-			(*this)-=other;
+		Set(const Set &other, const Set &other2, Exclude ):Super(other) {
 			(*this)-=other2;
 		}
-		Set(const Set &other, const Set &other2, Include ) {
-			(*this)+=other;
+		Set(const Set &other, const Set &other2, Include ):Super(other) {
 			(*this)+=other2;
 		}
-		Set(const Set &other, const T &other2, Exclude ) {
-			(*this)-=other;
+		Set(const Set &other, const T &other2, Exclude ):Super(other) {
 			(*this)-=other2;
 		}
-		Set(const Set &other, const T &other2, Include ) {
-			(*this)+=other;
+		Set(const Set &other, const T &other2, Include ):Super(other) {
 			(*this)+=other2;
 		}
 	};
-- 
2.43.0


From 6a42d3ca8c6c268b186f81b9e59628b757d25532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 031/149] fix: MultiSet default constructor could not be
 compiled

---
 src/lightspeed/base/containers/set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/set.h b/src/lightspeed/base/containers/set.h
index b607103..99cb61b 100644
--- a/src/lightspeed/base/containers/set.h
+++ b/src/lightspeed/base/containers/set.h
@@ -115,7 +115,7 @@ namespace LightSpeed {
 
 	public:
 
-		MultiSet():Super(SetCmp(Cmp())) {}
+		MultiSet():Super(SetCmp(Cmp()),createDefaultNodeAllocator()) {}
 
 		MultiSet(const Cmp &cmp, NodeAlloc factory )
 			:Super(SetCmp(cmp),factory),mlistsrc(factory) {}
-- 
2.43.0


From 9495541b1f2f972941febb39dc198b8f5afc9250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:13 +0000
Subject: [PATCH 032/149] fix: double rotation during removal left stale result
 on the rotated sibling (MapReduce)

---
 src/lightspeed/base/containers/avltreenode.tcc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/containers/avltreenode.tcc b/src/lightspeed/base/containers/avltreenode.tcc
index 3cd7bf9..1bc76ef 100644
--- a/src/lightspeed/base/containers/avltreenode.tcc
+++ b/src/lightspeed/base/containers/avltreenode.tcc
@@ -147,6 +147,7 @@ AvlTreeNode<T, LinkT> *AvlTreeNode<T, LinkT>::rotateSingle(int dir) {
 template<typename T, typename LinkT>
 AvlTreeNode<T, LinkT> *AvlTreeNode<T, LinkT>::rotateDouble(int dir) {
 	AvlTreeNode<T, LinkT> *save = link(1-dir)->link(dir);
+	link(1-dir)->dirty = true;
 	link(1-dir)->link(dir) = save->link(1-dir);
 	save->link(1-dir) = link(1-dir);
 	link(1-dir) = save;
-- 
2.43.0


From 017adf756aae4efc0a9ce36b2784569a01df0b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 033/149] fix: LinkedList iterators of new items did not know
 the previous item, erase through them removed the first item

---
 src/lightspeed/base/containers/linkedList.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 2789eac..0cf4ec7 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -200,7 +200,7 @@ namespace LightSpeed {
 			item->next = const_cast<ListItem *>(iter.cur->next);
 			const_cast<ListItem *>(iter.cur)->next = item;
 			if (iter.cur == last) last = item;
-			return Iterator(item);
+			return Iterator(item,iter.cur);
 		}
 
 		///Inserts new node as before the node pointed by the iterator
@@ -211,24 +211,29 @@ namespace LightSpeed {
 		 */
 		Iterator insertBefore(const Iterator &iter, ListItem *item) {
 			if (!iter.hasItems()) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
-			if (iter.prev == 0) return insertFirst(item);
+			if (iter.prev == 0) {
+				const_cast<Iterator &>(iter).prev = item;
+				return insertFirst(item);
+			}
 
+			const ListItem *prv = iter.prev;
 			item->next = const_cast<ListItem *>(iter.cur);
 			const_cast<ListItem *>(iter.prev)->next = item;
 			const_cast<Iterator &>(iter).prev = item;
-			return Iterator(item);
+			return Iterator(item,prv);
 		}
 
 
 		///Appends node
 		Iterator add(ListItem *x) {
 			x->next = 0;
+			const ListItem *prv = last;
 			if (last == 0) first = last = x;
 			else {
 				last->next = x;
 				last = x;
 			}
-			return Iterator(x);
+			return Iterator(x,prv);
 		}
 
 		///Removes node and returs it
-- 
2.43.0


From 0ff2f8f7021538036cd5c05d3373eccb2e63af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 034/149] fix: HeapSort::pop(at) left the heap disordered

---
 src/lightspeed/base/containers/sort.tcc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/sort.tcc b/src/lightspeed/base/containers/sort.tcc
index 09d8978..2e58239 100644
--- a/src/lightspeed/base/containers/sort.tcc
+++ b/src/lightspeed/base/containers/sort.tcc
@@ -71,7 +71,14 @@ bool HeapSort<Container,Cmp>::pop(natural at) {
         heapSize--;
         if (heapSize > at) {
             std::swap(cont(at),cont(heapSize));
-            shiftDown();
+            natural child = at;
+            while (child > 0) {
+                natural parent = (child - 1) / 2;
+                if (!isLess(cont[parent],cont[child])) break;
+                std::swap(cont(parent),cont(child));
+                child = parent;
+            }
+            if (child == at) shiftDown(at);
         }
         return true;
     } else {
-- 
2.43.0


From 5f8ae52b30c6f73ee200b860fc7022feee5f42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 035/149] fix: ReversedOrder had everything private

---
 src/lightspeed/base/containers/sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/sort.h b/src/lightspeed/base/containers/sort.h
index f121d91..5e8079f 100644
--- a/src/lightspeed/base/containers/sort.h
+++ b/src/lightspeed/base/containers/sort.h
@@ -108,7 +108,7 @@ namespace LightSpeed {
     /** Ordering will be reversed against to operator */
     template<typename Cmp>
     class ReversedOrder {
-
+    public:
     	ReversedOrder(const Cmp &cmp):cmp(cmp) {}
     	template<typename T>
     	bool operator()(const T &a, const T &b) const{
-- 
2.43.0


From 745d7c8ba4f4bdfa01c73ab36ae178c1911c8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 036/149] fix: copy of PriorityQueue used the heap of its
 source, other than the default allocator could not be compiled

---
 src/lightspeed/base/containers/priorityQueue.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 1848cfd..0e6ea29 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -23,6 +23,13 @@ namespace LightSpeed {
 		explicit PriorityQueue(const Allocator &alloc):items(alloc),heap(items) {}
 		PriorityQueue(const Allocator &alloc,const Cmp &cmp):items(alloc),heap(items,cmp) {}
 
+		PriorityQueue(const PriorityQueue &other):items(other.items),heap(items,other.heap.getCmpOp()) {heap.setSize(items.length());}
+		PriorityQueue &operator=(const PriorityQueue &other) {
+			items = other.items;
+			heap.setSize(items.length());
+			return *this;
+		}
+
 		void push(const T &x) {items.add(x);heap.push();}
 
 		template<typename I>
@@ -39,7 +46,7 @@ namespace LightSpeed {
 
 	protected:
 		AutoArray<T,Allocator> items;
-		HeapSort<AutoArray<T>, Cmp> heap;
+		HeapSort<AutoArray<T,Allocator>, Cmp> heap;
 	};
 
 
-- 
2.43.0


From 7c7ab1a8f169d5e27ca55c757798f73d7b814f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 037/149] fix: copy of SortFilter with items inside lost the
 order and items

---
 src/lightspeed/base/iter/sortFilter.tcc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/iter/sortFilter.tcc b/src/lightspeed/base/iter/sortFilter.tcc
index 8c0e862..acad84b 100644
--- a/src/lightspeed/base/iter/sortFilter.tcc
+++ b/src/lightspeed/base/iter/sortFilter.tcc
@@ -68,13 +68,14 @@ inline bool SortFilter<T,Order,Allocator>::hasItems() const
 
 template<typename T, typename Order, typename Allocator>
 SortFilter<T,Order,Allocator>::SortFilter(const SortFilter &other)
-    :buffer(other.buffer),heap(buffer, other.heap.getCmpOp()) {
-
+    :buffer(other.buffer),extraItem(other.extraItem),heap(buffer, other.heap.getCmpOp()) {
+    heap.setSize(buffer.length());
 }
 
 template<typename T, typename Order, typename Allocator>
 SortFilter<T,Order,Allocator> &SortFilter<T,Order,Allocator>::operator=(const SortFilter &other) {
     buffer = other.buffer;
+    extraItem = other.extraItem;
     heap.setSize(buffer.length());
     return *this;
 }
-- 
2.43.0


From 52e6ab1e040e32958da855b346bd23be095f5143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 038/149] fix: SortFilter::needItems could not be compiled

---
 src/lightspeed/base/iter/sortFilter.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/sortFilter.tcc b/src/lightspeed/base/iter/sortFilter.tcc
index acad84b..0104e19 100644
--- a/src/lightspeed/base/iter/sortFilter.tcc
+++ b/src/lightspeed/base/iter/sortFilter.tcc
@@ -31,7 +31,7 @@ SortFilter<T,Order,Allocator>::SortFilter(const Order &order,Allocator alloc)
 template<typename T, typename Order, typename Allocator>
 inline bool SortFilter<T,Order,Allocator>::needItems() const
 {
-    return !extraItem.isSet();
+    return extraItem == nil;
 }
 
 
-- 
2.43.0


From 12ae2c0e32ae60364de16bc495ce4564fd873606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 039/149] fix: PriorityQueue::pop erased more items than the
 one on top

---
 src/lightspeed/base/containers/priorityQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/priorityQueue.h b/src/lightspeed/base/containers/priorityQueue.h
index 0e6ea29..6a07caa 100644
--- a/src/lightspeed/base/containers/priorityQueue.h
+++ b/src/lightspeed/base/containers/priorityQueue.h
@@ -37,7 +37,7 @@ namespace LightSpeed {
 
 		const T &top() const { return items[0]; }
 		T &top() { return items(0); }
-		void pop() { heap.pop(); items.trunc(heap.getSize()); }
+		void pop() { if (heap.pop()) items.trunc(1); }
 		void clear() {heap.clear();items.clear();}
 		bool empty() const {return items.empty();}
 
-- 
2.43.0


From a8ab3a315e3bb267e46382a507b697675062afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 040/149] fix: block read through a converter failed at the end
 of its source

---
 src/lightspeed/base/iter/iterConv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index 56103e4..a5d98f7 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -409,7 +409,6 @@ inline natural ConverterBase<From, To, Impl>::blockRead(Iter& source, FlatArray&
 	for (natural i = 0; i < avail; i++) {
 		while (!this->hasItems) {
 			if (this->eolb) return i;
-			Super::write(source.getNext());
 			if (!source.hasItems()) {
 				Super::flush();
 				while (i < avail && this->hasItems) {
@@ -418,6 +417,7 @@ inline natural ConverterBase<From, To, Impl>::blockRead(Iter& source, FlatArray&
 				}
 				return i;
 			}
+			Super::write(source.getNext());
 		}
 		target[i] = Super::getNext();
 	}
-- 
2.43.0


From 6a0c31dd330cf566d099ab669b953dbc1edc79a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 041/149] fix: peek through a converter could not be compiled

---
 src/lightspeed/base/iter/iterConv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index a5d98f7..88ea964 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -453,7 +453,7 @@ inline const To& ConverterBase<From, To, Impl>::peekFromIter(const Iter& source)
 	if (this->hasItems) return Super::peek();
 	while (!this->hasItems) {
 		if (this->eolb) throwIteratorNoMoreItems(THISLOCATION, typeid(To));
-		Super::write(source.getNext());
+		const_cast<ConverterBase *>(this)->Super::write(const_cast<Iter &>(source).getNext());
 	}
 	return Super::peek();
 }
-- 
2.43.0


From a5b846945af5e5b971af62dadf1c7c799e9909df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 042/149] fix: chain of converters could not be read through an
 iterator, lost items at flush

---
 src/lightspeed/base/iter/iterConv.h | 69 +++++++++++------------------
 1 file changed, 26 insertions(+), 43 deletions(-)

diff --git a/src/lightspeed/base/iter/iterConv.h b/src/lightspeed/base/iter/iterConv.h
index 88ea964..4fe2230 100644
--- a/src/lightspeed/base/iter/iterConv.h
+++ b/src/lightspeed/base/iter/iterConv.h
@@ -186,32 +186,25 @@ public:
 };
 
 template<typename Conv1, typename Conv2>
-class ConverterChain: public ConverterBase<typename OriginT<Conv1>::T::FromType,typename OriginT<Conv2>::T::FromType, ConverterChain<Conv1,Conv2> > {
+class ConverterChain: public ConverterBase<typename OriginT<Conv1>::T::FromType,typename OriginT<Conv2>::T::ToType, ConverterChain<Conv1,Conv2> > {
 public:
 
 	typedef typename OriginT<Conv1>::T::FromType From;
 	typedef typename OriginT<Conv2>::T::ToType To;
 
-	ConverterChain() {}
-	ConverterChain(typename FastParam<Conv1>::T conv1, Null_t  = null):conv1(conv1) {}
-	ConverterChain(Null_t,typename FastParam<Conv2>::T conv2):conv2(conv2) {}
-	ConverterChain(typename FastParam<Conv1>::T conv1, typename FastParam<Conv2>::T conv2):conv1(conv1),conv2(conv2) {}
+	ConverterChain():flushConv2(false) {}
+	ConverterChain(typename FastParam<Conv1>::T conv1, Null_t  = null):conv1(conv1),flushConv2(false) {}
+	ConverterChain(Null_t,typename FastParam<Conv2>::T conv2):conv2(conv2),flushConv2(false) {}
+	ConverterChain(typename FastParam<Conv1>::T conv1, typename FastParam<Conv2>::T conv2):conv1(conv1),conv2(conv2),flushConv2(false) {}
 
 	const To &getNext() {
 		const To &out = conv2.getNext();
 		if (!conv2.hasItems) {
 			tempStorage = out;
-			while (!conv2.hasItems && conv1.hasItems) {
-				conv2.write(conv1.getNext());
-			}
-			this->hasItems = conv2.hasItems;
-			this->needItems = conv1.needItems;
-			this->eolb = conv1.eolb || conv2.eolb;
+			transfer();
 			return tempStorage;
 		} else {
-			this->hasItems = conv2.hasItems;
-			this->needItems = conv1.needItems;
-			this->eolb = conv1.eolb || conv2.eolb;
+			transfer();
 			return out;
 		}
 
@@ -221,11 +214,7 @@ public:
 	}
 	void write(const From &item) {
 		conv1.write(item);
-		while (conv1.hasItems && !conv2.hasItems) {
-			conv2.write(conv1.getNext());
-		}
-		this->hasItems = conv2.hasItems;
-		this->needItems = conv1.needItems;
+		transfer();
 	}
 
 	template<typename FlatArray, typename Iter>
@@ -234,38 +223,16 @@ public:
 		return conv1.blockWrite(array, outIter, writeAll);
 	}
 
-	template<typename FlatArray, typename Iter>
-	natural blockRead(Iter &source, FlatArray &array, bool readAll = true) {
-		ConvertReadIter<Conv1 &, Iter &, false> inIter(conv1, source);
-		return conv2.blockRead(inIter, array, readAll);
-	}
-
 	template<typename Iter>
 	void writeToIter(const From &item, Iter &target) {
 		ConvertWriteIter<Conv2 &, Iter &, false> outIter(conv2, target);
 		conv1.writeToIter(item,outIter);
 	}
 
-	template<typename Iter>
-	const To &getNextFromIter(Iter &source) {
-		ConvertReadIter<Conv1 &, Iter &, false> inIter(conv1, source);
-		return conv2.getNextFromIter(inIter);
-	}
-
-	template<typename Iter>
-	const To &peekFromIter(const Iter &source) const {
-		ConvertReadIter<Conv1 &, Iter &, false> inIter(conv1, source);
-		return conv2.peek(inIter);
-	}
-
 	void flush() {
 		conv1.flush();
-		while (conv1.hasItems && !conv2.hasItems) {
-			conv2.write(conv1.getNext());
-		}
-		conv2.flush();
-		this->hasItems = conv2.hasItems;
-		this->needItems = conv1.needItems;
+		flushConv2 = true;
+		transfer();
 	}
 
 	template<typename Iter>
@@ -278,6 +245,22 @@ protected:
 	Conv1 conv1;
 	Conv2 conv2;
 	Optional<To> tempStorage;
+	///flush has been requested, conv2 is flushed once it has everything from conv1
+	bool flushConv2;
+
+	///moves items from the first to the second converter and updates the state of the chain
+	void transfer() {
+		while (conv1.hasItems && !conv2.hasItems) {
+			conv2.write(conv1.getNext());
+		}
+		if (flushConv2 && !conv1.hasItems && !conv2.hasItems) {
+			flushConv2 = false;
+			conv2.flush();
+		}
+		this->hasItems = conv2.hasItems;
+		this->needItems = conv1.needItems;
+		this->eolb = conv1.eolb || conv2.eolb;
+	}
 
 };
 
-- 
2.43.0


From 86940d1f2581a982f22baedeca6e95500222de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 043/149] fix: block read and block write through a filter
 looped wrongly, could not be compiled

---
 src/lightspeed/base/iter/iteratorFilter.tcc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lightspeed/base/iter/iteratorFilter.tcc b/src/lightspeed/base/iter/iteratorFilter.tcc
index 79809b1..9d37e41 100644
--- a/src/lightspeed/base/iter/iteratorFilter.tcc
+++ b/src/lightspeed/base/iter/iteratorFilter.tcc
@@ -137,17 +137,20 @@ namespace LightSpeed {
     	if (buffer.length() == 0) return 0;
     	natural pos = 0;
     	if (fetched == 1) {
-    		buffer[fetched] = getNext();
+    		buffer.data()[pos] = getNext();
     		pos+=1;
     	}
-    	do {
+    	while (pos < buffer.length() && (pos == 0 || readAll)) {
     		if (!flt.hasItems()) {
     			flt.blockFetch(this->iter);
     		}
+    		if (!flt.hasItems()) {
+    			if (readAll) throwIteratorNoMoreItems(THISLOCATION,typeid(OutputT));
+    			return pos;
+    		}
     		natural c = flt.blockOutput(buffer.offset(pos).ref());
     		pos+=c;
-
-    	} while (!readAll && pos < buffer.length());
+    	}
     	return pos;
     }
 
@@ -163,7 +166,7 @@ namespace LightSpeed {
     		natural c = flt.blockInput(buffer.offset(pos));
     		pos+=c;
 
-    	} while (!writeAll && pos < buffer.length());
+    	} while (writeAll && pos < buffer.length());
     	//this is need to handle 1:1 filters correctly
         if (!flt.needItems()) flushCycle();
     	return pos;
-- 
2.43.0


From 5b6e4348e897f9963ffb67e2bbd786c5a5374b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 044/149] fix: forEach of a concatenation could not be
 compiled, visited wrong range of the second array

---
 src/lightspeed/base/containers/arrayExpr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index 1507f65..c7b7ac4 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		
 		template<typename Fn>
 		bool forEach(Fn functor) const {
-			return foreach(functor,0,length());
+			return forEach(functor,0,length());
 		}
 
 		template<typename Fn>
@@ -101,7 +101,7 @@ namespace LightSpeed {
 			else if (from + count <= l) return a._invoke().forEach(functor,from,count);
 			else return (
 				a._invoke().forEach(functor,from,l-from) 
-								|| b._invoke().forEach(functor,0,count - l));
+								|| b._invoke().forEach(functor,0,from + count - l));
 
 		}
 		
-- 
2.43.0


From a4a63ef90720af96b738527254d1575a2153247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 045/149] fix: findOneOf with position could not be compiled

---
 src/lightspeed/base/containers/arrayt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index a9beae9..28704fa 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -534,7 +534,7 @@ public:
 
     template<typename Oth>
     natural findOneOf(const ArrayT<T,Oth> &other, natural pos) const{
-    	natural r = offset(pos).findOneof(other);
+    	natural r = offset(pos).findOneOf(other);
     	return r == naturalNull?r:r+pos;
     }
 
-- 
2.43.0


From de529bb79a53a172f999fc28f6c3cf67a41ee31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 046/149] fix: mid and crop read outside of the array when
 position + count overflows

---
 src/lightspeed/base/containers/arrayt.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 28704fa..4725b1d 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -261,13 +261,13 @@ public:
 	Mid mid(natural pos, natural count)  {
 		natural l = this->_invoke().length();
 		if (pos >= l) {pos = 0;count = 0;}
-		else if (pos + count > l) count = l - pos;
+		else if (count > l - pos) count = l - pos;
 		return Mid(this->_invoke(),pos,count);
 	}
 	ConstMid mid(natural pos, natural count) const {
 		natural l = this->_invoke().length();
 		if (pos >= l) {pos = 0;count = 0;}
-		else if (pos + count > l) count = l - pos;
+		else if (count > l - pos) count = l - pos;
 		return ConstMid(this->_invoke(),pos,count);
 	}
 	Mid head(natural count) {
@@ -304,12 +304,12 @@ public:
 	}
 	Mid crop(natural left, natural right) {
 		natural l = this->_invoke().length();
-		if (left+right >= l) return Mid(this->_invoke(),0,0);
+		if (left >= l || right >= l - left) return Mid(this->_invoke(),0,0);
 		else return Mid(this->_invoke(),left,l-right-left);
 	}
 	ConstMid crop(natural left, natural right) const {
 		natural l = this->_invoke().length();
-		if (left+right >= l) return ConstMid(this->_invoke(),0,0);
+		if (left >= l || right >= l - left) return ConstMid(this->_invoke(),0,0);
 		else return ConstMid(this->_invoke(),left,l-right-left);
 	}
 	template<typename Oth>
-- 
2.43.0


From 01e5a9c8c5028421a58642a64c19919006798479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 047/149] fix: empty() of a part of an array expression was
 inverted

---
 src/lightspeed/base/containers/arrayExpr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/arrayExpr.h b/src/lightspeed/base/containers/arrayExpr.h
index c7b7ac4..6cb16f8 100644
--- a/src/lightspeed/base/containers/arrayExpr.h
+++ b/src/lightspeed/base/containers/arrayExpr.h
@@ -153,7 +153,7 @@ namespace LightSpeed {
 		}
 	
 		bool empty() const {
-			return len > 0;
+			return len == 0;
 		}
 
 		ArrRef a;
-- 
2.43.0


From e6782f99ca6323eaa8f83f9085da739f4408136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 048/149] fix: backward seek in an array ignored the offset,
 forEach over a range clipped it wrongly

---
 src/lightspeed/base/containers/arrayt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/containers/arrayt.h b/src/lightspeed/base/containers/arrayt.h
index 4725b1d..a174c54 100644
--- a/src/lightspeed/base/containers/arrayt.h
+++ b/src/lightspeed/base/containers/arrayt.h
@@ -75,7 +75,7 @@ public:
 	bool forEach(Fn functor, natural from, natural count) const {
 		natural l = length();
 		if (from > l) return true;
-		if (from + count > l) count = l - count;
+		if (count > l - from) count = l - from;
 		if (count == 0) return true;
 		return this->_invoke().forEach(functor, from, count);
 	}
@@ -127,7 +127,7 @@ public:
 					return offset;
 				case Direction::backward:
 					if (offset == 0) return 0;
-					if (pos+1 > 0) offset = pos+1;
+					if (offset > pos+1) offset = pos+1;
 					pos-= offset;
 					return offset;
 				case Direction::absolute:
@@ -147,7 +147,7 @@ public:
 			switch(direction) {
 				case Direction::current:return canSeek(dir);
 				case Direction::reversed:return canSeek(Direction::reverse(dir));
-				case Direction::forward:return pos >= sz;
+				case Direction::forward:return pos < sz;
 				case Direction::backward:return pos != naturalNull;
 				case Direction::absolute:return true;
 				default: return false;
-- 
2.43.0


From 2655638aa38079b91a93da51de5af425329b3ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 049/149] fix: case insensitive comparison stopped at the first
 zero character

---
 src/lightspeed/base/linux/string.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index 4fedd7b..8dd30ed 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -30,7 +30,9 @@ CompareResult StrCmpCI<char>::operator()(const ConstStringT<char> &a, const Cons
 	natural la = a.length();
 	natural lb = b.length();
 	natural cnt = std::min(la,lb);
-	int res = strncasecmp(a.data(), b.data(), cnt);
+	int res = 0;
+	for (natural i = 0; i < cnt && res == 0; i++)
+		res = tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]);
 	if (res == 0) {
 		return cnt == la?(cnt == lb?cmpResultEqual:cmpResultLess):cmpResultGreater;
 	} else {
@@ -43,12 +45,11 @@ CompareResult StrCmpCI<wchar_t>::operator()(const ConstStringT<wchar_t> &a, cons
 	natural la = a.length();
 	natural lb = b.length();
 	natural cnt = std::min(la,lb);
-	int res = wcsncasecmp(a.data(), b.data(), cnt);
-	if (res == 0) {
-		return cnt == la?(cnt == lb?cmpResultEqual:cmpResultLess):cmpResultGreater;
-	} else {
-		return res < 0? cmpResultLess:cmpResultGreater;
+	for (natural i = 0; i < cnt; i++) {
+		wint_t ca = towlower(a[i]), cb = towlower(b[i]);
+		if (ca != cb) return ca < cb? cmpResultLess:cmpResultGreater;
 	}
+	return cnt == la?(cnt == lb?cmpResultEqual:cmpResultLess):cmpResultGreater;
 }
 
 
-- 
2.43.0


From e34e6aa9238366fa0729ba2c60011968c000b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 050/149] fix: wide cStr tested only one byte of the
 terminating character

---
 src/lightspeed/base/linux/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index 8dd30ed..fcc79d1 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -142,7 +142,7 @@ const wchar_t * cStr( ConstStrW source, StringW &tmp )
 	if (source.empty()) return zeroStringW;
 	const wchar_t *p = source.data() + source.length();
 	wchar_t zero = 0;
-	if (safeCompareMemory(p,&zero,sizeof(char))) return source.data();
+	if (safeCompareMemory(p,&zero,sizeof(wchar_t))) return source.data();
 	else {
 		tmp = source;
 		return tmp.c_str();
-- 
2.43.0


From 6d7056e801661f14b3775e59225c7b47c4b4e27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 051/149] fix: conversion from and to a code page was swapped

---
 src/lightspeed/base/linux/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/string.cpp b/src/lightspeed/base/linux/string.cpp
index fcc79d1..df53a35 100644
--- a/src/lightspeed/base/linux/string.cpp
+++ b/src/lightspeed/base/linux/string.cpp
@@ -55,7 +55,7 @@ CompareResult StrCmpCI<wchar_t>::operator()(const ConstStringT<wchar_t> &a, cons
 
 
 void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePageDef cp) {
-	iconv_t iconvHndl = iconv_open("WCHAR_T", cp);
+	iconv_t iconvHndl = iconv_open(cp, "WCHAR_T");
 	if (iconvHndl == (iconv_t)-1)
 		throw UnknownCodePageException(THISLOCATION,cp,errno);
 
@@ -82,7 +82,7 @@ void  convertWideToCP(ConstStrW input, ICharConvertOutput<char> &output, CodePag
 }
 void convertCPToWide(ConstStrA input, ICharConvertOutput<wchar_t> &output, CodePageDef cp) {
 
-	iconv_t iconvHndl = iconv_open( cp, "WCHAR_T");
+	iconv_t iconvHndl = iconv_open("WCHAR_T", cp);
 	if (iconvHndl == (iconv_t)-1)
 		throw UnknownCodePageException(THISLOCATION,cp,errno);
 
-- 
2.43.0


From 27c11794a1fc8b362c9512e8002a04ed0d84ddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 052/149] fix: createBuffer returned string one character
 shorter without the terminating zero

---
 src/lightspeed/base/containers/stringBase.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/stringBase.h b/src/lightspeed/base/containers/stringBase.h
index f1b916a..b171718 100644
--- a/src/lightspeed/base/containers/stringBase.h
+++ b/src/lightspeed/base/containers/stringBase.h
@@ -299,14 +299,18 @@ namespace LightSpeed {
 		}
 
 		T *createBuffer(natural count) {
-			WriteIterator iter = createBufferIter(count);
-			strBuff->init(count);
+			{
+				WriteIterator iter = createBufferIter(count);
+				strBuff->init(count);
+			}
 			return data();
 		}
 
 		T *createBuffer(natural count, IRuntimeAlloc &alloc) {
-			WriteIterator iter = createBufferIter(count,alloc);
-			strBuff->init(count);
+			{
+				WriteIterator iter = createBufferIter(count,alloc);
+				strBuff->init(count);
+			}
 			return data();
 		}
 
-- 
2.43.0


From 3cb83f14bb71c9378999eb1c212f84f4dcbaadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 053/149] fix: string stored to the string pool through an
 iterator contained the terminating zero

---
 src/lightspeed/base/containers/stringpool.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/stringpool.tcc b/src/lightspeed/base/containers/stringpool.tcc
index 9da64ce..bdee642 100644
--- a/src/lightspeed/base/containers/stringpool.tcc
+++ b/src/lightspeed/base/containers/stringpool.tcc
@@ -73,14 +73,14 @@ template<typename X>
 inline typename StringPool<T, Alloc>::Str StringPool<T, Alloc>::add(IIterator<T, X>& iter) {
 	natural k = pool.length();
 	while (iter.hasItems()) pool.add(iter.getNext());
-	poolRef = pool.data();
+	natural e = pool.length();
 	if (StringBase<T>::needZeroChar) {
 		typename
 		AutoArray<T, Alloc>::WriteIter iter=pool.getWriteIterator();
 		StringBase<T>::writeZeroChar(iter);
 	}
 	poolRef = pool.data();
-	return Str(&poolRef,k,pool.length() - k);
+	return Str(&poolRef,k,e - k);
 }
 
 template<typename T, typename Alloc >
-- 
2.43.0


From 7b552591510966b2f181975519ce256c358c076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 054/149] fix: RefCntPtr lost its object when assigned to
 itself, read destroyed pointer when assigned from inside of the released
 object

---
 src/lightspeed/base/memory/refCntPtr.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/memory/refCntPtr.h b/src/lightspeed/base/memory/refCntPtr.h
index 15b7cd7..88685b6 100644
--- a/src/lightspeed/base/memory/refCntPtr.h
+++ b/src/lightspeed/base/memory/refCntPtr.h
@@ -148,10 +148,12 @@ namespace LightSpeed {
          * @return this         
          */
         RefCntPtr &operator=(const RefCntPtr &other) {
+        	//other can be this, or it can be destroyed with the object being released
+        	T *p = other.ptr;
         	Alloc::operator=(other);
         	other.manualAddRef();
         	releasePtr();
-        	this->ptr = other.ptr;
+        	this->ptr = p;
             return *this;
         }
 
@@ -164,9 +166,10 @@ namespace LightSpeed {
 		}
 		RefCntPtr &operator=(RefCntPtr &&other) {
 			if (this != &other) {	
-				releasePtr();
-				this->ptr = other.ptr;
+				T *p = other.ptr;
 				other.ptr = 0;
+				releasePtr();
+				this->ptr = p;
 			}
 			return *this;
 		}
-- 
2.43.0


From 0559272939649671613a5b55639c8e3042dfe17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 055/149] fix: asynchronous acquire of free FastLock waited
 forever

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index 3546352..a7dcb57 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -143,7 +143,8 @@ public:
 		Slot sl;
 	public:
 		Async(FastLock &lk):lk(lk),sl(getCurThreadSleepingObj()) {
-			lk.addToQueue(&sl);
+			//lock was free - nobody will give the ownership to us, take it now
+			if (!lk.addToQueue(&sl)) lk.owner = &sl;
 		}
 		~Async() {
 			while (lk.owner != &sl) threadHalt();
-- 
2.43.0


From 2715d31ff875aebbcc5ee639eff9f047c743d283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 056/149] fix: FastLock::unlock could notify already destroyed
 sleeping object of finished thread

---
 src/lightspeed/mt/fastlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index a7dcb57..df51d40 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -92,7 +92,8 @@ public:
 			//find tail of the queue - previous object will be new owner
 			while (p->next != o) p = p->next;
 			//store target thread, setting new owner can make Slot disappear
-			ISleepingObject *ntf = p->notify;
+			//(and the thread can finish before it is notified - keep its sleeping object)
+			RefCntPtr<IThreadSleeper> ntf = p->notify;
 			//write owner to notify next thread - target thread has ownership now!
 			owner = p;
 			//notify new owner - it may sleep (release barrier here)
-- 
2.43.0


From 8e70b9162311335a75afa8d6061f0333f343ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 057/149] fix: MicroLock could wait forever when ownership was
 received while the waiter was being enqueued

---
 src/lightspeed/mt/microlock.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index 0e2d01c..db14813 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -57,12 +57,14 @@ namespace LightSpeed {
 
 			//try to lock the lock, but if it is already locked, k will not NULL
 			MicroLockData *k = lockCompareExchangePtr<MicroLockData>(&lk.owner,0,this);
+			//expected owner - once self is in the queue, 'next' can be changed by other thread
+			MicroLockData *expected = 0;
 			//test result of k
-			while (k != next) {
+			while (k != expected) {
 				//update next to reflect reality
-				next = k;
+				next = expected = k;
 				//accept reality and try to enqueue self to the queue
-				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,next,this);
+				k = lockCompareExchangePtr<MicroLockData>(&lk.owner,expected,this);
 			}
 			//wait until next is equal zero
 			while (next != 0) {
-- 
2.43.0


From 816f581654f80ca670dc59b09521687c891976da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 058/149] fix: MicroLock could notify already destroyed
 sleeping object of finished thread

---
 src/lightspeed/mt/microlock.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/microlock.h b/src/lightspeed/mt/microlock.h
index db14813..41700ac 100644
--- a/src/lightspeed/mt/microlock.h
+++ b/src/lightspeed/mt/microlock.h
@@ -84,7 +84,8 @@ namespace LightSpeed {
 					//find next object in the queue
 					while (k->next != this) k = k -> next;
 					//retrieve notifier - because object on k can vanish after the next command
-					ISleepingObject *n = k->owner;
+					//(and the thread can finish before it is notified - keep its sleeping object)
+					RefCntPtr<IThreadSleeper> n = k->owner;
 					//give ownership to k (see lock() - while (next != 0) )
 					k->next = 0;
 					//notify the thread if it is necessary
-- 
2.43.0


From 1ae9905836f4b08bf3b6a908c5c2f21e6e8e2945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 059/149] fix: FastLockR kept stale owner after the recursion
 has been saved and did not set the owner when restored by trying

---
 src/lightspeed/mt/fastlock.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightspeed/mt/fastlock.h b/src/lightspeed/mt/fastlock.h
index df51d40..3ac41fb 100644
--- a/src/lightspeed/mt/fastlock.h
+++ b/src/lightspeed/mt/fastlock.h
@@ -298,6 +298,7 @@ public:
 	natural unlockSaveRecusion() {
 		natural ret = recursiveCount;
 		recursiveCount = 0;
+		ownerThread = 0;
 		FastLock::unlock();
 		return ret;
 	}
@@ -317,6 +318,8 @@ public:
 		if (tryLock) {
 			//call original tryLock - it returns false, when lock is owned
 			if (!FastLock::tryLock()) return false;
+			//now the current thread is owner
+			ownerThread = getCurThreadId();
 		} else {
 			//try to lock
 			lock();
-- 
2.43.0


From 48f916e2cf92b9ae50e1c3fd6c48c21f4c9e5d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 060/149] fix: LevelLock (RWLock) never became free once any
 thread had been waiting for it

---
 src/lightspeed/mt/rwlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index e180c50..ced6ad5 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -173,6 +173,8 @@ public:
 		curLevel = s->level;
 		//remove from the queue
 		qtop = qtop->next;
+		//the queue is empty now
+		if (qtop == 0) qbot = 0;
 		//set use count 
 		useCount++;
 		//mark slot signaled
-- 
2.43.0


From 06fd81c816b2d958f938ea79f88f0fc733019ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 061/149] fix: cancelled asynchronous waiting for LevelLock
 stayed at the bottom of the queue

---
 src/lightspeed/mt/rwlock.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index ced6ad5..cb5884f 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -116,10 +116,15 @@ public:
 
 			if (!s.signaled) {
 				Slot *q = qtop;
-				if (q == &s) qtop = q->next;
-				else {
+				if (q == &s) {
+					qtop = q->next;
+					if (qtop == 0) qbot = 0;
+				} else {
 					while (q && q->next != &s) q = q ->next;
-					if (q->next == &s) q->next =  s.next;
+					if (q) {
+						q->next =  s.next;
+						if (qbot == &s) qbot = q;
+					}
 				}
 			}
 		}
-- 
2.43.0


From f716af1d5a6f39c1aa5dfdf0e88197e29d43d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 062/149] fix: LevelLock::unlock touched the slot and the
 sleeping object of the thread which already left the lock

---
 src/lightspeed/mt/rwlock.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/rwlock.h b/src/lightspeed/mt/rwlock.h
index cb5884f..5714ce9 100644
--- a/src/lightspeed/mt/rwlock.h
+++ b/src/lightspeed/mt/rwlock.h
@@ -63,6 +63,8 @@ public:
 		lockAsync(s);
 		//wait until signaled
 		while (!s.signaled) threadHalt();
+		//the slot (and this thread) must not vanish until the notifying thread is done with it
+		Synchronized<FastLock> _(protectInternals);
 
 	}
 	///Perform asynchronous lock
-- 
2.43.0


From b98c0ce0ca3961ffa313470886a4fa2585bd05cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 063/149] fix: timeouted waiting for Semaphore left its slot
 registered

---
 src/lightspeed/mt/semaphore.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/semaphore.h b/src/lightspeed/mt/semaphore.h
index 634e98d..b7a4c01 100644
--- a/src/lightspeed/mt/semaphore.h
+++ b/src/lightspeed/mt/semaphore.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
 		bool lock(SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,nil,md)) {
+			if (!SyncPt::wait(slot,nil,md) && SyncPt::remove(slot)) {
 				return false;
 			} else {
 				return true;
@@ -46,7 +46,7 @@ namespace LightSpeed {
 		bool lock(const Timeout &tm, SyncPt::WaitInterruptMode md) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm,md)) {
+			if (!SyncPt::wait(slot,tm,md) && SyncPt::remove(slot)) {
 				return false;
 			} else {
 				return true;
@@ -57,7 +57,7 @@ namespace LightSpeed {
 		bool lock(const Timeout &tm) {
 			Slot slot;
 			lockAsync(slot);
-			if (!SyncPt::wait(slot,tm)) {
+			if (!SyncPt::wait(slot,tm) && SyncPt::remove(slot)) {
 				return false;
 			} else {
 				return true;
-- 
2.43.0


From 697c6c3cb1b3e9dbfb8c9a10954ff92115752dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 064/149] fix: SyncPt::remove reported success for slot which
 was not registered, Semaphore::cancelLockAsync lost the lock

---
 src/lightspeed/mt/syncPt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index a8952e3..fb1699c 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -72,7 +72,7 @@ bool SyncPt::remove(Slot& slot) {
 		}
 	} else {
 		//slot is not charged, false
-		return true;
+		return false;
 	}
 }
 
-- 
2.43.0


From b5d5e6f321d8950cf124c0c84ba2c943e42c4b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 065/149] fix: slot of SyncPt could not be reused after it had
 been reset or removed

---
 src/lightspeed/mt/syncPt.cpp | 6 ++++++
 src/lightspeed/mt/syncPt.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/lightspeed/mt/syncPt.cpp b/src/lightspeed/mt/syncPt.cpp
index fb1699c..33847d3 100644
--- a/src/lightspeed/mt/syncPt.cpp
+++ b/src/lightspeed/mt/syncPt.cpp
@@ -50,6 +50,9 @@ bool SyncPt::remove(Slot& slot) {
 		}else if (q == &slot) {
 			//set queue-s new head
 			curQueue = slot.next;
+			//slot can be registered again
+			slot.next = 0;
+			slot.charged = false;
 			//slot removed
 			return true;
 		} else {
@@ -61,6 +64,9 @@ bool SyncPt::remove(Slot& slot) {
 			if (q->next == &slot) {
 				//remove slot if found
 				q->next = slot.next;
+				//slot can be registered again
+				slot.next = 0;
+				slot.charged = false;
 				//removed
 				suc = true;
 			} else {
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 2fd6b5d..0bf72d5 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -113,6 +113,8 @@ namespace LightSpeed {
 			  touch internal state, because it can be accessed form another thread */
 			bool reset() {
 				if (isSignaled()) {
+					next = 0;
+					charged = false;
 					Notifier::reset();
 					return true;
 				} else {
-- 
2.43.0


From 3c1c086e871286e7466d2351ae9e05b689342559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:36 +0000
Subject: [PATCH 066/149] fix: Mutex::tryLock did not set recursion counter,
 asynchronous lock of Mutex stored new owner to a wrong place

---
 src/lightspeed/mt/mutex.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/mutex.cpp b/src/lightspeed/mt/mutex.cpp
index 6016ec9..b701f51 100644
--- a/src/lightspeed/mt/mutex.cpp
+++ b/src/lightspeed/mt/mutex.cpp
@@ -64,8 +64,9 @@ bool Mutex::tryLock()
 	atomic me = ThreadId::current().asAtomic();
 	if (lockCompareExchange(owner,0,me) != 0)
 		return false;
-	else
-		return true;
+	//in case of success, set recursion to 1
+	recursion = 1;
+	return true;
 }
 
 void Mutex::unlock()
@@ -110,7 +111,7 @@ bool Mutex::lockAsync( WaitPt::Slot &slot )
 			return true;
 		}
 		//set thread id - new owner
-		slot.threadId = me;
+		slot.value.threadId = me;
 		//register slot
 		waitPt.add(slot);
 		//test again for ownership - may be alread released
-- 
2.43.0


From f833679f4dae1f7ad76037dd1ea324fd406867e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 067/149] fix: Notifier (SyncPt, Semaphore, Gate, Mutex) could
 wake up already destroyed thread

---
 src/lightspeed/mt/notifier.cpp | 2 +-
 src/lightspeed/mt/notifier.h   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/notifier.cpp b/src/lightspeed/mt/notifier.cpp
index 5e388e1..06e26a0 100644
--- a/src/lightspeed/mt/notifier.cpp
+++ b/src/lightspeed/mt/notifier.cpp
@@ -4,7 +4,7 @@
 
 namespace LightSpeed {
 
-	Notifier::Notifier():reason(0),signaled(0),forward(&Thread::current()) {}
+	Notifier::Notifier():reason(0),signaled(0),sleeper(getCurThreadSleepingObj()),forward(sleeper) {}
 
 
 	bool Notifier::wait(const Timeout &tm, bool wakeOnExit) {
diff --git a/src/lightspeed/mt/notifier.h b/src/lightspeed/mt/notifier.h
index e0e6a49..59b69a6 100644
--- a/src/lightspeed/mt/notifier.h
+++ b/src/lightspeed/mt/notifier.h
@@ -9,6 +9,7 @@
 #define LIGHTSPEED_MT_NOTIFIER_H_
 #include "sleepingobject.h"
 #include "atomic.h"
+#include "threadMinimal.h"
 #include <assert.h>
 
 namespace LightSpeed {
@@ -59,6 +60,8 @@ namespace LightSpeed {
 		virtual void wakeUp(natural reason = 0) throw() {
 			//store forward - this object can disappear during processing
 			ISleepingObject *fw = forward;
+			//the thread can disappear too, once it is signaled - keep its sleeping object
+			RefCntPtr<IThreadSleeper> keep = sleeper;
 			//store reason first
 			this->reason = reason;
 			//make object signaled - now thread can continue
@@ -122,6 +125,7 @@ namespace LightSpeed {
 
 	protected:
 		atomic signaled;
+		RefCntPtr<IThreadSleeper> sleeper;
 		ISleepingObject *forward;
 
 
-- 
2.43.0


From 3eece0ffb388e201d2db519c77627b3ff7373254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 068/149] fix: Thread::sleep stored the reason of the wake-up
 only when nobody woke it up

---
 src/lightspeed/mt/linux/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index db0a0d9..8aa2a7d 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -406,7 +406,7 @@ Thread *Thread::currentPtr() {
 
 bool Thread::impSleep(const Timeout &tm, natural &reason) {
 	bool r = sleeper->sleep(tm);
-	if (r) reason=sleeper->getReason();
+	if (!r) reason=sleeper->getReason();
 	return r;
 }
 
-- 
2.43.0


From 005b7f7ba09c2b50cd059344cc02c1559d1317ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 069/149] fix: Thread::isFinishing reported state of the
 calling thread

---
 src/lightspeed/mt/linux/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 8aa2a7d..7f1db0a 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -438,7 +438,7 @@ bool Thread::canFinish() throw() {
 
 ///true if thread is finishing already
 bool Thread::isFinishing() const throw() {
-	return (current().flags & flagFinish) != 0;
+	return (flags & flagFinish) != 0;
 }
 
 ///retrieves reference to TLS table
-- 
2.43.0


From f34353876f87b7beab6bcc36174df925ac672461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 070/149] fix: SList::empty did not compile

---
 src/lightspeed/mt/slist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/slist.h b/src/lightspeed/mt/slist.h
index 14971a3..215d4a2 100644
--- a/src/lightspeed/mt/slist.h
+++ b/src/lightspeed/mt/slist.h
@@ -91,7 +91,7 @@ namespace LightSpeed {
 		 
 		
 		bool empty() const {
-			return ptrToCookie(_top) == 0;
+			return cookieToPtr(_top) == 0;
 		}
 
 		///Insert (push) item into list in single thread access
-- 
2.43.0


From e1032939c066a31cf74130dcf4a32570028a14ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:56 +0000
Subject: [PATCH 071/149] fix: WeakRef notified a thread which could already be
 gone

---
 src/lightspeed/base/memory/weakref.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/weakref.h b/src/lightspeed/base/memory/weakref.h
index e29bf3b..af2ded0 100644
--- a/src/lightspeed/base/memory/weakref.h
+++ b/src/lightspeed/base/memory/weakref.h
@@ -70,12 +70,12 @@ class WeakRef {
 		 */
 		atomic lockCount;
 		///during "reseting" phase, this is set to object which must be notified about unlocking the reference
-		ISleepingObject *clearOutNotify;
+		RefCntPtr<IThreadSleeper> clearOutNotify;
 
 		Pointer(T *ptr)
 			:ptr(ptr)
 			,lockCount(initedFlag)
-			,clearOutNotify(0) {}
+			,clearOutNotify(nil) {}
 	};
 
 	///Contains null pointer which is marked as left
@@ -177,6 +177,7 @@ protected:
 				RefCntPtr<IThreadSleeper> sleeper = getCurThreadSleepingObj();
 				//set sleeping object to the Pointer object. That because unlock() function can
 				//send notification to the sleeper once the counter reaches zero
+				//the last unlocking thread can notify even if this thread has already gone
 				ref->clearOutNotify =  sleeper;
 				//now remove the initFlag bit simply by substracting the value from the counter
 				//because we expect the only one thread that will destroy the target
-- 
2.43.0


From db76db6b9d21933495f8854bbdb9773320823822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 072/149] fix: AllocCluster::dealloc returned a wrong block to
 the cluster when the size was not a multiple of the alignment

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index c018337..beef146 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -59,7 +59,7 @@ void AllocCluster::dealloc( void *ptr, natural sz )
 	natural bksize = objSize2bksize(sz);
 	if (!isMyPtr(ptr,bksize)) throw InvalidPointerException(THISLOCATION,ptr);
 	bool wasFull = isFull();
-	makeDealloc(ptr,sz);
+	makeDealloc(ptr,bksize);
 	if (wasFull || isEmpty())
 		master->onDealloc(this,wasFull);
 }
-- 
2.43.0


From c7761c28e0978cf7d5771896547be0a8a27667ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 073/149] fix: ClusterAlloc divided by zero for an empty block

---
 src/lightspeed/base/memory/clusterAlloc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/memory/clusterAlloc.cpp b/src/lightspeed/base/memory/clusterAlloc.cpp
index beef146..920bc21 100644
--- a/src/lightspeed/base/memory/clusterAlloc.cpp
+++ b/src/lightspeed/base/memory/clusterAlloc.cpp
@@ -34,6 +34,7 @@ AllocCluster * AllocCluster::create( IRuntimeAlloc &alloc, IMaster *cb, byte cou
 natural AllocCluster::objSize2bksize( natural objSize )
 {
 	natural fs = sizeof(void *);
+	if (objSize == 0) objSize = 1;
 	while (objSize < fs) fs>>=1;
 	fs--;
 	return (objSize + fs) & (~fs);
-- 
2.43.0


From 1c6bf32e22c1f6c7ebc445681f1c9e7fa0cae52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 074/149] fix: SharedResource assigned to itself left its group

---
 src/lightspeed/base/memory/sharedResource.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/memory/sharedResource.h b/src/lightspeed/base/memory/sharedResource.h
index 11aaa27..7906bd3 100644
--- a/src/lightspeed/base/memory/sharedResource.h
+++ b/src/lightspeed/base/memory/sharedResource.h
@@ -84,6 +84,7 @@ namespace LightSpeed {
          * @note this operation has complexity: O(n) for remove from existing ring, O(1) otherwise
          */
         SharedResource &operator=(const SharedResource &other) {        	
+            if (this == &other) return *this;
             removeItself();
             next = other.next;
             other.next = this;
-- 
2.43.0


From c8fa6addef71603d478b0793b0db615723ddabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 075/149] fix: SmallAlloc released a block of another allocator
 by operator delete when moved

---
 src/lightspeed/base/memory/smallAlloc.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/smallAlloc.h b/src/lightspeed/base/memory/smallAlloc.h
index 9fd4007..6db9ce2 100644
--- a/src/lightspeed/base/memory/smallAlloc.h
+++ b/src/lightspeed/base/memory/smallAlloc.h
@@ -61,7 +61,8 @@ namespace LightSpeed {
 			bool move(AllocatedMemory &other) {
 				if (isLocal()) return false;
 				if (!other.isLocal()) {
-					operator delete(other.ptr);
+					if (other.alloc) other.alloc->dealloc(other.ptr,other.size*sizeof(T));
+					else operator delete(other.ptr);
 				}
 				other.ptr = ptr;
 				other.size = size;
-- 
2.43.0


From 28d9607e0dc5c5e91b9a16d4cb592416c63bbb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 076/149] fix: AllocInBuffer accepted a huge block because of
 an overflow

---
 src/lightspeed/base/memory/runtimeAlloc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/memory/runtimeAlloc.h b/src/lightspeed/base/memory/runtimeAlloc.h
index 4dcfd27..ef033b8 100644
--- a/src/lightspeed/base/memory/runtimeAlloc.h
+++ b/src/lightspeed/base/memory/runtimeAlloc.h
@@ -162,7 +162,7 @@ namespace LightSpeed {
 	public:
 		AllocInBuffer(void *buffer,natural maxSize):buffer(buffer),used(0),maxSize(maxSize) {}
 		virtual void *alloc(natural objSize)  {
-			if (used + objSize > maxSize)
+			if (objSize > maxSize - used)
 				throwAllocatorLimitException(THISLOCATION,objSize,maxSize-used,typeid(AllocInBuffer));
 			natural pos = used;
 			used+=objSize;
-- 
2.43.0


From 1c0663aa776f14e1f523f7ef34155b9e3bc66dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:59 +0000
Subject: [PATCH 077/149] fix: OwnedPtr did not initialize its ownership flag

---
 src/lightspeed/base/memory/ownedPointer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/memory/ownedPointer.h b/src/lightspeed/base/memory/ownedPointer.h
index 333fae2..68ef6a7 100644
--- a/src/lightspeed/base/memory/ownedPointer.h
+++ b/src/lightspeed/base/memory/ownedPointer.h
@@ -53,12 +53,12 @@ namespace LightSpeed {
 
 		enum NotOwned {notOwned};
 
-		OwnedPtr():Super() {}
-		OwnedPtr(NullType x):Super(x) {}
+		OwnedPtr():Super(),owned(false) {}
+		OwnedPtr(NullType x):Super(x),owned(false) {}
 		OwnedPtr(T *p):Super(p),owned(true) {}
 
-		OwnedPtr(const Allocator &alloc):Super(alloc) {}
-		OwnedPtr(T *p, const Allocator &alloc):Super(p,alloc) {}
+		OwnedPtr(const Allocator &alloc):Super(nil,alloc),owned(false) {}
+		OwnedPtr(T *p, const Allocator &alloc):Super(p,alloc),owned(true) {}
 
 
         ~OwnedPtr() {
-- 
2.43.0


From 17e53eed9e6c26a3ec97b82e6859cae7f5519720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 078/149] fix: ToString wrote garbage for the lowest signed
 number

---
 src/lightspeed/base/text/toString.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/text/toString.h b/src/lightspeed/base/text/toString.h
index 4e4be41..3daf507 100644
--- a/src/lightspeed/base/text/toString.h
+++ b/src/lightspeed/base/text/toString.h
@@ -84,16 +84,18 @@ namespace LightSpeed {
 			else {
 				if (val < 0) {
 					this->buffer.write(ChT('-'));
-					this->extract(-val,base,up);
-				} else {
 					this->extract(val,base,up);
+				} else {
+					this->extract(-val,base,up);
 				}
 			}
 			this->commitBuffer();
 		}
+		//val is not positive, because the lowest number has no positive counterpart
 		void extract(NumType val, natural base, bool up) {
-			if (val >= (NumType)base) extract(val / base, base, up);
-			natural x = val % base;
+			NumType b = (NumType)base;
+			if (val <= -b) extract(val / b, base, up);
+			natural x = (natural)(-(val % b));
 			if (x > 9) this->buffer.write(ChT((up ? 'A' : 'a') + x - 10));
 			else this->buffer.write(ChT('0' + x));
 		}
-- 
2.43.0


From 470c19bdc3720a328c5e85b57ec5efb40c2925ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 079/149] fix: TextParser did not match ranges in a negated
 list of characters

---
 src/lightspeed/base/text/textParser.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/text/textParser.tcc b/src/lightspeed/base/text/textParser.tcc
index 0587071..b618a1e 100644
--- a/src/lightspeed/base/text/textParser.tcc
+++ b/src/lightspeed/base/text/textParser.tcc
@@ -348,11 +348,11 @@ bool TextParser<T,Alloc,Cmp>::parseCharList(PatternIter &patiter, SourceIter &sr
 				const T &_ = iter.getNext();
 				if (iter.hasItems()) {
 					const T &b = iter.getNext();
-					if (!cmp.less(p , a) && !cmp.less(b,p) == cond) {
+					if (!cmp.less(p , a) && !cmp.less(b,p)) {
 						okaj = true;
 					}
 				} else {
-					if ((cmp.equal(p, a) || cmp.equal(p, _)) == cond) {
+					if (cmp.equal(p, a) || cmp.equal(p, _)) {
 						okaj = true;
 					}
 				}
-- 
2.43.0


From 668f3f8085f1f8e82fb6dd354a8c5c174e78429f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 080/149] fix: TextInBuffer iterator read past the end of the
 input

---
 src/lightspeed/base/text/textInBuffer.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textInBuffer.tcc b/src/lightspeed/base/text/textInBuffer.tcc
index 14d06a7..d5d439b 100644
--- a/src/lightspeed/base/text/textInBuffer.tcc
+++ b/src/lightspeed/base/text/textInBuffer.tcc
@@ -56,7 +56,7 @@ const typename TextInBuffer<Iter,Alloc>::T &
 		TextInBuffer<Iter,Alloc>::Iterator::getNext() {
 	natural absp = absPos();
 	natural avail = owner.preload(absp);
-	if (avail < absp) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
+	if (avail <= absp) throwIteratorNoMoreItems(THISLOCATION,typeid(T));
 	pos++;
 	if (automark) owner.mark(*this);
 	return owner.buffer.getArray()[absp];
-- 
2.43.0


From cb9e46ca83ad096d4db2f7f36585da61df896728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 081/149] fix: TextFormat constructed with an allocator did not
 initialize the number format

---
 src/lightspeed/base/text/textFormat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/text/textFormat.h b/src/lightspeed/base/text/textFormat.h
index d66de8b..ae3655f 100644
--- a/src/lightspeed/base/text/textFormat.h
+++ b/src/lightspeed/base/text/textFormat.h
@@ -118,7 +118,7 @@ enum SimpleManipulators {
 
 		TextFormat():base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 		TextFormat(const Alloc &alloc):buff(alloc),patternBuffer(alloc)
-				,base(10),decimals(6),newline(DefaultNLString<T>()) {}
+				,base(10),decimals(6),sciFormat(false),newline(DefaultNLString<T>()) {}
 
 		TextFormat &operator()(ConstStringT<T> pattern);
 		TextFormat &operator()(const T *pattern);
-- 
2.43.0


From bc1129f8b05ef3bad82bd08b14528826c4119e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 082/149] fix: TextIn lost an incomplete new line sequence
 before the end of the line or of the input

---
 src/lightspeed/base/text/textIn.h | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/lightspeed/base/text/textIn.h b/src/lightspeed/base/text/textIn.h
index 7a034bc..cd8ef37 100644
--- a/src/lightspeed/base/text/textIn.h
+++ b/src/lightspeed/base/text/textIn.h
@@ -141,22 +141,15 @@ namespace LightSpeed {
 		bool peekLine() {
 			this->data.clear();
 			this->fragments.clear();
-			natural nlpos = 0;
 			bool hasdata = false;
 			typename Buffer::Iterator iter = buffer.getFwIter(true);
 			while (iter.hasItems()) {
 				hasdata = true;
 				const ItemT &item = iter.getNext();
-				if (this->nl[nlpos] == item) {
-					nlpos++;
-					if (nlpos==this->nl.length()) break;
-				} else if (nlpos > 0) {
-					for (natural k = 0; k < nlpos; k++) 
-						this->data.add(this->nl[k]);
-					nlpos = 0;
-					this->data.add(item);
-				} else {
-					this->data.add(item);
+				this->data.add(item);
+				if (this->data.tail(this->nl.length()) == this->nl) {
+					this->data.trunc(this->nl.length());
+					break;
 				}
 			}
 			this->fragments.add(typename Super::Fragment(this->data,0,this->data.length()));
-- 
2.43.0


From 4617cf9e93a6d411a7d53d5683caa285e2fc8448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 083/149] fix: TextIn discarded characters read by a previous
 unsuccessful match

---
 src/lightspeed/base/text/textIn.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/text/textIn.h b/src/lightspeed/base/text/textIn.h
index cd8ef37..a577b39 100644
--- a/src/lightspeed/base/text/textIn.h
+++ b/src/lightspeed/base/text/textIn.h
@@ -196,6 +196,7 @@ template<typename Iter, typename Alloc>
 bool TextIn<Iter,Alloc>::operator ()(const Str &format)
 {
 	typename Buffer::Iterator iter = buffer.getFwIter(true);
+	buffer.mark(iter);
 	bool res = Super::operator()(format, iter);
 	if (res) buffer.commit();
 	return res;
@@ -207,6 +208,7 @@ template<typename Iter, typename Alloc>
 bool TextIn<Iter,Alloc>::peek(const Str &format)
 {
 	typename Buffer::Iterator iter = buffer.getFwIter(true);
+	buffer.mark(iter);
 	return Super::operator()(format, iter);
 }
 
-- 
2.43.0


From 60657cdd25e8ed511271e608c74d02c705128190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 084/149] fix: TimeStamp::intervalMin counted 144 minutes as a
 day

---
 src/lightspeed/base/timestamp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/timestamp.h b/src/lightspeed/base/timestamp.h
index 87db182..58065fa 100644
--- a/src/lightspeed/base/timestamp.h
+++ b/src/lightspeed/base/timestamp.h
@@ -224,7 +224,7 @@ namespace LightSpeed {
 			return TimeStamp(sec/daySecs,(sec % daySecs)*timeResolution);
 		}
 		static TimeStamp intervalMin(natural min)  {
-			return TimeStamp(min/144,(min%144)*timeResolution*60);
+			return TimeStamp(min/1440,(min%1440)*timeResolution*60);
 		}
 		static TimeStamp intervalHour(natural hour){
 			return TimeStamp(hour/24,(hour % 24)*timeResolution*60*60);
-- 
2.43.0


From ce57369eca7e4ca0d99197744688925ad61adff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 085/149] fix: TimeStamp rejected an ISO 8601 time in the basic
 format

---
 src/lightspeed/base/timestamp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 5f3fd15..e0bd9f3 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -118,7 +118,7 @@ namespace LightSpeed {
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
 		} else if (timePart.length() == 4) {
-			if (parse("%u(2,2)u1%%(2,2)u2",timePart))
+			if (parse("%(2,2)u1%%(2,2)u2",timePart))
 				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],0);
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
@@ -129,7 +129,7 @@ namespace LightSpeed {
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
 		} else if (timePart.length() == 6) {
-			if (parse("%u(2,2)u1%%(2,2)u2%%(2,2)u3",timePart))
+			if (parse("%(2,2)u1%%(2,2)u2%%(2,2)u3",timePart))
 				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
-- 
2.43.0


From d9193773821b5ca369fc91ce1e797a78ad92499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 086/149] fix: TimeStamp rejected or misread the time zone of
 an ISO 8601 time

---
 src/lightspeed/base/timestamp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index e0bd9f3..9b8a172 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -147,7 +147,7 @@ namespace LightSpeed {
 				integer zoneofsmin;
 				char zonedir = zonespec[0];
 				zonespec = zonespec.offset(1);
-				if (parse("%u1",zonespec)) {
+				if (zonespec.length() <= 2 && parse("%u1",zonespec)) {
 					zoneofsmin = (natural)parse[1] * 60;
 				} else if (parse("%(2,2)u1%%(2,2)u2",zonespec)) {
 					zoneofsmin = (natural)parse[1] * 60+(natural)parse[2];
@@ -159,7 +159,7 @@ namespace LightSpeed {
 				TimeStamp ofs = TimeStamp::intervalMin(zoneofsmin);
 				if (zonedir == '-') {
 					res = res + ofs;
-				} else if (zonedir != '+') {
+				} else if (zonedir == '+') {
 					res = res - ofs;
 				} else {
 					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, zonespec);				
-- 
2.43.0


From 5f44481d011725a848052b130e477d0271dd89c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 087/149] fix: TimeStamp was invalid for a time before 1970

---
 src/lightspeed/base/linux/timestamp.cpp |  5 +++--
 src/lightspeed/base/timestamp.h         | 11 +++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/timestamp.cpp b/src/lightspeed/base/linux/timestamp.cpp
index 7f60157..37cbfc8 100644
--- a/src/lightspeed/base/linux/timestamp.cpp
+++ b/src/lightspeed/base/linux/timestamp.cpp
@@ -62,9 +62,10 @@ namespace LightSpeed {
 			tminfo.tm_yday = 0;
 
 			time_t r = timegm(&tminfo);
-			if (r == -1) throw ErrNoWithDescException(THISLOCATION, errno, "Failed to create time");
+			//-1 is also a valid time (the last second of 1969), which falls on Wednesday
+			if (r == -1 && tminfo.tm_wday != 3) throw ErrNoWithDescException(THISLOCATION, errno, "Failed to create time");
 //			r-=tminfo.tm_gmtoff;
-			return TimeStamp(r/daySecs,(r%daySecs)*1000);
+			return fromUnix(r);
 		}
 	}
 
diff --git a/src/lightspeed/base/timestamp.h b/src/lightspeed/base/timestamp.h
index 58065fa..72d31bc 100644
--- a/src/lightspeed/base/timestamp.h
+++ b/src/lightspeed/base/timestamp.h
@@ -64,7 +64,7 @@ namespace LightSpeed {
 		 */
 	 
 		static TimeStamp fromUnix(const time_t &unixTime) {
-			return TimeStamp((integer)(unixTime/daySecs),unixTime%daySecs * timeResolution);
+			return fromUnix(unixTime,0);
 		}
 
 		static TimeStamp fromSeconds(natural sec) {
@@ -78,7 +78,14 @@ namespace LightSpeed {
 		 * @return timestamp 
 		 */
 		static TimeStamp fromUnix(const time_t &unixTime, natural millis) {
-			return TimeStamp((integer)(unixTime/daySecs),unixTime%daySecs * timeResolution + millis);
+			time_t days = unixTime/(time_t)daySecs;
+			time_t secs = unixTime%(time_t)daySecs;
+			//seconds before 1970 - the time in a day is never negative
+			if (secs < 0) {
+				days--;
+				secs+=(time_t)daySecs;
+			}
+			return TimeStamp((integer)days,(natural)secs * timeResolution + millis);
 		}
 
 		///Converts Windows FILETIME to TimeStamp
-- 
2.43.0


From 78846639d5a1ac7da52458865cc8685c934b008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 088/149] fix: TimeStamp ignored the fraction of a second of an
 ISO 8601 time

---
 src/lightspeed/base/timestamp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 9b8a172..9a9c687 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -106,9 +106,12 @@ namespace LightSpeed {
 		if (dot != naturalNull) {
 			ConstStrA fract = timePart.offset(dot);
 			timePart = timePart.head(dot);
-			if (parse("%f1",fract)) {
-				float f = parse[1];
-				millis = (natural)floor(f*TimeStamp::timeResolution);				
+			natural unit = TimeStamp::timeResolution;
+			for (natural i = 1; i < fract.length(); i++) {
+				if (fract[i] < '0' || fract[i] > '9')
+					throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, fract);
+				unit /= 10;
+				millis += (fract[i] - '0') * unit;
 			}
 		}
 		TimeStamp res;
-- 
2.43.0


From fb4afb92167bf054a74630714e6de332995a846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:47 +0000
Subject: [PATCH 089/149] fix: TimeStamp took an ISO 8601 time of an unknown
 length as midnight

---
 src/lightspeed/base/timestamp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/base/timestamp.cpp b/src/lightspeed/base/timestamp.cpp
index 9a9c687..29f4c01 100644
--- a/src/lightspeed/base/timestamp.cpp
+++ b/src/lightspeed/base/timestamp.cpp
@@ -142,6 +142,8 @@ namespace LightSpeed {
 				res = TimeStamp::fromYMDhms(0,0,0,parse[1],parse[2],parse[3]);
 			else
 				throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
+		} else if (!timePart.empty()) {
+			throw TimeStamp::InvalidDateTimeFormat(THISLOCATION, timePart);
 		}
 
 		res = res + TimeStamp::intervalMSec(millis);
-- 
2.43.0


From 262324d1962a27c112f2284db2ac1cb692b7692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 090/149] fix: ConfigParser lost the last character of a value
 at the end of the input

---
 src/lightspeed/utils/configParser.tcc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index a00c6c6..22d5b31 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -225,12 +225,9 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::parseValue() {
         if (nx != '"') throw Error(THISLOCATION,
 						Error::exceptingEndOfQuotedValue,bufferGet());
 
-    } else while (input.hasItems()) {
-			if (nx == '\r' || nx == '\n') {
-				break;
-			} else {
-				bufferPut(nx);
-			}
+    } else while (nx != '\r' && nx != '\n') {
+			bufferPut(nx);
+			if (!input.hasItems()) break;
 			nx = input.getNext();
     }
     return trim(bufferGet());
-- 
2.43.0


From 64a10c3cb62eca764a5493966aa0c730787fb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 091/149] fix: ConfigParser trimmed a single character preceded
 by a space to nothing

---
 src/lightspeed/utils/configParser.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 22d5b31..170d1f0 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -256,7 +256,7 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::trim(const Str &other) {
     for (unsigned int i = 0; i < other.length(); i++)
         if (!isspace((unsigned char)other.at(i))) {
             begin = i;
-            end = 0;
+            end = i;
             for (i = i + 1; i < other.length(); i++)
                 if (!isspace((unsigned char)other.at(i))) end = i;
         }
-- 
2.43.0


From d69a5392dbdcda0622bae0a99a7311eb56117380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 092/149] fix: ConfigParser lost an escaped character outside
 of ASCII and misread \\b

---
 src/lightspeed/utils/configParser.h   |  2 +-
 src/lightspeed/utils/configParser.tcc | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/utils/configParser.h b/src/lightspeed/utils/configParser.h
index e7b4d7b..f573250 100644
--- a/src/lightspeed/utils/configParser.h
+++ b/src/lightspeed/utils/configParser.h
@@ -50,7 +50,7 @@ protected:
 
     Str parseFieldName();
     bool parseSpecialCommand();
-    char getNextEscaped();
+    int getNextEscaped();
 
     Str parseValue();
     void bufferInit();
diff --git a/src/lightspeed/utils/configParser.tcc b/src/lightspeed/utils/configParser.tcc
index 170d1f0..1cafeba 100644
--- a/src/lightspeed/utils/configParser.tcc
+++ b/src/lightspeed/utils/configParser.tcc
@@ -188,20 +188,20 @@ bool ConfigParser<Iter>::parseSpecialCommand() {
 }
 
 template<typename Iter>
-char ConfigParser<Iter>::getNextEscaped() {
+int ConfigParser<Iter>::getNextEscaped() {
 	char nx = input.getNext();
 	switch (nx) {
 		case 'n':return('\n');
 		case 'r':return('\r');
 		case 't':return('\t');
 		case 'a':return('\a');
-		case 'b':return('\r');
+		case 'b':return('\b');
 		case '0':return('\0');
 		case '\r':
 		case '\n': while (input.hasItems() && isspace(input.peek()))
 						input.skip();
 				   return -1;
-		default: return(nx);
+		default: return((unsigned char)nx);
 	}
 }
 
@@ -214,8 +214,8 @@ typename ConfigParser<Iter>::Str ConfigParser<Iter>::parseValue() {
         while (input.hasItems()) {
         	nx = input.getNext();
 			if (nx == '\\' && input.hasItems()) {
-				nx = getNextEscaped();
-				if (nx>=0) bufferPut(nx);
+				int e = getNextEscaped();
+				if (e>=0) bufferPut((char)e);
 			} else if (nx == '"' || nx == '\r' || nx == '\n' ) {
 				break;
 			} else {
-- 
2.43.0


From 8a70a26a33f803734dd1eb1af1af4d66a05e64da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:29 +0000
Subject: [PATCH 093/149] fix: IniConfigT::enumFields ignored the prefix and
 did not ignore letter case

---
 src/lightspeed/utils/configParser.cpp | 17 ++++++++++-------
 src/lightspeed/utils/configParser.h   |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lightspeed/utils/configParser.cpp b/src/lightspeed/utils/configParser.cpp
index 0ea3ec1..6964b2c 100644
--- a/src/lightspeed/utils/configParser.cpp
+++ b/src/lightspeed/utils/configParser.cpp
@@ -48,21 +48,24 @@ void IniConfigT::RequiredFieldException::message(ExceptionMsg &msg) const {
 }
 
 IniConfigT::Iterator::Iterator(const FieldMap &container, ConstStrA section, ConstStrA prefix)
-    		:innerIter(container.seek(SectionField(section,ConstStrA()))) {
+    		:innerIter(container.seek(SectionField(section,prefix))),none(true) {
     		if (innerIter.hasItems()) {
     			const FieldMap::Entity &e = innerIter.peek();
-    			if (e.key.section == section) {
+    			StrCmpCI<char> cmp;
+    			if (cmp(e.key.section,section) == cmpResultEqual
+    					&& cmp(e.key.field.head(prefix.length()),prefix) == cmpResultEqual) {
+    				//refer to strings in the pool, arguments need not exist later
     				this->section = e.key.section;
-    				if (e.key.field.head(prefix.length()) == prefix) {
-    					prefix = e.key.field.head(prefix.length());
-    				}
+    				this->prefix = e.key.field.head(prefix.length());
+    				none = false;
     			}
     		}
     	}
 
 bool IniConfigT::Iterator::match(const FieldMap::Entity &e)const  {
-    		return e.key.section == section
-    				&& (prefix.empty() || e.key.field.head(prefix.length()) == prefix);
+    		StrCmpCI<char> cmp;
+    		return !none && cmp(e.key.section,section) == cmpResultEqual
+    				&& cmp(e.key.field.head(prefix.length()),prefix) == cmpResultEqual;
     	}
 
 bool IniConfigT::Iterator::hasItems() const {
diff --git a/src/lightspeed/utils/configParser.h b/src/lightspeed/utils/configParser.h
index f573250..3a91d01 100644
--- a/src/lightspeed/utils/configParser.h
+++ b/src/lightspeed/utils/configParser.h
@@ -166,6 +166,7 @@ public:
     	FieldMap::Iterator innerIter;
     	ConstStrA section;
     	ConstStrA prefix;
+    	bool none;
     	mutable FieldVal storedItem;
 
     	bool match(const FieldMap::Entity &e)const;
-- 
2.43.0


From 456b90e5b3b4281670851ed868cdadaf27ef8e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 094/149] fix: LZW stream following the end-of-data code could
 not be decompressed

---
 src/lightspeed/utils/lzw.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 6601601..0f913b0 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -170,10 +170,10 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 			inbits = 0;
 			//reset accumulator
 			accum = 0;
+			//compressor starts next stream with empty dictionary
+			clearDict();
 			//signal logical end
 			this->eolb = true;
-			//reset previous code, this allows to start new stream with same dictionary
-			prevCode=null;
 		} else {
 			ChainCode nextCode(dict.length()+firstChainCode);
 			if (code < 256) {
@@ -287,6 +287,8 @@ bool LZWCompressBase<Impl>::OutBuff::hasItems() const {
 
 template<typename Impl>
 void LZWCompressBase<Impl>::OutBuff::padzeroes() {
+	//nothing to pad when the last code ended at the byte boundary
+	if (wrbits == 8) return;
 	outbuff[wrpos] = accum ;
 	wrpos = (wrpos + 1) & 0xF;
 	wrbits = 8;
-- 
2.43.0


From 2996e45973413367a85608d5a0828faba22a27a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:49 +0000
Subject: [PATCH 095/149] fix: LZWpDecompress used longer codes than
 LZWpCompress when the kept dictionary ended next to a power of two

---
 src/lightspeed/utils/lzw.cpp | 2 +-
 src/lightspeed/utils/lzw.tcc | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/lzw.cpp b/src/lightspeed/utils/lzw.cpp
index 9de3fb3..49d9462 100644
--- a/src/lightspeed/utils/lzw.cpp
+++ b/src/lightspeed/utils/lzw.cpp
@@ -139,7 +139,7 @@ void LZWpDecompress::optimizeDictionary() {
 			}
 			optTable(i) = nextCode;
 			newTable.add(CodeInfo(bout, prevCode));
-			if (nextCode+1 == (1 << codeBits)) {
+			if (nextCode == (1 << codeBits)) {
 				codeBits++;
 			}
 			nextCode++;
diff --git a/src/lightspeed/utils/lzw.tcc b/src/lightspeed/utils/lzw.tcc
index 0f913b0..e7e56d2 100644
--- a/src/lightspeed/utils/lzw.tcc
+++ b/src/lightspeed/utils/lzw.tcc
@@ -204,8 +204,10 @@ void LZWDecompressBase<Impl>::write(const byte& b) {
 				this->getImpl().onUnknownCode(code);
 				return;
 			}
+			//code following the clear code doesn't create new item in the dictionary
+			if (prevCode != nullChainCode) nextCode++;
 			prevCode = code;
-			if (nextCode+1 == (1 << codeBits)) {
+			if (nextCode == (1 << codeBits)) {
 				codeBits++;
 			}
 			this->hasItems = true;
-- 
2.43.0


From 6fee8f191e7fdee1f921d10c00f903db338fa419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:13 +0000
Subject: [PATCH 096/149] fix: LZWpDecompress read outside of its dictionary
 when a stream contained an early clear code

---
 src/lightspeed/utils/lzw.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/lzw.cpp b/src/lightspeed/utils/lzw.cpp
index 49d9462..b946b34 100644
--- a/src/lightspeed/utils/lzw.cpp
+++ b/src/lightspeed/utils/lzw.cpp
@@ -121,7 +121,7 @@ void LZWpDecompress::optimizeDictionary() {
 
 	this->codeBits = 9;
 	ChainCode curCode(this->dict.length()+firstChainCode);
-	natural maxDict = this->dict.length()-lzwpDictSpace;
+	natural maxDict = this->dict.length() > lzwpDictSpace?this->dict.length()-lzwpDictSpace:0;
 	optTable.resize(curCode,0);
 	ChainCode nextCode(firstChainCode);
 
-- 
2.43.0


From 9b990ff05af6eec4a852b977b79bd20ada5d7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 097/149] fix: Future stayed unresolved forever when its last
 Promise was destroyed

---
 src/lightspeed/base/actions/promise.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 0bf74d2..0007190 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -569,8 +569,8 @@ void Future<T>::Value::addResultRef()
 template<typename T>
 void Future<T>::Value::releaseResultRef()
 {
-	if (lockDec(resultRefCnt) == 0) {
-		cancel();
+	if (lockDec(resultRefCnt) == 0 && getState() == stateNotResolved) {
+		resolve(PException(new CanceledException(THISLOCATION)));
 	}
 }
 
-- 
2.43.0


From 07550ba65294af4e114fbf3a7fc0ff345fc38753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:29 +0000
Subject: [PATCH 098/149] fix: thread resolving a Future used the stack of the
 waiting thread after the wait could have finished

---
 src/lightspeed/base/actions/promise.tcc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/promise.tcc b/src/lightspeed/base/actions/promise.tcc
index 0007190..4c5520f 100644
--- a/src/lightspeed/base/actions/promise.tcc
+++ b/src/lightspeed/base/actions/promise.tcc
@@ -168,20 +168,23 @@ const T & Future<T>::wait( const Timeout &tm /*= Timeout()*/ ) const
 {
 	class Ntf: public IObserver {
 	public:
-		ISleepingObject *thread;
+		RefCntPtr<IThreadSleeper> thread;
 		const T *result;
 		PException exception;
 		
-		Ntf(ISleepingObject *thread):thread(thread),result(0),exception(0) {}
+		Ntf(RefCntPtr<IThreadSleeper> thread):thread(thread),result(0),exception(0) {}
 
 		virtual void resolve( const T &result ) throw()
 		{
+			//once the result is set, the thread can leave the function and even finish
+			RefCntPtr<IThreadSleeper> thread = this->thread.getMT();
 			this->result = &result;
 			thread->wakeUp();
 		}
 
 		virtual void resolve(const PException &e ) throw()
 		{
+			RefCntPtr<IThreadSleeper> thread = this->thread.getMT();
 			this->exception = e.getMT();
 			thread->wakeUp();
 		}		
-- 
2.43.0


From 10cf3dd9dc1bd3796cde4a77ad92749cf80e15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 099/149] fix: Gate was used by the opening thread after the
 waiting thread destroyed it

---
 src/lightspeed/mt/gate.h   | 14 +++++++++++---
 src/lightspeed/mt/syncPt.h |  1 +
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/gate.h b/src/lightspeed/mt/gate.h
index 05635a5..36fb06b 100644
--- a/src/lightspeed/mt/gate.h
+++ b/src/lightspeed/mt/gate.h
@@ -74,6 +74,12 @@ namespace LightSpeed {
 		
 		void cancelSlot(Slot &sl) {cancelWaitAsync(sl);}
 
+		///thread which passed through the gate can destroy it, so it has to wait until open() leaves the gate
+		bool leave(bool passed) {
+			if (passed) Synchronized<FastLock> _(sp.queueLock);
+			return passed;
+		}
+
 		atomic state;
 		SyncPt sp;
 	private:
@@ -83,8 +89,10 @@ namespace LightSpeed {
 
 	inline void Gate::open()
 	{
+		Synchronized<FastLock> _(sp.queueLock);
 		writeRelease(&state,stateOpen);
-		sp.notifyAll();
+		for (Slot *s = sp.popSlot_lk(); s != 0; s = sp.popSlot_lk())
+			sp.notifySlot_lk(s);
 	}
 
 
@@ -116,14 +124,14 @@ namespace LightSpeed {
 	inline bool Gate::wait(const Timeout& tm, SyncPt::WaitInterruptMode mode) {
 		Slot s;
 		waitAsync(s);
-		return sp.wait(s,tm,mode) || !sp.remove(s);
+		return leave(sp.wait(s,tm,mode) || !sp.remove(s));
 
 	}
 
 	inline bool Gate::wait(const Timeout& tm) {
 		Slot s;
 		waitAsync(s);
-		return sp.wait(s,tm) || !sp.remove(s);
+		return leave(sp.wait(s,tm) || !sp.remove(s));
 
 	}
 }
diff --git a/src/lightspeed/mt/syncPt.h b/src/lightspeed/mt/syncPt.h
index 0bf72d5..caf09e6 100644
--- a/src/lightspeed/mt/syncPt.h
+++ b/src/lightspeed/mt/syncPt.h
@@ -281,6 +281,7 @@ namespace LightSpeed {
 
 
 	private:
+		friend class Gate;
 
 		Slot * volatile curQueue;
 		Order order;
-- 
2.43.0


From 8ac00ab2522b0f5b9a6687ab0df8c0d54751b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 100/149] fix: thread which ended by an exception used the
 Thread object after join() could have returned

---
 src/lightspeed/mt/linux/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 7f1db0a..d0767ed 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -116,6 +116,8 @@ public:
 			//reset context pointer - it is no longer available
 			writeReleasePtr<ThreadContext>(&owner->threadContext,0);
 			owner->getJoinObject().open();
+			//owner can be destroyed once the gate is opened, so it must not be used any more
+			owner = 0;
 		}
 
 	}
-- 
2.43.0


From e8c92a3fb20fae392ec96f9ab035c3348e05c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 101/149] fix: thread overwrote its stack when it used a
 ThreadVar created after the thread had been started

---
 src/lightspeed/mt/linux/thread.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index d0767ed..4a97e98 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -182,15 +182,8 @@ void *ThreadContext::bootstrap(void * data) {
 	//store owner from bootstrap
 	ctx->owner = bs->owner;
 
-	//receive current state of TLS table
-	//calculate space needed
-	bksize = (TLSAllocator::getInstance().getMaxIndex() + 1) * sizeof (TLSRecord);
-	//reserve space at stack
-	bk = alloca(bksize);
-	//create allocator for AutoArray
-	InBlockAlloc bkalloc(bk,bksize);
-	//create TLS table for this thread
-	TLSTable<InBlockAlloc> tlstable(bkalloc);
+	//create TLS table for this thread - variables can be added later, so its size is not known yet
+	TLSTable<> tlstable;
 	//refer TLS table in the context
 	ctx->tlstable = &tlstable;
 
-- 
2.43.0


From 3a3bcbc2d924181428358f0efd9e8e5543f06640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 102/149] fix: InBlockAlloc accepted more items than fit into
 the block

---
 src/lightspeed/base/memory/inBlockAlloc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/memory/inBlockAlloc.h b/src/lightspeed/base/memory/inBlockAlloc.h
index b7e2a12..3a75b5b 100644
--- a/src/lightspeed/base/memory/inBlockAlloc.h
+++ b/src/lightspeed/base/memory/inBlockAlloc.h
@@ -32,7 +32,7 @@ namespace LightSpeed {
 			bool swap(AllocatedMemory &) {return false;}
 			bool move(AllocatedMemory &/*other*/) {return false;}
 			AllocatedMemory(const AllocatedMemory &src, natural count) {
-				if (count > src.cnt)
+				if (count > src.cnt/sizeof(T))
 					throwAllocatorLimitException(THISLOCATION,count,0,typeid(InBlockAlloc));
 				else {
 					addr = src.addr;
@@ -41,7 +41,7 @@ namespace LightSpeed {
 			}
 
 			AllocatedMemory(const InBlockAlloc &alloc, natural count) {
-				if (count > alloc.sz)
+				if (count > alloc.sz/sizeof(T))
 					throwAllocatorLimitException(THISLOCATION,count,alloc.sz,typeid(InBlockAlloc));
 				addr = alloc.addr;
 				cnt = alloc.sz;
-- 
2.43.0


From 6c72ddef17b5cbf18f8c9b8076b80de2fd0d28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 103/149] fix: Thread which could not be started looked as
 running and could not be destroyed

---
 src/lightspeed/mt/linux/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 4a97e98..a0b4014 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -366,6 +366,7 @@ void Thread::start(const IThreadFunction &fn, natural stackSize) {
 		pthread_attr_destroy(&attr);
 		//thread creation failed. We must remove fake context
 		threadContext = 0;
+		joinObject.open();
 		//continue exception
 		throw;
 	}
-- 
2.43.0


From b6070f23a1a87f6c5178d9784ca007071ad6a5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 104/149] fix: function of a thread was destroyed after join()
 could have returned

---
 src/lightspeed/mt/linux/thread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index a0b4014..25f5662 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -177,7 +177,7 @@ void *ThreadContext::bootstrap(void * data) {
 	//create allocator
 	AllocInBuffer fnbf(bk,bksize);
 	//allocate function
-	Message<void> fn(bs->fn.clone(fnbf));
+	AllocPointer<IThreadFunction> fn(bs->fn.clone(fnbf));
 
 	//store owner from bootstrap
 	ctx->owner = bs->owner;
@@ -210,8 +210,9 @@ void *ThreadContext::bootstrap(void * data) {
 			bs->unblockCaller.wakeUp();
 			//wrap function call to catch exceptions by thread hooks
 			try {
-				//call function
-				fn.deliver();
+				//call function - it is destroyed before the thread is declared as finished
+				AllocPointer<IThreadFunction> f(fn.detach());
+				(*f)();
 
 			} catch (...) {
 				AbstractThreadHook::callOnThreadExceptionHooks(*ctx->owner);
-- 
2.43.0


From 6f012cdb189a70c4f006721f98a0ad69696eb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 105/149] fix: Thread::start() never returned when a thread
 hook had thrown an exception

---
 src/lightspeed/mt/linux/thread.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/linux/thread.cpp b/src/lightspeed/mt/linux/thread.cpp
index 25f5662..32cbe8f 100644
--- a/src/lightspeed/mt/linux/thread.cpp
+++ b/src/lightspeed/mt/linux/thread.cpp
@@ -203,7 +203,12 @@ void *ThreadContext::bootstrap(void * data) {
 
 		//start thread
 		try {
-			AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			try {
+				AbstractThreadHook::callOnThreadInitHooks(*ctx->owner);
+			} catch (...) {
+				bs->unblockCaller.wakeUp();
+				throw;
+			}
 
 			ctx->owner->getJoinObject().close();
 			//unblock caller - bootstrap data vanished
-- 
2.43.0


From bfe85025df982b520943a33cf496eb6aa2ac20f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 106/149] fix: MsgQueue had undefined current message, a copied
 queue was not initialized at all

---
 src/lightspeed/base/actions/msgQueue.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index db64ba6..cab3278 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -38,19 +38,20 @@ MsgQueue::AbstractMsg *MsgQueue::AbstractMsg::isolate() {
 }
 
 MsgQueue::MsgQueue()
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(StdAlloc::getInstance()) {
 
 }
 
 MsgQueue::MsgQueue(IRuntimeAlloc &rtAllocator)
-:queueLen(0),curQueue(0),newMessages(0)
+:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
 ,rtAllocator(rtAllocator) {
 
 }
 
 MsgQueue::MsgQueue( const MsgQueue &other )
-	:rtAllocator(other.rtAllocator)
+	:queueLen(0),curQueue(0),newMessages(0),curMessage(0)
+	,rtAllocator(other.rtAllocator)
 {
 
 }
-- 
2.43.0


From 92d1856edcdbbd7507ce645c3c1f49b54e250d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:36 +0000
Subject: [PATCH 107/149] fix: MsgQueue accessed a posted message after the
 worker could have destroyed it

---
 src/lightspeed/base/actions/msgQueue.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index cab3278..fa9bcfb 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -117,18 +117,20 @@ void MsgQueue::postMessage(AbstractMsg *msg) {
 	if (msg == 0 || msg->next != nil) return;
 	//notify message, that is queued
 	msg->queued(*this);
-	//set next by current top
-	msg->next = newMessages;
+	//once the message is in the queue, worker can process and destroy it, so don't access it anymore
+	lockInc(queueLen);
+	AbstractMsg *top = newMessages;
+	msg->next = top;
 	//atomically set new top
-	while (lockCompareExchangePtr(&newMessages,msg->next.get(),msg) != msg->next.get()) {
+	while (lockCompareExchangePtr(&newMessages,top,msg) != top) {
 		//if not successfull (current top has been changed meanwhile)
 		//detach next
 		msg->next.detach();
 		//and try new top
-		msg->next = newMessages;
+		top = newMessages;
+		msg->next = top;
 		//try agaiin
 	}
-	lockInc(queueLen);
 	//notify worker thread about new message in the queue
 	notify();
 
@@ -139,12 +141,15 @@ void MsgQueue::postPriorityMessage(AbstractMsg *msg) {
 	if (msg == 0 || msg->next != nil) return;
 	//notify message, that is queued
 	msg->queued(*this);
-	msg->next = curQueue;
-	while (lockCompareExchangePtr(&curQueue,msg->next.get(),msg) != msg->next.get()) {
+	//once the message is in the queue, worker can process and destroy it, so don't access it anymore
+	lockInc(queueLen);
+	AbstractMsg *top = curQueue;
+	msg->next = top;
+	while (lockCompareExchangePtr(&curQueue,top,msg) != top) {
 		msg->next.detach();
-		msg->next = curQueue;
+		top = curQueue;
+		msg->next = top;
 	}
-	lockInc(queueLen);
 	notify();
 }
 
-- 
2.43.0


From 3d9f6b05133338e5ef3979a600caaf32cd09c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 108/149] fix: waiting for flush or cancelation returned too
 early when another flush rejected the request

---
 src/lightspeed/base/actions/msgQueue.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lightspeed/base/actions/msgQueue.cpp b/src/lightspeed/base/actions/msgQueue.cpp
index fa9bcfb..3a762e5 100644
--- a/src/lightspeed/base/actions/msgQueue.cpp
+++ b/src/lightspeed/base/actions/msgQueue.cpp
@@ -311,12 +311,25 @@ void MsgQueue::finish()
 
 void MsgQueue::wtFlush()
 {
+	//threads which wait for the queue are notified after all messages are rejected
+	AbstractMsg *waiting = 0, *last = 0;
 	prepareQueue();
 	PMsg m = getNextMsg();
 	while (m != nil) {
 		m->reject();
+		if (dynamic_cast<NotifyMsg *>(m.get()) != 0) {
+			AbstractMsg *n = m.detach();
+			if (last) last->next = n; else waiting = n;
+			last = n;
+		}
 		m = getNextMsg();
 	}
+	while (waiting) {
+		m = waiting;
+		waiting = m->isolate();
+		m->done();
+		m.detach();
+	}
 }
 
 void MsgQueue::wtFinish()
-- 
2.43.0


From 761c0e1e46af47ff949962507d65b3e16c9904af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 109/149] fix: worker of MsgThread could be called after the
 MsgThread was destroyed

---
 src/lightspeed/mt/msgthread.cpp | 11 +++++++++++
 src/lightspeed/mt/msgthread.h   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/lightspeed/mt/msgthread.cpp b/src/lightspeed/mt/msgthread.cpp
index 22c33e2..ff0075b 100644
--- a/src/lightspeed/mt/msgthread.cpp
+++ b/src/lightspeed/mt/msgthread.cpp
@@ -16,6 +16,12 @@ MsgThread::MsgThread( IRuntimeAlloc &rtAlloc )
 
 }
 
+MsgThread::~MsgThread()
+{
+	//thread must not run the worker after this part of the object is destroyed
+	Thread::stop();
+}
+
 void MsgThreadBase::notify()
 {
 	if (!manStart) autoStart();
@@ -77,6 +83,11 @@ SchedulerThread::SchedulerThread()
 
 }
 
+SchedulerThread::~SchedulerThread()
+{
+	Thread::stop();
+}
+
 void SchedulerThread::notify()
 {
 	MsgThreadBase::notify();
diff --git a/src/lightspeed/mt/msgthread.h b/src/lightspeed/mt/msgthread.h
index d34a41d..73ae792 100644
--- a/src/lightspeed/mt/msgthread.h
+++ b/src/lightspeed/mt/msgthread.h
@@ -46,6 +46,7 @@ namespace LightSpeed {
 
 		MsgThread();
 		MsgThread(IRuntimeAlloc &rtAlloc);
+		~MsgThread();
 
 		static MsgThread &current();
 		static MsgThread *currentPtr();
@@ -78,6 +79,7 @@ namespace LightSpeed {
 
 		SchedulerThread();
 		SchedulerThread(IRuntimeAlloc &rtAlloc);
+		~SchedulerThread();
 
 		static SchedulerThread &current();
 		static SchedulerThread *currentPtr();
-- 
2.43.0


From cadaaedb562f172cad124401b950706be22f0ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 110/149] fix: clock of SchedulerThread wrapped every second,
 an event scheduled to the next second was never run

---
 src/lightspeed/mt/msgthread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/msgthread.cpp b/src/lightspeed/mt/msgthread.cpp
index ff0075b..b5c4dfe 100644
--- a/src/lightspeed/mt/msgthread.cpp
+++ b/src/lightspeed/mt/msgthread.cpp
@@ -104,7 +104,7 @@ void SchedulerThread::worker()
 
 natural SchedulerThread::getSystemTime() const
 {
-	return SysTime::now().msec();
+	return SysTime::now().msecs();
 }
 natural SchedulerThread::getCurTime() const {return getSystemTime();}
 
-- 
2.43.0


From da2a3fe68b1c569be66f6e7c87ff0da885c87396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:15 +0000
Subject: [PATCH 111/149] fix: QueueExecutor had undefined finish flag,
 stopping it hanged when no thread served it

---
 src/lightspeed/base/actions/queueExecutor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index b2a18cb..6a78bb8 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -36,7 +36,7 @@ void QueueExecutor::execute(const IExecAction& action) {
 	wakeThread();
 }
 
-QueueExecutor::QueueExecutor():semaphore(1),runningMessages(0),threadsIn(0) {
+QueueExecutor::QueueExecutor():noThreads(Gate::stateOpen),semaphore(1),runningMessages(0),threadsIn(0),finishFlag(false) {
 
 }
 
-- 
2.43.0


From feeb1a9f1be9c907d1b1a02e24dd21da1b15391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 112/149] fix: QueueExecutor counted running actions outside of
 the lock

---
 src/lightspeed/base/actions/queueExecutor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/queueExecutor.cpp b/src/lightspeed/base/actions/queueExecutor.cpp
index 6a78bb8..01ae74b 100644
--- a/src/lightspeed/base/actions/queueExecutor.cpp
+++ b/src/lightspeed/base/actions/queueExecutor.cpp
@@ -104,14 +104,14 @@ void QueueExecutor::Server::serve() {
 					SyncReleased<FastLock> _(owner->lock);
 					//perform action (in case of exception, continue after catch
 					(*action)();
-					//decrease running actions
-					owner->runningMessages--;
 				} catch (...) {
 					//in case of exception, decrease running actions
 					owner->runningMessages--;
 					//throw above
 					throw;
 				}
+				//decrease running actions
+				owner->runningMessages--;
 				//if finish reported or thread will finish, break
 				if (owner->finishFlag || Thread::canFinish()) break;
 			}
-- 
2.43.0


From e57b4e8dd8e5f53ec3ca3954aa794600b2cc3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:06 +0000
Subject: [PATCH 113/149] fix: ParallelExecutor counted threads which ended
 when it had been stopped, another action could wait forever

---
 src/lightspeed/base/actions/parallelExecutor.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index c5e5f1d..7d70085 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -223,7 +223,17 @@ void ParallelExecutor::Worker::run() {
 	//perform thread-init hook
 	owner.onThreadInit();
 	//repeat until thread finish
-	while (cont && !Thread::canFinish() && !owner.orderStop) {
+	while (cont) {
+		if (Thread::canFinish() || owner.orderStop) {
+			//my thread will finish - decrease count of threads
+			lockDec(owner.curThreadCount);
+			//executor can be used again after it has been stopped - check whether there is action arrived meanwhile
+			const IExecAction * action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
+			if (action == 0) break;
+			lockInc(owner.curThreadCount);
+			runAction(action);
+			continue;
+		}
 		//retrieve action - make action unaccessible for others
 		const IExecAction * action = lockExchangePtr<const IExecAction >(&owner.curAction,(IExecAction *)0);
 		//is there action?
-- 
2.43.0


From bcbbc956f21ecaa60f2d10f5f6ae8aa8114c7a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 114/149] fix: ParallelExecutor counted a new thread after the
 thread could have already finished

---
 src/lightspeed/base/actions/parallelExecutor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index 7d70085..6523ac6 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -383,9 +383,15 @@ natural ParallelExecutor::getIdleTimeout() const {
 void ParallelExecutor::startNewThread() {
 	if ((natural)curThreadCount < maxThreads) {
 		AllocPointer<Worker> w ( new Worker(*this,topWorker));
-		w->start();
-		topWorker = w.detach();
+		//count the thread before it can take an action or finish
 		lockInc(curThreadCount);
+		try {
+			w->start();
+		} catch (...) {
+			lockDec(curThreadCount);
+			throw;
+		}
+		topWorker = w.detach();
 	}
 }
 
-- 
2.43.0


From 5e1b00907d211a28b5b9b0e1ca8b2bbf072fa896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:59 +0000
Subject: [PATCH 115/149] fix: ParallelExecutor used a destroyed action when a
 thread could not be started

---
 src/lightspeed/base/actions/parallelExecutor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lightspeed/base/actions/parallelExecutor.cpp b/src/lightspeed/base/actions/parallelExecutor.cpp
index 6523ac6..ff7faa7 100644
--- a/src/lightspeed/base/actions/parallelExecutor.cpp
+++ b/src/lightspeed/base/actions/parallelExecutor.cpp
@@ -140,6 +140,7 @@ void ParallelExecutor::execute(const IExecAction &action) {
 	}
 
 	bool cont = true;
+	try {
 	//until notifier is signaled
 	while (cont) {
 		//whether current wait expired
@@ -185,6 +186,17 @@ void ParallelExecutor::execute(const IExecAction &action) {
 		curTime = SysTime::now();
 
 	}
+	} catch (TimeoutException &) {
+		throw;
+	} catch (...) {
+		//thread cannot be started - don't leave the action (it is on the caller's stack) published
+		if (lockExchangePtr<const IExecAction>(&curAction,0) != 0) {
+			writeReleasePtr<ISleepingObject>(&callerNtf,0);
+			throw;
+		}
+		//another thread took it meanwhile
+		ntf.wait(Timeout(naturalNull),false);
+	}
 	//message delivered, release notifier
 	writeReleasePtr<ISleepingObject>(&callerNtf,0);
 
-- 
2.43.0


From 2b7f61b786fae3153091c297989164b6c5589522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:34 +0000
Subject: [PATCH 116/149] fix: Dispatcher carried out only the first action

---
 src/lightspeed/mt/dispatcher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index 68610df..64d38e9 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -103,7 +103,9 @@ namespace LightSpeed {
 	{
 		if (queue.empty()) return 0;
 		AllocPointer<AbstractAction> &aa = queue.top();
-		return aa.detach();
+		AbstractAction *res = aa.detach();
+		queue.pop();
+		return res;
 	}
 
 	void Dispatcher::rejectQueue()
-- 
2.43.0


From 288b9720502726cc2258676ebb34eb7e22144038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 117/149] fix: Scheduler released a lock which it did not hold
 and resolved a promise removed from its queue

---
 src/lightspeed/mt/scheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/scheduler.cpp b/src/lightspeed/mt/scheduler.cpp
index 462d170..84fc2bb 100644
--- a/src/lightspeed/mt/scheduler.cpp
+++ b/src/lightspeed/mt/scheduler.cpp
@@ -23,6 +23,9 @@ namespace LightSpeed {
 
 	LightSpeed::Timeout Scheduler::onIdle(natural)
 	{
+		Synchronized<FastLock> _(lock);
+		//notification could be consumed by waiting for the lock
+		if (needstop || !queue.empty()) return Timeout(0);
 		if (pqheap.empty()) return nil;
 
 		SysTime curTime = SysTime::now();
@@ -32,7 +35,7 @@ namespace LightSpeed {
 			pqheap.pop();
 			pqueue.trunc(1);
 			SyncReleased<FastLock> _(lock);
-			itm.promise.resolve();
+			p.resolve();
 			return Timeout(0);
 		}
 		else {
-- 
2.43.0


From c2adabac00168166910f130f2b029132ca9df69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 118/149] fix: Dispatcher was used by its thread after it had
 been destroyed, actions left in its queue were released to a destroyed
 allocator

---
 src/lightspeed/mt/dispatcher.cpp | 12 +++++++++++-
 src/lightspeed/mt/scheduler.cpp  |  7 +++++++
 src/lightspeed/mt/scheduler.h    |  1 +
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/mt/dispatcher.cpp b/src/lightspeed/mt/dispatcher.cpp
index 64d38e9..478ffc3 100644
--- a/src/lightspeed/mt/dispatcher.cpp
+++ b/src/lightspeed/mt/dispatcher.cpp
@@ -14,6 +14,10 @@ namespace LightSpeed {
 	Dispatcher::~Dispatcher()
 	{
 		join();
+		//thread which has just left run() can still hold the lock
+		Synchronized<FastLock> _(lock);
+		//actions are allocated by the allocator, which is destroyed before the queue
+		rejectQueue();
 	}
 
 	void Dispatcher::dispatch(AbstractAction *action)
@@ -72,6 +76,7 @@ namespace LightSpeed {
 
 	void Dispatcher::quit()
 	{
+		Synchronized<FastLock> _(lock);
 		needstop = true;
 		onNewMessage();
 	}
@@ -112,7 +117,12 @@ namespace LightSpeed {
 	{
 		AllocPointer<AbstractAction> aa(getNextAction());
 		while (aa != nil) {
-			aa->reject();
+			{
+				//rejected action can use the dispatcher
+				SyncReleased<FastLock> _(lock);
+				aa->reject();
+				aa = nil;
+			}
 			aa = getNextAction();
 		}
 	}
diff --git a/src/lightspeed/mt/scheduler.cpp b/src/lightspeed/mt/scheduler.cpp
index 84fc2bb..9664cf7 100644
--- a/src/lightspeed/mt/scheduler.cpp
+++ b/src/lightspeed/mt/scheduler.cpp
@@ -12,6 +12,13 @@ namespace LightSpeed {
 
 	}
 
+	Scheduler::~Scheduler()
+	{
+		//dispatcher must not call onIdle after this part of the object is destroyed
+		join();
+		Synchronized<FastLock> _(lock);
+	}
+
 	void Scheduler::schedule(const Timeout &tm, const PromiseV &promise)
 	{
 		if (tm.isInfinite()) throw InvalidParamException(THISLOCATION, 0, "Cannot use infinity time");
diff --git a/src/lightspeed/mt/scheduler.h b/src/lightspeed/mt/scheduler.h
index 55e32c2..4ba9899 100644
--- a/src/lightspeed/mt/scheduler.h
+++ b/src/lightspeed/mt/scheduler.h
@@ -27,6 +27,7 @@ namespace LightSpeed {
 
 		///Create scheduler
 		Scheduler();
+		~Scheduler();
 		///scheduler an event
 		/**
 		  @param tm specifies time when the event will be scheduled. The Timeout object is used, so
-- 
2.43.0


From 29054d04c219513ddccda2a7cccba82be386c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:17 +0000
Subject: [PATCH 119/149] fix: IDispatcher could not be used to resolve a
 promise by a value

---
 src/lightspeed/base/actions/idispatcher.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightspeed/base/actions/idispatcher.tcc b/src/lightspeed/base/actions/idispatcher.tcc
index e4e9ad7..5cd14f5 100644
--- a/src/lightspeed/base/actions/idispatcher.tcc
+++ b/src/lightspeed/base/actions/idispatcher.tcc
@@ -133,10 +133,10 @@ namespace LightSpeed {
 		class A : public AbstractAction {
 		public:
 
-			A(const Promise<void> &promise, const T &value) :promise(promise),value(value) {}
+			A(const Promise<T> &promise, const T &value) :promise(promise),value(value) {}
 			virtual void run() throw()
 			{
-				promise.resolve();
+				promise.resolve(value);
 			}
 
 			virtual void reject() throw()
@@ -144,7 +144,7 @@ namespace LightSpeed {
 				promise.reject(CanceledException(THISLOCATION));
 			}
 		protected:
-			typename Future<T>::Promise promise;
+			Promise<T> promise;
 			T value;
 		};
 		AbstractAction *aa = new(getActionAllocator()) A(promise,value);
-- 
2.43.0


From 5b1cb3b85e22a10dcc1d78eaa3648a3f5a78dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 120/149] fix: IOBuffer wrote over data which had not been read
 yet when its buffer was full

---
 src/lightspeed/base/streams/fileiobuff.h   | 2 +-
 src/lightspeed/base/streams/fileiobuff.tcc | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.h b/src/lightspeed/base/streams/fileiobuff.h
index 14281f6..035790e 100644
--- a/src/lightspeed/base/streams/fileiobuff.h
+++ b/src/lightspeed/base/streams/fileiobuff.h
@@ -178,7 +178,7 @@ namespace LightSpeed {
 	virtual natural getOutputLength() const { return wrpos - wrbeg; }
 	virtual natural getOutputCapacity() const { return bufferSize;  }
 	virtual natural getOutputAvailable() const {
-		natural s = ((wrbeg < rdpos && rdpos < rdend) ? rdpos : bufferSize) - wrpos;
+		natural s = ((wrbeg <= rdpos && rdpos < rdend) ? rdpos : bufferSize) - wrpos;
 		return s;
 	}
 	virtual void discardOutput(natural count) {
diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 34ceb51..a0ce9ad 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -81,7 +81,7 @@ void IOBuffer<bufferSize>::intFetch() const {
 
 template<natural bufferSize>
 natural IOBuffer<bufferSize>::getWriteSpace() const {
-	return  ((wrbeg < rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
+	return  ((wrbeg <= rdpos && rdpos < rdend)?rdpos:bufferSize) - wrpos;
 }
 
 template<natural bufferSize>
@@ -140,6 +140,8 @@ natural IOBuffer<bufferSize>::fetch() const {
 		//update pointers
 		rdpos = 0;
 		rdend = rdpos + datasz;
+		//the source can throw an exception
+		adjustWritePos();
 	}
 	//remaining space
 	natural remain = bufferSize - rdend;
-- 
2.43.0


From f2166e349c4923b597a735ee0f835343cd3000a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 121/149] fix: IOBuffer::putBack refused a byte just read and
 could overwrite data waiting to be written

---
 src/lightspeed/base/streams/fileiobuff.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index a0ce9ad..2a234a0 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -294,9 +294,9 @@ void IOBuffer<bufferSize>::putBack(ConstBin seq) {
 	if (bufferSize - sz < seq.length()) throwWriteIteratorNoSpace(THISLOCATION, typeid(*this));
 
 	//there is space before the read buffer
-	if (rdpos > seq.length()) {
+	if (rdpos >= seq.length()) {
 		//if there is write buffer and no space to put seq
-		if (wrpos < rdpos && wrpos+seq.length() > rdpos) {
+		if (wrbeg < rdpos && wrpos+seq.length() > rdpos) {
 			//flush to output
 			intFlush();
 		}
-- 
2.43.0


From 268df741f6458d1718a3f0a0c561a811d4ca448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 122/149] fix: IOBuffer::peek returned a negative count of
 bytes and asked a missing source

---
 src/lightspeed/base/streams/fileiobuff.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/streams/fileiobuff.tcc b/src/lightspeed/base/streams/fileiobuff.tcc
index 2a234a0..188f6cc 100644
--- a/src/lightspeed/base/streams/fileiobuff.tcc
+++ b/src/lightspeed/base/streams/fileiobuff.tcc
@@ -162,14 +162,14 @@ template<natural bufferSize>
 natural IOBuffer<bufferSize>::peek(void *buffer, natural size) const {
 	//we can now support peek buffer expansion
 	if (size == 0) {
-		if (canRead()) return rdpos - rdend;
+		if (canRead()) return rdend - rdpos;
 		else return 0;
 	}
 
 	//calculate available data
 	natural s = rdend - rdpos;
 	//if less than required data are available
-	while (s < size && (s == 0 || targetIn->dataReady())) {
+	while (s < size && (s == 0 || (!eof && targetIn->dataReady()))) {
 		//try to fetch more
 		natural k = fetch();
 		//in case of unsucess, break cycle
-- 
2.43.0


From b087fe6fdf414d21438fa4d385ad9c9c7ec870b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:42 +0000
Subject: [PATCH 123/149] fix: MemFile had undefined append mode, MemFileStr
 read behind its text

---
 src/lightspeed/base/streams/memfile.cpp | 2 ++
 src/lightspeed/base/streams/memfile.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/streams/memfile.cpp b/src/lightspeed/base/streams/memfile.cpp
index 7985dd7..7499774 100644
--- a/src/lightspeed/base/streams/memfile.cpp
+++ b/src/lightspeed/base/streams/memfile.cpp
@@ -15,6 +15,7 @@ template class MemFile<>;
 
 
 natural MemFileStr::read(void* buffer, natural size) {
+	if (pos >= text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
@@ -27,6 +28,7 @@ natural MemFileStr::write(const void* , natural ) {
 }
 
 natural MemFileStr::peek(void* buffer, natural size) const {
+	if (pos >= text.length()) return 0;
 	natural remain = text.length() - pos;
 	if (remain < size) size = remain;
 	memcpy(buffer,text.data()+pos,size);
diff --git a/src/lightspeed/base/streams/memfile.h b/src/lightspeed/base/streams/memfile.h
index 9e429ec..47a5249 100644
--- a/src/lightspeed/base/streams/memfile.h
+++ b/src/lightspeed/base/streams/memfile.h
@@ -35,7 +35,7 @@ namespace LightSpeed {
         virtual natural dataReady() const {return true;}
         virtual void closeOutput() {readOnly = true;}
 
-        MemFile():pos(0),readOnly(false) {}
+        MemFile():pos(0),appendMode(false),readOnly(false) {}
                 
 
         bool empty() const {return filebuffer.empty();}
-- 
2.43.0


From 25e562aaf71a35e3ce3349767d204db8ce73ac68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 124/149] fix: opened files ignored deleteOnClose and did not
 know their access mode

---
 src/lightspeed/base/linux/fileio.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index c5c1041..9dfd2fd 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -276,7 +276,7 @@ namespace LightSpeed {
     public:
     	FileDescriptorCommitOnClose(FileDescriptor *originDesc, String targetName)
     		:FileDescriptor(originDesc->fd, originDesc->name,false,
-    				originDesc->maskWrite,originDesc->maskRead)
+    				originDesc->maskRead,originDesc->maskWrite)
     		,targetFile(targetName)
     	{
     		originDesc->fd = -1;
@@ -309,7 +309,8 @@ namespace LightSpeed {
     	using namespace OpenFlags;
 
 
-        bool deleteOnClose = false;
+        bool removeOnClose = (flags & deleteOnClose) != 0;
+        int openAccess = openFlags;
         StringA cname =String::getUtf8(ofn);
         if (cname.length() > 4 && cname.head(4) == ConstStrA("#fd:")) {
         	int fx;
@@ -322,7 +323,7 @@ namespace LightSpeed {
         			return new FileDescriptor(fx,cname,false,r == '-', w == '-');
         	}
         }
-    	if ((flags & commitOnClose) && (openFlags == O_WRONLY)) {
+    	if ((flags & commitOnClose) && (openAccess == O_WRONLY)) {
     		String tmpname = ofn+ConstStrW(L".new");
     		FileDescriptorSeq *f = safeOpenFile(tmpname,openFlags,(flags & ~commitOnClose & ~deleteOnClose) | truncate | create);
     		return new FileDescriptorCommitOnClose(
@@ -337,7 +338,6 @@ namespace LightSpeed {
 
     	int createFlags =  S_IRUSR|S_IWUSR|S_IWGRP|S_IRGRP|S_IWOTH|S_IROTH;
         if (flags & writeThrough) openFlags|=O_SYNC;
-        if (flags & deleteOnClose) deleteOnClose = true;
         if (flags & append) openFlags|=O_APPEND;
         if (flags & create) {
         	openFlags|=O_CREAT;
@@ -359,8 +359,8 @@ namespace LightSpeed {
         fcntl(fd, F_SETFD, FD_CLOEXEC);
 #endif
 #endif
-        return new FileDescriptor(fd,cname,deleteOnClose,
-        		openFlags == O_WRONLY,openFlags == O_RDONLY);
+        return new FileDescriptor(fd,cname,removeOnClose,
+        		openAccess == O_WRONLY,openAccess == O_RDONLY);
         
     }
     
-- 
2.43.0


From 6e8d96517c061ac87b13c9f632e31222f0a0c877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 125/149] fix: failures of flushing and closing a file were
 ignored, commitOnClose replaced the target by an incomplete file

---
 src/lightspeed/base/linux/fileio.cpp | 32 ++++++++++++++++++----------
 src/lightspeed/base/linux/fileio.h   |  1 +
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 9dfd2fd..b80a443 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -171,11 +171,8 @@ namespace LightSpeed {
 		virtual void closeOutput()  {
 			if (!maskWrite) {
 				flush();
-				if (fd > 2 && maskRead) {
-					close(fd);
-					fd = -1;
-				}
 				maskWrite = true;
+				if (fd > 2 && maskRead) closeFd();
 			}
 		}
 
@@ -206,11 +203,8 @@ namespace LightSpeed {
 	void FileDescriptor::closeOutput()  {
 		if (!maskWrite) {
 			flush();
-			if (fd > 2 && maskRead) {
-				close(fd);
-				fd = -1;
-			}
 			maskWrite = true;
+			if (fd > 2 && maskRead) closeFd();
 		}
 	}
 
@@ -287,8 +281,8 @@ namespace LightSpeed {
     		if (fd!=-1) {
     			flush();
     			IFileIOServices &svcs = IFileIOServices::getIOServices();
-    			close(fd);
-    			fd = -1;
+    			maskWrite = true;
+    			closeFd();
 /*    			String oldver = targetFile + ConstStrW(L".bak");
     			if (svcs.canOpenFile(targetFile,IFileIOServices::fileAccessible))
     				svcs.move(targetFile,oldver,true);*/
@@ -662,7 +656,23 @@ namespace LightSpeed {
 
 
 	void FileDescriptorSeq::flush() {
-		::fdatasync(fd);
+		if (fd < 0) return;
+		rep:
+		if (::fdatasync(fd) == -1) {
+			int err = errno;
+			if (err == EINTR)
+				goto rep;
+			//other errors mean, that the descriptor cannot be synchronized (pipes, terminals...)
+			if (err == EIO || err == ENOSPC || err == EDQUOT)
+				throw FileIOError(THISLOCATION, err, name);
+		}
+	}
+
+	void FileDescriptorSeq::closeFd() {
+		int f = fd;
+		fd = -1;
+		if (f > 2 && close(f) == -1 && errno != EINTR)
+			throw FileIOError(THISLOCATION, errno, name);
 	}
 
 	class DirState: public IFolderIterator {
diff --git a/src/lightspeed/base/linux/fileio.h b/src/lightspeed/base/linux/fileio.h
index b7f8287..21c9ee1 100644
--- a/src/lightspeed/base/linux/fileio.h
+++ b/src/lightspeed/base/linux/fileio.h
@@ -30,6 +30,7 @@ namespace LightSpeed
     	virtual natural dataReady() const {return 0;}
 
     	bool lock(int flags, natural timeout);
+    	void closeFd();
 
     	virtual size_t getHandle(void *buffer, size_t bufferSize) ;
 
-- 
2.43.0


From c84a927e052ffc5b190d28deec58445472be2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:55 +0000
Subject: [PATCH 126/149] fix: commitOnClose terminated the program when the
 file could not be committed

---
 src/lightspeed/base/linux/fileio.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index b80a443..07fbd2c 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -291,8 +291,11 @@ namespace LightSpeed {
     	}
 
     	~FileDescriptorCommitOnClose() {
-    		if (!std::uncaught_exception())
+    		if (!std::uncaught_exception()) try {
     			closeOutput();
+    		} catch (...) {
+    			//destructor must not throw, use closeOutput() to receive the error
+    		}
     	}
     protected:
     	String targetFile;
-- 
2.43.0


From 52513652d79a532d56367518cd27c244d095e7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:36 +0000
Subject: [PATCH 127/149] fix: copying a file lost data when it was copied to
 itself, in more parts, or when closing failed

---
 src/lightspeed/base/linux/fileio.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 07fbd2c..f28bace 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -922,14 +922,25 @@ namespace LightSpeed {
     	if (ifd == -1) {int e = errno; throw FileIOError(THISLOCATION,e,from);}
     	struct stat st;
     	if (fstat(ifd,&st) == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,from);}
-    	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?O_TRUNC:O_EXCL), st.st_mode);
+    	int ofd = open(t.cStr(),O_WRONLY|O_LARGEFILE|O_CLOEXEC|O_CREAT|(overwrite?0:O_EXCL), st.st_mode);
     	if (ofd == -1) {int e = errno;close(ifd);throw FileIOError(THISLOCATION,e,to);}
 
     	int err = 0;
-    	ssize_t res = sendfile(ofd,ifd,0,st.st_size);
-    	if (res == -1) err = errno;
+    	struct stat ost;
+    	//target is truncated after it is known, that it is not the source
+    	if (fstat(ofd,&ost) == -1) err = errno;
+    	else if (ost.st_dev == st.st_dev && ost.st_ino == st.st_ino) err = EINVAL;
+    	else while (ost.st_size != 0 && !err && ftruncate(ofd,0) == -1) {
+    		if (errno != EINTR) err = errno;
+    	}
+    	//sendfile can transfer less bytes than requested
+    	while (!err) {
+    		ssize_t res = sendfile(ofd,ifd,0,0x7ffff000);
+    		if (res == 0) break;
+    		if (res == -1 && errno != EINTR) err = errno;
+    	}
     	close(ifd);
-    	close(ofd);
+    	if (close(ofd) == -1 && !err && errno != EINTR) err = errno;
 
     	if (err) throw FileCopyException(THISLOCATION, err, from, to);
     }
-- 
2.43.0


From f31d09ee07826600b3c1690501ccbbf653c04723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 128/149] fix: names of entries of a folder with non-ASCII name
 were shifted

---
 src/lightspeed/base/linux/fileio.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index f28bace..78a90f1 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -709,8 +709,14 @@ namespace LightSpeed {
     			,svc(svc) {
     			if (dir == 0) throw FileOpenError(THISLOCATION, errno, name);
     			strcpy(srcpath,name.data());
+    			//path can have less characters than bytes
+    			natural wlen = convert(ConstStrA(srcpath),wsrcpath);
+    			wbuffer = wsrcpath + wlen + 1;
     			srcpath[name.length()] = '/';
-    			this->source = ConstStrW(wsrcpath,name.length());
+    			this->source = ConstStrW(wsrcpath,wlen);
+    			this->hidden = false;
+    			this->link = false;
+    			this->type = unknown;
     		}
 
     		void *operator new(size_t sz,size_t maxpath, size_t dirpathlen) {
@@ -780,13 +786,15 @@ namespace LightSpeed {
     			else type = unknown;
     		}
 
-    		void convert(ConstStrA src, wchar_t *wtrg) {
+    		natural convert(ConstStrA src, wchar_t *wtrg) {
 
+    			natural cnt = 0;
     			Utf8ToWideReader<ConstStrA::Iterator> rd(src.getFwIter());
     			while (rd.hasItems()) {
-    				*wtrg++=rd.getNext();
+    				wtrg[cnt++]=rd.getNext();
     			}
-    			*wtrg = 0;
+    			wtrg[cnt] = 0;
+    			return cnt;
     		}
         	virtual void rewind() {
         		rewinddir(dir);
-- 
2.43.0


From bb94b07be9948585dd066c067940922524355a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 129/149] fix: type of a dangling link was taken from the
 previous entry of the folder, hidden was not set

---
 src/lightspeed/base/linux/fileio.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 78a90f1..eb3977d 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -747,6 +747,7 @@ namespace LightSpeed {
     			convert(ConstStrA(srcpath),wsrcpath);
     			this->entryName = ConstStrW(wbuffer);
     			link = false;
+    			hidden = res->d_name[0] == '.';
     			statLoaded = false;
     			switch (res->d_type) {
     			case DT_REG: type = file; break;
@@ -773,11 +774,18 @@ namespace LightSpeed {
     				if (S_ISLNK(statInfo.st_mode)) {
     					link = true;
     					i = stat64(srcpath,&statInfo);
-        				if (i != 0) throw FileOpenError(THISLOCATION,errno,wsrcpath);
+        				if (i != 0) {
+        					type = unknown;
+        					return;
+        				}
     				}
     			} else {
 					i = stat64(srcpath,&statInfo);
-    				if (i != 0) FileOpenError(THISLOCATION,errno,wsrcpath);
+    				if (i != 0) {
+    					//link to nowhere
+    					type = unknown;
+    					return;
+    				}
     			}
     			if (S_ISREG(statInfo.st_mode)) type = file;
     			else if (S_ISDIR(statInfo.st_mode)) type = directory;
-- 
2.43.0


From d662aaacf1b5f2770e96a6981fde19bd866986f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 130/149] fix: createFolder with parents failed when the folder
 already existed

---
 src/lightspeed/base/linux/fileio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index eb3977d..9954617 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -252,7 +252,7 @@ namespace LightSpeed {
     		throw FolderCreationException(THISLOCATION,e.getErrNo(),String(dirName))
     				<< e;
     	}
-    	if (mkdir(dirName.c_str(),0777) != 0)
+    	if (mkdir(dirName.c_str(),0777) != 0 && errno != EEXIST)
     		throw FolderCreationException(THISLOCATION,errno,String(dirName));
     }
 
@@ -888,6 +888,8 @@ namespace LightSpeed {
     	if (parents) createFolders(fn);
 		if (::mkdir(fn.c_str(),0777) == -1) {
 			int err = errno;
+			struct stat st;
+			if (parents && err == EEXIST && ::stat(fn.c_str(),&st) == 0 && S_ISDIR(st.st_mode)) return;
 			throw FolderCreationException(THISLOCATION,err,folderName);
 		}
     }
-- 
2.43.0


From 7f7feb66e1148d277ba27bc2ec457db29b649f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:33 +0000
Subject: [PATCH 131/149] fix: getAllowedOpenMode of getFileInfo never reported
 reading and writing

---
 src/lightspeed/base/linux/fileio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 9954617..11ca108 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1237,10 +1237,10 @@ namespace LightSpeed {
         		return TimeStamp::fromUnix(statinfo.st_mtim.tv_sec,statinfo.st_mtim.tv_nsec/1000000);
         	}
         	virtual IFileIOServices::FileOpenMode getAllowedOpenMode() const {
-        		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenRead))
-        			return IFileIOServices::fileOpenRead;
         		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenReadWrite))
         			return IFileIOServices::fileOpenReadWrite;
+        		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenRead))
+        			return IFileIOServices::fileOpenRead;
         		if (svc.canOpenFile(fullname,IFileIOServices::fileOpenWrite))
         			return IFileIOServices::fileOpenWrite;
         		return IFileIOServices::fileAccessible;
-- 
2.43.0


From ef0fbec4d710a7e578a3767321604c3abc0985f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:46 +0000
Subject: [PATCH 132/149] fix: entryName and source of getFileInfo referred to
 a destroyed string

---
 src/lightspeed/base/linux/fileio.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 11ca108..27106a7 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1197,13 +1197,15 @@ namespace LightSpeed {
     			:svc(svc),statinfo(statinfo),fullname(pathname) {
 
 
-    			natural k = pathname.findLast('/');
+    			//refer to own copy of the path
+    			ConstStrW path = fullname;
+    			natural k = path.findLast('/');
     			if (k != naturalNull) {
-    				source = pathname.head(k);
-    				entryName = pathname.offset(k+1);
+    				source = path.head(k);
+    				entryName = path.offset(k+1);
     			} else {
     				source = ConstStrW();
-    				entryName=pathname;
+    				entryName=path;
     			}
 
     			if (entryName == ConstStrW(L".") || entryName == ConstStrW(L".."))
-- 
2.43.0


From 75690f1e40c579ab2f1ab840a4f73cd1df9023d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:04 +0000
Subject: [PATCH 133/149] fix: mapFile did not notice that the descriptor
 cannot be duplicated

---
 src/lightspeed/base/linux/fileio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/linux/fileio.cpp b/src/lightspeed/base/linux/fileio.cpp
index 27106a7..8c9b915 100644
--- a/src/lightspeed/base/linux/fileio.cpp
+++ b/src/lightspeed/base/linux/fileio.cpp
@@ -1110,7 +1110,9 @@ namespace LightSpeed {
     		if (ihnd == 0) throw FileMsgException(THISLOCATION,EFAULT,filename,"File cannot be mapped");
     		int fd;
     		ihnd->getHandle(&fd,sizeof(fd));
-    		return new Mapped(dup(fd),filename);
+    		fd = dup(fd);
+    		if (fd == -1) throw FileMsgException(THISLOCATION,errno,filename,"Cannot duplicate the descriptor");
+    		return new Mapped(fd,filename);
 
 
     	} catch (Exception &e) {
-- 
2.43.0


From 7f1e1687cd577898c528a1774087c2c4b69b536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 134/149] fix: ResourcePool must not create more resources than
 the limit

---
 .../base/containers/resourcePool.cpp          | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 27dd54e..8305082 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -74,16 +74,25 @@ AbstractResource *AbstractResourcePool::acquire() {
 		if (pool == 0) {
 			//if still space for new resource
 			if (readAcquire(&curLimit) > 0) {
-				//unlock queue - don't need it anymore
-				SyncReleased<FastLock> __(SyncPt::queueLock);
-				//create new resource
-				AbstractResource *a = createResource();
-				//set resource timeout
-				a->setTimeout(resTimeout);
-				//decrease limit
+				//decrease limit before the queue is unlocked, nobody else can use this space
 				lockDec(curLimit);
-				//this is new resource
-				return a;
+				try {
+					//unlock queue - don't need it anymore
+					SyncReleased<FastLock> __(SyncPt::queueLock);
+					//create new resource
+					AbstractResource *a = createResource();
+					//set resource timeout
+					a->setTimeout(resTimeout);
+					//this is new resource
+					return a;
+				} catch (...) {
+					//there is no resource, return the space (queue is locked here)
+					lockInc(curLimit);
+					//let other thread use it
+					SyncPt::Slot *s = SyncPt::popSlot_lk();
+					if (s) SyncPt::notifySlot_lk(s);
+					throw;
+				}
 			}
 			//install slot
 			SyncPt::Slot s;
-- 
2.43.0


From bae62d0398930ef6066b71201db4f0c2f3938b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 135/149] fix: AbstractResourcePool::setLimit sets the limit
 and wakes waiting threads

---
 .../base/containers/resourcePool.cpp           | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 8305082..5217fed 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -113,6 +113,8 @@ AbstractResource *AbstractResourcePool::acquire() {
 				//retrieve resource from the slot
 				out = (AbstractResource *)s.payload;
 			}
+			//no resource, only space for a new one
+			if (out == 0) continue;
 
 		} else {
 			//in case that pool is not empty
@@ -145,12 +147,20 @@ AbstractResource *AbstractResourcePool::acquire() {
 }
 
 void AbstractResourcePool::setLimit(natural newLimit) {
+	Synchronized<FastLock> _(SyncPt::queueLock);
 	if (newLimit > limit) {
-		lockExchangeAdd(curLimit,newLimit - limit);
-		newLimit = limit;
+		natural diff = newLimit - limit;
+		lockExchangeAdd(curLimit,diff);
+		limit = newLimit;
+		//there is space for waiting threads
+		while (diff-- > 0) {
+			SyncPt::Slot *s = SyncPt::popSlot_lk();
+			if (s == 0) break;
+			SyncPt::notifySlot_lk(s);
+		}
 	} else if (newLimit < limit) {
-		lockExchangeSub(curLimit,limit - curLimit);
-		newLimit = limit;
+		lockExchangeSub(curLimit,limit - newLimit);
+		limit = newLimit;
 	}
 }
 
-- 
2.43.0


From 9b237960b7c5b3b0d300acccbeff5c01f1c4a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 136/149] fix: AbstractResourcePool::release checks the limit
 under the lock

---
 src/lightspeed/base/containers/resourcePool.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 5217fed..28eadb4 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -173,15 +173,17 @@ natural AbstractResourcePool::getCurLimit() const {
 }
 
 void AbstractResourcePool::release(AbstractResource *a) {
+	//lock queue
+	Synchronized<FastLock> _(SyncPt::queueLock);
 	//check limit, if it is negative, do not store resource
 	if (readAcquire(&curLimit) < 0) {
-		//delete resource
-		delete a;
 		//increase limit
 		lockInc(curLimit);
+		//unlock queue
+		SyncReleased<FastLock> __(SyncPt::queueLock);
+		//delete resource
+		delete a;
 	} else {
-		//lock queue
-		Synchronized<FastLock> _(SyncPt::queueLock);
 		//pop slot
 		SyncPt::Slot *s = SyncPt::popSlot_lk();
 		//we poped slot?
-- 
2.43.0


From ff8fc8046bd25c679d1ca8ebf010b3f35730e905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:55 +0000
Subject: [PATCH 137/149] fix: AbstractResourcePool::setLimit releases idle
 resources over the new limit

---
 .../base/containers/resourcePool.cpp           | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lightspeed/base/containers/resourcePool.cpp b/src/lightspeed/base/containers/resourcePool.cpp
index 28eadb4..f5d3fe3 100644
--- a/src/lightspeed/base/containers/resourcePool.cpp
+++ b/src/lightspeed/base/containers/resourcePool.cpp
@@ -147,6 +147,9 @@ AbstractResource *AbstractResourcePool::acquire() {
 }
 
 void AbstractResourcePool::setLimit(natural newLimit) {
+	//resources over the limit
+	AbstractResource *over = 0;
+	{
 	Synchronized<FastLock> _(SyncPt::queueLock);
 	if (newLimit > limit) {
 		natural diff = newLimit - limit;
@@ -161,6 +164,21 @@ void AbstractResourcePool::setLimit(natural newLimit) {
 	} else if (newLimit < limit) {
 		lockExchangeSub(curLimit,limit - newLimit);
 		limit = newLimit;
+		//nobody uses resources in the pool, so they are removed first
+		while (pool != 0 && readAcquire(&curLimit) < 0) {
+			AbstractResource *x = pool;
+			pool = pool->next;
+			x->next = over;
+			over = x;
+			lockInc(curLimit);
+		}
+	}
+	}
+	//delete them while the queue is unlocked
+	while (over) {
+		AbstractResource *x = over;
+		over = over->next;
+		delete x;
 	}
 }
 
-- 
2.43.0


From 50c4a88719d434f0aa3c30a3339bc0d097ea25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 138/149] fix: Variant::isolate stored a pointer instead of the
 copied value

---
 src/lightspeed/base/containers/variant.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/variant.cpp b/src/lightspeed/base/containers/variant.cpp
index 64618df..24118c6 100644
--- a/src/lightspeed/base/containers/variant.cpp
+++ b/src/lightspeed/base/containers/variant.cpp
@@ -23,7 +23,7 @@ bool Variant::isNull() const {
 
 Variant Variant::isolate() const {
 	if (dataPtr == null) return Variant();
-	else return Variant(dataPtr->clone());
+	else return Variant(PData(dataPtr->clone()));
 }
 
 bool Variant::operator ==(NullType ) const {
-- 
2.43.0


From 2e6e8a337bee72166ec3d43fce8683d238858d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:36 +0000
Subject: [PATCH 139/149] fix: typo in the move assignment of Optional

---
 src/lightspeed/base/containers/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/optional.h b/src/lightspeed/base/containers/optional.h
index 72ed52d..f94b9e0 100644
--- a/src/lightspeed/base/containers/optional.h
+++ b/src/lightspeed/base/containers/optional.h
@@ -140,7 +140,7 @@ namespace LightSpeed {
 					destruct();
 				}
 				if (other._x) {
-					constuct(std::move(other.get()));
+					construct(std::move(other.get()));
 					arm();
 					other = nil;
 				}
-- 
2.43.0


From 1fc043ccdeee53a14f4dfc4d79c32fde316ecc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 140/149] fix: default constructor of FilePath left a member
 uninitialised

---
 src/lightspeed/utils/FilePath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 4cd8963..4568d72 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -234,7 +234,7 @@ template<const FilePathConfig *config>
 class FilePathT: public String {
 public:
 
-	FilePathT() {}
+	FilePathT():pathFileSep(naturalNull) {}
 	explicit FilePathT(String absolutePath);
 	explicit FilePathT(String absolutePath, bool isDirectory);
 
-- 
2.43.0


From 7097852c707424b105b90acc8bcb966b20a18b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:20 +0000
Subject: [PATCH 141/149] fix: FilePath doubled the separator when parent
 removed a whole part

---
 src/lightspeed/utils/FilePath.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 4568d72..6c12aea 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -75,6 +75,8 @@ struct FilePathChain<ConstStrW, T, config> {
 			wr.blockWrite(p);
 		} else {
 			t.writePath(wr,skipParents);
+			//nothing has left of this part, so there is nothing to separate
+			if (p.empty() && !h.empty()) return;
 			wr.blockWrite(config->dirSeparator);
 			wr.blockWrite(p);
 		}
@@ -94,7 +96,9 @@ struct FilePathChain<ConstStrW, T, config> {
 			ConstStrW drive = t.getDrive();
 			return p.length() + config->rootSeparator.length() + drive.length();
 		} else {
-			return t.getPathLength(skipParents) + config->dirSeparator.length() + p.length();
+			natural cnt = t.getPathLength(skipParents);
+			if (p.empty() && !h.empty()) return cnt;
+			return cnt + config->dirSeparator.length() + p.length();
 		}
 	}
 	ConstStrW getDrive() const {
-- 
2.43.0


From 39fcbb92446e0a5e860c41855d382027a7f916c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 142/149] fix: FilePath took a file whose name ends with two
 dots for a folder

---
 src/lightspeed/utils/FilePath.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/utils/FilePath.h b/src/lightspeed/utils/FilePath.h
index 6c12aea..f451fd5 100644
--- a/src/lightspeed/utils/FilePath.h
+++ b/src/lightspeed/utils/FilePath.h
@@ -353,11 +353,13 @@ FilePathT<config> &FilePathT<config>::operator=(const FilePathT& absolutePath) {
 
 template<const FilePathConfig* config>
 inline ConstStrW FilePathT<config>::getPath() const {
-	if (tail(config->parentDir.length()) == config->parentDir) return *this;
 	if (pathFileSep == naturalNull) {
 		pathFileSep = this->findLast(config->dirSeparator);
-		if (pathFileSep == naturalNull) return ConstStrW();
 	}
+	natural fname = pathFileSep == naturalNull ? 0 : pathFileSep + config->dirSeparator.length();
+	//reference to the parent is a folder, but not any name which ends by the same characters
+	if (ConstStrW(this->offset(fname)) == config->parentDir) return *this;
+	if (pathFileSep == naturalNull) return ConstStrW();
 	return this->head(pathFileSep);
 }
 
-- 
2.43.0


From ebcfff90ff661d0439c3d2116c75e6887d566301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:29 +0000
Subject: [PATCH 143/149] fix: CmdLineIterator read behind an empty argument

---
 src/lightspeed/base/framework/cmdLineIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/framework/cmdLineIterator.cpp b/src/lightspeed/base/framework/cmdLineIterator.cpp
index 93b1c47..ade1203 100644
--- a/src/lightspeed/base/framework/cmdLineIterator.cpp
+++ b/src/lightspeed/base/framework/cmdLineIterator.cpp
@@ -34,7 +34,7 @@ const CmdLineItem & CmdLineIterator::peek() const
 	ConstStrW a = args[argPos];
 	if (charPos == 0) {
 		natural len = a.length();
-		if (a[0] == '-') {
+		if (len > 0 && a[0] == '-') {
 			if (len>1) {
 				if (a[1] == '-') {
 					tmp = CmdLineItem(CmdLineItem::longSwitch,a.offset(2));
-- 
2.43.0


From e78344f4196511ae94807da2a324a7ed8367b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:39 +0000
Subject: [PATCH 144/149] fix: copy constructor of AutoArray leaked copied
 items when a copy failed

---
 src/lightspeed/base/containers/autoArray.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/autoArray.tcc b/src/lightspeed/base/containers/autoArray.tcc
index 3e092c3..9586c4f 100644
--- a/src/lightspeed/base/containers/autoArray.tcc
+++ b/src/lightspeed/base/containers/autoArray.tcc
@@ -234,7 +234,13 @@ void AutoArrayT<T,Alloc>::unreserveAt(natural pos, natural count) {
 template<typename T, typename Alloc>
 AutoArrayT<T,Alloc>::AutoArrayT(const AutoArrayT &arr)
 			:allocBk(arr.allocBk,arr.usedSz),usedSz(0) {
-    append(arr);
+	try {
+		append(arr);
+	} catch (...) {
+		//destructor will not be called
+		clear();
+		throw;
+	}
 }
 
 template<typename T, typename Alloc>
-- 
2.43.0


From 343646f6f001d12ecbfcfbdfb1f2ad9959143237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 145/149] fix: Deque::pushBack broke an empty deque when a copy
 failed

---
 src/lightspeed/base/containers/deque.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index c347574..f8cfc55 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -90,9 +90,9 @@ namespace LightSpeed {
 	{
 		if (isFull()) tryExpand();
 		natural memSz = memBlock.getSize();
-		if (head == 0) head = memSz;
 		natural at = (tail + memSz - 1) % memSz;
 		val.construct(memBlock.getBase() + at);
+		if (head == 0) head = memSz;
 		tail = at;
 
 	}
-- 
2.43.0


From 30facc175a6465bf5069c58c5f741cd97fbd7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 146/149] fix: copy constructor of Deque leaked copied items
 when a copy failed

---
 src/lightspeed/base/containers/deque.tcc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/deque.tcc b/src/lightspeed/base/containers/deque.tcc
index f8cfc55..b6e1829 100644
--- a/src/lightspeed/base/containers/deque.tcc
+++ b/src/lightspeed/base/containers/deque.tcc
@@ -29,7 +29,13 @@ namespace LightSpeed {
 		:Super(other), memBlock(other.memBlock,other.length()), head(0), tail(0)
 	{
 		natural cnt = other.length();
-		for (natural i = 0; i < cnt; i++) pushFront(other.at(i));
+		try {
+			for (natural i = 0; i < cnt; i++) pushFront(other.at(i));
+		} catch (...) {
+			//destructor will not be called
+			clear();
+			throw;
+		}
 	}
 
 	template<typename T, typename Alloc /*= StdAlloc*/>
-- 
2.43.0


From 830f8797b5325aeeaf96952afe4074e9cf4c0617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 147/149] fix: copy constructor of LinkedList leaked copied
 items when a copy failed

---
 src/lightspeed/base/containers/linkedList.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightspeed/base/containers/linkedList.h b/src/lightspeed/base/containers/linkedList.h
index 0cf4ec7..53bd7a2 100644
--- a/src/lightspeed/base/containers/linkedList.h
+++ b/src/lightspeed/base/containers/linkedList.h
@@ -106,8 +106,14 @@ namespace LightSpeed {
 		 * @param other source instance
 		 */
 		LinkedList(const LinkedList &other):first(0),last(0),fact(other.fact) {
-			for (Iterator i = other.getFwIter();i.hasItems();)
-				add(i.getNext());
+			try {
+				for (Iterator i = other.getFwIter();i.hasItems();)
+					add(i.getNext());
+			} catch (...) {
+				//destructor will not be called
+				clear();
+				throw;
+			}
 		}
 
 		LinkedList(MoveConstruct, LinkedList &other)
-- 
2.43.0


From 0449ef54230c7893c56392ca2433b9aeea853fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:31 +0000
Subject: [PATCH 148/149] fix: copy constructor of AVLTree leaked copied items
 when a copy failed

---
 src/lightspeed/base/containers/avltree.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightspeed/base/containers/avltree.h b/src/lightspeed/base/containers/avltree.h
index 8d9daab..1c92d9a 100644
--- a/src/lightspeed/base/containers/avltree.h
+++ b/src/lightspeed/base/containers/avltree.h
@@ -124,7 +124,13 @@ namespace LightSpeed {
 			 allocFactory(other.allocFactory),
 			 cmpOper(other.cmpOper),
 			 count(0) {
-			insert(other);
+			try {
+				insert(other);
+			} catch (...) {
+				//destructor will not be called
+				clear();
+				throw;
+			}
 		}
 
 		AVLTree &operator=(const AVLTree &other) {
-- 
2.43.0


From b1d1edf731ba0dd8ad53bfe30536b5f45edfca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:33 +0000
Subject: [PATCH 149/149] fix: blockCopy always returned zero instead of count
 of the copied items

---
 src/lightspeed/base/iter/iterator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightspeed/base/iter/iterator.h b/src/lightspeed/base/iter/iterator.h
index 59c249f..4ead980 100644
--- a/src/lightspeed/base/iter/iterator.h
+++ b/src/lightspeed/base/iter/iterator.h
@@ -551,6 +551,7 @@ namespace LightSpeed
 				natural rd = input.blockRead(buffer.head(toread).ref(),false);
 				if (rd == 0) return count;
 				this->_invoke().blockWrite(buffer.head(rd),true);
+				count += rd;
 				if (limit != naturalNull) limit-=rd;
 			}
 			return count;
-- 
2.43.0

