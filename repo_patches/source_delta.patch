From c1b6ebea6806f04f9e8a92b146e9a8e1f1e2a3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 001/181] fix: String::indexOf(String) must not compare past
 the end of the string

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..fca59ec 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -368,7 +368,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a < mStrLength && a <= mStrLength - str.mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
-- 
2.43.0


From de5bbc097109f002207e763db66e3076ac4ab023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 002/181] fix: String::replace with an empty search text never
 ended

---
 src/core/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index fca59ec..369c95c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -444,6 +444,9 @@ String String::replace(Char oldChar, Char newChar) const
 
 String String::replace(const String& oldStr, const String& newStr)const
 {
+   // An empty text cannot be replaced
+   if(oldStr.size() == 0)return *this;
+
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
    if(pos2 < 0)return *this;
-- 
2.43.0


From 80441a0e47959059b965dd783dfe1e1ae439cfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 003/181] fix: String assignment kept the cached hash of the
 overwritten content

---
 src/core/String.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 369c95c..5399a6c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1242,6 +1242,7 @@ namespace jm
          mArrLength = another.mArrLength;
          mValue = new Char[mArrLength];
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
+         mHash = another.mHash;
       }
 
       return *this;
-- 
2.43.0


From e2dcf80f041794b844bafd2143fc1bae1e1889c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 004/181] fix: toLowerCase, toUpperCase, replace and reverse
 returned the source's cached hash

---
 src/core/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 5399a6c..2928579 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -309,6 +309,7 @@ String String::toLowerCase() const
    {
       ret.mValue[a] = ret.mValue[a].toLowerCase();;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -321,6 +322,7 @@ String String::toUpperCase() const
    {
       ret.mValue[a] = ret.mValue[a].toUpperCase();
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -438,6 +440,7 @@ String String::replace(Char oldChar, Char newChar) const
    {
       if(ret.mValue[a] == oldChar)ret.mValue[a] = newChar;
    }
+   ret.mHash = 0;
 
    return ret;
 }
@@ -486,6 +489,7 @@ String String::reverse() const
       ret.mValue[last] = tmp;
       last--;
    }
+   ret.mHash = 0;
 
    return ret;
 }
-- 
2.43.0


From 1b77ee1aa54e7851496ac375f5d3e47e156c8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 005/181] fix: String::hashCode returned another value on the
 second call when the hash exceeds 31 bits

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2928579..4cc7847 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -286,7 +286,7 @@ bool String::atIsIgnoreCase(int64 position, const String& another)
 
 int64 String::hashCode()
 {
-   if(mHash != 0)return mHash;
+   if(mHash != 0)return (uint32) mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
@@ -295,7 +295,7 @@ int64 String::hashCode()
 
 int64 String::constHashCode() const
 {
-   if(mHash != 0)return mHash;
+   if(mHash != 0)return (uint32) mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    return hash;
-- 
2.43.0


From 8d29ebc458b6bbc91a4d74e23e9ffe10455f9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 006/181] fix: inserting a String into itself produced wrong
 content

---
 src/core/String.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 4cc7847..305740c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -556,6 +556,13 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   // The own content changes while it is inserted
+   if(&str == this)
+   {
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From 1566cf1eecfeda82de713538049a72062f943d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 007/181] fix: String::deleteCharRangeAt with a length beyond
 the end damaged the size

---
 src/core/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 305740c..b011bf0 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -592,6 +592,9 @@ void String::deleteCharRangeAt(int64 index, int64 length)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(length <= 0)return;
+   if(length > mStrLength - index)length = mStrLength - index;
+
    for(int64 a = index ; a < mStrLength - length; a++)
    {
       mValue[a] = mValue[a + length];
-- 
2.43.0


From 547801cd53c78e866fa3bbf1c84eb2be0a31b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 008/181] fix: String::valueOf printed the smallest 64-bit
 integer as '-'

---
 src/core/String.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index b011bf0..23c5edc 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -985,9 +985,10 @@ String String::valueOf(int64 number)
    bool neg = false;
 
    // Check sign
+   uint64 rest = static_cast<uint64>(number);
    if(number < 0)
    {
-      number *= -1;
+      rest = 0 - rest;
       neg = true;
    }
    // Check 0
@@ -997,10 +998,10 @@ String String::valueOf(int64 number)
    }
 
    // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % 10;
-      number = number / 10;
+      int64 digit = rest % 10;
+      rest = rest / 10;
       ret.append(Char(digit + '0'));
    }
    if(neg)ret.append('-');
-- 
2.43.0


From dec7f4e6a3542ec6097b5a88f69e05dec56f3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 009/181] fix: String::arg duplicated a text with a percent
 sign but no placeholder

---
 src/core/String.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 23c5edc..ca20ebc 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -822,7 +822,8 @@ bool String::argIndicies(int64& first, int64& second) const
       }
    }
 
-   return true;
+   // A percent sign without a number is no placeholder
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From dbf2e0d9b567cead68328420aafaba6b2b39b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 010/181] fix: String::arg printed large unsigned numbers as
 negative

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index ca20ebc..b8f87dc 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -907,7 +907,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From 3b3a3bf728d20dab148199d77ddacabd111553ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 011/181] fix: String::atIs and atIsIgnoreCase read outside the
 string for a position out of range

---
 src/core/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index b8f87dc..a3110f6 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -260,7 +260,7 @@ bool String::endsWith(const String& another) const
 
 bool String::atIs(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
@@ -272,7 +272,7 @@ bool String::atIs(int64 position, const String& another)
 
 bool String::atIsIgnoreCase(int64 position, const String& another)
 {
-   if(position + another.mStrLength > mStrLength)return false;
+   if(position < 0 || position > mStrLength - another.mStrLength)return false;
 
    for(int64 a = 0; a < another.mStrLength; a++)
    {
-- 
2.43.0


From 634e3d3ec29bf53907e8a226a7635e3cd80a5d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:21 +0000
Subject: [PATCH 012/181] fix: String::toInt accepted misplaced minus signs,
 texts without digits and overflowing numbers

---
 src/core/String.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index a3110f6..7f1f535 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1127,23 +1127,22 @@ double String::toDouble() const
 int64 String::toInt() const
 {
    int64 val = 0;
-   bool neg = false;
+   bool neg = size() > 0 && charAt(0) == '-';
+   bool valid = size() > (neg ? 1 : 0);
 
-   for(int64 a = 0; a < size(); a++)
+   for(int64 a = neg ? 1 : 0; a < size() && valid; a++)
    {
       jm::Char c = charAt(a);
 
-      if(c.isDigit())
-      {
-         val *= 10;
-         val += c.digitValue();
-      }
-      else if(c == '-')neg = true;
-      else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
+      // Collected as negative number, because there is one more of them
+      valid = c.isDigit() && val >= (std::numeric_limits<int64>::min() + c.digitValue()) / 10;
+      if(valid)val = val * 10 - c.digitValue();
    }
 
-   if(neg)val *= -1;
-   return val;
+   if(!neg && val == std::numeric_limits<int64>::min())valid = false;
+   if(!valid)throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
+
+   return neg ? val : -val;
 }
 
 bool String::isEmpty() const
-- 
2.43.0


From fcba86e83b355a7e0fdbb7561a8bada6d3015018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 013/181] fix: String::valueOf(double,..) lost the sign of
 negative numbers close to zero

---
 src/core/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 7f1f535..dc8ef57 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1071,9 +1071,8 @@ String String::valueOf(double number)
 
 String String::valueOf(double number, int64 precision, bool trunc)
 {
-   bool neg = jm::isLess(number, 0.0);
-   int64 before = static_cast<int64>(number);
-   if(neg)before *= -1;
+   bool neg = number < 0.0;
+   uint64 before = static_cast<uint64>(std::fabs(number));
 
    double factor = std::pow(10, precision);
 
@@ -1089,6 +1088,7 @@ String String::valueOf(double number, int64 precision, bool trunc)
       after = 0;
       before++;
    }
+   if(before == 0 && after == 0)neg = false;
 
    String b = String::valueOf(before);
    if(neg)b.insert(0, '-');
-- 
2.43.0


From 55327b4ee2c3d95da5cbe3b434d4907d429e5eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 014/181] fix: Integer::digits was wrong for the smallest
 64-bit integer

---
 src/core/Integer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..ebeee01 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -40,13 +40,9 @@ const jm::String gRoman[] = {"I", "IV", "V", "IX", "X", "XL", "L", "XC", "C", "C
 uint8 Integer::digits(int64 number)
 {
    uint8 i = 1;
-   if(number < 0)
-   {
-      number *= -1;
-      i++;
-   }
+   if(number < 0)i++;
 
-   while(number > 9)
+   while(number > 9 || number < -9)
    {
       number = number / 10;
       i++;
-- 
2.43.0


From 603e371514b258c6ccf6f6c7408fb5ee45599a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 015/181] fix: Integer::toHexString returned nothing for
 negative numbers

---
 src/core/Integer.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index ebeee01..a88ae89 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -102,13 +102,14 @@ jm::String Integer::toHexString(int64 number)
       return ret;
    }
 
-   int32 base = 16;
+   uint64 base = 16;
+   uint64 rest = static_cast<uint64>(number);
 
    //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   while(rest > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      uint64 digit = rest % base;
+      rest = rest / base;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From 0b437785c6e35fb80cfef57d22c2f9eb1231db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 016/181] fix: Integer::toLatinAlphabetString was wrong for
 multiples of 26 and large numbers

---
 src/core/Integer.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index a88ae89..e37e2bc 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -146,12 +146,13 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      // There is no letter for zero, so the digits run from 1 to 26
+      number--;
+      int16 rest = (int16)(number % 26);
 
       output.append('A' + rest);
 
-      number = div;
+      number = number / 26;
    }
 
    //Zahlen umkehren
-- 
2.43.0


From 2aa281372dd4a62e6c56c79653982a9acf2dea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 017/181] fix: UTF8Decoder read past the end of truncated
 sequences and of texts containing FF FE

---
 src/core/UTF8Decoder.cpp | 66 ++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..a9fb287 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -38,6 +38,25 @@ UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 
 }
 
+// Returns the number of bytes of the sequence at the beginning of cstring. A byte, which does not
+// begin a complete sequence, stands for itself. The terminating 0 is no part of any sequence.
+static uint32 sequenceLength(const char* cstring)
+{
+   uint8 c = cstring[0];
+   uint32 length = 1;
+
+   if((c & 0xE0) == 0xC0)length = 2;
+   else if((c & 0xF0) == 0xE0)length = 3;
+   else if((c & 0xF8) == 0xF0)length = 4;
+
+   for(uint32 a = 1; a < length; a++)
+   {
+      if((static_cast<uint8>(cstring[a]) & 0xC0) != 0x80)return 1;
+   }
+
+   return length;
+}
+
 CharArray UTF8Decoder::decode(const char* cstring)
 {
    //Bestimme Länge
@@ -68,34 +87,8 @@ CharArray UTF8Decoder::decode(const char* cstring)
 
    while(cstring[cntC] != 0)
    {
-      uint8 c = cstring[cntC];
-
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         strLength++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
-      {
-         strLength++;
-         cntC += 2;
-      }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
-      {
-         strLength++;
-         cntC += 3;
-      }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
-      {
-         strLength++;
-         cntC += 4;
-      }
-      else
-      {
-         // In fact an encoding error, but we then take the byte as a single character
-         strLength++;
-         cntC++;
-      }
+      strLength++;
+      cntC += sequenceLength(&cstring[cntC]);
    }
    cntC = start;
 
@@ -104,14 +97,9 @@ CharArray UTF8Decoder::decode(const char* cstring)
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
+      uint32 length = sequenceLength(&cstring[cntC]);
 
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         ret.buffer[cntV] = Char(c);
-         cntV++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      if(length == 2)     //2 Zeichen
       {
          c = (c & 0x001F) << 6;
          d = cstring[cntC + 1] & 0x3F;
@@ -119,7 +107,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 2;
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if(length == 3)     //3 Zeichen
       {
          c = (c & 0x000F) << 12;
          d = (cstring[cntC + 1] & 0x3F) << 6;
@@ -128,7 +116,7 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 3;
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if(length == 4)     //4 Zeichen
       {
          c = (c & 0x0007) << 18;
          d = (cstring[cntC + 1] & 0x3F) << 12;
@@ -138,11 +126,9 @@ CharArray UTF8Decoder::decode(const char* cstring)
          cntV++;
          cntC += 4;
       }
-      else if(c == 0xFF
-              && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; //Steuerzeichen. erstmal ignorieren http://de.wikipedia.org/wiki/Unicodeblock_Spezielles
       else
       {
-         //Friss Encoding-Fehler
+         //1 Zeichen, oder friss Encoding-Fehler
          ret.buffer[cntV] = Char(c);
          cntV++;
          cntC++;
-- 
2.43.0


From 08e957a43e598102ec245f3c422b8b9f00e5eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 018/181] fix: UTF8Decoder lost characters beyond U+FFFF

---
 src/core/UTF8Decoder.cpp | 53 +++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a9fb287..fef93bc 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -38,6 +38,15 @@ UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 
 }
 
+// Returns the character of a sequence of four bytes.
+static uint32 codePoint(const char* cstring)
+{
+   return ((cstring[0] & 0x07) << 18)
+          | ((cstring[1] & 0x3F) << 12)
+          | ((cstring[2] & 0x3F) << 6)
+          | (cstring[3] & 0x3F);
+}
+
 // Returns the number of bytes of the sequence at the beginning of cstring. A byte, which does not
 // begin a complete sequence, stands for itself. The terminating 0 is no part of any sequence.
 static uint32 sequenceLength(const char* cstring)
@@ -54,6 +63,9 @@ static uint32 sequenceLength(const char* cstring)
       if((static_cast<uint8>(cstring[a]) & 0xC0) != 0x80)return 1;
    }
 
+   // There are no characters beyond U+10FFFF, and those up to U+FFFF need no four bytes
+   if(length == 4 && (codePoint(cstring) < 0x10000 || codePoint(cstring) > 0x10FFFF))return 1;
+
    return length;
 }
 
@@ -87,13 +99,14 @@ CharArray UTF8Decoder::decode(const char* cstring)
 
    while(cstring[cntC] != 0)
    {
-      strLength++;
-      cntC += sequenceLength(&cstring[cntC]);
+      uint32 length = sequenceLength(&cstring[cntC]);
+      strLength += (length == 4) ? 2 : 1; // Surrogate pair
+      cntC += length;
    }
    cntC = start;
 
    CharArray ret = CharArray(strLength);
-   uint16 d, e, f;
+   uint16 d, e;
    while(cntV < strLength)
    {
       uint16 c = (uint8)cstring[cntC];
@@ -118,12 +131,10 @@ CharArray UTF8Decoder::decode(const char* cstring)
       }
       else if(length == 4)     //4 Zeichen
       {
-         c = (c & 0x0007) << 18;
-         d = (cstring[cntC + 1] & 0x3F) << 12;
-         e = (cstring[cntC + 2] & 0x3F) << 6;
-         f = cstring[cntC + 3] & 0x3F;
-         ret.buffer[cntV] = Char(c | d | e | f);
-         cntV++;
+         uint32 codepoint = codePoint(&cstring[cntC]) - 0x10000;
+         ret.buffer[cntV] = Char(0xD800 | (codepoint >> 10));
+         ret.buffer[cntV + 1] = Char(0xDC00 | (codepoint & 0x3FF));
+         cntV += 2;
          cntC += 4;
       }
       else
@@ -137,6 +148,14 @@ CharArray UTF8Decoder::decode(const char* cstring)
    return ret;
 }
 
+// Checks whether a surrogate pair begins at the index.
+static bool isPair(const CharArray& string, int64 index)
+{
+   return (string.buffer[index].unicode() & 0xFC00) == 0xD800
+          && index + 1 < string.length
+          && (string.buffer[index + 1].unicode() & 0xFC00) == 0xDC00;
+}
+
 ByteArray UTF8Decoder::encode(const CharArray& string)
 {
    uint32 cntC = 0;
@@ -151,6 +170,11 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
       {
          cntC += 2;
       }
+      else if(isPair(string, a))   //4 Zeichen
+      {
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cntC += 3;
@@ -173,6 +197,17 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
          cstring[cntC + 1] = (int8)(character & 0x3F) | 0x80;
          cntC += 2;
       }
+      else if(isPair(string, a))   //4 Zeichen
+      {
+         uint32 codepoint = 0x10000 + ((character & 0x3FF) << 10)
+                            + (string.buffer[a + 1].unicode() & 0x3FF);
+         cstring[cntC] = (int8)((codepoint >> 18) & 0x07) | 0xF0;
+         cstring[cntC + 1] = (int8)((codepoint >> 12) & 0x3F) | 0x80;
+         cstring[cntC + 2] = (int8)((codepoint >> 6) & 0x3F) | 0x80;
+         cstring[cntC + 3] = (int8)(codepoint & 0x3F) | 0x80;
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cstring[cntC] = (int8)((character >> 12) & 0x0F) | 0xE0;
-- 
2.43.0


From b0e47a58a2a294cf9dbddfddf9e209cf740d0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 019/181] fix: UTF-16LE text was encoded as UTF-16BE

---
 src/core/UTF16Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..854b42f 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -97,9 +97,9 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
+      cstring[idx] = be ? (int8)(character >> 8) : (int8)character;
       idx++;
-      cstring[idx] = (int8)character;
+      cstring[idx] = be ? (int8)character : (int8)(character >> 8);
       idx++;
    }
    return cstring;
-- 
2.43.0


From fd47a3e16f0abf473f64e2e76e5e2c947a09dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 020/181] fix: UTF-16 text ended at the first character with a
 zero byte

---
 src/core/UTF16Decoder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index 854b42f..c2ddd26 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,7 +43,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
@@ -67,7 +67,8 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   // A text ends with a 0 of two bytes, since characters may have one byte that is 0
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
-- 
2.43.0


From 375b953222d17e439ad50b19a5cf63ce3dde11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 021/181] fix: decoding a ByteArray as UTF-16 read past the end
 of its buffer

---
 src/core/String.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index dc8ef57..2b0eff6 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -77,10 +77,11 @@ String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 2];
+   char* cstring = new char[size + 3];
    memcpy(cstring, buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
+   cstring[size + 2] = 0; //For UTF16 with an odd number of bytes required
    CharArray array = charset->decode(cstring);
    copy(array);
    delete[] cstring;
@@ -131,11 +132,9 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
    copy(array);
 }
 
-String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
-   mHash(0)
+String::String(const ByteArray& buffer, Charset* charset) :
+   String(buffer.isNull() ? "" : buffer.constData(), buffer.size(), charset)
 {
-   CharArray array = charset->decode(buffer.constData());
-   copy(array);
 }
 
 String::~String()
-- 
2.43.0


From b4511c93e30a55aa2b705617ae73426f72f06980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 022/181] fix: Charset allocated its alternative names with an
 uninitialised count

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 1401afd..4dff164 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -112,7 +112,7 @@ Charset::Charset(const String& name, const String* alternatives, uint8 altCount,
                  CharsetDecoder* decoder): Object()
 {
    mName = name;
-   mAlternatives = new String[mAltCount];
+   mAlternatives = new String[altCount];
    mAltCount = altCount;
    for(uint8 a = 0; a < mAltCount; a++)mAlternatives[a] = alternatives[a];
    mDecoder = decoder;
-- 
2.43.0


From bb0b2e4b1f991fd2cb0e71901f995d1ca9e4bd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 023/181] fix: Charset::guess read past the end of short texts

---
 src/core/Charset.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 4dff164..d78cd18 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -182,15 +182,18 @@ String Charset::guess(const char* stream, int64 length)
 
 
    //UTF-16BE
-   if(stream[0] == static_cast<char>(0xFE) &&
+   if(length >= 2 &&
+         stream[0] == static_cast<char>(0xFE) &&
          stream[1] == static_cast<char>(0xFF))return "UTF-16BE";
 
    //UTF-16LE
-   else if(stream[0] == static_cast<char>(0xFF) &&
+   else if(length >= 2 &&
+           stream[0] == static_cast<char>(0xFF) &&
            stream[1] == static_cast<char>(0xFE))return "UTF-16LE";
 
    //UTF-8
-   else if(stream[0] == static_cast<char>(0xEF) &&
+   else if(length >= 3 &&
+           stream[0] == static_cast<char>(0xEF) &&
            stream[1] == static_cast<char>(0xBB) &&
            stream[2] == static_cast<char>(0xBF))return "UTF-8";
 
-- 
2.43.0


From fed4e2d0a24f22bba825f36fca21c3d7eaed614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 024/181] fix: Charset::guess took every text for ASCII

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index d78cd18..3a66a09 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -250,7 +250,7 @@ String Charset::guess(const char* stream, int64 length)
    bool isASCII = true;
    for(uint32 a = 0; a < length; a++)
    {
-      if(stream[a] > 0x7F)
+      if(static_cast<uint8>(stream[a]) > 0x7F)
       {
          isASCII = false;
          break;
-- 
2.43.0


From fd645f9fe8914a0697d0467e055055b924a05195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 025/181] fix: RawDecoder produced characters above U+00FF for
 bytes above 127

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..a797360 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char(static_cast<uint8>(cstring[a]));
    }
 
    return array;
-- 
2.43.0


From efd559ff8f904fb5d6f71622c6a4a2df49f27d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 026/181] fix: Windows-1252 mapped the circumflex (0x88) to a
 wrong character

---
 src/core/Windows1252Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..aaca226 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
-- 
2.43.0


From 9593d793b0dd7231e32e6ad37d18b123f2cec9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 027/181] fix: Windows-1252 encoded the character U+0000 as the
 undefined byte 0x8D

---
 src/core/Windows1252Decoder.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index aaca226..8e6b90e 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -136,10 +136,6 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x8C;
             break;
 
-         case 0x0000:
-            cstring[a] = (uint8)0x8D;
-            break;
-
          case 0x017D:
             cstring[a] = (uint8)0x8E;
             break;
-- 
2.43.0


From 20fbab47e9b9ae12443b5bfc36586ea0a117508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 028/181] fix: MacRoman decoded the infinity sign (0xB0) as
 another character

---
 src/core/MacRomanDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..3e85497 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -49,7 +49,7 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
       0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
-- 
2.43.0


From a7fdac1c747ff26a2dd7ce09883e46240cc87662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 029/181] fix: MacRoman decoded i acute and i grave swapped

---
 src/core/MacRomanDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 3e85497..4a2e256 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,7 +47,7 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
       0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
-- 
2.43.0


From f772388d7de3c2884330c3ddfc6c38d6845e0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 030/181] fix: MacRoman encoded U+007F as 0

---
 src/core/MacRomanDecoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 4a2e256..57f8d95 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -327,6 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
+      case 0x007F:
+         return 0x7F;
       //0x7f is DEL (invisible)
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
-- 
2.43.0


From 2338fa3f1eabc4ffe2e04453a0f2e81e3f5ad241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 031/181] fix: Base64::decode read and wrote beyond its buffers
 if the text is no multiple of four letters

---
 src/core/Base64.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..7ea9f0a 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -134,15 +134,12 @@ uint8* Base64::decode(const uint8* data, uint32& length)
    for(int32 i = 0; i < len; i = i + 4)
    {
       c1 = gBase64rcvt[data[i]];
-      c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c2 = (i + 1 < len) ? gBase64rcvt[data[i + 1]] : 65;
+      c3 = (i + 2 < len) ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = (i + 3 < len) ? gBase64rcvt[data[i + 3]] : 65;
 
-      if(c2 >= 65)
-      {
-         c2 = 0;
-         brk = true;
-      }
+      // A byte needs two letters
+      if(c1 >= 64 || c2 >= 64)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
       if(brk)break;
-- 
2.43.0


From e8456f3ca0c36c60f270da9eb271b8084e1a1189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 032/181] fix: Base64::decode appended bytes for padding
 letters

---
 src/core/Base64.cpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 7ea9f0a..58b2c93 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -129,7 +129,6 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
-   bool brk = false;
 
    for(int32 i = 0; i < len; i = i + 4)
    {
@@ -142,27 +141,15 @@ uint8* Base64::decode(const uint8* data, uint32& length)
       if(c1 >= 64 || c2 >= 64)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
-      if(brk)break;
 
 
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 64)break;
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
-      if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 64)break;
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
-
    }
    length = index;
    return ret;
-- 
2.43.0


From a6ba03ecaf34ce4809c6a74fc79fbd75179ac123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 033/181] fix: URLEncode left characters that are not ASCII,
 which URLDecode cannot restore

---
 src/core/String.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 2b0eff6..ef47458 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1390,10 +1390,11 @@ String jm::URLEncode(const String& str)
    // A URL-encoded string contains only ASCII characters...
    //
    String ret;
+   const ByteArray utf8 = str.toCString(Charset::forName("UTF-8"));
 
-   for(uint32 a = 0; a < str.size(); a++)
+   for(int64 a = 0; a < utf8.size(); a++)
    {
-      switch(str.charAt(a).unicode())
+      switch(utf8[a])
       {
          case ' ':
             ret.append('+');
@@ -1412,7 +1413,12 @@ String jm::URLEncode(const String& str)
             break;
 
          default:
-            ret.append(str.charAt(a));
+            if(utf8[a] < 0x80)ret.append(Char(utf8[a]));
+            else
+            {
+               ret.append('%');
+               ret.append(Integer::toHexString(utf8[a]));
+            }
             break;
       }
    }
-- 
2.43.0


From 5aeffe39df9c0717d2a37cac39630cd63f687e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 034/181] fix: Hashtable::containsKey denied keys stored with a
 null value

---
 src/core/Hashtable.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index a1b7c86..2d414d2 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -106,7 +106,15 @@ void* Hashtable::get(const String& key) const noexcept
 
 bool Hashtable::containsKey(const String& key) const noexcept
 {
-   return get(key) != nullptr;
+   int64 hash = key.constHashCode();
+
+   int64 index = (hash & 0x7FFFFFFF) % mArrLength;
+   for(HashtableEntry* e = mData[index] ; e != nullptr ; e = e->next)
+   {
+      if((e->hash == hash) && e->key.equals(key))return true;
+   }
+
+   return false;
 }
 
 void* Hashtable::remove(const String& key) noexcept
-- 
2.43.0


From f9eb7bc1ebe81772fd942898acb01b206a15ad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 035/181] fix: Hashtable::isEmpty and containsValue were
 declared but not defined

---
 src/core/Hashtable.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/core/Hashtable.cpp b/src/core/Hashtable.cpp
index 2d414d2..6c0dd02 100644
--- a/src/core/Hashtable.cpp
+++ b/src/core/Hashtable.cpp
@@ -168,6 +168,23 @@ void Hashtable::clear() noexcept
    mDataLength = 0;
 }
 
+bool Hashtable::isEmpty() const noexcept
+{
+   return mDataLength == 0;
+}
+
+bool Hashtable::containsValue(void* value) const noexcept
+{
+   for(int64 index = 0; index < mArrLength; index++)
+   {
+      for(HashtableEntry* e = mData[index] ; e != nullptr ; e = e->next)
+      {
+         if(e->value == value)return true;
+      }
+   }
+   return false;
+}
+
 int64 Hashtable::size() const noexcept
 {
    return mDataLength;
-- 
2.43.0


From c2f8aaece2608cad7fc36a54af8be3fbdaec4583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 036/181] fix: LinkedList::swapData did nothing without an undo
 manager

---
 src/core/LinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..699ae69 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,9 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From 0203b8822854a72fb70ebd4cb1512abba707dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 037/181] fix: appending an element of a StringList to the list
 itself read released memory

---
 src/core/StringList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..2efd4ec 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,8 +82,10 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   // The text may be an element of this list, which checkSize() may move.
+   const jm::String item(string);
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = item;
 }
 
 void StringList::remove(const jm::String& string)
-- 
2.43.0


From 5d5da4ca49c1c7e1294b12c673c6a39e3c7367a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 038/181] fix: removing a text given as element of the same
 StringList removed other elements

---
 src/core/StringList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 2efd4ec..4dd58c7 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -90,9 +90,11 @@ void StringList::append(const jm::String& string)
 
 void StringList::remove(const jm::String& string)
 {
+   // The text may be an element of this list, which is overwritten below.
+   const jm::String item(string);
    for(int64 index = 0; index < mSize; index++)
    {
-      if(mData[index] == string)
+      if(mData[index] == item)
       {
          for(int64 index2 = index + 1; index2 < mSize; index2++)
          {
-- 
2.43.0


From 1812ccb2d3f9f3786e903d14f277cafe2bd00481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 039/181] fix: Deflater cut off data that does not become
 shorter

---
 src/core/Deflater.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 629650d..221170d 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -55,7 +55,9 @@ void Deflater::deflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
-   buffer = new uint8[mUncompLength];
+   // Data that cannot be compressed becomes longer
+   const uLong bound = compressBound((uLong)mUncompLength);
+   buffer = new uint8[bound];
 
    z_stream defstream;
    defstream.zalloc = Z_NULL;
@@ -64,7 +66,7 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    // setup "a" as the input and "b" as the compressed output
    defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)mUncompLength; // size of output
+   defstream.avail_out = (uInt)bound; // size of output
    defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
 
    // the actual compression work.
-- 
2.43.0


From cbe7ffd7cba8753eb53d4694221d47048c124f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 040/181] fix: Deflater without input used uninitialised
 members

---
 src/core/Deflater.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 221170d..a5a32cc 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -35,8 +35,7 @@ using namespace jm;
 
 Deflater::Deflater(): Object()
 {
-   mTotalIn=0;
-   mTotalOut=0;
+   reset();
 }
 
 Deflater::~Deflater()
-- 
2.43.0


From 7be24ef195eddc60ef8ea710c48d152628b74b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 041/181] fix: an Inflater created without parameter had no
 output buffer

---
 src/core/Inflater.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2e4d98b..466f8a6 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -43,18 +43,9 @@ const uint16 DIST_OFFSET[30] = {1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97,
 
 Inflater::Inflater(): Object()
 {
-   mWrap = false;
-   mCompBytes = nullptr;
-   mCompLength = 0;
-   mCompIndex = 0;
    mUncompBytes = nullptr;
-   mUncompLength = 1024;
-   mUncompIndex = 0;
-   mTotalIn = 0;
-   mTotalOut = 0;
-   mBit = 0;
-   mLastBlock = false;
-   mEof = false;
+   Reset();
+   mWrap = false;
 }
 
 Inflater::Inflater(bool wrap): Object()
-- 
2.43.0


From b942f0650aa44ad221dea2d9ba26f14fd60e6fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 042/181] fix: Inflater copied from a wrong place after 32 KB
 of output in fixed Huffman blocks

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 466f8a6..644fa35 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -298,7 +298,7 @@ void Inflater::handleCompressedFixHuffman()
          //stream, and copy length bytes from this
          //position to the output stream.
 
-         int64 src = (mUncompIndex - distance) & 32767;
+         int64 src = mUncompIndex - distance;
          if(src < 0)throw Exception("Distance in fix hufmann refer before output stream beginning.");
          for(int64 a = 0; a < length; a++)
          {
-- 
2.43.0


From fdb3a76c25d310b104a63dd45516a4307124ebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 043/181] fix: Inflater read past the end of truncated data

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 644fa35..bc8c431 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -155,6 +155,7 @@ int64 Inflater::GetTotalOut()
 
 uint8 Inflater::nextBit()
 {
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = ((0x01 << mBit) & mCompBytes[mCompIndex]) >> mBit;
 
    mBit++;
@@ -178,6 +179,7 @@ void Inflater::skipByteBits()
 uint8 Inflater::nextAlignedUInt8()
 {
    if(mBit != 0)throw Exception("Incorrect bit order for uint8!");
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = mCompBytes[mCompIndex++];
    mTotalIn++;
    return ret;
-- 
2.43.0


From 7c587b11908bf1dfd6588febad8833b6864f93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 044/181] fix: Inflater went on after invalid block types,
 length and distance codes

---
 src/core/Inflater.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index bc8c431..b3f06e8 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -291,6 +291,7 @@ void Inflater::handleCompressedFixHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = nextUIntX(5);
+         if(code > 29)throw Exception("Invalid distance code.");
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -658,6 +659,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = decodeHuffmanSymbol(htdist);
+         if(code > 29)throw Exception("Invalid distance code.");
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -674,7 +676,7 @@ void Inflater::handleCompressedDynamicHuffman()
             writeUncompressed(mUncompBytes[src + a]);
          }
       }
-      else Exception("Code has unexpected value: " + String::valueOf(value));
+      else throw Exception("Code has unexpected value: " + String::valueOf(value));
 
 
    }
@@ -698,7 +700,7 @@ void Inflater::inflate()
    {
       //Blockheader lesen
       int8 bfinal = nextBit();
-      int8 btype = nextBit() + nextBit() * 2;
+      int8 btype = (int8)nextUIntXR(2);
       if(bfinal == 1)mLastBlock = true;
 
       //stored with no compression BTYPE = 00
@@ -715,7 +717,7 @@ void Inflater::inflate()
       {
          handleCompressedDynamicHuffman();
       }
-      else new Exception("Error in decompression process. Corrupt Block header");
+      else throw Exception("Error in decompression process. Corrupt Block header");
 
    }
    while(!mLastBlock);
@@ -750,7 +752,7 @@ uint16 Inflater::nextFixedHuffmanCode()
          if(code >= 0x190
                && code <= 0x1FF)  // (9 bit) 1 1001 0000 - 1 1111 1111 ( 400 - 511 | 0x190 - 0x1FF ) -> 144 - 255: -256 =-0x100
             code -= 0x100;
-         else new Exception("Wrong code");
+         else throw Exception("Wrong code");
       }
    }
    return code;
@@ -784,7 +786,6 @@ Inflater::HuffmanTree* Inflater::HuffmanTree::Find(uint16 _code, uint16 bits)
       uint16 target = msk & _code;
       if(target == 0 && this->node0 != nullptr)return this->node0->Find(_code, bits);
       else if(target != 0 && this->node1 != nullptr)return this->node1->Find(_code, bits);
-      else new Exception("Huffman Tree Error");
    }
 
    return nullptr;
-- 
2.43.0


From 0a5816784e498c1be75ffd417982a6405f20cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 045/181] fix: Inflater accepted stored blocks with a damaged
 length

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index b3f06e8..4fdee7a 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -249,7 +249,7 @@ void Inflater::handleUncompressedBlock()
    uint16 len = nextAlignedUInt16();
    uint16 nlen = nextAlignedUInt16();//Komplement von len
 
-   if((nlen & len) != 0)throw Exception("Length of uncompressed block is corrupted.");
+   if((nlen ^ len) != 0xFFFF)throw Exception("Length of uncompressed block is corrupted.");
 
    for(int32 a = 0; a < len; a++)
    {
-- 
2.43.0


From dc6afe5621b0aa072325e93eb835eb0600ac8703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 046/181] fix: Inflater rejected code length repetitions from
 the literal to the distance alphabet

---
 src/core/Inflater.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 4fdee7a..bf6a0fa 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -614,11 +614,15 @@ void Inflater::handleCompressedDynamicHuffman()
 
    HuffmanTree* intermediate = createTree(codelengths, codes);
 
+   // Both alphabets are one sequence: a repetition may cross from the first to the second.
+   Array<uint16> both(HLIT + HDIST);
+   readLengthDists(&both, intermediate, HLIT + HDIST);
+
    Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   readLengthDists(lengths2, intermediate, HLIT);
+   for(int64 a = 0; a < HLIT; a++)(*lengths2)[a] = both[a];
 
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   readLengthDists(distances2, intermediate, HDIST);
+   for(int64 a = 0; a < HDIST; a++)(*distances2)[a] = both[HLIT + a];
 
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
-- 
2.43.0


From 027008026d4fb27e8ba81eeb76fc0879ba37022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 047/181] fix: Inflater accepted invalid sets of Huffman codes
 and crashed on an empty set

---
 src/core/Inflater.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index bf6a0fa..3e45ac6 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -440,6 +440,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
    }
    while(nodes.size() > 1);
 
+   // No code at all
+   if(nodes.empty())return new HuffmanTree();
+
    return nodes[0];
 }
 
@@ -467,6 +470,22 @@ uint16 Inflater::decodeHuffmanSymbol(Inflater::HuffmanTree* tree)
    throw Exception("No Huffman symbol found.");
 }
 
+// The code lengths have to describe a complete prefix code. A single code of one bit and, if allowed,
+// no code at all are valid, too.
+static void checkCodeLengths(const Array<uint16>& lengths, bool allowPartial)
+{
+   int32 left = 1 << 15;
+   uint16 maxLength = 0;
+   for(int64 a = 0; a < lengths.size(); a++)
+   {
+      const uint16 length = lengths[a];
+      if(length > 0)left -= 1 << (15 - length);
+      maxLength = max(maxLength, length);
+   }
+   if(left < 0 || (left > 0 && !(allowPartial && maxLength <= 1)))throw
+      Exception("Invalid set of Huffman codes.");
+}
+
 //Erzeugt die Huffmancodes für eine gegebenes Array aus Codelängen
 Array<uint16>* Inflater::huffmanCodes(Array<uint16>* codelengths)
 {
@@ -595,6 +614,8 @@ void Inflater::handleCompressedDynamicHuffman()
    uint16 HDIST = nextUIntXR(5) + 1;
    uint16 HCLEN = nextUIntXR(4) + 4;
 
+   if(HLIT > 286 || HDIST > 30)throw Exception("Too many length or distance codes.");
+
    //Positionierhilfe für die Codelängen
    const uint16 CODELENTH_ALPHABET[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
 
@@ -609,6 +630,8 @@ void Inflater::handleCompressedDynamicHuffman()
       (*codelengths)[CODELENTH_ALPHABET[a]] = codelength;
    }
 
+   checkCodeLengths(*codelengths, false);
+
    //Erzeuge aus den Codelängen die HuffmanCodes
    Array<uint16>* codes = huffmanCodes(codelengths);
 
@@ -624,6 +647,10 @@ void Inflater::handleCompressedDynamicHuffman()
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
    for(int64 a = 0; a < HDIST; a++)(*distances2)[a] = both[HLIT + a];
 
+   if((*lengths2)[256] == 0)throw Exception("Huffman code for the end of block is missing.");
+   checkCodeLengths(*lengths2, true);
+   checkCodeLengths(*distances2, true);
+
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
    Array<uint16>* distcodes2 = huffmanCodes(distances2);
-- 
2.43.0


From 31e70288559554f8962aa17eeac45e1d7561e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 048/181] fix: Inflater leaked its buffer and its Huffman trees
 if the data is damaged

---
 src/core/Inflater.cpp | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 3e45ac6..f63ec10 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -30,6 +30,7 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "PrecompiledCore.hpp"
+#include <memory>
 
 using std::max;
 
@@ -57,6 +58,7 @@ Inflater::Inflater(bool wrap): Object()
 
 Inflater::~Inflater()
 {
+   delete[] mUncompBytes;
 }
 
 void Inflater::SetInput(uint8* buffer, int64 length)
@@ -117,8 +119,11 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    inflate();
 
+   // The caller owns the buffer from here on
    buffer = mUncompBytes;
    length = mUncompIndex;
+   mUncompBytes = nullptr;
+   mUncompLength = 0;
 }
 
 void Inflater::Reset()
@@ -126,7 +131,7 @@ void Inflater::Reset()
    mCompBytes = nullptr;
    mCompLength = 0;
    mCompIndex = 0;
-   mUncompBytes = nullptr;
+   delete[] mUncompBytes;
    mUncompBytes = new uint8[1024];
    mUncompLength = 1024;
    mUncompIndex = 0;
@@ -225,7 +230,7 @@ void Inflater::checkCapacity()
    int64 newLength = mUncompLength + max(int64(4096), int64(mUncompLength / ratio));
    uint8* tmp = new uint8[newLength];
    if(tmp == nullptr)throw Exception("Cannot allocate memory!");
-   memcpy(tmp, mUncompBytes, mUncompIndex);
+   if(mUncompIndex > 0)memcpy(tmp, mUncompBytes, mUncompIndex);
    delete[] mUncompBytes;
    mUncompBytes = tmp;
    mUncompLength = newLength;
@@ -620,7 +625,7 @@ void Inflater::handleCompressedDynamicHuffman()
    const uint16 CODELENTH_ALPHABET[19] = {16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15};
 
    //Codelängenarray erzeugen und Nullen
-   Array<uint16>* codelengths = new Array<uint16>(19);
+   const std::unique_ptr<Array<uint16>> codelengths(new Array<uint16>(19));
    for(uint32 a = 0; a < codelengths->size(); a++)(*codelengths)[a] = 0;
 
    //Einlesen der definierten Codelängen (3 Bit feste Breite)
@@ -633,40 +638,40 @@ void Inflater::handleCompressedDynamicHuffman()
    checkCodeLengths(*codelengths, false);
 
    //Erzeuge aus den Codelängen die HuffmanCodes
-   Array<uint16>* codes = huffmanCodes(codelengths);
+   const std::unique_ptr<Array<uint16>> codes(huffmanCodes(codelengths.get()));
 
-   HuffmanTree* intermediate = createTree(codelengths, codes);
+   const std::unique_ptr<HuffmanTree> intermediate(createTree(codelengths.get(), codes.get()));
 
    // Both alphabets are one sequence: a repetition may cross from the first to the second.
    Array<uint16> both(HLIT + HDIST);
-   readLengthDists(&both, intermediate, HLIT + HDIST);
+   readLengthDists(&both, intermediate.get(), HLIT + HDIST);
 
-   Array<uint16>* lengths2 = new Array<uint16>(HLIT);
+   const std::unique_ptr<Array<uint16>> lengths2(new Array<uint16>(HLIT));
    for(int64 a = 0; a < HLIT; a++)(*lengths2)[a] = both[a];
 
-   Array<uint16>* distances2 = new Array<uint16>(HDIST);
+   const std::unique_ptr<Array<uint16>> distances2(new Array<uint16>(HDIST));
    for(int64 a = 0; a < HDIST; a++)(*distances2)[a] = both[HLIT + a];
 
    if((*lengths2)[256] == 0)throw Exception("Huffman code for the end of block is missing.");
    checkCodeLengths(*lengths2, true);
    checkCodeLengths(*distances2, true);
 
-   Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
+   const std::unique_ptr<Array<uint16>> lengthcodes2(huffmanCodes(lengths2.get()));
 
-   Array<uint16>* distcodes2 = huffmanCodes(distances2);
+   const std::unique_ptr<Array<uint16>> distcodes2(huffmanCodes(distances2.get()));
 
    //Workaround
    MAX_BITS = 15;
 
-   HuffmanTree* htvallen = createTree(lengths2, lengthcodes2);
-   HuffmanTree* htdist = createTree(distances2, distcodes2);
+   const std::unique_ptr<HuffmanTree> htvallen(createTree(lengths2.get(), lengthcodes2.get()));
+   const std::unique_ptr<HuffmanTree> htdist(createTree(distances2.get(), distcodes2.get()));
 
    bool endOfBlock = false;
    while(!endOfBlock)
    {
       uint16 value ;
 
-      value = decodeHuffmanSymbol(htvallen);
+      value = decodeHuffmanSymbol(htvallen.get());
 
       if(value < 256)
       {
@@ -689,7 +694,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //codes, with possible additional bits as shown in the table
          //shown in Paragraph 3.2.5, above.
 
-         uint16 code = decodeHuffmanSymbol(htdist);
+         uint16 code = decodeHuffmanSymbol(htdist.get());
          if(code > 29)throw Exception("Invalid distance code.");
 
          extrabits = DIST_EXTRA[code];
@@ -711,16 +716,6 @@ void Inflater::handleCompressedDynamicHuffman()
 
 
    }
-
-   delete codelengths;
-   delete codes;
-   delete lengths2;
-   delete distances2;
-   delete lengthcodes2;
-   delete distcodes2;
-   delete intermediate;
-   delete htvallen;
-   delete htdist;
 }
 
 
-- 
2.43.0


From f84035ff45e3322916c82a561d08998cb83e33b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 049/181] fix: Inflater allocated an unlimited buffer for data
 that starts with a well compressed part

---
 src/core/Inflater.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index f63ec10..98e5cef 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -226,8 +226,7 @@ void Inflater::checkCapacity()
    if(mUncompIndex < mUncompLength)return;
 
    // Increase
-   double ratio = mCompIndex / (double)mCompLength;
-   int64 newLength = mUncompLength + max(int64(4096), int64(mUncompLength / ratio));
+   int64 newLength = mUncompLength + max(int64(4096), mUncompLength);
    uint8* tmp = new uint8[newLength];
    if(tmp == nullptr)throw Exception("Cannot allocate memory!");
    if(mUncompIndex > 0)memcpy(tmp, mUncompBytes, mUncompIndex);
-- 
2.43.0


From ab69457fb520458cf537938efeca56cb045a3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 050/181] fix: Inflater ignored the checksum of the
 decompressed data

---
 src/core/Inflater.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 98e5cef..f7ce3eb 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -119,6 +119,16 @@ void Inflater::Inflate(uint8*& buffer, int64& length)
 
    inflate();
 
+   // The data is followed by its checksum (RFC1950)
+   if(mWrap == false)
+   {
+      skipByteBits();
+      uint32 checksum = 0;
+      for(int32 a = 0; a < 4; a++)checksum = (checksum << 8) | nextAlignedUInt8();
+      if(checksum != adler32(adler32(0, nullptr, 0), mUncompBytes, (uInt)mUncompIndex))throw
+         Exception("Checksum of the decompressed data is wrong.");
+   }
+
    // The caller owns the buffer from here on
    buffer = mUncompBytes;
    length = mUncompIndex;
-- 
2.43.0


From eda3675251ae77245a5ce1c6c09944324aada79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 051/181] fix: ByteArray::resize released an array with delete

---
 src/core/ByteArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..696711c 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -233,7 +233,7 @@ void ByteArray::resize(int64 newSize)
       }
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From 1c84ab69cb5cfe1ff462b87c75c4bf374da11aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 052/181] fix: growing a ByteArray after shrinking brought back
 old bytes

---
 src/core/ByteArray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 696711c..1ce9a34 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -217,6 +217,8 @@ void ByteArray::resize(int64 newSize)
 {
    if(newSize <= mRawSize - 1)
    {
+      // Bytes excluded by an earlier resize must not come back
+      for(int64 index = mArrSize; index < newSize; index++)mData[index] = 0;
       mArrSize = newSize;
       mData[mArrSize] = 0;
    }
-- 
2.43.0


From 15eced857b6b8d20a8ca75a17a09e2dd75635ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 053/181] fix: ByteArray::replace ignored the target offset and
 read past the end of the source

---
 src/core/ByteArray.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 1ce9a34..855dd3a 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -196,12 +196,10 @@ void ByteArray::set(int64 index, uint8 item)
 void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffer,
                         int64 length)
 {
-   int64 range = std::min(length, mArrSize - tgtOffset);
+   if(tgtOffset < 0 || srcOffset < 0)throw Exception("Array index out of bounds.");
+   int64 range = std::min(length, std::min(mArrSize - tgtOffset, buffer.mArrSize - srcOffset));
 
-   for(int64 a = 0; a < range; a++)
-   {
-      mData[a] = buffer.mData[srcOffset + a];
-   }
+   if(range > 0)memmove(&mData[tgtOffset], &buffer.mData[srcOffset], range);
 }
 
 void ByteArray::replace(uint8 oldValue, uint8 newValue)
-- 
2.43.0


From 0ecd4150bb60fc5d1ae1db5da5bac8571b80e11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 054/181] fix: the copy of a null ByteArray was an array
 without terminator

---
 src/core/ByteArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 855dd3a..1c1a085 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -91,7 +91,7 @@ ByteArray::ByteArray(const ByteArray& other) : Object()
 {
    mArrSize = other.mArrSize;
    mRawSize = other.mRawSize;
-   mData = new uint8[mRawSize];
+   mData = (other.mData != nullptr) ? new uint8[mRawSize] : nullptr;
    for(int64 index = 0; index < mRawSize; index++)
    {
       mData[index] = other.mData[index];
@@ -260,7 +260,7 @@ ByteArray& jm::ByteArray::operator=(const ByteArray& another)
 
       mArrSize = another.mArrSize;
       mRawSize = another.mRawSize;
-      mData = new uint8[mRawSize];
+      mData = (another.mData != nullptr) ? new uint8[mRawSize] : nullptr;
       for(int64 a = 0; a < mRawSize; a++)
       {
          mData[a] = another.mData[a];
-- 
2.43.0


From 1f045d5fb1ed7dda4a948cf6c0a7f119b87860e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 055/181] fix: MemoryStream::write wrote past the end of its
 buffer

---
 src/core/MemoryStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..770d758 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -97,8 +97,10 @@ int64 MemoryStream::position()
 
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   int64 available = (length < mStreamlength - mPosition) ? length : mStreamlength - mPosition;
+   if(available > 0)memcpy(&mStream[mPosition], buffer, available);
+   else return 0;
+
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From 8bb3f171cb918004f38bd126d77b7bdcbe047226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 056/181] fix: MemoryStream accepted negative positions,
 refused its end and read more than the target can hold

---
 src/core/MemoryStream.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 770d758..b9ff00b 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -66,7 +66,7 @@ void MemoryStream::close()
 
 int64 MemoryStream::read(uint8* buffer, int64 length)
 {
-   int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
+   int64 available = (length < mStreamlength - mPosition) ? length : mStreamlength - mPosition;
    if(available > 0)memcpy(buffer, &mStream[mPosition], available);
    else return 0;
 
@@ -76,18 +76,17 @@ int64 MemoryStream::read(uint8* buffer, int64 length)
 
 int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 {
-   return read((uint8*)buffer.data(), length);
+   return read((uint8*)buffer.data(), std::min(length, buffer.size()));
 }
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition <= mStreamlength) ? newPosition : mPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
-   int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   if(offset >= -mPosition && offset <= mStreamlength - mPosition)mPosition += offset;
 }
 
 int64 MemoryStream::position()
-- 
2.43.0


From f2810c7e7e5964ba5819a87e623fe7ea882f7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 057/181] fix: File::createNewFile emptied existing files

---
 src/core/File.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..7a216ca 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -582,11 +582,13 @@ bool File::isAbsolute() const
 bool File::createNewFile()
 {
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
-   mHandle = fopen(mCstr.constData(), "wb");
+   // An existing file must keep its content
+   mHandle = fopen(mCstr.constData(), "wbx");
    bool exist = (mHandle != nullptr);
    close();
    return exist;
    #elif defined _WIN32 //Windows
+   if(exists())return false;
    int64 ret = fopen_s(&mHandle, mCstr.constData(), "wb");
    close();
    return ret == 0;
-- 
2.43.0


From 6e3abaed88de774b62aff893cb0b71ce9e38db2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 058/181] fix: File::lastModified added microseconds to
 milliseconds

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 7a216ca..194fd48 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -362,7 +362,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtimespec;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
@@ -374,7 +374,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtim;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
-- 
2.43.0


From 5e42c567d40aa1d13929de4cbe712333e566771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 059/181] fix: File queries on missing files used an
 uninitialised status

---
 src/core/File.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 194fd48..70ceb2c 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -249,7 +249,7 @@ bool File::isDirectory() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISDIR(st.st_mode);
    return ret;
 
@@ -271,7 +271,7 @@ bool File::isFile() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISREG(st.st_mode);
    return ret;
 
@@ -311,7 +311,7 @@ bool File::isLink() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISLNK(st.st_mode);
    return ret;
 
@@ -335,7 +335,7 @@ bool File::isPipe() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;
    bool ret = S_ISFIFO(st.st_mode);
    return ret;
 
@@ -357,7 +357,7 @@ Date File::lastModified() const
    #if defined(__APPLE__) //macOS
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(int64(0));
 
    //Umrechnen
    timespec tm = st.st_mtimespec;
@@ -369,7 +369,7 @@ Date File::lastModified() const
    #elif defined(__linux__) //Linux
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return Date(int64(0));
 
    //Umrechnen
    timespec tm = st.st_mtim;
-- 
2.43.0


From 7942d269270a548bada0b672aa087c22027668c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 060/181] fix: File kept its released handle if closing failed

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 70ceb2c..68be952 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -652,8 +652,8 @@ void File::close()
 {
    if(mHandle == nullptr)return;
    int32 eof = fclose(mHandle);
-   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
    mHandle = nullptr;
+   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
 }
 
 void File::seek(int64 position)
-- 
2.43.0


From e5cb9cb62a0c78d8adcf4f5483c1964cb21e72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 061/181] fix: File::isHidden threw for the root directory

---
 src/core/File.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 68be952..672c806 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -293,7 +293,8 @@ bool File::isHidden() const
 
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
-   return name().charAt(0) == '.';
+   const String filename = name();
+   return filename.size() > 0 && filename.charAt(0) == '.';
 
    #elif defined _WIN32//Windows
 
-- 
2.43.0


From 53abc2ae5bcc019edaf7aa034edd9b89323e6365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 062/181] fix: File::extension returned the path of files
 without extension

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 672c806..6bda6a9 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -571,7 +571,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   const String filename = name();
+   int64 idx = filename.lastIndexOf('.');
+   if(idx < 0)return kEmptyString;
+   return filename.substring(idx + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0


From e7da345c6d1852ba7c2387bbaef74cb41914cd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 063/181] fix: File::parent was empty for files in the root
 directory

---
 src/core/File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 6bda6a9..4c74278 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -561,6 +561,8 @@ String File::parent() const
 {
    int64 idx = mPathname.lastIndexOf(DIR_SEP);
    if(idx < 0)idx = 0;
+   // The root directory is the parent of its files
+   else if(idx == 0 && mPathname.size() > 1)idx = 1;
    return mPathname.substring(0, idx);
 }
 
-- 
2.43.0


From 0ca6782ce93c7aaf6095afc00f687b8a5bf59f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 064/181] fix: a File with a separator as child ended with a
 separator

---
 src/core/File.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 4c74278..4451d8f 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -117,6 +117,9 @@ String File::resolve(String parent, String child)
    // under UNIX:
    if(parent.size() < 1 && child.size() < 1)return sep;
 
+   // The child is the parent itself
+   if(child.equals(sep))return parent;
+
    // If child begins with separator
    if(child.charAt(0) == DIR_SEP)
    {
-- 
2.43.0


From 4119f755d0be591e5d07d007ba78481cf4e5bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 065/181] fix: File::isAbsolute was true for relative paths

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 4451d8f..a1f4870 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -584,7 +584,10 @@ String File::extension() const
 
 bool File::isAbsolute() const
 {
-   return true;
+   #ifdef _WIN32 //Windows
+   if(mPathname.size() > 1 && mPathname.charAt(1) == ':')return true;
+   #endif
+   return mPathname.size() > 0 && mPathname.charAt(0) == DIR_SEP;
 }
 
 
-- 
2.43.0


From 5f755f58cc452325c693b774d768b4d0c4271ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 066/181] fix: a renamed File kept a path that is not
 normalised

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index a1f4870..2cf46c8 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -439,8 +439,8 @@ bool File::renameTo(const String& newPath)
 
    if(result == 0)
    {
-      mCstr = newname;
-      mPathname = String(mCstr);
+      mPathname = normalize(newPath);
+      setCString();
 
       return true;
    }
-- 
2.43.0


From 1f1dc6189c3488f16f9f4b247b9e214a8f7a8774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 067/181] fix: File::readFully read more than the target can
 hold

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 2cf46c8..865c5eb 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -695,7 +695,7 @@ int64 File::read(uint8* buffer, int64 length)
 
 int64 File::readFully(ByteArray& buffer, int64 length)
 {
-   int64 rest = length;
+   int64 rest = std::min(length, buffer.size());
    int64 count = 0;
    int64 step;
    uint8* buf = reinterpret_cast<uint8*>(buffer.data());
-- 
2.43.0


From 4e5bc148406c837acb535d837eab5ddcb78376c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 068/181] fix: opening a zip file without directory never ended

---
 src/core/ZipFile.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 2aa38d1..bacd784 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -55,21 +55,23 @@ ZipFile::~ZipFile()
 
 void ZipFile::open()
 {
-   uint32 length = (uint32)mFile->size();
-   uint32 seek = length - 22;
+   int64 length = mFile->size();
+   int64 seek = length - 22;
 
-   mFile->open(FileMode::kRead);
+   Status status = mFile->open(FileMode::kRead);
 
    // If the file is empty, then we are done
    if(length == 0)return;
 
+   if(status != Status::eOK || seek < 0)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    // We first read the file at the end, where the directory with the entries is located.
    // It's idiotic that you have to search for the end because the last entry has a variable length.
    // In addition, the file cannot simply be read from the beginning, because entries may be
    // incomplete and the data length of the compressed data does not have to be saved at the
    // beginning.
 
-   uint32 signature;
+   int32 signature;
    ByteArray eocd = ByteArray(22, 0);
    bool found = false;
    do
@@ -85,7 +87,7 @@ void ZipFile::open()
          break;
       }
    }
-   while(seek > 0);
+   while(seek >= 0);
 
    if(!found)throw jm::Exception(Tr("ZIP-File is invalid."));
 
-- 
2.43.0


From cf34a9b11bd637215c51485c5a7f93d12ecd4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 069/181] fix: opening a zip file read past the end of a
 damaged directory

---
 src/core/ZipFile.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index bacd784..542a160 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -95,6 +95,8 @@ void ZipFile::open()
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
 
+   if(int64(dictOffset) + int64(dictSize) > length)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
    mFile->Stream::readFully(dict);
@@ -104,6 +106,8 @@ void ZipFile::open()
    uint32 count = 0;
    while(count < recordCount)
    {
+      if(int64(index) + 46 > dict.size())throw jm::Exception(Tr("ZIP-File is invalid."));
+
       //signature = jm::DeserializeLEInt32(dict, index);
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
@@ -112,6 +116,9 @@ void ZipFile::open()
       uint32 commentLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 32);
       uint32 offset = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 42);
 
+      if(int64(index) + 46 + fileNameLength + extraFieldLength + commentLength > dict.size())throw
+         jm::Exception(Tr("ZIP-File is invalid."));
+
       jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
       jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
       jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
-- 
2.43.0


From 9084dc1ed1470dac1aead9f9066dc686e0ace700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 070/181] fix: reading an entry of a damaged zip file overran
 its buffers

---
 src/core/ZipFile.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 542a160..5f5f8dd 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -176,6 +176,10 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
+   const int64 length = mFile->size();
+   if(entry->mHeaderOffset + int64(30) + entry->mCompressedSize > length)throw
+      jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
+
    ByteArray input = ByteArray(entry->mCompressedSize, 0);
 
    //Local Header
@@ -194,23 +198,32 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
    uint32 el = jm::deserializeLEUInt16(localHeader, 28);
 
 
-   mFile->seek(entry->mHeaderOffset + 30 + fl + el);
-   mFile->Stream::readFully(input);
+   mFile->seek(entry->mHeaderOffset + int64(30) + fl + el);
+   if(mFile->Stream::readFully(input) != input.size())throw
+      jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
 
    uint8* buffer = nullptr;
    if(cm == 0) //Daten uncompressed
    {
+      if(entry->mCompressedSize != entry->mUncompressedSize)throw
+         jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
       buffer = new uint8[entry->mUncompressedSize];
       memcpy(buffer, input.constData(), entry->mCompressedSize);
    }
-   if(cm == 8) //Deflate
+   else if(cm == 8) //Deflate
    {
       Inflater inf = Inflater(true);
       int64 control;
       inf.SetInput(reinterpret_cast<uint8*>(input.data()), entry->mCompressedSize);
       // buffer is initialized and set by Inflater
       inf.Inflate(buffer, control);
+      if(control != entry->mUncompressedSize)
+      {
+         delete[] buffer;
+         throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
+      }
    }
+   else throw jm::Exception(Tr("ZIP file Error. Compression method is not supported."));
 
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
-- 
2.43.0


From 8a51cb58ad790e26515a691f034f0e15fe9d83c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 071/181] fix: ZipOutputFile left the end of an older, longer
 file behind the archive

---
 src/core/ZipOutputFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ca47756..f407e70 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -61,8 +61,8 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 
 void ZipOutputFile::open()
 {
-   if(mFile->exists() == false)mFile->createNewFile();
-   mFile->open(FileMode::kReadWrite);
+   // The rest of an older file must not remain behind the archive
+   mFile->open(FileMode::kWrite);
 }
 
 void ZipOutputFile::close()
-- 
2.43.0


From 8e08731f448bd68c77fef610157ee3e4a4c9710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 072/181] fix: ZipOutputFile used the root directory for
 relative paths and one temporary file for all archives

---
 src/core/ZipOutputFile.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index f407e70..ecfd5f6 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -219,8 +219,9 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
-   mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
-   mTemp->createNewFile();
+   mTemp = new jm::File(mFile->path() + ".jmzipdata.tmp");
+   mTemp->open(FileMode::kWrite);
+   mTemp->close();
    mTemp->open(FileMode::kReadWrite);
 
    mEntries.add(entry, nullptr);
-- 
2.43.0


From 432cd0e76d4246779735ca3183901cc97713fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 073/181] fix: ZipOutputFile did not mark its UTF-8 names as
 such

---
 src/core/ZipOutputFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ecfd5f6..97b5a80 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -83,7 +83,7 @@ void ZipOutputFile::close()
       jm::serializeLEInt32(cdfh, 0, 0x02014b50);//Signature
       jm::serializeLEInt16(cdfh, 4, 0);//Version made by. Auf 0 gesetzt
       jm::serializeLEInt16(cdfh, 6, 0);//Minimum Version needed. Auf 0 gesetzt
-      jm::serializeLEInt16(cdfh, 8, 0);//General Purpose Bit Flag. Auf 0 gesetzt
+      jm::serializeLEInt16(cdfh, 8, 0x0800);//General Purpose Bit Flag. Names are UTF-8
       jm::serializeLEInt16(cdfh, 10, 0); //Compression Method
       jm::serializeLEInt16(cdfh, 12, 0);//ShxFile last modification time
       jm::serializeLEInt16(cdfh, 14, 0);//ShxFile last modification date
@@ -203,7 +203,7 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    uint8 lfh[30];
    jm::serializeLEInt32(lfh, 0, 0x04034b50);//Signature
    jm::serializeLEInt16(lfh, 4, 0);//Minimum Version needed. Auf 0 gesetzt
-   jm::serializeLEInt16(lfh, 6, 0);//General Purpose Bit Flag. Auf 0 gesetzt
+   jm::serializeLEInt16(lfh, 6, 0x0800);//General Purpose Bit Flag. Names are UTF-8
    jm::serializeLEInt16(lfh, 8, 0);//Compression Method
    jm::serializeLEInt16(lfh, 10, 0);//File last modification time
    jm::serializeLEInt16(lfh, 12, 0);//File last modification date
-- 
2.43.0


From 7a637bd64e7fad6ea74cc543e6ca4f22bb1d9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 074/181] fix: ZipEntry::isDirectory was false for every entry

---
 src/core/ZipFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 5f5f8dd..babf7c0 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -259,5 +259,5 @@ uint32 ZipEntry::uncompressedSize()const
 
 bool ZipEntry::isDirectory()const
 {
-   return false;
+   return mName.size() > 0 && mName.charAt(mName.size() - 1) == Char('/');
 }
-- 
2.43.0


From abb7795e82cd90d6b120283f4b3c536bbd1ace9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 075/181] fix: a ByteArray that had grown was no longer zero
 terminated

---
 src/core/ByteArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 1c1a085..72ad007 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -231,6 +231,7 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = 0;
       }
+      tmp[newSize] = 0;
       mRawSize = newSize + 1;
       mArrSize = newSize;
       if(mData != nullptr)delete[] mData;
-- 
2.43.0


From 09ee2079803d964b06320c30bb7cfe48b5a7122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 076/181] fix: reading a file after writing to it (or the
 reverse) returned wrong bytes

---
 include/core/File.h | 15 +++++++++++++++
 src/core/File.cpp   | 13 +++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/core/File.h b/include/core/File.h
index 896a08d..398e28f 100644
--- a/include/core/File.h
+++ b/include/core/File.h
@@ -348,6 +348,21 @@ namespace jm
          //! Filehandle in operating system
          FILE* mHandle;
 
+         //! The kind of the last transfer since the last positioning.
+         enum class Transfer
+         {
+            kNone,
+            kRead,
+            kWrite
+         };
+         Transfer mTransfer = Transfer::kNone;
+
+         /*!
+          \brief Prepares the stream for a read or write operation.
+          \discussion The C library demands a positioning between reading and writing.
+          */
+         void prepareTransfer(Transfer transfer);
+
          /*!
           \brief This method normalizes the pathname.
           \details On Unix, a normalized pathname does not contain duplicate slashes
diff --git a/src/core/File.cpp b/src/core/File.cpp
index 865c5eb..9c01590 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -67,6 +67,7 @@ File::File(const File& other): Stream(), Comparable<File>()
 {
    mPathname = other.mPathname;
    mHandle = other.mHandle;
+   mTransfer = other.mTransfer;
    if(mPathname.size() > 0)setCString();
    else mCstr = ByteArray();
 }
@@ -82,6 +83,7 @@ File& File::operator=(const File& another)
    {
       mPathname = another.mPathname;
       mHandle = another.mHandle;
+      mTransfer = another.mTransfer;
       if(mPathname.size() > 0)setCString();
       else mCstr = ByteArray();
    }
@@ -609,6 +611,7 @@ bool File::createNewFile()
 
 Status File::open(FileMode mode)
 {
+   mTransfer = Transfer::kNone;
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
    {
@@ -672,6 +675,7 @@ void File::seek(int64 position)
 {
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)position, SEEK_SET);
+   mTransfer = Transfer::kNone;
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
 }
 
@@ -679,6 +683,7 @@ void File::move(int64 offset)
 {
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)offset, SEEK_CUR);
+   mTransfer = Transfer::kNone;
    if(res != 0)throw Exception(Tr("Error while moving file reading pointer!"));
 }
 
@@ -688,8 +693,15 @@ int64 File::position()
 }
 
 
+void File::prepareTransfer(Transfer transfer)
+{
+   if(mTransfer != Transfer::kNone && mTransfer != transfer)move(0);
+   mTransfer = transfer;
+}
+
 int64 File::read(uint8* buffer, int64 length)
 {
+   prepareTransfer(Transfer::kRead);
    return fread(buffer, 1, length, mHandle);
 }
 
@@ -711,6 +723,7 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 
 int64 File::write(const uint8* buffer, int64 length)
 {
+   prepareTransfer(Transfer::kWrite);
    return fwrite(buffer, 1, length, mHandle);
 }
 
-- 
2.43.0


From 865c085accf05225778ee23dbdf512bd5761fe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 077/181] fix: copying SAXAttributes used uninitialised
 pointers

---
 src/core/SAXAttributes.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/SAXAttributes.cpp b/src/core/SAXAttributes.cpp
index 6ec6b44..60490d7 100644
--- a/src/core/SAXAttributes.cpp
+++ b/src/core/SAXAttributes.cpp
@@ -45,10 +45,10 @@ SAXAttributes::~SAXAttributes()
    delete mValues;
 }
 
-SAXAttributes::SAXAttributes(const SAXAttributes& other)
+SAXAttributes::SAXAttributes(const SAXAttributes& other): Object()
 {
-   mNames->clear();
-   mValues->clear();
+   mNames = new std::vector<String>();
+   mValues = new std::vector<String>();
 
    for(uint32 a = 0; a < other.mNames->size(); a++)
    {
-- 
2.43.0


From 081535bdc76dabb85d053f3655754bf89d5f4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 078/181] fix: SAXParser dropped apostrophe entities and
 numeric character references

---
 src/core/SAXParser.cpp | 55 +++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3e8bcaa..b2ab92a 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -33,6 +33,47 @@
 
 using namespace jm;
 
+// Appends the character an entity or character reference stands for. The reference is given without
+// the leading ampersand, but with the trailing semicolon.
+static void appendReference(String& text, const String& reference)
+{
+   if(reference.equals("lt;"))text.append('<');
+   else if(reference.equals("gt;"))text.append('>');
+   else if(reference.equals("amp;"))text.append('&');
+   else if(reference.equals("quot;"))text.append('"');
+   else if(reference.equals("apos;"))text.append('\'');
+   else if(reference.equals("le;"))text.append(0x2264); //≤
+   else if(reference.equals("ge;"))text.append(0x2265); //≥
+   else if(reference.equals("leq;"))text.append(0x2264); //≤
+   else if(reference.equals("geq;"))text.append(0x2265); //≥
+   else if(reference.charAt(0) == '#')
+   {
+      const bool hex = reference.size() > 2 && reference.charAt(1) == 'x';
+      const uint32 base = hex ? 16 : 10;
+      uint32 code = 0;
+      int64 index = hex ? 2 : 1;
+
+      for(; index < reference.size() - 1 && code <= 0x10FFFF; index++)
+      {
+         const uint16 c = reference.charAt(index).unicode();
+         uint32 digit;
+         if(c >= '0' && c <= '9')digit = c - '0';
+         else if(hex && c >= 'a' && c <= 'f')digit = c - 'a' + 10;
+         else if(hex && c >= 'A' && c <= 'F')digit = c - 'A' + 10;
+         else return;
+         code = code * base + digit;
+      }
+
+      if(code == 0 || code > 0x10FFFF)return;
+      if(code > 0xFFFF)
+      {
+         text.append(Char(uint16(0xD800 + ((code - 0x10000) >> 10))));
+         text.append(Char(uint16(0xDC00 + ((code - 0x10000) & 0x3FF))));
+      }
+      else text.append(Char(uint16(code)));
+   }
+}
+
 SAXParser::SAXParser(): Object()
 {
 
@@ -148,14 +189,7 @@ void SAXParser::parse(const String& xml)
          }
          while(c != ';' && pos < length - 1);
 
-         if(escape.equals("lt;"))token.append('<');
-         else if(escape.equals("gt;"))token.append('>');
-         else if(escape.equals("amp;"))token.append('&');
-         else if(escape.equals("quot;"))token.append('"');
-         else if(escape.equals("le;"))token.append(0x2264); //≤
-         else if(escape.equals("ge;"))token.append(0x2265); //≥
-         else if(escape.equals("leq;"))token.append(0x2264); //≤
-         else if(escape.equals("geq;"))token.append(0x2265); //≥
+         appendReference(token, escape);
       }
       else if(c == '>' && inTag == true && inValue == false)
       {
@@ -263,10 +297,7 @@ void SAXParser::parseTagString(const String& xmlline)
          }
          while(c != ';' && pos < length - 1);
 
-         if(escape.equals("lt;"))token.append('<');
-         else if(escape.equals("gt;"))token.append('>');
-         else if(escape.equals("amp;"))token.append('&');
-         else if(escape.equals("quot;"))token.append('"');
+         appendReference(token, escape);
       }
       else if((c.isWhitespace() || c == '=' || c == '/') && !inValue)
       {
-- 
2.43.0


From 990f4a97f3dee68012a5e9161116c508bc6e0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 079/181] fix: SAXParser reported comments, declarations and
 CDATA sections as elements

---
 include/core/SAXParser.h |   5 +
 src/core/SAXParser.cpp   | 199 ++++++++++++++++++++++++++++-----------
 2 files changed, 148 insertions(+), 56 deletions(-)

diff --git a/include/core/SAXParser.h b/include/core/SAXParser.h
index 96d83ce..fd7eac8 100644
--- a/include/core/SAXParser.h
+++ b/include/core/SAXParser.h
@@ -287,6 +287,11 @@ namespace jm
 
       private:
 
+         /*!
+          \brief This helper method reports the text collected so far and empties it.
+          */
+         void reportText(String& token);
+
          /*!
           \brief This helper method parses the tag string... This is the entire part between < and >
           */
diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index b2ab92a..11c88b1 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -74,6 +74,54 @@ static void appendReference(String& text, const String& reference)
    }
 }
 
+// Checks, if the text stands at the position
+static bool isAt(const String& xml, int64 position, const String& text)
+{
+   if(xml.size() - position < text.size())return false;
+
+   for(int64 index = 0; index < text.size(); index++)
+   {
+      if(xml.charAt(position + index) != text.charAt(index))return false;
+   }
+   return true;
+}
+
+// Returns the position behind the end of the document type declaration
+static int64 skipDocType(const String& xml, int64 position)
+{
+   bool inSubset = false; // Status, if in the internal subset
+   bool inValue = false; // Status, if in a literal
+   Char opener = '\"'; // Character for begin and end of literal. ' or "
+
+   while(position < xml.size())
+   {
+      const Char c = xml.charAt(position);
+
+      if(inValue)
+      {
+         if(c == opener)inValue = false;
+      }
+      else if(isAt(xml, position, "<!--"))
+      {
+         const int64 end = xml.indexOf("-->", position + 4);
+         if(end < 0)return xml.size();
+         position = end + 2;
+      }
+      else if(c == '\"' || c == '\'')
+      {
+         inValue = true;
+         opener = c;
+      }
+      else if(c == '[')inSubset = true;
+      else if(c == ']')inSubset = false;
+      else if(c == '>' && !inSubset)return position + 1;
+
+      position++;
+   }
+
+   return position;
+}
+
 SAXParser::SAXParser(): Object()
 {
 
@@ -119,64 +167,44 @@ void SAXParser::parse(const String& xml)
    {
       c = xml.charAt(pos);
 
-      if(c == '<' && inTag == false && inValue == false) // Found beginning of a tag.
+      if(c == '<' && inTag == false && isAt(xml, pos, "<!--")) // Comment
+      {
+         const int64 end = xml.indexOf("-->", pos + 4);
+         pos = (end < 0) ? length : end + 3;
+         continue;
+      }
+      else if(c == '<' && inTag == false && isAt(xml, pos, "<![CDATA[")) // Unescaped text
+      {
+         int64 end = xml.indexOf("]]>", pos + 9);
+         if(end < 0)end = length;
+         for(int64 index = pos + 9; index < end; index++)token.append(xml.charAt(index));
+         pos = end + 3;
+         continue;
+      }
+      else if(c == '<' && inTag == false && isAt(xml, pos, "<?")) // Processing instruction
+      {
+         reportText(token);
+         int64 end = xml.indexOf("?>", pos + 2);
+         if(end < 0)end = length;
+         int64 sep = pos + 2;
+         while(sep < end && !xml.charAt(sep).isWhitespace())sep++;
+         const String target = xml.substring(pos + 2, sep);
+         while(sep < end && xml.charAt(sep).isWhitespace())sep++;
+         // The XML declaration is not a processing instruction
+         if(!target.equals("xml"))processingInstruction(target, xml.substring(sep, end));
+         pos = end + 2;
+         continue;
+      }
+      else if(c == '<' && inTag == false && isAt(xml, pos, "<!DOCTYPE")) // Document type
+      {
+         reportText(token);
+         pos = skipDocType(xml, pos);
+         continue;
+      }
+      else if(c == '<' && inTag == false && inValue == false) // Found beginning of a tag.
       {
          inTag = true;
-         // Outputs characters: TODO: IgnorableWhitespaces muss hier noch berücksichtigt werden.
-         if(token.size() > 0)
-         {
-            String beginWhitespaces;
-            String endWhiteSpaces;
-
-            // Cut whitespaces at the beginning
-            int64 sub = 0;
-            while(sub < token.size() && token.charAt(sub).isWhitespace())
-            {
-               beginWhitespaces.append(token.charAt(sub));
-               sub++;
-            }
-            if(beginWhitespaces.size() > 0)
-            {
-               // Direct assignment would change the length of tokens. Hence this detour
-               const String tmp = token.substring(beginWhitespaces.size());
-               token.zero();
-               token.append(tmp);
-            }
-
-            // Cut off whitespaces at the end
-            sub = token.size() - 1;
-            while(sub >= 0 && sub < token.size() && token.charAt(sub).isWhitespace())
-            {
-               endWhiteSpaces.insert(0, token.charAt(sub));
-               sub--;
-            }
-            if(endWhiteSpaces.size() > 0)
-            {
-               // Direct assignment would change the length of tokens. Hence this detour
-               const String tmp = token.substring(0, token.size() - endWhiteSpaces.size());
-               token.zero();
-               token.append(tmp);
-            }
-
-            if(beginWhitespaces.size() > 0)
-            {
-               token.insert(0, beginWhitespaces.charAt(beginWhitespaces.size() - 1));
-               beginWhitespaces.deleteCharAt(beginWhitespaces.size() - 1);
-            }
-
-            if(endWhiteSpaces.size() > 0)
-            {
-               token.append(endWhiteSpaces.charAt(0));
-               endWhiteSpaces.deleteCharAt(0);
-            }
-
-            // Call parsing methods
-            if(beginWhitespaces.size() > 0)ignorableWhiteSpaces(beginWhitespaces);
-            if(token.size() > 0)characters(token);
-            if(endWhiteSpaces.size() > 0)ignorableWhiteSpaces(endWhiteSpaces);
-         }
-
-         token.zero();
+         reportText(token);
       }
       else if(c == '&' && inTag == false)
       {
@@ -219,6 +247,65 @@ void SAXParser::parse(const String& xml)
    endDocument();
 }
 
+void SAXParser::reportText(String& token)
+{
+   // Outputs characters: TODO: IgnorableWhitespaces muss hier noch berücksichtigt werden.
+   if(token.size() > 0)
+   {
+      String beginWhitespaces;
+      String endWhiteSpaces;
+
+      // Cut whitespaces at the beginning
+      int64 sub = 0;
+      while(sub < token.size() && token.charAt(sub).isWhitespace())
+      {
+         beginWhitespaces.append(token.charAt(sub));
+         sub++;
+      }
+      if(beginWhitespaces.size() > 0)
+      {
+         // Direct assignment would change the length of tokens. Hence this detour
+         const String tmp = token.substring(beginWhitespaces.size());
+         token.zero();
+         token.append(tmp);
+      }
+
+      // Cut off whitespaces at the end
+      sub = token.size() - 1;
+      while(sub >= 0 && sub < token.size() && token.charAt(sub).isWhitespace())
+      {
+         endWhiteSpaces.insert(0, token.charAt(sub));
+         sub--;
+      }
+      if(endWhiteSpaces.size() > 0)
+      {
+         // Direct assignment would change the length of tokens. Hence this detour
+         const String tmp = token.substring(0, token.size() - endWhiteSpaces.size());
+         token.zero();
+         token.append(tmp);
+      }
+
+      if(beginWhitespaces.size() > 0)
+      {
+         token.insert(0, beginWhitespaces.charAt(beginWhitespaces.size() - 1));
+         beginWhitespaces.deleteCharAt(beginWhitespaces.size() - 1);
+      }
+
+      if(endWhiteSpaces.size() > 0)
+      {
+         token.append(endWhiteSpaces.charAt(0));
+         endWhiteSpaces.deleteCharAt(0);
+      }
+
+      // Call parsing methods
+      if(beginWhitespaces.size() > 0)ignorableWhiteSpaces(beginWhitespaces);
+      if(token.size() > 0)characters(token);
+      if(endWhiteSpaces.size() > 0)ignorableWhiteSpaces(endWhiteSpaces);
+   }
+
+   token.zero();
+}
+
 void SAXParser::parseTagString(const String& xmlline)
 {
    String line = xmlline;
-- 
2.43.0


From cc280c47bd31b2b2cfea0006c90274ba33fafc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 080/181] fix: XMLWriter wrote line ends and tabs that a parser
 does not give back

---
 include/core/XMLWriter.h |  2 +-
 src/core/XMLWriter.cpp   | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/core/XMLWriter.h b/include/core/XMLWriter.h
index 26f83f2..3550448 100644
--- a/include/core/XMLWriter.h
+++ b/include/core/XMLWriter.h
@@ -201,7 +201,7 @@ namespace jm
 
          Stack<ElementInfo>* mOpenElements;
 
-         String Encode(const String& input);
+         String Encode(const String& input, bool attribute = false);
 
          void WriteIndent();
    };
diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 2520426..4083eef 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -162,10 +162,10 @@ void XMLWriter::writeCData(const jm::String& cdata, bool xmlencode)
    mLastIndent = false;
 }
 
-jm::String XMLWriter::Encode(const jm::String& input)
+jm::String XMLWriter::Encode(const jm::String& input, bool attribute)
 {
    jm::String encoded;
-   jm::StringTokenizer st = jm::StringTokenizer(input, "&<>\"'", true);
+   jm::StringTokenizer st = jm::StringTokenizer(input, "&<>\"'\r\n\t", true);
 
    while(st.hasNext())
    {
@@ -176,6 +176,10 @@ jm::String XMLWriter::Encode(const jm::String& input)
       else if(token.equals(">"))encoded.append("&gt;");
       else if(token.equals("\""))encoded.append("&quot;");
       else if(token.equals("'"))encoded.append("&apos;");
+      // A parser normalizes line ends in text and every whitespace in attributes
+      else if(token.equals("\r"))encoded.append("&#13;");
+      else if(attribute && token.equals("\n"))encoded.append("&#10;");
+      else if(attribute && token.equals("\t"))encoded.append("&#9;");
       else encoded.append(token);
    }
    return encoded;
@@ -208,7 +212,7 @@ void XMLWriter::writeAttribute(const jm::String& name, const jm::String& content
    mOutput->write(" ");
    mOutput->write(name);
    mOutput->write("=\"");
-   mOutput->write(Encode(content));
+   mOutput->write(Encode(content, true));
    mOutput->write("\"");
    mLastIndent = false;
 }
-- 
2.43.0


From 88cd9fc746b90b42676e30e056c37b6a7cde50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 081/181] fix: Preferences changed line breaks, backslashes and
 outer blanks of stored values

---
 src/core/Preferences.cpp | 130 ++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 56 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb03d1a..06d21bc 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -33,6 +33,77 @@
 
 using namespace jm;
 
+// Masks the characters of the text, which have a meaning in the properties file. White space at the
+// begin and at the end is masked as well, because it would be cut off while reading.
+static String escaped(const String& text)
+{
+   static const char* kDigits = "0123456789abcdef";
+   String result;
+
+   for(int64 index = 0; index < text.size(); index++)
+   {
+      const Char c = text.charAt(index);
+
+      if(c == '\\')result.append("\\\\");
+      else if(c == '\t')result.append("\\t");
+      else if(c == '\n')result.append("\\n");
+      else if(c == '\r')result.append("\\r");
+      else if(c.isWhitespace() && (index == 0 || index == text.size() - 1))
+      {
+         result.append("\\u");
+         for(int32 shift = 12; shift >= 0; shift -= 4)
+         {
+            result.append(Char(kDigits[(c.unicode() >> shift) & 0xF]));
+         }
+      }
+      else result.append(c);
+   }
+
+   return result;
+}
+
+// Reverts the function escaped().
+static String unescaped(const String& text)
+{
+   String result;
+
+   for(int64 index = 0; index < text.size(); index++)
+   {
+      Char c = text.charAt(index);
+
+      if(c == '\\' && index + 1 < text.size())
+      {
+         const Char d = text.charAt(index + 1);
+         int64 used = 1;
+
+         if(d == '\\')c = '\\';
+         else if(d == 't')c = '\t';
+         else if(d == 'n')c = '\n';
+         else if(d == 'r')c = '\r';
+         else if(d == 'u' && index + 5 < text.size())
+         {
+            uint16 code = 0;
+            used = 5;
+            for(int64 digit = index + 2; digit < index + 6; digit++)
+            {
+               const uint16 h = text.charAt(digit).unicode();
+               if(h >= '0' && h <= '9')code = uint16(code * 16 + (h - '0'));
+               else if(h >= 'a' && h <= 'f')code = uint16(code * 16 + (h - 'a' + 10));
+               else used = 0;
+            }
+            if(used == 5)c = Char(code);
+         }
+         else used = 0;
+
+         index += used;
+      }
+
+      result.append(c);
+   }
+
+   return result;
+}
+
 Preferences::Preferences(): Hashtable()
 {
 }
@@ -77,35 +148,7 @@ void Preferences::load(File file)
          String key = line.substring(0, pos).trim();
          String value = line.substring(pos + 1).trim();
 
-         //Prüfe auf Zeilenumbruch
-         while((pos = value.indexOf("\\n")) > 0)
-         {
-            value = value.substring(0, pos) + "\n" + value.substring(pos + 2);
-         }
-
-         //Ersetze
-         int64 index = 0;
-         while(index < value.size())
-         {
-            Char c = value.charAt(index);
-
-            if(c == '\\' && index + 1 < value.size())
-            {
-               Char d = value.charAt(index + 1);
-               if(d == 't')
-               {
-                  value.setCharAt(index, '\t');
-                  value.deleteCharAt(index + 1);
-               }
-               if(d == '\\')
-               {
-                  value.deleteCharAt(index + 1);
-               }
-            }
-            index++;
-         }
-
-         setValue(key, value);
+         setValue(key, unescaped(value));
       }
    }
    delete st;
@@ -136,28 +179,7 @@ void Preferences::save(File file)
       while(keyiter->hasNext())
       {
          String key = *static_cast<String*>(keyiter->next());
-         String val = value(key);
-
-         //Ersetzungen
-         //Ersetze
-         uint32 index = 0;
-         while(index < val.size())
-         {
-            Char c = val.charAt(index);
-
-            if(c == '\\')
-            {
-               val.insert(index + 1, '\\');
-               index++;
-            }
-            else if(c == '\t')
-            {
-               val.setCharAt(index, '\\');
-               val.insert(index + 1, 't');
-               index++;
-            }
-            index++;
-         }
+         String val = escaped(value(key));
 
          //Zeile bilden
          key.append('=');
@@ -193,11 +215,7 @@ bool Preferences::hasValue(const String& key)const
 
 void Preferences::setValue(const String& key, const String& value)
 {
-   String tmp = value;
-   tmp = tmp.replace("\r\n", "\\n");
-   tmp = tmp.replace("\r", "\\n");
-   tmp = tmp.replace("\n", "\\n");
-   String* actual = new String(tmp);
+   String* actual = new String(value);
    String* old = static_cast<String*>(put(key, actual));
    if(old != nullptr)delete old;
 }
-- 
2.43.0


From 528f01ceb1cec3d2518a78f4fe1edcc717a70667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 082/181] fix: Preferences::value replaced a stored empty value
 by the default

---
 src/core/I18nBundle.cpp  | 5 ++++-
 src/core/Preferences.cpp | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 5eb4f0b..0d16e95 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -126,7 +126,10 @@ void I18nBundle::appendMo(Stream* file)
 
 String I18nBundle::translate(const String& key) const
 {
-   return value(key, key);
+   // An empty translation means: not translated
+   const String translation = value(key, key);
+   if(translation.isEmpty())return key;
+   return translation;
 }
 
 
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 06d21bc..3df3bd2 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -245,7 +245,7 @@ String Preferences::value(const String& key) const
 String Preferences::value(const String& key, String const& defaultValue) const
 {
    const String* result = static_cast<String*>(get(key));
-   if(result == nullptr || result->isEmpty())return defaultValue;
+   if(result == nullptr)return defaultValue;
    return *result;
 }
 
-- 
2.43.0


From bf68f3f2bf7faa9322756d0bfd5c3c18ca55c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 083/181] fix: I18nBundle::appendMo read outside of damaged
 translation files

---
 src/core/I18nBundle.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 0d16e95..4beb4a7 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -72,6 +72,11 @@ void I18nBundle::appendMo(Stream* file)
    uint8* buffer = (uint8*)buf.constData();
 
    // Process content
+   if(length < 20)
+   {
+      System::log(Tr("Translation file incomplete"), LogLevel::kError);
+      return;
+   }
    uint32 magic = jm::deserializeLEUInt32(buffer, 0);
    uint32 version = jm::deserializeLEUInt32(buffer, 4);
    uint32 stringCount = jm::deserializeLEUInt32(buffer, 8);
@@ -89,6 +94,14 @@ void I18nBundle::appendMo(Stream* file)
       return;
    }
 
+   // Both tables must be part of the file
+   const int64 tableLength = int64(stringCount) * 8;
+   if(origOffset + tableLength > length || transOffset + tableLength > length)
+   {
+      System::log(Tr("Translation file incomplete"), LogLevel::kError);
+      return;
+   }
+
    struct Record
    {
       uint32 origOffset = 0;
@@ -111,6 +124,13 @@ void I18nBundle::appendMo(Stream* file)
 
       offset += 8;
 
+      if(int64(rec.origOffset) + rec.origLength > length
+         || int64(rec.transOffset) + rec.transLength > length)
+      {
+         System::log(Tr("Translation file incomplete"), LogLevel::kError);
+         return;
+      }
+
       records.push_back(rec);
    }
 
-- 
2.43.0


From ed89d21d7eeddf4dc44c630096c53e197e229803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 084/181] fix: setting a member to NaN did not fail the
 transaction

---
 src/core/EditableObject.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/EditableObject.cpp b/src/core/EditableObject.cpp
index 708ea33..75a2822 100644
--- a/src/core/EditableObject.cpp
+++ b/src/core/EditableObject.cpp
@@ -87,11 +87,16 @@ Status EditableObject::setMember(int64* pointer,
 
 Status EditableObject::setMember(double* pointer, double value)
 {
-   if(isNaN(value))return Status::eInvalidInput;
    if(value == *pointer)return Status::eNotChanged;
 
    UndoManager* um = nullptr;
    if(mDocument != nullptr)um = mDocument->undoManager();
+   if(isNaN(value))
+   {
+      Status status = Status::eInvalidInput;
+      if(um != nullptr)um->registerTransactionStatus(status);
+      return status;
+   }
    if(um != nullptr)um->registerChange(this, pointer);
    *pointer = value;
    return Status::eOK;
-- 
2.43.0


From 1cdbccb793f6331aabd2a0c8a2a13779b7298e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 085/181] fix: registering a change of a buffer threw instead
 of recording it

---
 include/core/UndoData.h |  2 ++
 src/core/UndoChange.cpp | 35 +++++++++++++----------------------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/include/core/UndoData.h b/include/core/UndoData.h
index ed002b2..8d17df8 100644
--- a/include/core/UndoData.h
+++ b/include/core/UndoData.h
@@ -576,6 +576,8 @@ namespace jm
 
          UndoChangeBuffer(Object* object, uint8** ptr, uint64 length);
 
+         ~UndoChangeBuffer() override;
+
          /*!
           \copydoc UndoChange::swap()
           */
diff --git a/src/core/UndoChange.cpp b/src/core/UndoChange.cpp
index c94cec2..2b62756 100644
--- a/src/core/UndoChange.cpp
+++ b/src/core/UndoChange.cpp
@@ -414,35 +414,26 @@ UndoChangeBuffer::UndoChangeBuffer(Object* object, uint8** pointer,
                                    uint64 length): UndoChange(object)
 {
    mLength = length;
-   if(length <= 8)
-   {
-      mPointer = pointer;
-      //memcpy( &*mValue, *pointer, length );
-      mValue = *pointer;
-   }
-   else
-   {
-      mPointer = pointer;
-      mValue = new uint8[length];
-      memcpy(mValue, *pointer, length);
-   }
-   throw Exception("Undo not implemented");
+   mPointer = pointer;
+   mValue = new uint8[length];
+   if(length > 0)memcpy(mValue, *pointer, length);
+}
 
+UndoChangeBuffer::~UndoChangeBuffer()
+{
+   delete[] mValue;
 }
 
 void UndoChangeBuffer::swap()
 {
-   uint8* tmpValue = new uint8[mLength];
-
-   memcpy(tmpValue, *mPointer, mLength);
-   //memcpy(*mPointer, mValue,mLength);
-   //memcpy(mValue, tmpValue, mLength);
-
-   delete[] tmpValue;
+   for(uint64 index = 0; index < mLength; index++)
+   {
+      uint8 tmp = (*mPointer)[index];
+      (*mPointer)[index] = mValue[index];
+      mValue[index] = tmp;
+   }
 
    UndoChange::swap();
-   throw Exception("Undo not implemented");
-
 }
 
 UndoRegenerationMarker::UndoRegenerationMarker(EditableObject* object): UndoChange(object)
-- 
2.43.0


From 460f9b39465839c08903d561505b11244a89c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 086/181] fix: undo and redo inside of an open transaction
 broke its rollback

---
 src/core/UndoManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2d047fd..036e034 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -82,7 +82,7 @@ bool UndoManager::hasOpenUndoStep() const
 
 bool UndoManager::undo()
 {
-   if(mOpen)return false;
+   if(mOpen || mTransactionLevel > 0)return false;
    if(mUndoStack == nullptr)return false;
    mUndoing = true;
 
@@ -114,7 +114,7 @@ bool UndoManager::undo()
 
 bool UndoManager::redo()
 {
-   if(mOpen) return false;
+   if(mOpen || mTransactionLevel > 0) return false;
    if(mRedoStack == nullptr)return false;
    mUndoing = true;
 
-- 
2.43.0


From 53df63fcfcd85531bbcb28d28a26197438537593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 087/181] fix: UndoManager leaked the changes of an open
 transaction

---
 src/core/UndoManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 036e034..5745840 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -58,6 +58,7 @@ UndoManager::~UndoManager()
 {
    clearStacks();
    delete mCurrent;
+   delete mTransaction;
 }
 
 void UndoManager::setDocument(Document* document)
-- 
2.43.0


From d7e8ba7306a731844dd76bd3cc031e389ec9f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 088/181] fix: elements of a LinkedList leaked after undoing
 their insertion

---
 src/core/LinkedList.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 699ae69..9430efa 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -133,6 +133,7 @@ void LinkedList::add(LListElement* item, UndoManager* um)
       if(listStart == nullptr)um->registerChange(this, reinterpret_cast<Object * *>(&listStart));
       um->registerChange(this, reinterpret_cast<Object**>(&listEnd));
       um->registerChange(this, &count);
+      um->registerRetain(item);
    }
 
    item->prev = listEnd;
@@ -190,6 +191,7 @@ void LinkedList::addBefore(LListElement* addBeforeThis, LListElement* itemToAdd,
       if(addBeforeThis->prev != nullptr)um->registerChange(addBeforeThis,
                (Object* *) & (addAfterThis->next));
       um->registerChange(this, &count);
+      um->registerRetain(itemToAdd);
    }
 
    //Listenanfang anpassen
-- 
2.43.0


From de468f18754271228548d18e35669504edd90e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:21 +0000
Subject: [PATCH 089/181] fix: copying or assigning an Object copied its
 reference count

---
 include/core/Object.h | 10 ++++++++++
 src/core/Object.cpp   | 13 +++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/core/Object.h b/include/core/Object.h
index cea0532..cb75840 100644
--- a/include/core/Object.h
+++ b/include/core/Object.h
@@ -54,6 +54,16 @@ namespace jm
           */
          Object() noexcept;
 
+         /*!
+          \brief Copy constructor. The reference counter of the new object starts with 1.
+         */
+         Object(const Object& other) noexcept;
+
+         /*!
+          \brief Assignment. The reference counter of this object remains unchanged.
+         */
+         Object& operator=(const Object& other) noexcept;
+
          /*!
           \brief Destructor.
           */
diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..ff9308e 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -41,6 +41,19 @@ Object::Object() noexcept:
    //mRefCount=2;
 }
 
+Object::Object(const Object&) noexcept:
+   mRefCount(1),
+   mPool(System::autoreleasePool())
+{
+   // The copy is a new object with its own owners
+}
+
+Object& Object::operator=(const Object&) noexcept
+{
+   // The owners of this object are not changed by assigning a new value
+   return *this;
+}
+
 Object::~Object() noexcept
 {
    mPool = nullptr;
-- 
2.43.0


From af7b17c4ccc563164402a957973347bc530be3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 090/181] fix: flag and reference count of an object were
 changed without a common lock

---
 src/core/Object.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ff9308e..50ac031 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -68,7 +68,7 @@ void Object::release() noexcept
 
    mutex->lock();
    mRefCount--;
-   count = referenceCount();
+   count = mRefCount & 0x7FFFFFFF;
    mutex->unlock();
 
    if(count == 0)
@@ -83,6 +83,9 @@ void Object::release() noexcept
 
 Object* Object::retain() noexcept
 {
+   // Objects created before System::init() are not reference counted
+   if(mPool == nullptr)return this;
+
    Mutex* mutex = mPool->mutex();
    mutex->lock();
    mRefCount++;
@@ -92,13 +95,19 @@ Object* Object::retain() noexcept
 
 Object* Object::autorelease() noexcept
 {
-   mPool->add(this);
+   if(mPool != nullptr)mPool->add(this);
    return this;
 }
 
 int32 Object::referenceCount() const noexcept
 {
-   return mRefCount & 0x7FFFFFFF;
+   if(mPool == nullptr)return mRefCount & 0x7FFFFFFF;
+
+   Mutex* mutex = mPool->mutex();
+   mutex->lock();
+   int32 count = mRefCount & 0x7FFFFFFF;
+   mutex->unlock();
+   return count;
 }
 
 bool Object::equals(const Object*) const
@@ -118,10 +127,20 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
-   mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   // The flag shares its storage with the reference counter, which other threads may change
+   Mutex* mutex = mPool != nullptr ? mPool->mutex() : nullptr;
+   if(mutex != nullptr)mutex->lock();
+   mRefCount = (mRefCount & 0x7FFFFFFF) | (status ? 0x80000000 : 0x00000000);
+   if(mutex != nullptr)mutex->unlock();
 }
 
 bool Object::highBit()const noexcept
 {
-   return (mRefCount & 0x80000000) != 0;
+   if(mPool == nullptr)return (mRefCount & 0x80000000) != 0;
+
+   Mutex* mutex = mPool->mutex();
+   mutex->lock();
+   bool status = (mRefCount & 0x80000000) != 0;
+   mutex->unlock();
+   return status;
 }
-- 
2.43.0


From 0ceee2f4790e67f6041448cc2c2192ae2cec3ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 091/181] fix: autorelease in the destructor of a drained
 object blocked forever

---
 src/core/AutoreleasePool.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index cdf32a9..b8cae7a 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -46,8 +46,8 @@ AutoreleasePool::AutoreleasePool(): Object()
 
 AutoreleasePool::~AutoreleasePool()
 {
-   // Cleanup autorelease
-   drain();
+   // Cleanup autorelease, also of objects which are added by the destructors of released objects
+   while(mPool->next != nullptr)drain();
 
    // Delete dummy
    delete mPool;
@@ -55,8 +55,12 @@ AutoreleasePool::~AutoreleasePool()
 
 void AutoreleasePool::drain()
 {
+   // Take the entries out of the pool first: the destructor of a released object may add another one
    mPoolMutex.lock();
    PoolEntry* pool = mPool->next;
+   mTop = mPool;
+   mPool->next = nullptr;
+   mPoolMutex.unlock();
 
    while(pool != nullptr)
    {
@@ -67,10 +71,6 @@ void AutoreleasePool::drain()
       delete pool;
       pool = next;
    }
-
-   mTop = mPool;
-   mPool->next = nullptr;
-   mPoolMutex.unlock();
 }
 
 void AutoreleasePool::add(Object* object)
-- 
2.43.0


From eb2140999ee3d8a98eaeb9f51905e7f506cb68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 092/181] fix: interrupt of a thread was lost before its body
 ran or slept, and joined twice

---
 include/core/Thread.h |  3 +++
 src/core/Thread.cpp   | 30 +++++++++++++++++-------------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/core/Thread.h b/include/core/Thread.h
index f314b43..46b66cd 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -72,6 +72,9 @@ namespace jm
          pthread_mutex_t criticalSection;
          pthread_mutexattr_t attra;
 
+         //! Status indicating whether the thread was started and interrupt() did not wait for it yet.
+         bool joinable;
+
          #elif defined _WIN32
 
          unsigned long mThreadID;
diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..5a0f9d6 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -39,10 +39,6 @@ void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
 
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -53,10 +49,6 @@ DWORD WINAPI StartThread(LPVOID lpParameter)
 {
    Thread* t = (Thread*)lpParameter;
 
-   EnterCriticalSection((CRITICAL_SECTION*)t->mCriticalSection);
-   t->alive = true;
-   LeaveCriticalSection((CRITICAL_SECTION*)t->mCriticalSection);
-
    t->run();
    CloseHandle(t->mHandle);
    return 0;
@@ -68,9 +60,11 @@ DWORD WINAPI StartThread(LPVOID lpParameter)
 
 Thread::Thread(): jm::Object()
 {
+   alive = false;
+
    #if defined __APPLE__ || defined __linux__
    thread = 0;
-   alive = false;
+   joinable = false;
    pthread_condattr_init(&attrc);
    pthread_cond_init(&cond, &attrc);
 
@@ -96,11 +90,19 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+   // The new thread is alive before it runs, so that an early interrupt() is not lost.
+   pthread_mutex_lock(&criticalSection);
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
+   alive = ret == 0;
+   joinable = ret == 0;
+   pthread_mutex_unlock(&criticalSection);
    if(ret != 0)throw Exception("Error on starting Thread");
    #elif defined _WIN32
    void* arg = (void*)this;
+   EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
+   alive = mHandle != nullptr;
+   LeaveCriticalSection((CRITICAL_SECTION*)mCriticalSection);
    if(mHandle == nullptr)throw Exception("Error on starting Thread");
 
    #endif
@@ -125,7 +127,7 @@ void Thread::sleep(int64 millis)
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_timedwait(&cond, &criticalSection, &ts);
+   if(alive)pthread_cond_timedwait(&cond, &criticalSection, &ts);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    ::Sleep(millis);
@@ -154,7 +156,7 @@ void Thread::sleep()
 {
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_wait(&cond, &criticalSection);
+   if(alive)pthread_cond_wait(&cond, &criticalSection);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    //	EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
@@ -177,9 +179,11 @@ void Thread::interrupt()
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
    alive = false;
-   pthread_mutex_unlock(&criticalSection);
+   bool join = joinable;
+   joinable = false;
    pthread_cond_signal(&cond);
-   pthread_join(thread, nullptr);
+   pthread_mutex_unlock(&criticalSection);
+   if(join)pthread_join(thread, nullptr);
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
    #endif
-- 
2.43.0


From 33fdb6fbe6ed6a4b337a454996dc948add4727f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 093/181] fix: last error message was read while other threads
 may change it

---
 include/core/System.h | 2 +-
 src/core/System.cpp   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/core/System.h b/include/core/System.h
index 0989ea2..ae13bd5 100644
--- a/include/core/System.h
+++ b/include/core/System.h
@@ -124,7 +124,7 @@ namespace jm
          /*!
           \brief Returns the last error message
           */
-         static const String& lastErrorMessage();
+         static String lastErrorMessage();
 
          /*!
           \brief This method loads a dynamic library. On macOS *.dylib, Windows *.dll, and Linux *.so
diff --git a/src/core/System.cpp b/src/core/System.cpp
index 802ca29..c9fb004 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -184,9 +184,12 @@ void jm::System::log(const String& message, LogLevel logLevel)
    gSystemMutex.unlock();
 }
 
-const jm::String& jm::System::lastErrorMessage()
+jm::String jm::System::lastErrorMessage()
 {
-   return gSystemError;
+   gSystemMutex.lock();
+   jm::String message = gSystemError;
+   gSystemMutex.unlock();
+   return message;
 }
 
 
-- 
2.43.0


From 6cb78a3b3861686afb681da1b397ab1f4ee71571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:09 +0000
Subject: [PATCH 094/181] fix: Windows-1252 wrote control characters for
 characters it does not have, which cut log lines

---
 src/core/Windows1252Decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index 8e6b90e..582b909 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -197,7 +197,8 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             break;
 
          default:
-            cstring[a] = (uint8)string.buffer[a].unicode();
+            // Characters which do not exist in this character set become a question mark
+            cstring[a] = string.buffer[a].unicode() < 0x100 ? (uint8)string.buffer[a].unicode() : (uint8)'?';
       }
    }
 
-- 
2.43.0


From 161fe425a4ba563c141a147b44d7ce6bc4ebcbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 095/181] fix: day of week was negative before 1970

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From 9019b4b84ea92b96ca174a2bb3d7b7cc9a587ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 096/181] fix: DateFormatter took letters before a quoted text
 for a part of that text

---
 src/core/DateFormatter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8b9173e..dc55eca 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -52,7 +52,18 @@ DateFormatter::DateFormatter(const String& pattern): Object()
       if(c == '\'')
       {
          inText = !inText;
-         if(inText)isText = true;
+         if(inText)
+         {
+            // The letters before the quoted text are a pattern of their own
+            if(token.size() > 0)
+            {
+               Pattern* tpattern = new Pattern(token);
+               mLast->next = tpattern;
+               mLast = tpattern;
+               token.clear();
+            }
+            isText = true;
+         }
          else if(isText)
          {
             Pattern* tpattern = new Pattern(token, true);
@@ -86,7 +97,7 @@ DateFormatter::DateFormatter(const String& pattern): Object()
 
    if(token.size() > 0)
    {
-      Pattern* tpattern = new Pattern(token);
+      Pattern* tpattern = new Pattern(token, inText);
       mLast->next = tpattern;
       mLast = tpattern;
    }
-- 
2.43.0


From 6990242aa141de47da8acf82b29d6c0d4c0a5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 097/181] fix: DateFormatter misspelled the month September

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index dc55eca..8a4bf8a 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -475,7 +475,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
 
                case Date::SEPTEMBER:
-                  value.append(Tr("Septemper"));
+                  value.append(Tr("September"));
                   return;
 
                case Date::OCTOBER:
-- 
2.43.0


From d3dfac27c2458fe539de603d5df07cf2b6677b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 098/181] fix: diff reported wrong objects for deleted, added
 and modified elements

---
 src/core/DiffBacktrace.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 246c60a..b6eab08 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -155,8 +155,8 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
 
          case DiffOperation::kDiffModified:
             //			ret->last=Backtrace(diag,i-1);
-            ret->mObj1 = diag->objectU(i);
-            ret->mObj2 = diag->objectV(i);
+            ret->mObj1 = diag->offset() >= 0 ? diag->objectU(i) : diag->objectV(i);
+            ret->mObj2 = diag->offset() >= 0 ? diag->objectV(i) : diag->objectU(i);
             i--;
             break;
 
@@ -177,7 +177,7 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             else
             {
                //				ret->last=Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);   // the lower half has the sequences switched
                diag = diag->above();
                i--;
             }
@@ -187,14 +187,14 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             if(diag->offset() == 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
             else if(diag->offset() >= 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
-- 
2.43.0


From 4259711637759f9297fbee50eae8bfc152b5d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 099/181] fix: deleting a long edit script exhausted the stack

---
 src/core/DiffBacktrace.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index b6eab08..a176730 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -55,13 +55,14 @@ DiffBacktrace::DiffBacktrace(const DiffBacktrace& another)
 
 DiffBacktrace::~DiffBacktrace()
 {
-
-   if(mNext != nullptr)
+   // Long scripts must not be deleted recursively
+   while(mNext != nullptr)
    {
-      delete mNext;
-      mNext = nullptr;
+      DiffBacktrace* next = mNext;
+      mNext = next->mNext;
+      next->mNext = nullptr;
+      delete next;
    }
-
 }
 
 
-- 
2.43.0


From 9d56fc8538ef0bd697329bbe618bb5902a7187f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 100/181] fix: diff leaked the diagonals of its matrix

---
 include/core/DiffDistance.h |  3 +++
 src/core/DiffDiag.cpp       | 11 +++++++++++
 src/core/DiffDistance.cpp   | 11 ++++++-----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/core/DiffDistance.h b/include/core/DiffDistance.h
index 91bf8b7..e1ab574 100644
--- a/include/core/DiffDistance.h
+++ b/include/core/DiffDistance.h
@@ -120,6 +120,9 @@ namespace jm
           */
          DiffDiag* mDiagonal;
 
+         //! The main diagonal, it owns all the others
+         DiffDiag* mMain;
+
          /*!
           \brief Number of rows.
           */
diff --git a/src/core/DiffDiag.cpp b/src/core/DiffDiag.cpp
index 2581474..7f28f91 100644
--- a/src/core/DiffDiag.cpp
+++ b/src/core/DiffDiag.cpp
@@ -51,6 +51,17 @@ DiffDiag::~DiffDiag()
 {
    mElements->clear();
    delete mElements;
+
+   while(mAbove != nullptr)
+   {
+      DiffDiag* diag = mAbove;
+      mAbove = diag->mAbove;
+      diag->mAbove = nullptr;
+      delete diag;
+   }
+
+   // Only the main diagonal owns the one below, for all the others it is the way back
+   if(mOffset == 0)delete mBelow;
 }
 
 
diff --git a/src/core/DiffDistance.cpp b/src/core/DiffDistance.cpp
index 1cfd0cb..94cb91a 100644
--- a/src/core/DiffDistance.cpp
+++ b/src/core/DiffDistance.cpp
@@ -39,6 +39,7 @@ DiffDistance::DiffDistance()
    mRows = 0;
    mCols = 0;
    mDiagonal = nullptr;
+   mMain = nullptr;
    mDistance = 0;
    calc = 0;
    u = new std::vector<Object*>();
@@ -54,11 +55,9 @@ DiffDistance::~DiffDistance()
 
 void DiffDistance::clear()
 {
-   if(mDiagonal != nullptr)
-   {
-      delete mDiagonal;
-      mDiagonal = nullptr;
-   }
+   delete mMain;
+   mMain = nullptr;
+   mDiagonal = nullptr;
    u->clear();
    v->clear();
    mDistance = 0;
@@ -93,7 +92,9 @@ DiffBacktrace* DiffDistance::solve()
    // which is the diagonal containing the bottom R.H. element?
    int64 lba = v->size() - u->size();
 
+   delete mMain;
    DiffDiag* main = new DiffDiag(this, u, v, 0);
+   mMain = main;
 
 
    if(lba >= 0)
-- 
2.43.0


From 4b3ef6d3040534073904fdd6206bd373153bb55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 101/181] fix: fixed-point text of numbers which are not finite
 or too big was undefined

---
 src/core/String.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index ef47458..be4f9c8 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1070,6 +1070,9 @@ String String::valueOf(double number)
 
 String String::valueOf(double number, int64 precision, bool trunc)
 {
+   // There are no digits before the decimal separator for these
+   if(!std::isfinite(number) || std::fabs(number) >= 18446744073709551615.0)return valueOf(number);
+
    bool neg = number < 0.0;
    uint64 before = static_cast<uint64>(std::fabs(number));
 
-- 
2.43.0


From 369a83b62d184dbe4012914d8edd52f71bdb5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 102/181] fix: floating-point numbers were read from unaligned
 addresses, in the byte order of the host

---
 src/core/Serializer.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/Serializer.cpp b/src/core/Serializer.cpp
index cffc982..2468119 100644
--- a/src/core/Serializer.cpp
+++ b/src/core/Serializer.cpp
@@ -305,15 +305,25 @@ int16 jm::serializeLEFloat(uint8* buffer, uint32 offset, float value)
 
 double jm::deserializeLEDouble(uint8* buffer, uint32 offset)
 {
-   return *(double*)&buffer[offset];
+   // The address may be unaligned
+   int64 bits = deserializeLEInt64(buffer, offset);
+   double value;
+   memcpy(&value, &bits, sizeof(value));
+   return value;
 }
 
 double jm::deserializeLEDouble(const jm::ByteArray& buffer, int64 offset)
 {
-   return *(double*)&buffer.constData()[offset];
+   int64 bits = deserializeLEInt64(buffer, offset);
+   double value;
+   memcpy(&value, &bits, sizeof(value));
+   return value;
 }
 
 float jm::deserializeLEFloat(uint8* buffer, uint32 offset)
 {
-   return *(float*)&buffer[offset];
+   uint32 bits = deserializeLEUInt32(buffer, offset);
+   float value;
+   memcpy(&value, &bits, sizeof(value));
+   return value;
 }
-- 
2.43.0


From 235401c23d3756bc888819e6e1d9cc2f85783e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 103/181] fix: matrix sum and difference need operands of the
 same shape

The check of the product was used: 2x3 + 2x3 was refused, 2x3 + 3x4 read outside of both operands.
---
 src/core/Matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index eacf59e..fb7ed20 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -910,8 +910,8 @@ const Matrix jm::operator*(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
@@ -935,8 +935,8 @@ const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator-(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
-- 
2.43.0


From 33160aa343f41ff2976ba103413567e86891a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 104/181] fix: re-initialising a matrix leaked its old elements

---
 include/core/Matrix.h | 2 +-
 src/core/Matrix.cpp   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/core/Matrix.h b/include/core/Matrix.h
index 39edc68..a63e832 100644
--- a/include/core/Matrix.h
+++ b/include/core/Matrix.h
@@ -364,7 +364,7 @@ namespace jm
           \brief This field stores the data. In analogy to the OpenGL storage convention, the data
           is stored column by column.
           */
-         double* data;
+         double* data = nullptr;
 
          void init(int64 rows, int64 cols);
    };
diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index fb7ed20..fcd54e3 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -130,6 +130,7 @@ Matrix::~Matrix()
 
 void Matrix::init(int64 rows, int64 cols)
 {
+   if(data != nullptr)delete[] data;
    m = rows;
    n = cols;
    data = new double[m * n];
-- 
2.43.0


From f7a4e240d8adadfdbdc94a7418828c000c350e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 105/181] fix: eigenvalues of a symmetric 2x2 matrix were NaN
 if rounding made the discriminant negative

---
 src/core/Matrix.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index fcd54e3..b44517b 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -543,9 +543,8 @@ Vector Matrix::eigen() const
       Vector v = Vector(2);
 
       double trA = trace();
-      double detA;
-      det(detA);
-      double gapA = sqrt(trA * trA - 4 * detA);
+      // (a + d)^2 - 4 * (a * d - b * c), but not negative by rounding if both are the same
+      double gapA = sqrt((get(0, 0) - get(1, 1)) * (get(0, 0) - get(1, 1)) + 4 * get(0, 1) * get(1, 0));
 
       v.data[0] = (trA - gapA) / 2.0;
       v.data[1] = (trA + gapA) / 2.0;
-- 
2.43.0


From 150ade59f0113531e78ce4768e6e3060da9fdc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 106/181] fix: inverting a singular matrix reports an error

It reported success and left a matrix of infinities and NaNs.
---
 src/core/Matrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index b44517b..6ae94ff 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -256,6 +256,7 @@ Status Matrix::inverse()
    {
       if(m == 1)
       {
+         if(data[0] == 0.0)return Status::eError;
          data[0] = 1 / data[0];
 
          return Status::eOK;
@@ -264,6 +265,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
@@ -285,6 +287,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
@@ -317,6 +320,7 @@ Status Matrix::inverse()
       {
          double determinant;
          det(determinant);
+         if(determinant == 0.0)return Status::eError;
          determinant = 1.0 / determinant;
 
          // Index
-- 
2.43.0


From 8ca475f1addc083e34ce03fa90340ef5fbd09491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:52 +0000
Subject: [PATCH 107/181] fix: dot product of vectors of different dimensions
 read outside of the smaller one

---
 src/core/Vector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Vector.cpp b/src/core/Vector.cpp
index 329230b..af3a017 100644
--- a/src/core/Vector.cpp
+++ b/src/core/Vector.cpp
@@ -94,6 +94,8 @@ void jm::Vector::ones()
 
 double jm::Vector::dotProduct(const Vector& another) const
 {
+   if(m != another.m) throw Exception("Dimensions don't match");
+
    double prod = 0.0;
    for(int64 a = 0; a < m; a++)
    {
-- 
2.43.0


From d8b0ed3d63bc8a84b403015c122d4a05b2b277aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 108/181] fix: the angle between parallel vectors could be NaN

---
 src/core/Vertex2.cpp | 4 ++++
 src/core/Vertex3.cpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/core/Vertex2.cpp b/src/core/Vertex2.cpp
index 7e3b414..15b451b 100644
--- a/src/core/Vertex2.cpp
+++ b/src/core/Vertex2.cpp
@@ -91,6 +91,10 @@ double Vertex2::angleTo(const Vertex2& another) const
    // Enclosed angles returned
    double tmp = dotProduct(another) / (abs() * another.abs());
 
+   // Rounding can leave the domain of acos for (nearly) parallel vectors
+   if(tmp > 1.0)tmp = 1.0;
+   else if(tmp < -1.0)tmp = -1.0;
+
    // Same sign convention as in SVG
    double sgn = crossProduct(another) > 0 ? 1 : -1;
    double angle = acos(tmp) * sgn;
diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index b50d91e..f7473c4 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -76,6 +76,11 @@ bool Vertex3::isOrthogonal(const Vertex3& another) const
 double Vertex3::angleTo(const Vertex3& another) const
 {
    double angle = this->dotProduct(another) / (this->abs() * another.abs());
+
+   // Rounding can leave the domain of acos for (nearly) parallel vectors
+   if(angle > 1.0)angle = 1.0;
+   else if(angle < -1.0)angle = -1.0;
+
    return acos(angle);
 }
 
-- 
2.43.0


From dc11d097a6c49b846d36c082ca553d552b2c474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 109/181] fix: Vertex3::biggest returned z if x and y are equal
 and bigger

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index f7473c4..8ffa88a 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -170,7 +170,7 @@ Vertex3 Vertex3::scale(const Vertex3& another)const
 
 double Vertex3::biggest() const
 {
-   return (x > y && x > z) ? x : ((y > x && y > z) ? y : z);
+   return std::max(x, std::max(y, z));
 }
 
 /*
-- 
2.43.0


From 6e6206d9081d2ba688d5465920393156b5513f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 110/181] fix: Matrix::transAngle lost the sign of angles above
 180 degrees

---
 src/core/Matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 6ae94ff..ec964c2 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -835,6 +835,9 @@ double Matrix::transAngle(double angle) const
 
    double newrotation = direction.angleTo(x);
 
+   // The angle between two vectors has no sign
+   if(direction.y < 0.0)newrotation = -newrotation;
+
    return newrotation;
 }
 
-- 
2.43.0


From 8fd92008746906eff2e9acd5df0b253b73120011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 111/181] fix: rotation from one vector to a nearly parallel or
 opposite one was inaccurate or NaN

---
 src/core/Matrix.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index ec964c2..b919585 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -1120,15 +1120,19 @@ Matrix Matrix::generate3x3RotationMatrix(const jm::Vertex3& u, const jm::Vertex3
       rotationMatrix.set(2, 1, 2 * orthogonal.z * orthogonal.y);
       rotationMatrix.set(2, 2, -1 + 2 * orthogonal.z * orthogonal.z);
 
-      return rotationMatrix;
+      // u is now turned to -u, which is nearly v, turn the rest
+      return generate3x3RotationMatrix(-1.0 * u_norm, v_norm) * rotationMatrix;
    }
    else
    {
       // Calculate the cross product
-      jm::Vertex3 axis = u.crossProduct(v).normalized();
+      jm::Vertex3 axis = u_norm.crossProduct(v_norm);
 
       // Calculate the sine of the angle
-      double sinTheta = std::sqrt(1 - cosTheta * cosTheta); // sinTheta = sqrt(1 - cosTheta^2)
+      double sinTheta = axis.abs();
+
+      // There is no axis for parallel vectors, but also nothing to turn
+      if(sinTheta > 0.0)axis = axis / sinTheta;
 
       // Construct the rotation matrix using Rodrigues' rotation formula
       jm::Matrix rotationMatrix = jm::Matrix(3, 3);
-- 
2.43.0


From fa2233015a81670ba6a2d7c5bcc8551d88c6999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 112/181] fix: mirroring at a plane whose normal has not length
 1 distorted the result

---
 src/core/Matrix.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index b919585..8011de9 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -660,12 +660,11 @@ void Matrix::initMirroring(const jm::Vertex3& planePoint, const jm::Vertex3& pla
 
    //Siehe auch https://en.wikipedia.org/wiki/Transformation_matrix
 
-   double a = planeNormal.x;
-   double b = planeNormal.y;
-   double c = planeNormal.z;
-   double d = - planePoint.x * planeNormal.x
-              - planePoint.y * planeNormal.y
-              - planePoint.z * planeNormal.z;
+   const jm::Vertex3 normal = planeNormal.normalized();
+   double a = normal.x;
+   double b = normal.y;
+   double c = normal.z;
+   double d = - planePoint.x * a - planePoint.y * b - planePoint.z * c;
 
    zeros();
    set(0, 0, 1.0 - 2.0 * a * a);
-- 
2.43.0


From 72445fc6027bbb2565b0bd1d9269b5a55518c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 113/181] fix: isPointOnPlane was never true with its default
 tolerance

---
 src/core/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index a189d3c..7cab55f 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -326,7 +326,7 @@ bool jm::isPointOnPlane(const Vertex3& point,
                         double maxDistance)
 {
    double dist = distancePointToPlane(point, position, normal);
-   return isLess(dist, maxDistance);
+   return isLessEqual(dist, maxDistance);
 }
 
 bool jm::isPointOnLine(const Vertex3& point,
-- 
2.43.0


From da0b4bd4ffc5225e242bc728daa072c49c9c43d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 114/181] fix: intersection points of touching circles could be
 NaN

---
 src/core/Geometry.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 7cab55f..54e73e5 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -97,7 +97,8 @@ void jm::intersectionPointsOfCircles(const Vertex2& center1,
    }
 
    double a = (r1 * r1 - r2 * r2 + d * d) / (2 * d);
-   double h = std::sqrt(r1 * r1 - a * a);
+   // Not negative by rounding if the circles only touch
+   double h = std::sqrt(std::max(0.0, r1 * r1 - a * a));
 
    double px = x1 + a * (x2 - x1) / d;
    double py = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From 2fb5e7f1799dcbb6a80aa669a40c68f54d9521b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 115/181] fix: distance of a point beside a line segment was
 NaN instead of the distance to its end

---
 src/core/Geometry.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 54e73e5..4fb9ca5 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -274,6 +274,13 @@ double jm::distancePointToLine(const Vertex3& point,
    // 3. The magnitude is the distance
 
    Vertex3 loc = closestPointOnLine(point, lineStart, lineEnd, extend);
+
+   // Beside the line segment one of the end points is the closest
+   if(!extend && !loc.isValid())
+   {
+      return std::min(distancePointToPoint(point, lineStart), distancePointToPoint(point, lineEnd));
+   }
+
    loc = loc - point;
    return loc.abs();
 }
-- 
2.43.0


From 28854916b0af7e38aa24f9b49724246265185913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 116/181] fix: closest point on a circle was NaN for points of
 its axis

---
 src/core/Geometry.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 4fb9ca5..c0f4a8a 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -216,7 +216,14 @@ Vertex3 jm::closestPointOnCircle(const Vertex3& point,
    // Calculate the intersection.
 
    const Vertex3 loc = closestPointOnPlane(point, center, normal);
-   const Vertex3 r = loc - center;
+   Vertex3 r = loc - center;
+
+   // All points of the circle are equally close to the points of its axis, take any
+   if(r.isNull())
+   {
+      const Vertex3 other = std::abs(normal.x) < std::abs(normal.y) ? Vertex3(1, 0, 0) : Vertex3(0, 1, 0);
+      r = normal.crossProduct(other);
+   }
    const double lambda = radius / r.abs();
    return center + r * lambda;
 }
-- 
2.43.0


From 705415c085a34931d31a4c2b6569369f8f53ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 117/181] fix: extensionPointOnEllipse turned by the angle of
 the center instead of the main axis

Furthermore, one term was divided by b instead of its square.
---
 src/core/Geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index c0f4a8a..f652e0d 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -655,7 +655,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
 
    // First, the ellipse and the vector must be rotated so that the ellipse lies with the main axis
    // on the x-axis.
-   double angle = std::atan2(center_.y, center_.x);
+   double angle = std::atan2(mainAxis.y, mainAxis.x);
 
    Vertex2 center = center_;
    center.rotate(-angle);
@@ -690,7 +690,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
    double div = (direction.x * direction.x / a2) + (direction.y * direction.y / b2);
 
    double p = 2 * ((direction.x * qx / a2) + (direction.y * qy / b2)) / div;
-   double q = ((qx * qx / a2) + (qy * qy / b) - 1.0) / div;
+   double q = ((qx * qx / a2) + (qy * qy / b2) - 1.0) / div;
 
    Vertex2 result = PQCheck(p, q, rayorigin, direction, center, start, end);
    if(result.isValid())result.rotate(angle);
-- 
2.43.0


From 8f498269f7ee2c4b863fb963859742b2c8c3461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 118/181] fix: arcs with a start angle below -180 degrees were
 missed

---
 src/core/Geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index f652e0d..7256324 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -515,6 +515,7 @@ bool CheckAngle(const Vertex2& point,
 
    // Ensure that the start angle is in the range of 0-2PI
    while(isGreaterEqual(start, DBL_PI))start -= DBL_PI;
+   while(isLess(start, 0.0))start += DBL_PI;
 
    // Ensure that the start angle is greater than start, but not multiple times greater
    while(isGreaterEqual(end, DBL_PI))end -= DBL_PI;
-- 
2.43.0


From e747cf4a43548cf19a34070ff0927701397d02c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 119/181] fix: circle by 3 collinear points reported success

---
 src/core/Geometry.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 7256324..2c94422 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -745,6 +745,9 @@ jm::Status jm::circleParameterBy3Points(Vertex2& centre, double& radius,
    status = M13.det(m13);
    if(status != Status::eOK)return status;
 
+   // The points are collinear, there is no circle
+   if(m11 == 0.0)return Status::eInvalidInput;
+
    double x = 0.5 * m12 / m11;
    double y = -0.5 * m13 / m11;
 
-- 
2.43.0


From 7ddcfa8c56af9160afa9b14825e781c4d4e4a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 120/181] fix: the point at the end of a NURBS was NaN

---
 src/core/NURBS.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 206a449..b30aa26 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -81,6 +81,10 @@ double Nurbs::N(uint32 i, uint32 k, double t)
    if(k == 0)
    {
       if(mKnots[i] <= t && t < mKnots[i + 1]) return 1.0;
+
+      // The last interval includes its end
+      if(mKnots[i] < t && t == mKnots[i + 1] && t == mKnots[mKnotCount - 1]) return 1.0;
+
       return 0.0;
    }
 
-- 
2.43.0


From 25347d098918ff03d4cdc191c9ff5e2f8a757705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:08 +0000
Subject: [PATCH 121/181] fix: the end parameter of a NURBS could be behind its
 last knot

---
 src/core/NURBS.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index b30aa26..27fd795 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -135,9 +135,7 @@ double Nurbs::start()
 double Nurbs::end()
 {
    if(mKnotCount < 1)return 0;
-   double m = mControlCount - mDegree + 2;
-   if(m < mKnots[mKnotCount - 1])m = mKnots[mKnotCount - 1];
-   return m;
+   return mKnots[mKnotCount - 1];
 }
 
 uint32 Nurbs::controlPointCount()
-- 
2.43.0


From c7cb8331a8b97ab982110b70f0fc13e654cf869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 122/181] fix: Rect::intersect with a disjoint rectangle gave
 negative sizes

It is now the same as Rect::intersection.
---
 src/core/Rect.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/core/Rect.cpp b/src/core/Rect.cpp
index 6572133..5fdf889 100644
--- a/src/core/Rect.cpp
+++ b/src/core/Rect.cpp
@@ -160,10 +160,7 @@ jm::Point jm::Rect::rightCenter() const
 
 void jm::Rect::intersect(const jm::Rect& other)
 {
-   setLeft(std::max(left(), other.left()));
-   setTop(std::max(top(), other.top()));
-   mSize.setWidth(std::min(right(), other.right()) - mOrigin.x());
-   mSize.setHeight(std::min(bottom(), other.bottom()) - mOrigin.y());
+   *this = intersection(other);
 }
 
 void jm::Rect::setX(double x)
-- 
2.43.0


From aae4569cb30c1b4bad335acee0e3d39fd3081058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 123/181] fix: adding extents of 2D points made the z-range
 infinite

---
 src/core/Extents.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/Extents.cpp b/src/core/Extents.cpp
index c8f1036..83fa448 100644
--- a/src/core/Extents.cpp
+++ b/src/core/Extents.cpp
@@ -62,8 +62,14 @@ void Extents::add(const Extents& ext)
 {
    if(!ext.isValid())return;
 
-   add(ext.mPtMin);
-   add(ext.mPtMax);
+   // If only 2D points were added to ext, then its z-range is still the initial (inverted) one
+   mPtMin.x = std::min(mPtMin.x, ext.mPtMin.x);
+   mPtMin.y = std::min(mPtMin.y, ext.mPtMin.y);
+   mPtMin.z = std::min(mPtMin.z, ext.mPtMin.z);
+
+   mPtMax.x = std::max(mPtMax.x, ext.mPtMax.x);
+   mPtMax.y = std::max(mPtMax.y, ext.mPtMax.y);
+   mPtMax.z = std::max(mPtMax.z, ext.mPtMax.z);
 }
 
 const Vertex3& Extents::minPoint()const
-- 
2.43.0


From b0bc03ed060c21d63e67e0c14e06941ada353090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 124/181] fix: every RGB colour became white in greyscale

The limit 255 was cast to int8, which is -1. The factor for blue was not the documented one
and the alpha value was lost.
---
 src/core/Color.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6dbdcaf..d4b3a20 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -127,9 +127,8 @@ void Color::toGreyScale()
          // G = 0.2126 R + 0.7152 G + 0.0722 B.
          float grey = 0.2126f * col.rgb.red +
                       0.7152f * col.rgb.green +
-                      0.0733f * col.rgb.blue;
-         col.g.grey = std::min(static_cast<int8>(255), static_cast<int8>(grey));
-         mAlpha = 255;
+                      0.0722f * col.rgb.blue;
+         col.g.grey = static_cast<uint8>(std::min(255.0f, grey + 0.5f));
          break;
       }
 
-- 
2.43.0


From 013739287adf7c527c4fbfb1aa6249b4c03b9273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 125/181] fix: black in CMYK was the conversion of NaN, greys
 were off by one

The alpha value was lost, too.
---
 src/core/Color.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index d4b3a20..85ed893 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -162,21 +162,22 @@ void Color::toCmyk()
          //The black key (K) colour is calculated from the red (R'), green (G') and blue (B') colours:
          //K = 1-max(R', G', B')
          float k = 1.0f - std::max(r, std::max(g, b));
+         //Black needs no other colour, and 1-K is 0
+         float w = k < 1.0f ? 1.0f - k : 1.0f;
          //The cyan colour (C) is calculated from the red (R') and black (K) colours:
          //C = (1-R'-K) / (1-K)
-         float c = (1 - r - k) / (1 - k);
+         float c = (1 - r - k) / w;
          //The magenta colour (M) is calculated from the green (G') and black (K) colours:
          //M = (1-G'-K) / (1-K)
-         float m = (1 - g - k) / (1 - k);
+         float m = (1 - g - k) / w;
          //The yellow colour (Y) is calculated from the blue (B') and black (K) colours:
          //Y = (1-B'-K) / (1-K)
-         float y = (1 - b - k) / (1 - k);
+         float y = (1 - b - k) / w;
          mMode = ColorMode::kCmyk;
-         col.cmyk.cyan = static_cast<uint8>(255.0f * c);
-         col.cmyk.magenta = static_cast<uint8>(255.0f * m);
-         col.cmyk.yellow = static_cast<uint8>(255.0f * y);
-         col.cmyk.key = static_cast<uint8>(255.0f * k);
-         mAlpha = 255;
+         col.cmyk.cyan = static_cast<uint8>(255.0f * c + 0.5f);
+         col.cmyk.magenta = static_cast<uint8>(255.0f * m + 0.5f);
+         col.cmyk.yellow = static_cast<uint8>(255.0f * y + 0.5f);
+         col.cmyk.key = static_cast<uint8>(255.0f * k + 0.5f);
          break;
       }
 
@@ -188,7 +189,6 @@ void Color::toCmyk()
          col.cmyk.magenta = 0;
          col.cmyk.yellow = 0;
          col.cmyk.key = 255 - grey;
-         mAlpha = 255;
          break;
       }
 
-- 
2.43.0


From f2d9a00bc1b44f0782842f438997a32099ba0c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 126/181] fix: blending of transparent colours exceeded the
 component range

The truncated alpha value made the quotient greater than 1, for two fully transparent colours
it was NaN.
---
 src/core/Color.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 85ed893..d114212 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -461,11 +461,14 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float alphaB = alphaBackground / 255.0f;
    float A = colourForeground / 255.0f;
    float B = colourBackground / 255.0f;
-   float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
+   float alphaC = alphaA + (1 - alphaA) * alphaB;
+
+   // Both colours are fully transparent
+   if(alphaC <= 0.0f)return 0;
 
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
-   return (uint8)(C * 255);
+   return static_cast<uint8>(std::min(255.0f, C * 255 + 0.5f));
 }
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
-- 
2.43.0


From 65a53a362bc2333d4e0a16710a9156ff4a33dbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:17 +0000
Subject: [PATCH 127/181] fix: blending and interpolation took the components
 of grey and CMYK colours as RGB

---
 src/core/Color.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index d114212..77fe85d 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -473,6 +473,10 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
 {
+   // The colours are blended in RGB colour space
+   background.toRgb();
+   foreground.toRgb();
+
    //Simple Alpha-Blendung for non transparent color
    if(background.mAlpha == 255 && foreground.mAlpha == 255)
    {
@@ -499,6 +503,10 @@ Color jm::blend(Color background, Color foreground, uint8 alpha)
 
 Color jm::interpolate(Color colour1, Color colour2, float percent)
 {
+   // The colours are interpolated in RGB colour space
+   colour1.toRgb();
+   colour2.toRgb();
+
    Color ret;
    ret.col.rgb.red = static_cast<uint8>(colour1.col.rgb.red + (colour2.col.rgb.red -
                                         colour1.col.rgb.red) * percent);
-- 
2.43.0


From 070cf0b5fe0eb1879b958d0992eb39aa26565523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 128/181] fix: isLess and its kin decide by the same difference
 as isEqual

Adding RESABS to an operand loses it for magnitudes above 1e10, so that
a number was less and greater than itself, and near the tolerance two
numbers could be both equal and less.
---
 src/core/Math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..f30c3db 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -92,22 +92,22 @@ bool jm::isNotEqual(double v1, double v2)
 
 bool jm::isLess(double v1, double v2)
 {
-   return v1 + RESABS <= v2;
+   return v2 - v1 >= RESABS;
 }
 
 bool jm::isLessEqual(double v1, double v2)
 {
-   return v1 < v2 + RESABS;
+   return v2 - v1 > -RESABS;
 }
 
 bool jm::isGreater(double v1, double v2)
 {
-   return v1 >= v2 + RESABS;
+   return v2 - v1 <= -RESABS;
 }
 
 bool jm::isGreaterEqual(double v1, double v2)
 {
-   return v1 > v2 - RESABS;
+   return v2 - v1 < RESABS;
 }
 
 bool jm::isNaN(double d)
-- 
2.43.0


From 604064c3078aa5249260539f29ab9946290d93bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 129/181] fix: swapping an integer with itself no longer clears
 it

---
 src/core/Math.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index f30c3db..727d5d7 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -124,30 +124,30 @@ void jm::swap(double& v1, double& v2)
 
 void jm::swap(int32& v1, int32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   int32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint32& v1, uint32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint16& v1, uint16& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint16 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint8& v1, uint8& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint8 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 double jm::random()
-- 
2.43.0


From 36101a0835f7790f062efe9e0e67a4181197e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 130/181] fix: rounding of 0.49999999999999994, of odd numbers
 above 2^52 and of huge numbers

Adding 0.5 first rounds itself, and roundFrac converted numbers beyond
the 64 bit range to int64, which is undefined.
---
 src/core/Math.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 727d5d7..a7e3ae7 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -53,20 +53,14 @@ int16 jm::sign(double d)
 
 int64 jm::round(double number)
 {
-   //TODO: We have issues with some negative values. What do?
-   /* if (d < 0)
-        return std::ceil(d - 0.5);
-    else
-        return std::floor(d + 0.5);*/
-   return ((number > 0.0) ? std::floor(number + 0.5) : std::ceil(number - 0.5));
+   return static_cast<int64>(std::round(number));
 }
 
 float jm::roundFrac(float f, int32 digits)
 {
    double factor = std::pow(10, digits);
    double value = f * factor;
-   int64 result = round(value);
-   value = static_cast<double>(result);
+   value = std::round(value);
    return static_cast<float>(value / factor);
 }
 
@@ -74,7 +68,7 @@ double jm::roundFrac(double value, int64 digits)
 {
    double factor = std::pow(10, digits);
    double result = value * factor;
-   result = round(result);
+   result = std::round(result);
    return result / factor;
 }
 
-- 
2.43.0


From 91bce65807bf06a560978a489e25fadf09524064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 131/181] fix: random(lower, upper) overflows for ranges of
 2^31 and more

---
 src/core/Math.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index a7e3ae7..3bc7ddf 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -162,9 +162,11 @@ double jm::random()
 
 int32 jm::random(int32 lower, int32 upper)
 {
-   int32 z = rand() % (upper + 1 - lower);
+   int64 range = static_cast<int64>(upper) - lower + 1;
+   uint64 z = static_cast<uint64>(rand());
+   if(range > RAND_MAX)z = z * (static_cast<uint64>(RAND_MAX) + 1) + static_cast<uint64>(rand());
 
-   return z + lower;
+   return static_cast<int32>(static_cast<int64>(z % static_cast<uint64>(range)) + lower);
 }
 
 bool jm::probability(double percent)
-- 
2.43.0


From b13155afa0792236ecb14c7d53bbcd26ab7eb4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 132/181] fix: probability(0) is never true

---
 src/core/Math.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 3bc7ddf..49f8cf8 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -171,9 +171,8 @@ int32 jm::random(int32 lower, int32 upper)
 
 bool jm::probability(double percent)
 {
-   int32 value = random(0, 10000);
-   int32 threshold = (int32)(percent * 10000);
-   return value <= threshold;
+   int32 value = random(0, 9999);
+   return value < percent * 10000;
 }
 
 float jm::interpolate(float begin, float end, float percent)
-- 
2.43.0


From 6d9c23ac34fcf4a422d24cfa01958242ae87658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 133/181] fix: ceilPowerOf2(0) is 1, the smallest power of 2

---
 src/core/Math.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 49f8cf8..647aa30 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -199,6 +199,7 @@ bool jm::powerOf2(int32 x)
 uint32 jm::ceilPowerOf2(uint32 x)
 {
    // Taken from https://github.com/keon/awesome-bits
+   if(x == 0)return 1;
    x--;
    x |= x >> 1;
    x |= x >> 2;
-- 
2.43.0


From 29e74af7fe33aa48d43cfe711212089ab9e6d18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:25 +0000
Subject: [PATCH 134/181] fix: modFloor of the smallest integer and -1 traps

---
 src/core/Math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 647aa30..63657b5 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -238,7 +238,7 @@ int64 jm::divFloor(int64 x, int64 y)
 
 int64 jm::modFloor(int64 x, int64 y)
 {
-   if(y == 0)return 0;
+   if(y == 0 || y == -1)return 0;
    int64 r = x % y;
    if((r != 0) && ((r < 0) != (y < 0)))
    {
-- 
2.43.0


From 7de73af57ca153feb989174e7ee1b4f20e439c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:10 +0000
Subject: [PATCH 135/181] fix: closest point and distance of nearly parallel
 lines are no longer NaN

The products of three direction vectors fell below the tolerance RESABS, so
that lines with a small but clear angle had no closest point and no
distance.
---
 src/core/Geometry.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 2c94422..d966575 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -174,8 +174,12 @@ Vertex3 jm::closestPointOnLine(const Vertex3& position1,
    //    -> E: ( x - position1) * normal2
    // 3. The intersection of the 2nd straight line with the 2nd auxiliary plane is the perpendicular
    //    base point
-   Vertex3 normal1 = direction1.crossProduct(direction2);
-   Vertex3 normal2 = direction1.crossProduct(normal1);
+   // All of them with unit length, otherwise their products fall below the tolerance if the lines
+   // are nearly parallel
+   Vertex3 axis1 = direction1.normalized();
+   Vertex3 normal1 = axis1.crossProduct(direction2.normalized());
+   normal1 = normal1 * (1.0 / normal1.abs());
+   Vertex3 normal2 = axis1.crossProduct(normal1);
    return intersectionPointLineAndPlane(position1, normal2, position2, direction2, true);
 }
 
-- 
2.43.0


From f7358f1d1130d4234f9a1bec43e79031383eeeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 136/181] fix: clearing preferences loses the memory of their
 values

---
 include/core/Preferences.h | 5 +++++
 src/core/Preferences.cpp   | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 712cb67..a0be02a 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -57,6 +57,11 @@ namespace jm
          */
          ~Preferences() override;
 
+         /*!
+         \brief Removes all entries and deletes their values.
+         */
+         void clear() noexcept;
+
          /*!
           \brief This method reads the data from the file.
           \param file The file containing the properties.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 3df3bd2..ab01250 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -110,6 +110,11 @@ Preferences::Preferences(): Hashtable()
 
 
 Preferences::~Preferences()
+{
+   clear();
+}
+
+void Preferences::clear() noexcept
 {
    Iterator* i = keys();
    while(i->hasNext())
@@ -119,6 +124,7 @@ Preferences::~Preferences()
       delete p;
    }
    delete i;
+   Hashtable::clear();
 }
 
 
-- 
2.43.0


From a5a07b84f2067c17e17d429f4cdf87251427cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 137/181] fix: assigning to a resource loses its former stream

---
 src/core/Resource.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Resource.cpp b/src/core/Resource.cpp
index e535b36..fff3f6c 100644
--- a/src/core/Resource.cpp
+++ b/src/core/Resource.cpp
@@ -61,8 +61,9 @@ Resource& Resource::operator=(const Resource& other)
 {
    if(this != &other)
    {
+      if(other.mStream != nullptr)other.mStream->retain();
+      if(mStream != nullptr)mStream->release();
       mStream = other.mStream;
-      if(mStream != nullptr)mStream->retain();
    }
 
    return *this;
-- 
2.43.0


From cf1b37de97480d4621708a94acec356635d1880f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:51 +0000
Subject: [PATCH 138/181] fix: a thread that ended by itself keeps its stack
 after the object is gone

---
 src/core/Thread.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 5a0f9d6..2cc2aca 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -79,6 +79,12 @@ Thread::Thread(): jm::Object()
 
 Thread::~Thread()
 {
+   #if defined __APPLE__ || defined __linux__
+
+   // A thread, which ended by itself, was not joined
+   if(joinable)pthread_detach(thread);
+   #endif
+
    #if defined _WIN32//Windows
    DeleteCriticalSection((CRITICAL_SECTION*)mCriticalSection);
    delete((CRITICAL_SECTION*)mCriticalSection);
@@ -92,6 +98,7 @@ void Thread::start()
 
    // The new thread is alive before it runs, so that an early interrupt() is not lost.
    pthread_mutex_lock(&criticalSection);
+   if(joinable)pthread_detach(thread);
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
    alive = ret == 0;
    joinable = ret == 0;
-- 
2.43.0


From 010937146e5b251414b17ac6a916e5d6ada865a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 139/181] fix: floating-point texts depend on the global locale

---
 src/core/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index be4f9c8..1b2d1bf 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1062,6 +1062,7 @@ String String::valueOf(uint32 number)
 String String::valueOf(double number)
 {
    std::stringstream ss;
+   ss.imbue(std::locale::classic()); // Not the program's locale
    ss << std::setprecision(10) << number;
    std::string str = ss.str();
    const char* cstr = str.c_str();
@@ -1119,6 +1120,7 @@ double String::toDouble() const
 {
    jm::ByteArray cstr = toCString();
    std::stringstream ss;
+   ss.imbue(std::locale::classic()); // Not the program's locale
    double d = 0.0;
    ss << cstr.constData();
    ss >> d;
-- 
2.43.0


From de592fd6b47c635695fcd9dad88b407d0b017557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 140/181] fix: a boolean property value keeps parts of its
 former value

---
 src/core/Property.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Property.cpp b/src/core/Property.cpp
index 7412b74..6829046 100644
--- a/src/core/Property.cpp
+++ b/src/core/Property.cpp
@@ -197,6 +197,7 @@ double Property::doubleValue() const
 
 Status Property::setBoolValue(bool value)
 {
+   mNumberValue.intValue = 0; // The boolean is only a part of the storage
    mNumberValue.boolValue = value;
    mType = PropertyType::kBoolean;
    return Status::eOK;
-- 
2.43.0


From 6f29497dd3f8a8dbbde4feec2499ba65674cd606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 141/181] fix: comparing properties with units depends on the
 order

---
 src/core/Property.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Property.cpp b/src/core/Property.cpp
index 6829046..2caf871 100644
--- a/src/core/Property.cpp
+++ b/src/core/Property.cpp
@@ -230,7 +230,7 @@ bool jm::operator==(Property const& v1, Property const& v2)
    if(v1.mId.equals(v2.mId) == false)return false;
    if(v1.mEditor.equals(v2.mEditor) == false)return false;
 
-   if(v1.type() == PropertyType::kValue)
+   if(v1.type() == PropertyType::kValue || v2.type() == PropertyType::kValue)
    {
       return v1.stringValue() == v2.stringValue() &&
              jm::isEqual(v1.doubleValue(), v2.doubleValue());
-- 
2.43.0


From 5280520413513c90dac1eda98b1edbb2deefdefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:26 +0000
Subject: [PATCH 142/181] fix: testing infinite numbers for equality always
 fails

---
 src/core/Test.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Test.cpp b/src/core/Test.cpp
index 653c7b1..39e0e75 100644
--- a/src/core/Test.cpp
+++ b/src/core/Test.cpp
@@ -71,7 +71,8 @@ void Test::testEquals(const double actual, const double expected, const String&
    jm::gTotalTestCount++;
    jm::gTestCount++;
 
-   if(fabs(actual - expected) <= RESABS) return;
+   // The difference of two equal infinite numbers is not a number
+   if(actual == expected || fabs(actual - expected) <= RESABS) return;
 
    jm::gTotalErrorCount++;
    jm::gErrorCount++;
-- 
2.43.0


From 9cd7b0d860f3c45365cc1701d58cf6ccefc00b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 143/181] fix: the MAC address is never found on Linux, or
 crashes at interfaces without address

---
 prec/PrecompiledCore.hpp | 1 +
 src/core/System.cpp      | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/prec/PrecompiledCore.hpp b/prec/PrecompiledCore.hpp
index bfc2d55..1f2b21d 100644
--- a/prec/PrecompiledCore.hpp
+++ b/prec/PrecompiledCore.hpp
@@ -92,6 +92,7 @@
 #include <arpa/inet.h>  
 #include <linux/if_packet.h>
 #include <linux/if_ether.h>
+#include <net/if_arp.h>
 
 #ifdef __ANDROID__
 #include <jni.h>
diff --git a/src/core/System.cpp b/src/core/System.cpp
index c9fb004..8a88f57 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -301,10 +301,11 @@ jm::String jm::System::macAddress1()
 
    for(ifa = ifap; ifa != nullptr; ifa = ifa->ifa_next)
    {
-      if(ifa->ifa_addr->sa_family == AF_PACKET)  // check for ethernet
+      // Interfaces without address have a null pointer here
+      if(ifa->ifa_addr != nullptr && ifa->ifa_addr->sa_family == AF_PACKET)
       {
          sll = (struct sockaddr_ll*)ifa->ifa_addr;
-         if(sll->sll_protocol == htons(ETH_P_IP))
+         if(sll->sll_hatype == ARPHRD_ETHER && sll->sll_halen == 6)  // check for ethernet
          {
             unsigned char* mac = sll->sll_addr;
             snprintf(macAddress, sizeof(macAddress), "%02x:%02x:%02x:%02x:%02x:%02x",
-- 
2.43.0


From 5a0d513ac0ac7c41e7e5d9cd5593668136a14802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 144/181] fix: the system language has not the documented form,
 or is a list of locale categories

---
 src/core/System.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index 8a88f57..91b9bf5 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -64,12 +64,16 @@ jm::String jm::System::language()
       std::cerr << "Failed to set locale" << std::endl;
    }
 
-   // Use nl_langinfo to get the language
-   const char* language = setlocale(LC_ALL, nullptr);
+   // The name of all categories together is a list, if they differ
+   const char* language = setlocale(LC_MESSAGES, nullptr);
 
+   // The name has the form "de_DE.UTF-8@euro"
    jm::String lang = jm::String(language);
-   int64 index = lang.indexOf('.');
+   int64 index = lang.indexOf('@');
    if(index > 0)lang = lang.substring(0, index);
+   index = lang.indexOf('.');
+   if(index > 0)lang = lang.substring(0, index);
+   lang = lang.replace('_', '-');
    std::cout << "LANG: " << lang << std::endl;
    return lang;
 
-- 
2.43.0


From 4153a8d3780f12323624dbc88be8b8d513044153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 145/181] fix: the full user name contains office and telephone
 numbers

---
 src/core/System.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index 91b9bf5..d538999 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -231,7 +231,10 @@ jm::String jm::System::userFullName()
    pw = getpwuid(uid);
    if(pw)
    {
-      return pw->pw_gecos;
+      // The full name is the first of the comma separated parts
+      String name = pw->pw_gecos;
+      int64 index = name.indexOf(',');
+      return index < 0 ? name : name.substring(0, index);
    }
 
    return "userFullName Not Found";
-- 
2.43.0


From 6e56c6e3ec9b3d17f02bc2b8fc8dff1fce1acd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 146/181] fix: deltas of unsigned and of distant integers in
 difference reports

---
 src/core/DiffInfo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/DiffInfo.cpp b/src/core/DiffInfo.cpp
index c1d581c..03e29aa 100644
--- a/src/core/DiffInfo.cpp
+++ b/src/core/DiffInfo.cpp
@@ -76,7 +76,7 @@ void DiffInfo::print(DiffOperation operation,
          if(obj1 != obj2)
          {
             std::cout << "  " << label << ": " << obj1 << " -> " << obj2 << " delta: " <<
-                      (obj2 - obj1) << std::endl;
+                      (obj2 < obj1 ? "-" : "") << (obj2 < obj1 ? obj1 - obj2 : obj2 - obj1) << std::endl;
          }
          break;
 
@@ -100,8 +100,10 @@ void DiffInfo::print(DiffOperation operation,
       case DiffOperation::kDiffModified:
          if(obj1 != obj2)
          {
+            // The delta may not fit in an int64
+            const uint64 delta = obj2 < obj1 ? uint64(obj1) - uint64(obj2) : uint64(obj2) - uint64(obj1);
             std::cout << "  " << label << ": " << obj1 << " -> " << obj2 << " delta: " <<
-                      (obj2 - obj1) << std::endl;
+                      (obj2 < obj1 ? "-" : "") << delta << std::endl;
          }
          break;
 
-- 
2.43.0


From faa12c46b32c17d5c9882ae967174360eafd37e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:58 +0000
Subject: [PATCH 147/181] fix: upper and lower case letters of Latin-1 without
 counterpart in the other case

---
 src/core/Character.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Character.cpp b/src/core/Character.cpp
index afbf25b..906d596 100644
--- a/src/core/Character.cpp
+++ b/src/core/Character.cpp
@@ -156,7 +156,8 @@ jm::Char jm::Char::toLowerCase() const
          return Char(0x00FC);//ü
 
       default:
-         return Char(mChar);
+         // The other Latin-1 letters
+         return isUpperCase() ? Char(mChar + 0x20) : Char(mChar);
    }
 }
 
@@ -229,6 +230,7 @@ jm::Char jm::Char::toUpperCase() const
          return 0x00DC;//Ü
 
       default:
-         return mChar;
+         // The other Latin-1 letters; sharp s and y with diaeresis have no counterpart here
+         return isLowerCase() && mChar != 0xDF && mChar != 0xFF ? Char(mChar - 0x20) : Char(mChar);
    }
 }
-- 
2.43.0


From 28f7304de8a9619ff1325313fab1e05e30db6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 148/181] fix: reading a line from a stream cuts it after 255
 bytes and fails

---
 src/core/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 1b2d1bf..34a4d47 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1198,9 +1198,9 @@ namespace jm
 
    std::istream& operator>> (std::istream& in, String& str)
    {
-      char cstr[256];
-      in.getline(cstr, 256);
-      str = String(cstr, (uint32)in.gcount());
+      std::string line;
+      std::getline(in, line);
+      str = String(line.c_str(), (int64)line.size());
       return in;
    }
 
-- 
2.43.0


From 3a10cab1f9e778b12af19e9bea8ab5a94160db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 149/181] fix: logging a failed opening of a file may change
 the reported cause

---
 src/core/File.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 9c01590..5f809f3 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -646,13 +646,15 @@ Status File::open(FileMode mode)
 
    if(mHandle == nullptr)
    {
-      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(errno));
+      // Building and logging the message may change errno
+      const int32 error = errno;
+      String msg = Tr("Cannot open file! \"%1\" Errno: %2").arg(mPathname).arg(int64(error));
       jm::System::log(msg, jm::LogLevel::kError);
 
-      if(errno == EACCES)return Status::eNotAllowed;
-      if(errno == ENOENT)return  Status::eNotFound;
-      if(errno == ETIMEDOUT)return Status::eTimeout;
-      if(errno == ENOTDIR)return Status::eNoDirectory;
+      if(error == EACCES)return Status::eNotAllowed;
+      if(error == ENOENT)return  Status::eNotFound;
+      if(error == ETIMEDOUT)return Status::eTimeout;
+      if(error == ENOTDIR)return Status::eNoDirectory;
       throw Exception(msg);
    }
    return Status::eOK;
-- 
2.43.0


From ccce4dd8b34bba6a994ba4ba961e337756b4a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 150/181] fix: constructing an exception crashes if no memory
 is left for its trace

---
 src/core/Exception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Exception.cpp b/src/core/Exception.cpp
index bbab156..ad1e89c 100644
--- a/src/core/Exception.cpp
+++ b/src/core/Exception.cpp
@@ -34,6 +34,9 @@ Exception::Exception(const String& message): Object()
    char** symbols = nullptr;
    symbols = backtrace_symbols(taddrlist, addrlen);
 
+   // There may be no memory left for the names
+   if(symbols == nullptr)addrlen = 0;
+
    for(uint32 a = 0; a < addrlen; a++)
    {
       mSymbolList.append(String(symbols[a]));
-- 
2.43.0


From 60a3fbe84e992dea57d3f49db35677bea4943b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 151/181] fix: listing a directory fails if entries come or go
 meanwhile

---
 src/core/File.cpp | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 5f809f3..b3a82a0 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -470,24 +470,17 @@ Array<File>* File::listFiles()const
       throw Exception(Tr("Cannot open directory"));
    }
 
-   uint32 fileCount = 0;
-
-   //Zähle Einträge
-   while(readdir(dp) != nullptr)fileCount++;
-
-   //Zum Anfang
-   rewinddir(dp);
+   // Entries may come and go meanwhile, so the directory is read only once
+   std::vector<String> files;
+   while((dirp = readdir(dp)) != nullptr)files.push_back(String(dirp->d_name));
+   closedir(dp);
 
    //Array füllen
-   Array<File>* list = new Array<File>(fileCount);
-   uint32 cnt = 0;
-
-   while((dirp = readdir(dp)) != nullptr)
+   Array<File>* list = new Array<File>(files.size());
+   for(size_t cnt = 0; cnt < files.size(); cnt++)
    {
-      String filename = String(dirp->d_name);
-      list->set(cnt++, File(*this, filename));
+      list->set(cnt, File(*this, files[cnt]));
    }
-   closedir(dp);
 
    return list;
 
-- 
2.43.0


From 0f44479280e3636af6b8e9442d7a4998d9126fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 152/181] fix: the current directory is read from uninitialised
 memory if there is none

---
 src/core/File.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index b3a82a0..daf4461 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -1159,7 +1159,7 @@ File jm::TempDir()
    return File(temp);
    #elif defined __linux__ //Linux
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File();
    return File(cwd);
    #elif defined _WIN32 //Windows
    uint16 path[MAX_PATH];
@@ -1175,11 +1175,11 @@ File jm::currentDir()
 {
    #ifdef __APPLE__ //macOS and ios
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File();
    return File(cwd);
    #elif defined __linux__ //Linux
    char cwd[PATH_MAX];
-   getcwd(cwd, sizeof(cwd));
+   if(getcwd(cwd, sizeof(cwd)) == nullptr)return File();
    return File(cwd);
    #elif defined _WIN32 //Windows
    uint16 path[MAX_PATH];
-- 
2.43.0


From 91857254bb1a3ddc8a07af5360b53ea670671d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 153/181] fix: long path of the executable is cut, and its
 directory fails for the root directory

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index daf4461..c7c62d6 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -923,11 +923,10 @@ String jm::ExecPath()
    String ret = String(path);
    return ret;
    #elif defined __linux__ //Linux
-   char buff[1024];
+   char buff[PATH_MAX];
    ssize_t len = ::readlink("/proc/self/exe", buff, sizeof(buff) - 1);
    if(len > 0)
    {
-      if(len >= 1024)len = 1023;
       buff[len] = '\0';
       return String(buff);
    }
@@ -971,6 +970,7 @@ String jm::ExecDir()
 {
    String exec = ExecPath();
    int64 pos = exec.lastIndexOf(DIR_SEP);
+   if(pos < 2)return exec.substring(0, pos + 1);
    if(exec.charAt(pos - 1) == '.' && exec.charAt(pos - 2) == DIR_SEP)pos -= 2;
    return exec.substring(0, pos);
 }
-- 
2.43.0


From 62ce6a2ceecc3a62473742a4b30e26357bcdea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 154/181] fix: opening a zip file again lists its entries twice

---
 src/core/ZipFile.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index babf7c0..0395001 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -55,6 +55,15 @@ ZipFile::~ZipFile()
 
 void ZipFile::open()
 {
+   // The file may have been open before
+   mEntries.rewind();
+   while(mEntries.hasNext())
+   {
+      ZipEntry* entry = static_cast<ZipEntry*>(mEntries.next());
+      entry->release();
+   }
+   mEntries.clear(nullptr);
+
    int64 length = mFile->size();
    int64 seek = length - 22;
 
-- 
2.43.0


From 9e808aeaaf4f18aa312ced385cb046a54c8d6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 155/181] fix: a second archive of a ZipOutputFile contains the
 directory of the first

---
 src/core/ZipOutputFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 97b5a80..12cd310 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -61,6 +61,9 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 
 void ZipOutputFile::open()
 {
+   // The entries of an archive written before are not part of the new one
+   mEntries.clear(nullptr);
+
    // The rest of an older file must not remain behind the archive
    mFile->open(FileMode::kWrite);
 }
-- 
2.43.0


From 62cb1520257eca1a57f9fa193e3fbfe5a7f99970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 156/181] fix: zip archives beyond the limits of the format are
 written damaged

---
 src/core/ZipOutputFile.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 12cd310..726e232 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -70,6 +70,8 @@ void ZipOutputFile::open()
 
 void ZipOutputFile::close()
 {
+   if(mFile->position() > UINT32_MAX)throw
+      jm::Exception(Tr("ZIP file Error. Archive is too large."));
    uint32 start = static_cast<uint32>(mFile->position());
 
    //Schreibe Finales Verzeichnis
@@ -131,6 +133,7 @@ void ZipOutputFile::closeEntry()
 {
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
+   if(mTemp->position() > UINT32_MAX)throw jm::Exception(Tr("ZIP file Error. Entry is too large."));
    entry->mUncompressedSize = static_cast<uint32>(mTemp->position());
    mTemp->seek(0);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
@@ -164,6 +167,7 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 {
    ZipEntry* entry = static_cast<ZipEntry*>(mEntries.last());
 
+   if(file->size() > UINT32_MAX)throw jm::Exception(Tr("ZIP file Error. Entry is too large."));
    entry->mUncompressedSize = static_cast<uint32>(file->size());
    file->open(FileMode::kRead);
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
@@ -197,11 +201,18 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 
 void ZipOutputFile::putNextEntry(ZipEntry* entry)
 {
-   entry->mHeaderOffset = static_cast<uint32>(mFile->position());
-
    ByteArray cname = entry->mName.toCString();
    ByteArray cextra = entry->mExtra.toCString();
 
+   // Counters, lengths and offsets of the format have a limited range
+   if(mEntries.size() >= UINT16_MAX || mFile->position() > UINT32_MAX)throw
+      jm::Exception(Tr("ZIP file Error. Archive is too large."));
+   if(cname.size() > UINT16_MAX || cextra.size() > UINT16_MAX
+         || entry->mComment.toCString().size() > UINT16_MAX)throw
+      jm::Exception(Tr("ZIP file Error. Name of Entry is too long."));
+
+   entry->mHeaderOffset = static_cast<uint32>(mFile->position());
+
    //Schreibe Local FileHeader
    uint8 lfh[30];
    jm::serializeLEInt32(lfh, 0, 0x04034b50);//Signature
-- 
2.43.0


From 3d3fe38de96ac9f4f538e3f707b0855492f42409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 157/181] fix: closing a file succeeds although its data could
 not be written

---
 include/core/File.h | 3 +++
 src/core/File.cpp   | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/core/File.h b/include/core/File.h
index 398e28f..445f1e7 100644
--- a/include/core/File.h
+++ b/include/core/File.h
@@ -357,6 +357,9 @@ namespace jm
          };
          Transfer mTransfer = Transfer::kNone;
 
+         //! Status, if data has not been written completely since the file was opened.
+         bool mIncomplete = false;
+
          /*!
           \brief Prepares the stream for a read or write operation.
           \discussion The C library demands a positioning between reading and writing.
diff --git a/src/core/File.cpp b/src/core/File.cpp
index c7c62d6..479c25d 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -68,6 +68,7 @@ File::File(const File& other): Stream(), Comparable<File>()
    mPathname = other.mPathname;
    mHandle = other.mHandle;
    mTransfer = other.mTransfer;
+   mIncomplete = other.mIncomplete;
    if(mPathname.size() > 0)setCString();
    else mCstr = ByteArray();
 }
@@ -84,6 +85,7 @@ File& File::operator=(const File& another)
       mPathname = another.mPathname;
       mHandle = another.mHandle;
       mTransfer = another.mTransfer;
+      mIncomplete = another.mIncomplete;
       if(mPathname.size() > 0)setCString();
       else mCstr = ByteArray();
    }
@@ -605,6 +607,7 @@ bool File::createNewFile()
 Status File::open(FileMode mode)
 {
    mTransfer = Transfer::kNone;
+   mIncomplete = false;
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    switch(mode)
    {
@@ -663,7 +666,7 @@ void File::close()
    if(mHandle == nullptr)return;
    int32 eof = fclose(mHandle);
    mHandle = nullptr;
-   if(eof == EOF)throw Exception(Tr("Error while closing file!"));
+   if(eof == EOF || mIncomplete)throw Exception(Tr("Error while closing file!"));
 }
 
 void File::seek(int64 position)
@@ -719,7 +722,9 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 int64 File::write(const uint8* buffer, int64 length)
 {
    prepareTransfer(Transfer::kWrite);
-   return fwrite(buffer, 1, length, mHandle);
+   const int64 count = fwrite(buffer, 1, length, mHandle);
+   if(count < length)mIncomplete = true;
+   return count;
 }
 
 int32 File::compareTo(const File& other) const
-- 
2.43.0


From 3483252bdec4d3f34bbe6eaeb12d56e62cf021b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 158/181] fix: writing a zip archive crashes if a file cannot
 be opened

---
 src/core/ZipOutputFile.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 726e232..17f764f 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -65,7 +65,8 @@ void ZipOutputFile::open()
    mEntries.clear(nullptr);
 
    // The rest of an older file must not remain behind the archive
-   mFile->open(FileMode::kWrite);
+   if(mFile->open(FileMode::kWrite) != Status::eOK)throw
+      jm::Exception(Tr("ZIP file Error. File cannot be opened."));
 }
 
 void ZipOutputFile::close()
@@ -169,10 +170,12 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 
    if(file->size() > UINT32_MAX)throw jm::Exception(Tr("ZIP file Error. Entry is too large."));
    entry->mUncompressedSize = static_cast<uint32>(file->size());
-   file->open(FileMode::kRead);
+   if(file->open(FileMode::kRead) != Status::eOK)throw
+      jm::Exception(Tr("ZIP file Error. File cannot be opened."));
    ByteArray buffer = ByteArray(entry->mUncompressedSize, 0);
-   file->Stream::readFully(buffer);
+   const int64 count = file->Stream::readFully(buffer);
    file->close();
+   if(count != buffer.size())throw jm::Exception(Tr("ZIP file Error. File cannot be read."));
 
    mTemp->close();
    mTemp->remove();
@@ -234,9 +237,10 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
    mTemp = new jm::File(mFile->path() + ".jmzipdata.tmp");
-   mTemp->open(FileMode::kWrite);
+   Status status = mTemp->open(FileMode::kWrite);
    mTemp->close();
-   mTemp->open(FileMode::kReadWrite);
+   if(status == Status::eOK)status = mTemp->open(FileMode::kReadWrite);
+   if(status != Status::eOK)throw jm::Exception(Tr("ZIP file Error. File cannot be opened."));
 
    mEntries.add(entry, nullptr);
 }
-- 
2.43.0


From 0f2ab498001aec6dd3b0d2a16cd2c098676146de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 159/181] fix: starting an XML document crashes if the file
 cannot be opened

---
 src/core/XMLWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/XMLWriter.cpp b/src/core/XMLWriter.cpp
index 4083eef..9114aa5 100644
--- a/src/core/XMLWriter.cpp
+++ b/src/core/XMLWriter.cpp
@@ -49,7 +49,7 @@ bool XMLWriter::startDocument()
 {
    mIndent = 0;
    mLastIndent = false;
-   if(mOutput->isOpen() == false)mOutput->open(FileMode::kWrite);
+   if(mOutput->isOpen() == false && mOutput->open(FileMode::kWrite) != Status::eOK)return false;
 
    mOutput->write("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n");
    return true;
-- 
2.43.0


From ea06cd68dc9aa9a1361398651d6c7909063c7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 160/181] fix: loading preferences crashes if the file cannot
 be opened

---
 src/core/Preferences.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index ab01250..8716340 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -134,7 +134,7 @@ void Preferences::load(File file)
 
    int64 l = file.size();
    ByteArray buffer = ByteArray(l, 0);
-   file.open(FileMode::kRead);
+   if(file.open(FileMode::kRead) != Status::eOK)throw Exception("Property file cannot be opened.");
    int64 check = file.Stream::readFully(buffer);
    file.close();
    String data = String(buffer);
-- 
2.43.0


From 4971ecd870677043780c079e74423da782bb73ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 161/181] fix: saving preferences hides that the file cannot be
 written

---
 src/core/Preferences.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 8716340..ec81b69 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -172,11 +172,7 @@ void Preferences::save(File file)
          file.createNewFile();
       }
       Status status = file.open(FileMode::kWrite);
-      if(status != Status::eOK)
-      {
-         jm::System::log(Tr("cannot store preferences in '%1'").arg(file.absolutePath()), jm::LogLevel::kError);
-         return;
-      }
+      if(status != Status::eOK)throw Exception(Tr("cannot store preferences in '%1'").arg(file.absolutePath()));
 
       Iterator* keyiter = keys();
 
@@ -211,6 +207,7 @@ void Preferences::save(File file)
    {
       e.printStackTrace();
       System::log(Tr("Cannot save property file: %1").arg(file.absolutePath()), LogLevel::kError);
+      throw;
    }
 }
 
-- 
2.43.0


From ab2aca2c75dca4601eae3afd6715749edd26120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:32 +0000
Subject: [PATCH 162/181] fix: a zip file that cannot be opened is taken for an
 empty one

---
 src/core/ZipFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 0395001..bcba3b2 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -69,10 +69,12 @@ void ZipFile::open()
 
    Status status = mFile->open(FileMode::kRead);
 
+   if(status != Status::eOK)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    // If the file is empty, then we are done
    if(length == 0)return;
 
-   if(status != Status::eOK || seek < 0)throw jm::Exception(Tr("ZIP-File is invalid."));
+   if(seek < 0)throw jm::Exception(Tr("ZIP-File is invalid."));
 
    // We first read the file at the end, where the directory with the entries is located.
    // It's idiotic that you have to search for the end because the last entry has a variable length.
-- 
2.43.0


From 95b0d9a1833548ffbd3a9c5c5ba8064b9d218a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:19 +0000
Subject: [PATCH 163/181] fix: Deflater compressed only the size modulo 2^32 of
 large data

---
 src/core/Deflater.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index a5a32cc..981f814 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -63,17 +63,37 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    defstream.zfree = Z_NULL;
    defstream.opaque = Z_NULL;
    // setup "a" as the input and "b" as the compressed output
-   defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
+   defstream.avail_in = 0;
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)bound; // size of output
+   defstream.avail_out = 0;
    defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
 
    // the actual compression work.
    deflateInit(&defstream, Z_BEST_COMPRESSION);
-   ::deflate(&defstream, Z_FINISH);
+
+   // zlib counts both sides of one call with 32 bits only
+   const int64 portion = 1 << 30;
+   int64 restIn = mUncompLength;
+   int64 restOut = (int64)bound;
+   int status;
+   do
+   {
+      if(defstream.avail_in == 0)
+      {
+         defstream.avail_in = (uInt)std::min(restIn, portion);
+         restIn -= defstream.avail_in;
+      }
+      if(defstream.avail_out == 0)
+      {
+         defstream.avail_out = (uInt)std::min(restOut, portion);
+         restOut -= defstream.avail_out;
+      }
+      status = ::deflate(&defstream, restIn > 0 ? Z_NO_FLUSH : Z_FINISH);
+   }
+   while(status == Z_OK);
    deflateEnd(&defstream);
 
-   length = (uint32)defstream.total_out;
+   length = (int64)bound - restOut - defstream.avail_out;
    mTotalOut += length;
 }
 
-- 
2.43.0


From b7d840a94e7ec1a814702cc2251552d8fd437e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:34 +0000
Subject: [PATCH 164/181] fix: DateFormatter took runs of more than 255 letters
 for short ones

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8a4bf8a..034f08f 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -152,7 +152,7 @@ DateFormatter::Pattern::Pattern(const String& value, bool isText)
    }
    else
    {
-      length = (uint8)value.size();
+      length = (uint8)std::min<int64>(value.size(), 255);
 
       switch(value.charAt(0).unicode())
       {
-- 
2.43.0


From d19d899897e5589e1857ab507de630f09e060302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:27 +0000
Subject: [PATCH 165/181] fix: String::valueOf with more than 17 decimals
 printed garbage

---
 src/core/String.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 34a4d47..522e982 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1074,6 +1074,19 @@ String String::valueOf(double number, int64 precision, bool trunc)
    // There are no digits before the decimal separator for these
    if(!std::isfinite(number) || std::fabs(number) >= 18446744073709551615.0)return valueOf(number);
 
+   // That many decimals do not fit in the integer below
+   if(precision > 17)
+   {
+      std::stringstream ss;
+      ss.imbue(std::locale::classic()); // Not the program's locale
+      ss << std::fixed << std::setprecision(static_cast<int>(precision)) << number;
+      String text = String(ss.str().c_str()).replace('.', ',');
+      while(trunc && text.charAt(text.size() - 1) == '0')text.deleteCharAt(text.size() - 1);
+      if(text.charAt(text.size() - 1) == ',')text.deleteCharAt(text.size() - 1);
+      if(number < 0.0 && text.count('0') + text.count(',') + 1 == text.size())text.deleteCharAt(0);
+      return text;
+   }
+
    bool neg = number < 0.0;
    uint64 before = static_cast<uint64>(std::fabs(number));
 
-- 
2.43.0


From 12c1ed89b17b24fab37b8c27d78eb0b5a4e9bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:03 +0000
Subject: [PATCH 166/181] fix: Thread::sleep ended at once for very long times

---
 src/core/Thread.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 2cc2aca..b8b525b 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -124,12 +124,10 @@ void Thread::sleep(int64 millis)
    gettimeofday(&now, nullptr);
 
    //Konversion machen, damit es keinen overflow gibt, der dann in einer falschen Zeit resultiert.
-   uint64 m = millis;
-
    /* Convert from timeval to timespec */
-   ts.tv_sec = now.tv_sec;
+   ts.tv_sec = now.tv_sec + millis / 1000;
    ts.tv_nsec = now.tv_usec * 1000;
-   ts.tv_nsec += m * 1000000;
+   ts.tv_nsec += (millis % 1000) * 1000000;
    ts.tv_sec += ts.tv_nsec / 1000000000L;
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
-- 
2.43.0


From 7a493e557178054a08f5201d9e6981eaaacc4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 167/181] fix: File::addTag lost all tags of a file with more
 than 4096 bytes of tags

---
 src/core/File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 479c25d..c5499b1 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -795,7 +795,7 @@ StringList File::getTags()const
 
    #ifdef __linux__
 
-   const int sz = 4096;
+   const int sz = 65536; // largest attribute value in Linux
    char buffer[sz];
    int result = getxattr(mCstr.constData(), "user.xdg.tags", buffer, sz);
 
-- 
2.43.0


From 65a15672374744d8e4b0831d25fb8334b2eab500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:25 +0000
Subject: [PATCH 168/181] fix: String::compareFancyTo took numbers modulo 2^32

---
 src/core/String.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 522e982..07073c9 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -694,9 +694,10 @@ int32 String::compareTo(const String& another) const
 
 int32 String::compareFancyTo(const String& another) const
 {
-   //Wandle String in 32bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
-   uint32 str1[256];
-   uint32 str2[256];
+   //Wandle String in 64bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
+   uint64 str1[256];
+   uint64 str2[256];
+   const uint64 max = std::numeric_limits<uint64>::max();
 
    int64 strl1 = std::min(mStrLength, (int64)256);
    int64 strl2 = std::min(another.mStrLength, (int64)256);
@@ -710,12 +711,12 @@ int32 String::compareFancyTo(const String& another) const
    {
       if(mValue[cntin].isDigit())
       {
-         uint32 number = mValue[cntin].digitValue();
+         uint64 number = mValue[cntin].digitValue();
          while(cntin + 1 < strl1 && mValue[cntin + 1].isDigit())
          {
             cntin++;
-            number *= 10;
-            number += mValue[cntin].digitValue();
+            const uint64 digit = mValue[cntin].digitValue();
+            number = (number > (max - digit) / 10) ? max : number * 10 + digit;
          }
          str1[cntout] = number;
       }
@@ -733,12 +734,12 @@ int32 String::compareFancyTo(const String& another) const
    {
       if(another.mValue[cntin].isDigit())
       {
-         uint32 number = another.mValue[cntin].digitValue();
+         uint64 number = another.mValue[cntin].digitValue();
          while(cntin + 1 < strl2 && another.mValue[cntin + 1].isDigit())
          {
             cntin++;
-            number *= 10;
-            number += another.mValue[cntin].digitValue();
+            const uint64 digit = another.mValue[cntin].digitValue();
+            number = (number > (max - digit) / 10) ? max : number * 10 + digit;
          }
          str2[cntout] = number;
       }
@@ -755,8 +756,8 @@ int32 String::compareFancyTo(const String& another) const
    uint32 cnt = 0;
    while(cnt < smallest)
    {
-      uint32 c1 = str1[cnt];
-      uint32 c2 = str2[cnt];
+      uint64 c1 = str1[cnt];
+      uint64 c2 = str2[cnt];
       if(c1 < c2)return -1;
       if(c1 > c2)return 1;
       cnt++;
-- 
2.43.0


From f5fb47902b1d5341705f1237aa7a449e02ba222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 169/181] fix: Preferences lost all entries after a value with
 a zero character

---
 src/core/Preferences.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index ec81b69..3efa0bb 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -35,6 +35,7 @@ using namespace jm;
 
 // Masks the characters of the text, which have a meaning in the properties file. White space at the
 // begin and at the end is masked as well, because it would be cut off while reading.
+// The text would end at a zero character.
 static String escaped(const String& text)
 {
    static const char* kDigits = "0123456789abcdef";
@@ -48,7 +49,7 @@ static String escaped(const String& text)
       else if(c == '\t')result.append("\\t");
       else if(c == '\n')result.append("\\n");
       else if(c == '\r')result.append("\\r");
-      else if(c.isWhitespace() && (index == 0 || index == text.size() - 1))
+      else if(c == Char(uint16(0)) || (c.isWhitespace() && (index == 0 || index == text.size() - 1)))
       {
          result.append("\\u");
          for(int32 shift = 12; shift >= 0; shift -= 4)
-- 
2.43.0


From 86522e3ea4b1f0e0bd62579bc086f4c41e7a50b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:13 +0000
Subject: [PATCH 170/181] fix: extra fields and comments of zip entries were
 taken for texts

---
 include/core/ZipFile.h     | 4 ++--
 src/core/ZipFile.cpp       | 7 ++++---
 src/core/ZipOutputFile.cpp | 8 ++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 830d784..d994375 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -76,8 +76,8 @@ namespace jm
       private:
 
          String mName;
-         String mExtra;
-         String mComment;
+         ByteArray mExtra;
+         ByteArray mComment;
          uint32 mUncompressedSize;
          uint32 mCompressedSize;
          uint32 mHeaderOffset;
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index bcba3b2..7d309b1 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -131,9 +131,10 @@ void ZipFile::open()
          jm::Exception(Tr("ZIP-File is invalid."));
 
       jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
-      jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
-      jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
-                                      commentLength);
+      // These are no texts: they may contain zero bytes
+      jm::ByteArray extra = jm::ByteArray((int8*)&dict[index + 46 + fileNameLength], extraFieldLength);
+      jm::ByteArray comment = jm::ByteArray((int8*)&dict[index + 46 + fileNameLength + extraFieldLength],
+                                            commentLength);
 
       ZipEntry* entry = new ZipEntry(name);
       entry->mExtra = extra;
diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 17f764f..fd0dbfa 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -82,8 +82,8 @@ void ZipOutputFile::close()
       ZipEntry* entry = static_cast<ZipEntry*>(mEntries.next());
 
       ByteArray cname = entry->mName.toCString();
-      ByteArray cextra = entry->mExtra.toCString();
-      ByteArray ccomment = entry->mComment.toCString();
+      ByteArray cextra = entry->mExtra;
+      ByteArray ccomment = entry->mComment;
 
       uint8 cdfh[46];
       jm::serializeLEInt32(cdfh, 0, 0x02014b50);//Signature
@@ -205,13 +205,13 @@ void ZipOutputFile::writeAndClose(jm::File* file)
 void ZipOutputFile::putNextEntry(ZipEntry* entry)
 {
    ByteArray cname = entry->mName.toCString();
-   ByteArray cextra = entry->mExtra.toCString();
+   ByteArray cextra = entry->mExtra;
 
    // Counters, lengths and offsets of the format have a limited range
    if(mEntries.size() >= UINT16_MAX || mFile->position() > UINT32_MAX)throw
       jm::Exception(Tr("ZIP file Error. Archive is too large."));
    if(cname.size() > UINT16_MAX || cextra.size() > UINT16_MAX
-         || entry->mComment.toCString().size() > UINT16_MAX)throw
+         || entry->mComment.size() > UINT16_MAX)throw
       jm::Exception(Tr("ZIP file Error. Name of Entry is too long."));
 
    entry->mHeaderOffset = static_cast<uint32>(mFile->position());
-- 
2.43.0


From 06ed21e719e5a46d7f45dfefaebf156fdb5dfe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:56 +0000
Subject: [PATCH 171/181] fix: a zip entry beyond the end of a stream gave
 other bytes of the archive

---
 src/core/ZipFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 7d309b1..1bee28a 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -209,8 +209,11 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
    uint32 fl = jm::deserializeLEUInt16(localHeader, 26);
    uint32 el = jm::deserializeLEUInt16(localHeader, 28);
 
+   const int64 start = entry->mHeaderOffset + int64(30) + fl + el;
+   if(start + entry->mCompressedSize > length)throw
+      jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
 
-   mFile->seek(entry->mHeaderOffset + int64(30) + fl + el);
+   mFile->seek(start);
    if(mFile->Stream::readFully(input) != input.size())throw
       jm::Exception(Tr("ZIP file Error. Entry is incomplete."));
 
-- 
2.43.0


From ecaed2057b5129ef941743dc0163b0a048d1f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:23 +0000
Subject: [PATCH 172/181] fix: ZipOutputFile overwrote the begin of an archive
 that grew beyond 4 GiB

---
 src/core/ZipOutputFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index fd0dbfa..b02bef0 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -151,7 +151,7 @@ void ZipOutputFile::closeEntry()
    entry->mCompressedSize = entry->mUncompressedSize;
 
    mFile->write(reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
-   uint32 pos = static_cast<uint32>(mFile->position());
+   const int64 pos = mFile->position();
 
    //Aktualisiere Header
    uint8 lfhfragment[12];
@@ -189,7 +189,7 @@ void ZipOutputFile::writeAndClose(jm::File* file)
    entry->mCompressedSize = entry->mUncompressedSize;
 
    mFile->write(reinterpret_cast<const uint8*>(buffer.constData()), entry->mUncompressedSize);
-   uint32 pos = static_cast<uint32>(mFile->position());
+   const int64 pos = mFile->position();
 
    //Aktualisiere Header
    uint8 lfhfragment[12];
-- 
2.43.0


From fdbc84e870755a687b51b864a8a5a8103184473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 173/181] fix: roundFrac returned not a number when the digit
 is beyond the range of double

---
 src/core/Math.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 63657b5..371662e 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -60,6 +60,9 @@ float jm::roundFrac(float f, int32 digits)
 {
    double factor = std::pow(10, digits);
    double value = f * factor;
+   // Beyond the range of double there is no such digit
+   if(!std::isfinite(value))return f;
+   if(factor == 0.0)return 0.0f;
    value = std::round(value);
    return static_cast<float>(value / factor);
 }
@@ -68,6 +71,9 @@ double jm::roundFrac(double value, int64 digits)
 {
    double factor = std::pow(10, digits);
    double result = value * factor;
+   // Beyond the range of double there is no such digit
+   if(!std::isfinite(result))return value;
+   if(factor == 0.0)return 0.0;
    result = std::round(result);
    return result / factor;
 }
-- 
2.43.0


From e014b593429af1fa4ed5126e4d1ae7b01020ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:24 +0000
Subject: [PATCH 174/181] fix: a processing instruction in the document type
 declaration could hide the rest of the document

A quote or a bracket in it was taken for one of the declaration.
---
 src/core/SAXParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 11c88b1..c22dd1b 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -107,6 +107,12 @@ static int64 skipDocType(const String& xml, int64 position)
          if(end < 0)return xml.size();
          position = end + 2;
       }
+      else if(isAt(xml, position, "<?"))
+      {
+         const int64 end = xml.indexOf("?>", position + 2);
+         if(end < 0)return xml.size();
+         position = end + 1;
+      }
       else if(c == '\"' || c == '\'')
       {
          inValue = true;
-- 
2.43.0


From 88ec647a1991b58fc4a0e9f5b5ab8a972d00dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:46 +0000
Subject: [PATCH 175/181] fix: Base64::decode wrote beyond its buffer for very
 long texts

The length was computed with 32 bits, and texts of 2^31 letters and more decoded to nothing.
---
 src/core/Base64.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 58b2c93..e16a2e0 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -123,14 +123,14 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 {
    uint8 c1 = 0, c2 = 0, c3 = 0, c4 = 0;
    uint8 b1 = 0, b2 = 0, b3 = 0;
-   int len = length;
+   int64 len = length;
 
-   uint32 lenb64 = (len * 3) / 4 ;
+   uint32 lenb64 = static_cast<uint32>((len * 3) / 4);
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
 
-   for(int32 i = 0; i < len; i = i + 4)
+   for(int64 i = 0; i < len; i = i + 4)
    {
       c1 = gBase64rcvt[data[i]];
       c2 = (i + 1 < len) ? gBase64rcvt[data[i + 1]] : 65;
-- 
2.43.0


From 99081e116717dc3b0ef9dc8e10f9c1692495cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:20 +0000
Subject: [PATCH 176/181] fix: Thread::setName crashed without a running thread

The handle is not valid before start() and after interrupt().
---
 src/core/Thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index b8b525b..9cef22a 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -218,7 +218,10 @@ void Thread::setName(const jm::String& name)
    pthread_setname_np(name.toCString().constData());
    #elif defined __linux__
    ByteArray cstr = name.toCString();
-   pthread_setname_np(thread, cstr.constData());
+   // There is no thread to be named before start() and after interrupt()
+   pthread_mutex_lock(&criticalSection);
+   if(joinable)pthread_setname_np(thread, cstr.constData());
+   pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    uint16* cstr = name.toWString();
    SetThreadDescription(mHandle, (PCWSTR)cstr);
-- 
2.43.0


From 8fe2d11dfc7f747fed84b7431b0abcc3e8b208a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:06 +0000
Subject: [PATCH 177/181] fix: the year of a date far away or empty was
 searched without end

---
 src/core/Date.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index 92776cb..c8f4630 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -127,24 +127,18 @@ int64 Date::timeFromYear(int64 y) const
 
 int64 Date::yearFromTime(int64 t) const
 {
-   int64 startYear = 1970;
-
-   if(t >= 0)
-   {
-      while(timeFromYear(startYear) <= t)
-      {
-         startYear++;
-      }
-      return startYear - 1;
-   }
-   else
+   // Every 400 years have the same number of days, so only the years of one such period are searched.
+   // Counting days instead of milliseconds, no instant is out of range.
+   const int64 daysOfPeriod = 146097;
+   const int64 target = day(t);
+   const int64 period = divFloor(target, daysOfPeriod);
+
+   int64 year = 1970 + 400 * period + (target - period * daysOfPeriod) / 366;
+   while(dayFromYear(year + 1) <= target)
    {
-      while(timeFromYear(startYear) > t)
-      {
-         startYear--;
-      }
-      return startYear;
+      year++;
    }
+   return year;
 }
 
 int16 Date::inLeapYear(int64 t) const
-- 
2.43.0


From 1a56e30729c8cea58a67f9bab1de8d6f0ecb1b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:37 +0000
Subject: [PATCH 178/181] fix: reading or writing a file that is not open
 crashed

---
 src/core/File.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index c5499b1..a573f7c 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -671,6 +671,8 @@ void File::close()
 
 void File::seek(int64 position)
 {
+   if(mHandle == nullptr)throw Exception(Tr("Error while moving file reading pointer!"));
+
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)position, SEEK_SET);
    mTransfer = Transfer::kNone;
@@ -679,6 +681,8 @@ void File::seek(int64 position)
 
 void File::move(int64 offset)
 {
+   if(mHandle == nullptr)throw Exception(Tr("Error while moving file reading pointer!"));
+
    //Data type is long int in fseek
    size_t res = fseek(mHandle, (long int)offset, SEEK_CUR);
    mTransfer = Transfer::kNone;
@@ -687,6 +691,7 @@ void File::move(int64 offset)
 
 int64 File::position()
 {
+   if(mHandle == nullptr)return -1;
    return int64((uint64)ftell(mHandle));
 }
 
@@ -699,6 +704,7 @@ void File::prepareTransfer(Transfer transfer)
 
 int64 File::read(uint8* buffer, int64 length)
 {
+   if(mHandle == nullptr)return 0;
    prepareTransfer(Transfer::kRead);
    return fread(buffer, 1, length, mHandle);
 }
@@ -721,6 +727,7 @@ int64 File::readFully(ByteArray& buffer, int64 length)
 
 int64 File::write(const uint8* buffer, int64 length)
 {
+   if(mHandle == nullptr)return 0;
    prepareTransfer(Transfer::kWrite);
    const int64 count = fwrite(buffer, 1, length, mHandle);
    if(count < length)mIncomplete = true;
-- 
2.43.0


From c28eff9a81db418a7a796e01ea28d750dca9c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:46 +0000
Subject: [PATCH 179/181] fix: printing texts from several threads raced for
 the console character set

---
 src/core/String.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 07073c9..2335099 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1203,9 +1203,10 @@ namespace jm
    std::ostream& operator << (std::ostream& out, const String& str)
    {
       //\todo It is best to set and get the charset globally. It's inefficient that way
-      if(gConsoleCharset == nullptr)gConsoleCharset = Charset::forName("Windows-1252");
+      Charset* charset = gConsoleCharset;
+      if(charset == nullptr)charset = Charset::forName("Windows-1252");
       String s = str;
-      ByteArray cstr = s.toCString(gConsoleCharset);
+      ByteArray cstr = s.toCString(charset);
       out << cstr.constData();
       return out;
    }
-- 
2.43.0


From cda4017bbd778ebdee0182515a21c16b6110ea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:17 +0000
Subject: [PATCH 180/181] fix: copying an empty CharArray copies from a null
 pointer

---
 src/core/Charset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 3a66a09..7a9f235 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -53,7 +53,7 @@ CharArray::CharArray(const CharArray& another)
 {
    length = another.length;
    buffer = new Char[length];
-   memcpy(buffer, another.buffer, length * 2);
+   if(length > 0)memcpy(buffer, another.buffer, length * 2);
 }
 
 CharArray::CharArray(int64 alength)
@@ -80,7 +80,7 @@ namespace jm
       if(buffer != nullptr)delete[] buffer;
       length = another.length;
       buffer = new Char[length];
-      memcpy(buffer, another.buffer, length * 2);
+      if(length > 0)memcpy(buffer, another.buffer, length * 2);
 
       return *this;
    }
-- 
2.43.0


From 044e2c8e6b3c833a91e30023adf2efa26f0cecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:56 +0000
Subject: [PATCH 181/181] fix: record nothing while a transaction is rolled
 back

---
 src/core/UndoManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 5745840..4ea865f 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -403,12 +403,14 @@ void UndoManager::rollback()
       UndoStep* step = mTransaction;
 
       // Undo all changes
+      mUndoing = true;
       UndoChange* change = step->recent;
       while(change != nullptr)
       {
          change->swap();
          change = change->mPrev;
       }
+      mUndoing = false;
 
       delete mTransaction;
       mTransaction = nullptr;
-- 
2.43.0

