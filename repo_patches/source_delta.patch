From 1502bb9175b5c19b24e87258ddba2c012fa8d638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:15 +0000
Subject: [PATCH 1/7] fix: atoi accepted trailing characters after the minimum
 value and read past the terminator

convertToInt compared only a prefix of the text with |min|, so "-128999" converted to signed char
gave -128 without an error, and the comparison read bytes behind the terminating NUL.
---
 include/cybozu/atoi.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/cybozu/atoi.hpp b/include/cybozu/atoi.hpp
index 3b5970a..be13b81 100644
--- a/include/cybozu/atoi.hpp
+++ b/include/cybozu/atoi.hpp
@@ -14,8 +14,8 @@ namespace cybozu {
 
 namespace atoi_local {
 
-template<typename T, size_t n>
-T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min, T overflow1, char overflow2)
+template<typename T>
+T convertToInt(bool *b, const char *p, size_t size, T min, T overflow1, char overflow2)
 {
 	if (size > 0 && *p) {
 		bool isMinus = false;
@@ -27,11 +27,6 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 		if (i < size && p[i]) {
 			// skip leading zero
 			while (i < size && p[i] == '0') i++;
-			// check minimum
-			if (isMinus && size - i >= n - 1 && memcmp(max, &p[i], n - 1) == 0) {
-				if (b) *b = true;
-				return min;
-			}
 			T x = 0;
 			for (;;) {
 				unsigned char c;
@@ -41,6 +36,11 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 				}
 				unsigned int y = c - '0';
 				if (y > 9 || x > overflow1 || (x == overflow1 && c >= overflow2)) {
+					// check minimum
+					if (isMinus && x == overflow1 && c == overflow2 && (i + 1 == size || p[i + 1] == '\0')) {
+						if (b) *b = true;
+						return min;
+					}
 					break;
 				}
 				x = x * 10 + T(y);
@@ -156,7 +156,7 @@ public:
 	}
 	inline operator signed char() const
 	{
-		return atoi_local::convertToInt<signed char>(b_, p_, size_, "128", -128, 12, '8');
+		return atoi_local::convertToInt<signed char>(b_, p_, size_, -128, 12, '8');
 	}
 	inline operator unsigned char() const
 	{
@@ -164,7 +164,7 @@ public:
 	}
 	inline operator short() const
 	{
-		return atoi_local::convertToInt<short>(b_, p_, size_, "32768", -32768, 3276, '8');
+		return atoi_local::convertToInt<short>(b_, p_, size_, -32768, 3276, '8');
 	}
 	inline operator unsigned short() const
 	{
@@ -172,7 +172,7 @@ public:
 	}
 	inline operator int() const
 	{
-		return atoi_local::convertToInt<int>(b_, p_, size_, "2147483648", (std::numeric_limits<int>::min)() /* -2147483648 */, 214748364, '8');
+		return atoi_local::convertToInt<int>(b_, p_, size_, (std::numeric_limits<int>::min)() /* -2147483648 */, 214748364, '8');
 	}
 	inline operator unsigned int() const
 	{
@@ -180,7 +180,7 @@ public:
 	}
 	inline operator long long() const
 	{
-		return atoi_local::convertToInt<long long>(b_, p_, size_, "9223372036854775808", CYBOZU_LLONG_MIN, 922337203685477580LL, '8');
+		return atoi_local::convertToInt<long long>(b_, p_, size_, CYBOZU_LLONG_MIN, 922337203685477580LL, '8');
 	}
 	inline operator unsigned long long() const
 	{
-- 
2.43.0


From de46c1cbe833a9e78ae4c5327541b0b3d8e358a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:19 +0000
Subject: [PATCH 2/7] fix: makeString read past the terminator of a
 NUL-terminated string when building an error message

---
 include/cybozu/exception.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/exception.hpp b/include/cybozu/exception.hpp
index a9668ba..5523f66 100644
--- a/include/cybozu/exception.hpp
+++ b/include/cybozu/exception.hpp
@@ -63,7 +63,8 @@ namespace exception {
 /* get max 16 characters to avoid buffer overrun */
 inline std::string makeString(const char *str, size_t size)
 {
-	return std::string(str, std::min<size_t>(size, 16));
+	const char *end = str + std::min<size_t>(size, 16);
+	return std::string(str, std::find(str, end, '\0')); // size may be size_t(-1) for a NUL-terminated string
 }
 
 #ifdef _WIN32
-- 
2.43.0


From e3fe4c5ba2ac7d82a159c1ca46361bb92c081c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:30 +0000
Subject: [PATCH 3/7] fix: negative Char was taken for a valid character and
 encoded as a bad byte

---
 include/cybozu/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..71907e0 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -113,6 +113,7 @@ namespace string {
 */
 inline int GetCharSize(Char c)
 {
+	if (static_cast<int>(c) < 0) return 0;
 	if (c <= 0x7f) return 1;
 	if (c <= 0x7ff) return 2;
 	if (c <= 0xd7ff) return 3;
@@ -216,6 +217,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 
 inline int toUtf8(char out[4], Char c)
 {
+	if (static_cast<int>(c) < 0) return 0;
 	if (c <= 0x7f) {
 		out[0] = static_cast<char>(c);
 		return 1;
@@ -243,6 +245,7 @@ inline int toUtf8(char out[4], Char c)
 
 inline int toUtf16(Char16 out[2], Char c)
 {
+	if (static_cast<int>(c) < 0) return 0;
 	if (c <= 0xffff) {
 		out[0] = static_cast<Char16>(c);
 		return 1;
-- 
2.43.0


From d4fd764ddf7691969f62d86d4db45d8a934081e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:03 +0000
Subject: [PATCH 4/7] fix: BitVectorT::init kept bits behind bitLen of the last
 block

They made equal vectors compare different and leaked into what was appended next.
---
 include/cybozu/bitvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index d53e9fd..63ee6f2 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -200,7 +200,7 @@ public:
 	void init(const T *buf, size_t bitLen)
 	{
 		resize(bitLen);
-		std::copy(buf, buf + v_.size(), &v_[0]);
+		CopyBit<T>(v_.data(), buf, bitLen);
 	}
 	void resize(size_t bitLen)
 	{
-- 
2.43.0


From 5fdd542780c806bc4988af6ca426860263b8bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:03 +0000
Subject: [PATCH 5/7] fix: range check of BitVectorT::extract overflowed for a
 large pos

and the blocks were then read out of bounds.
---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index 63ee6f2..bfb0bf0 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -302,7 +302,7 @@ public:
 	void extract(T* dst, size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return;
-		if (pos + bitLen > bitLen_) {
+		if (bitLen > bitLen_ || pos > bitLen_ - bitLen) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
@@ -327,7 +327,7 @@ public:
 	T extract(size_t pos, size_t bitLen) const
 	{
 		if (bitLen == 0) return 0;
-		if (bitLen > unitBitSize || pos + bitLen > bitLen_) {
+		if (bitLen > unitBitSize || bitLen > bitLen_ || pos > bitLen_ - bitLen) {
 			throw cybozu::Exception("BitVectorT:extract:bad range") << bitLen << pos << bitLen_;
 		}
 		const size_t q = pos / unitBitSize;
-- 
2.43.0


From a1a35e0a8044ef996adf48f4c4d2a2fadbdb15ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:03 +0000
Subject: [PATCH 6/7] fix: BitVectorT::append(src, unitBitSize) did not mask
 src for blocks shorter than 64 bits

Bits of src behind bitLen were appended when the vector was not block aligned.
---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index bfb0bf0..ea045c2 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -274,8 +274,8 @@ public:
 		if (bitLen > unitBitSize) {
 			throw cybozu::Exception("BitVectorT:append:bad bitLen") << bitLen;
 		}
-		if (bitLen < unitBitSize) {
-			src &= GetMaskBit<T>(bitLen);
+		if (bitLen < 64) {
+			src &= GetMaskBit<uint64_t>(bitLen);
 		}
 		const size_t q = bitLen_ / unitBitSize;
 		const size_t r = bitLen_ % unitBitSize;
-- 
2.43.0


From 0b915846a28ac07c6ceea90028f821b89ceb1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:03 +0000
Subject: [PATCH 7/7] fix: BitVectorT comparison ignored the length in bits

---
 include/cybozu/bitvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/bitvector.hpp b/include/cybozu/bitvector.hpp
index ea045c2..a5760ca 100644
--- a/include/cybozu/bitvector.hpp
+++ b/include/cybozu/bitvector.hpp
@@ -345,8 +345,8 @@ public:
 		}
 		return v;
 	}
-	bool operator==(const BitVectorT<T>& rhs) const { return v_ == rhs.v_; }
-	bool operator!=(const BitVectorT<T>& rhs) const { return v_ != rhs.v_; }
+	bool operator==(const BitVectorT<T>& rhs) const { return bitLen_ == rhs.bitLen_ && v_ == rhs.v_; }
+	bool operator!=(const BitVectorT<T>& rhs) const { return !(*this == rhs); }
 };
 
 #if (CYBOZU_OS_BIT == 32)
-- 
2.43.0

