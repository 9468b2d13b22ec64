From 94335fe599850b5fe7f1f222e8191c4cb7eb9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 01/34] fix: stream input of numbers failed at end of stream
 and accepted missing digits

getDigits() set failbit when the last digit is followed by end of stream
although the number had been read, left std::noskipws set when the stream
threw, and a number without digits was silently read as 0.
---
 include/zm.h  | 26 ++++++++++++--------------
 include/zm2.h |  3 +--
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 3763b45..a24c54d 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -83,26 +83,26 @@ namespace local {
 
 inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNegative = false)
 {
-	std::ios_base::fmtflags keep = is.flags();
-	size_t pos = 0;
-	char c;
-	while (is >> c) {
+	typedef std::istream::traits_type Traits;
+	if (is.flags() & std::ios_base::skipws) is >> std::ws;
+	for (;;) {
+		// peek not to fail at the end of stream after reading digits
+		const Traits::int_type v = is.good() ? is.peek() : Traits::eof();
+		if (Traits::eq_int_type(v, Traits::eof())) break;
+		const char c = Traits::to_char_type(v);
+		const size_t pos = str.size();
 		if (('0' <= c && c <= '9') /* digits */
 		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
 		  || ('a' <= c && c <= 'f') /* lowercase hex */
 		  || ('A' <= c && c <= 'F') /* uppercase hex */
 		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
 			str.push_back(c);
-			if (pos == 0) {
-				is >> std::noskipws;
-			}
-			pos++;
+			is.ignore();
 		} else {
-			is.unget();
 			break;
 		}
 	}
-	is.flags(keep);
+	if (str.empty()) is.setstate(std::ios_base::failbit);
 	return is;
 }
 
@@ -732,8 +732,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	inline friend std::istream& operator>>(std::istream& is, VuintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str);
-		x.set(str);
+		if (local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 
@@ -1118,8 +1117,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
 		std::string str;
-		local::getDigits(is, str, true);
-		x.set(str);
+		if (local::getDigits(is, str, true)) x.set(str);
 		return is;
 	}
 	static inline void shl(VsintT& out, const VsintT& x, size_t n)
diff --git a/include/zm2.h b/include/zm2.h
index 90e9ec6..375d79f 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -120,8 +120,7 @@ public:
 	inline friend std::istream& operator>>(std::istream& is, Fp& x)
 	{
 		std::string str;
-		mie::local::getDigits(is, str);
-		x.set(str);
+		if (mie::local::getDigits(is, str)) x.set(str);
 		return is;
 	}
 	MIE_FORCE_INLINE bool isZero() const
-- 
2.43.0


From bc3f90f46ce334e6df316a162629ad8d922712d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 02/34] fix: parse numbers strictly and without ending the
 process

VuintT::set(str) accepted signs, spaces and prefixes at the boundaries of its
8 or 9 digit chunks ("-5" gave 4294967291), and called exit(1) for decimal
numbers with a leading zero and for numbers which don't fit.  Throw
std::invalid_argument instead, and keep the old value on error.
---
 include/zm.h | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index a24c54d..b8fa811 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -255,6 +255,7 @@ public:
 	*/
 	void moveFrom(VariableBuffer& rhs) { v_.swap(rhs.v_); }
 	size_t size() const { return v_.size(); }
+	static size_t maxSize() { return size_t(-1) / (sizeof(T) * 2); }
 	const T& operator[](size_t n) const { return v_[n]; }
 	T& operator[](size_t n) { return v_[n]; }
 };
@@ -293,6 +294,7 @@ public:
 		size_ = n;
 	}
 	size_t size() const { return size_; }
+	static size_t maxSize() { return N; }
 	void moveFrom(const FixedBuffer& rhs)
 	{
 		operator=(rhs);
@@ -451,36 +453,31 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	*/
 	void set(const std::string& str, int base = 0)
 	{
-		std::string t;
-		if (str.size() >= 2 && str[0] == '0') {
-			switch (str[1]) {
-			case 'x':
-				if (base != 0 && base != 16) local::errExit("bad base in set(str)");
-				base = 16;
-				t = str.substr(2);
-				break;
-			default:
-				local::errExit("not support base in set(str) 0x");
-			}
+		VuintT y((T)0);
+		std::string t = str;
+		if (str.size() >= 2 && str[0] == '0' && str[1] == 'x') {
+			if (base != 0 && base != 16) goto ERR;
+			base = 16;
+			t = str.substr(2);
 		}
 		if (base == 0) {
 			base = 10;
 		}
-		if (t.empty()) t = str;
+		// don't rely on strtoul() which accepts spaces, signs and prefixes
+		if (t.empty() || t.find_first_not_of(base == 16 ? "0123456789abcdefABCDEF" : "0123456789") != std::string::npos) goto ERR;
 
 		switch (base) {
 		case 16:
 			{
+				t.erase(0, t.find_first_not_of('0'));
+				if (t.size() > Buffer::maxSize() * sizeof(T) * 2) goto ERR;
 				std::vector<uint32_t> x;
 				while (!t.empty()) {
 					size_t remain = (std::min)((int)t.size(), 8);
-					char *endp;
-					uint32_t v = strtoul(&t[t.size() - remain], &endp, 16);
-					if (*endp) goto ERR;
-					x.push_back(v);
+					x.push_back((uint32_t)strtoul(&t[t.size() - remain], 0, 16));
 					t = t.substr(0, t.size() - remain);
 				}
-				set(&x[0], x.size());
+				if (!x.empty()) y.set(&x[0], x.size());
 			}
 			break;
 		default:
@@ -489,20 +486,18 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 				std::vector<uint32_t> x;
 				while (!t.empty()) {
 					size_t remain = (std::min)((int)t.size(), 9);
-					char *endp;
-					uint32_t v = strtol(&t[t.size() - remain], &endp, 10);
-					if (*endp) goto ERR;
-					x.push_back(v);
+					x.push_back((uint32_t)strtol(&t[t.size() - remain], 0, 10));
 					t = t.substr(0, t.size() - remain);
 				}
-				clear();
 				for (size_t i = 0, n = x.size(); i < n; i++) {
-					(*this) *= 1000000000;
-					(*this) += x[n - 1 - i];
+					if (y.size() >= Buffer::maxSize()) goto ERR;
+					y *= 1000000000;
+					y += x[n - 1 - i];
 				}
 			}
 			break;
 		}
+		*this = y;
 		return;
 	ERR:
 		throw std::invalid_argument(std::string("bad digit `") + str + "`");
-- 
2.43.0


From acdc904b4d84a225ed4ee06c2c09778a99ef42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 03/34] fix: keep sign and value of Vsint consistent in set()
 and read back what was written

Vsint::set(unsigned) kept the old sign, a hexadecimal Vsint ("-0x12") written
by operator<< could not be read by operator>> and ended the process, and the
sign changed even if the digits were rejected.
---
 include/zm.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index b8fa811..748866f 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -92,7 +92,7 @@ inline std::istream& getDigits(std::istream& is, std::string& str, bool allowNeg
 		const char c = Traits::to_char_type(v);
 		const size_t pos = str.size();
 		if (('0' <= c && c <= '9') /* digits */
-		  || (pos == 1 && (str[0] == '0' && c == 'x')) /* 0x.. */
+		  || (c == 'x' && (str == "0" || str == "-0")) /* 0x.. */
 		  || ('a' <= c && c <= 'f') /* lowercase hex */
 		  || ('A' <= c && c <= 'F') /* uppercase hex */
 		  || (allowNegative && pos == 0 && c == '-')) { /* -digits */
@@ -975,6 +975,7 @@ public:
 	}
 	void set(value_type x)
 	{
+		isNeg_ = false;
 		v_.set(x);
 	}
 	void set(int64_t x)
@@ -987,7 +988,7 @@ public:
 		v_ = x;
 		isNeg_ = false;
 	}
-	void set(const uint64_t *ptr, size_t size) { v_.set(ptr, size); }
+	void set(const uint64_t *ptr, size_t size) { isNeg_ = false; v_.set(ptr, size); }
 	const V& get() const { return v_; }
 	V& get() { return v_; }
 	void clear() { v_.set((value_type)0); isNeg_ = false; }
@@ -996,17 +997,13 @@ public:
 		if (isNeg_) return "-" + v_.toString(base);
 		return v_.toString(base);
 	}
-	void set(const std::string& str, int base = 10)
+	void set(const std::string& str, int base = 0)
 	{
-		isNeg_ = false;
-		if (str.size() > 0 && str[0] == '-') {
-			isNeg_ = true;
-			v_.set(&str[1], base);
-		} else {
-			v_.set(str, base);
-		}
+		const bool isNeg = !str.empty() && str[0] == '-';
+		v_.set(isNeg ? str.substr(1) : str, base);
+		isNeg_ = isNeg;
 	}
-	void fromStr(const std::string& str, int base = 10)
+	void fromStr(const std::string& str, int base = 0)
 	{
 		set(str, base);
 	}
-- 
2.43.0


From b78d99a125bec69d28a82a96133fd9889cd363e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 04/34] fix: Fp::set() ended the process for numbers of more
 than 320 bits

---
 include/zm2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm2.h b/include/zm2.h
index 375d79f..960070c 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -72,6 +72,7 @@ public:
 		assert(x < getModulo());
 		mie::Vuint y(x);
 //		count++;std::cout << "count=" << count << ", x=" << x << std::endl;
+		if (y.size() > N) y %= getModulo(); // y * R must fit in Vuint
 		y *= getMontgomeryR();
 		y %= getModulo();
 		setDirect(*this, y);
-- 
2.43.0


From d6c1ba247eed921bb71baabf02372c1886862bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 05/34] fix: wrong value of Fp(INT_MIN) and Vsint(INT_MIN)

---
 include/zm.h  | 2 +-
 include/zm2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 748866f..f94e767 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -960,7 +960,7 @@ class VsintT : public local::addsubmul<VsintT<V>,
 public:
 	typedef typename V::value_type value_type;
 	VsintT(int x = 0)
-		: v_(::abs(x))
+		: v_(x < 0 ? -(int64_t)x : x) // x may be INT_MIN
 		, isNeg_(x < 0)
 	{
 	}
diff --git a/include/zm2.h b/include/zm2.h
index 960070c..e38098a 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -57,7 +57,7 @@ public:
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 		} else {
-			v_[0] = -x;
+			v_[0] = -(int64_t)x; // x may be INT_MIN
 			std::fill(v_ + 1, v_ + N, 0);
 			mul(*this, *this, montgomeryR2_);
 			neg(*this, *this);
-- 
2.43.0


From b8a059131e98a504d72258483de12040344f9bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 06/34] fix: read Fp2, Fp6 and Fp12 completely or not at all

operator>> compared uninitialized delimiters if the text ended early, so that
a truncated element could be accepted, and left a half read element on error.
---
 include/bn.h | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index a0b6c22..7f5fb79 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -528,9 +528,13 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	}
 	friend std::istream& operator>>(std::istream& is, Fp2T& x)
 	{
-		char cl, cm, cr;
-		is >> cl >> x.a_ >> cm >> x.b_ >> cr;
-		if (cl == '[' && cm == ',' && cr == ']') return is;
+		char cl = 0, cm = 0, cr = 0;
+		Fp2T t;
+		is >> cl >> t.a_ >> cm >> t.b_ >> cr;
+		if (is && cl == '[' && cm == ',' && cr == ']') {
+			x = t;
+			return is;
+		}
 		throw std::ios_base::failure("bad Fp2");
 	}
 	bool operator==(const Fp2T& rhs) const
@@ -973,9 +977,13 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 	}
 	friend std::istream& operator>>(std::istream& is, Fp6T& x)
 	{
-		char c1, c2, c3, c4;
-		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3 >> x.c_ >> c4;
-		if (c1 == '[' && c2 == ',' && c3 == ',' && c4 == ']') return is;
+		char c1 = 0, c2 = 0, c3 = 0, c4 = 0;
+		Fp6T t;
+		is >> c1 >> t.a_ >> c2 >> t.b_ >> c3 >> t.c_ >> c4;
+		if (is && c1 == '[' && c2 == ',' && c3 == ',' && c4 == ']') {
+			x = t;
+			return is;
+		}
 		throw std::ios_base::failure("bad Fp6");
 	}
 
@@ -1424,9 +1432,13 @@ struct Fp12T : public mie::local::addsubmul<Fp12T<T> > {
 	}
 	friend std::istream& operator>>(std::istream& is, Fp12T& x)
 	{
-		char c1, c2, c3;
-		is >> c1 >> x.a_ >> c2 >> x.b_ >> c3;
-		if (c1 == '[' && c2 == ',' && c3 == ']') return is;
+		char c1 = 0, c2 = 0, c3 = 0;
+		Fp12T t;
+		is >> c1 >> t.a_ >> c2 >> t.b_ >> c3;
+		if (is && c1 == '[' && c2 == ',' && c3 == ']') {
+			x = t;
+			return is;
+		}
 		throw std::ios_base::failure("bad Fp12");
 	}
 	static inline void add(Fp12T& z, const Fp12T& x, const Fp12T& y)
-- 
2.43.0


From 87f46ccc5fa1edd70fdf2626f0d31f3cb1870853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 07/34] fix: reading a point accepted points which are not on
 the curve

EcT::operator>> didn't verify the point though EcT::set() does, ignored what
follows a NUL, and changed the old point on error.
---
 include/bn.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 7f5fb79..9c08cb4 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2937,17 +2937,18 @@ public:
 	{
 		std::string str;
 		is >> str;
+		if (is.bad()) throw std::ios_base::failure("operator>>:read error"); // str may be cut off
 		if (str == "0") {
 			self.clear();
 		} else {
-			self.p[2] = 1;
 			size_t pos = str.find('_');
 			if (pos == std::string::npos) {
 				throw std::runtime_error("operator>>:bad format");
 			}
-			str[pos] = '\0';
-			self.p[0].set(&str[0]);
-			self.p[1].set(&str[pos + 1]);
+			T x, y;
+			x.set(str.substr(0, pos));
+			y.set(str.substr(pos + 1));
+			self = EcT(x, y); // throw an exception if (x, y) is not on the curve
 		}
 		return is;
 	}
-- 
2.43.0


From fa02d6c2a2a468a7a7c8180086b04f850c5423ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:17 +0000
Subject: [PATCH 08/34] fix: const operations of EcT modified the shared point

operator==, operator<< and opt_atePairing normalized their const arguments in
place, so two threads which used the same point at the same time could see a
half normalized one and got wrong results.
---
 include/bn.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 9c08cb4..c1a6e0f 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2907,14 +2907,16 @@ public:
 	EcT operator*(const N& y) const { EcT c; mul(c, *this, y); return c; }
 	bool operator==(const EcT& rhs) const
 	{
-		normalize();
-		rhs.normalize();
 		if (isZero()) {
 			if (rhs.isZero()) return true;
 			return false;
 		}
 		if (rhs.isZero()) return false;
-		return p[0] == rhs.p[0] && p[1] == rhs.p[1];
+		// normalize copies because other threads may use *this and rhs
+		T P[3], Q[3];
+		ecop::NormalizeJac(P, p);
+		ecop::NormalizeJac(Q, rhs.p);
+		return P[0] == Q[0] && P[1] == Q[1];
 	}
 	bool operator!=(const EcT& rhs) const
 	{
@@ -2929,8 +2931,10 @@ public:
 		if (self.isZero()) {
 			return os << '0';
 		} else {
-			self.normalize();
-			return os << self.p[0].toString(16) << '_' << self.p[1].toString(16);
+			// normalize a copy because other threads may use self
+			T P[3];
+			ecop::NormalizeJac(P, self.p);
+			return os << P[0].toString(16) << '_' << P[1].toString(16);
 		}
 	}
 	friend inline std::istream& operator>>(std::istream& is, EcT& self)
@@ -2978,13 +2982,8 @@ typedef EcT<Fp> Ec1;
 
 inline void opt_atePairing(Fp12& f, const Ec2& Q, const Ec1& P)
 {
-	Q.normalize();
-	P.normalize();
-	if (Q.isZero() || P.isZero()) {
-		f = 1;
-		return;
-	}
-	opt_atePairing<Fp>(f, Q.p, P.p);
+	// normalizes copies because other threads may use Q and P
+	opt_atePairingJac<Fp>(f, Q.p, P.p);
 }
 
 template<>
-- 
2.43.0


From 888a2be89411ea04c5b051e83c265d3f625e2c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:57 +0000
Subject: [PATCH 09/34] fix: numbers were written with the digit grouping of
 the global locale

The text could not be read back.
---
 include/zm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zm.h b/include/zm.h
index f94e767..13c0807 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -14,6 +14,7 @@
 #include <stdexcept>
 #include <algorithm>
 #include <iostream>
+#include <locale>
 
 #ifndef MIE_ZM_VUINT_BIT_LEN
 	// minimum 512
@@ -409,6 +410,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	std::string toString(int base = 10) const
 	{
 		std::ostringstream os;
+		os.imbue(std::locale::classic()); // no thousands separator
 		switch (base) {
 		case 10:
 			{
-- 
2.43.0


From e05f493a96c088d0b3d1de65a56f995adb18ff7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 10/34] fix: report that generated code can't be made
 executable

Fp::setModulo() ignored the error and crashed when it called the code.
---
 src/zm2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 0371043..1bdc3ec 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3644,7 +3644,7 @@ void Fp::setModulo(const mie::Vuint& p, int mode, bool useMulx, bool definedBN_S
 		static std::vector<Xbyak::uint8> buf;
 		buf.resize(codeSize + dataSize + PageSize);
 		Xbyak::uint8 *const codeAddr = Xbyak::CodeArray::getAlignedAddress(&buf[0], PageSize);
-		Xbyak::CodeArray::protect(codeAddr, codeSize, true);
+		if (!Xbyak::CodeArray::protect(codeAddr, codeSize, true)) throw Xbyak::Error(Xbyak::ERR_CANT_PROTECT);
 		s_data = Xbyak::CastTo<Data*>(codeAddr + codeSize);
 
 //		printf("codeAddr=%p, dataAddr=%p\n", codeAddr, s_data);
-- 
2.43.0


From 072c19d9f9c6bc905159c5b1879615c6e9f34968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 11/34] fix: wrong pairing after switching from CurveSNARK2 to
 CurveSNARK1

The code generated for b = 82 was also used after Param::init() with b = 3.
---
 src/zm2.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 1bdc3ec..8013aa4 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -3604,6 +3604,14 @@ void Fp::setModulo(const mie::Vuint& p, int mode, bool useMulx, bool definedBN_S
 		exit(1);
 	}
 	static bool init = false;
+#ifdef BN_SUPPORT_SNARK
+	// b which pointDblLineEval is generated for
+	static const int initB = bn::Param::b;
+	if (init && bn::Param::b != initB) {
+		bn::Fp6::pointDblLineEval = &bn::Fp6::pointDblLineEvalC;
+		bn::Fp6::pointDblLineEvalWithoutP = &bn::Fp6::pointDblLineEvalWithoutPC;
+	}
+#endif
 	if (init) return;
 	init = true;
 	if (p.size() != Fp::N) {
-- 
2.43.0


From dfedcd196355fa26ea3959d54fdcf194e9134d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 12/34] fix: scalar multiplication by a negative number

The number of limbs of a negative mpz_class was negative, so that memory
outside of it was read, and a negative int was used as an unsigned one.
power() had the same problem and now rejects negative exponents.
---
 include/bn.h  | 4 +++-
 include/zm.h  | 9 +++++++--
 include/zm2.h | 1 +
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index c1a6e0f..bd2338d 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -24,7 +24,7 @@ inline size_t M_bitLen(const mpz_class& x)
 }
 inline size_t M_blockSize(const mpz_class& x)
 {
-	return x.get_mpz_t()->_mp_size;
+	return mpz_size(x.get_mpz_t());
 }
 inline mp_limb_t M_block(const mpz_class& x, size_t i)
 {
@@ -47,6 +47,7 @@ struct IntTag<mpz_class> {
 	{
 		return M_blockSize(x);
 	}
+	static inline bool isNegative(const mpz_class& x) { return sgn(x) < 0; }
 };
 } } // mie::util
 #endif
@@ -2656,6 +2657,7 @@ inline void ScalarMult(FF* out, const FF* in, const INT& m)
 			}
 		}
 	}
+	if (Tag::isNegative(m)) FF::neg(out[1], out[1]);
 }
 
 template<class Fp>
diff --git a/include/zm.h b/include/zm.h
index 13c0807..c4cf5b2 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1345,19 +1345,22 @@ struct IntTag {
 	{
 		return x.size();
 	}
+	static inline bool isNegative(const T&) { return false; }
 };
 
+// getBlock() returns the absolute value
 template<>
 struct IntTag<int> {
-	typedef int value_type;
+	typedef unsigned int value_type;
 	static inline value_type getBlock(const int& x, size_t)
 	{
-		return x;
+		return x < 0 ? 0u - (unsigned int)x : (unsigned int)x;
 	}
 	static inline size_t getBlockSize(const int&)
 	{
 		return 1;
 	}
+	static inline bool isNegative(const int& x) { return x < 0; }
 };
 template<>
 struct IntTag<size_t> {
@@ -1370,6 +1373,7 @@ struct IntTag<size_t> {
 	{
 		return 1;
 	}
+	static inline bool isNegative(const size_t&) { return false; }
 };
 
 } // util
@@ -1382,6 +1386,7 @@ T power(const T& x, const S& y)
 {
 	typedef typename mie::util::IntTag<S> Tag;
 	typedef typename Tag::value_type value_type;
+	if (Tag::isNegative(y)) throw std::invalid_argument("power:negative exponent");
 	T t(x);
 	T out = 1;
 	for (size_t i = 0, n = Tag::getBlockSize(y); i < n; i++) {
diff --git a/include/zm2.h b/include/zm2.h
index e38098a..3035e97 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -420,6 +420,7 @@ struct IntTag<mie::Fp> {
 		err();
 		return 0;
 	}
+	static inline bool isNegative(const mie::Fp&) { return false; }
 	static inline void err()
 	{
 		printf("Use mie::Vuint intead of Fp for the 3rd parameter for ScalarMulti\n");
-- 
2.43.0


From afb995f66758d92012a11082d08e4833d365b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 13/34] fix: Mpz.set() of the Java API silently ignored bad
 numbers

---
 java/bn254_if.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 3bfad73..0941123 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -39,7 +39,9 @@ public:
 	void set(int x) throw(std::exception) { self_ = x; }
 	void set(const std::string& str) throw(std::exception)
 	{
-		self_.set_str(str, 0);
+		mpz_class t;
+		if (t.set_str(str, 0) != 0) throw std::invalid_argument("Mpz::set:bad number");
+		self_ = t;
 	}
 	std::string toString() const throw(std::exception)
 	{
-- 
2.43.0


From 0d32b4ada39ee659bdda895eb7649326b149db09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 14/34] fix: Vuint::toString returned cut off text if memory
 was exhausted

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index c4cf5b2..549ea17 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -411,6 +411,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 	{
 		std::ostringstream os;
 		os.imbue(std::locale::classic()); // no thousands separator
+		os.exceptions(std::ios_base::badbit); // os hides std::bad_alloc otherwise
 		switch (base) {
 		case 10:
 			{
-- 
2.43.0


From b103f21794ca47d8154ea164b1799ffa64e7a025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 15/34] fix: toString of the Java API returned cut off text if
 memory was exhausted

---
 java/bn254_if.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 0941123..2edfd98 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -136,6 +136,7 @@ public:
 	std::string toString() const throw(std::exception)
 	{
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit); // oss hides std::bad_alloc otherwise
 		oss << self_;
 		return oss.str();
 	}
@@ -181,6 +182,7 @@ public:
 	std::string toString() const throw(std::exception)
 	{
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit); // oss hides std::bad_alloc otherwise
 		oss << self_;
 		return oss.str();
 	}
@@ -228,6 +230,7 @@ public:
 	std::string toString() const throw(std::exception)
 	{
 		std::ostringstream oss;
+		oss.exceptions(std::ios_base::badbit); // oss hides std::bad_alloc otherwise
 		oss << self_;
 		return oss.str();
 	}
-- 
2.43.0


From 0adc6988ac5559a17c018b810b195700a6bd07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 16/34] fix: Fp2::squareC squared with 2a instead of a + b

---
 include/bn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index bd2338d..0676686 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -494,7 +494,7 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 		Fp::addNC(t, x.b_, x.b_); // 2b
 		t *= x.a_; // 2ab
 		Fp::sub(tt, x.a_, x.b_); // a - b
-		Fp::addNC(z.a_, x.a_, x.a_); // a + b
+		Fp::addNC(z.a_, x.a_, x.b_); // a + b
 		z.a_ *= tt; // (a - b)(a + b)
 		z.b_ = t;
 #endif
-- 
2.43.0


From 40bdeb51cec19f0da5729eb462a6ce1795a42148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:41 +0000
Subject: [PATCH 17/34] fix: Fp::fast_modp was wrong for the curves of
 BN_SUPPORT_SNARK

---
 include/zm2.h |  5 +++--
 src/zm2.cpp   | 18 ++++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/zm2.h b/include/zm2.h
index 3035e97..8bd6df6 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -227,11 +227,11 @@ public:
 		addNC(z, z, quarterTbl_[i]);
 	}
 
-	/* z <- z mod p for z in [0, 6p] */
+	/* z <- z mod p for z in [0, 6p] (and z < 2^256) */
 	static inline void fast_modp(Fp &z)
 	{
 		uint64_t t = z.v_[3] >> 61;
-		z -= getDirectP((int)t);
+		z -= modpTbl_[t];
 	}
 
 	template<class T>
@@ -268,6 +268,7 @@ private:
 	static mie::Fp invTbl_[512];
 public:
 	static mie::Fp *halfTbl_; // [2] = [0, 1/2 mod p]
+	static mie::Fp *modpTbl_; // [8] multiples of p for fast_modp
 private:
 	static mie::Fp *quarterTbl_; // [4] = [0, 1/4, 2/4, 3/4]
 	static mie::Vuint montgomeryR_; // 1 = 1r
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 8013aa4..68baf95 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -50,12 +50,14 @@ struct Data {
 	Fp halfTbl[2];
 	Fp quarterTbl[4];
 	FpDbl pNTbl[pNtblSize];
+	Fp modpTbl[8];
 };
 Data *s_data;
 
 static Fp *s_pTbl;
 Fp *Fp::halfTbl_;
 Fp *Fp::quarterTbl_;
+Fp *Fp::modpTbl_;
 bn::FpDbl *bn::FpDbl::pNTbl_;
 
 typedef mie::ZmZ<mie::Vuint, Fp> Fp_emu;
@@ -1680,8 +1682,7 @@ L("@@");
 		input [x3:x2:x1:x0] < 6p
 		output [x3:x2:x1:x0] % p
 		destroy rax, rdx, t0, t1, t2, t3
-		(i*p) >> 253 = 0,1,2,3,4,5,6 for i = 0, .., 6
-		t = (i * p) >> 253
+		the multiple of p to subtract is selected by z >> 253
 	*/
 	void fast_modp(
 		const Reg64& x3, const Reg64& x2, const Reg64& x1, const Reg64& x0,
@@ -1692,11 +1693,12 @@ L("@@");
 		shr(rdx, 61); // rdx = [0:x3_63:x3_62:x3_61]
 
 		shl(rdx, 5); // sizeof(Fp) = 32
-		mov(a, (uint64_t)&s_pTbl[0]);
+		mov(a, (uint64_t)&Fp::modpTbl_[0]);
 		sub_rm(x3, x2, x1, x0, a + rdx);
 		sbb(rdx, rdx);
 
-		load_rm(t3, t2, t1, t0, a + sizeof(Fp));
+		mov(a, (uint64_t)&s_pTbl[1]);
+		load_rm(t3, t2, t1, t0, a);
 		and_(t0, rdx);
 		and_(t1, rdx);
 		and_(t2, rdx);
@@ -3664,11 +3666,19 @@ void Fp::setModulo(const mie::Vuint& p, int mode, bool useMulx, bool definedBN_S
 		s_pTbl = s_data->pTbl;
 		Fp::halfTbl_ = s_data->halfTbl;
 		Fp::quarterTbl_ = s_data->quarterTbl;
+		Fp::modpTbl_ = s_data->modpTbl;
 		bn::FpDbl::pNTbl_ = s_data->pNTbl;
 
 		for (size_t i = 0; i < pTblSize; i++) {
 			Fp::setDirect(s_pTbl[i], p * int(i));
 		}
+		/*
+			modpTbl_[t] = p * floor((t + 1) * 2^253 / p)
+			then -p <= z - modpTbl_[z >> 253] < p
+		*/
+		for (int t = 0; t < 8; t++) {
+			Fp::setDirect(Fp::modpTbl_[t], (Vuint(t + 1) << 253) / p * p);
+		}
 		/*
 			for option1
 			lower 192-bits of pNTbl_[1] = 0
-- 
2.43.0


From 8d9c24229d24043f2a4d78af787d932b439f99f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:14 +0000
Subject: [PATCH 18/34] fix: Fp6 multiplication for BN_SUPPORT_SNARK exceeded
 the range of the reduction

---
 include/bn.h | 4 ++++
 src/zm2.cpp  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/bn.h b/include/bn.h
index 0676686..ee4773b 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -1332,7 +1332,11 @@ struct Fp6T : public mie::local::addsubmul<Fp6T<T>,
 			// # 21
 			FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 			// # 23
+#ifdef BN_SUPPORT_SNARK
+			FpDbl::add(z.c_.b_, z.c_.b_, T1.b_); // 6p^2 > pN
+#else
 			FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 		}
 		static void mod(Fp6T& z, const Dbl& x)
 		{
diff --git a/src/zm2.cpp b/src/zm2.cpp
index 68baf95..01be123 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2254,8 +2254,13 @@ L("@@");
 		// FpDbl::subNC(z.c_.b_, z.c_.b_, T2.b_);
 		in_FpDbl_subNC(z.c_.b_, z.c_.b_, T2.b_);
 
+#ifdef BN_SUPPORT_SNARK
+		// FpDbl::add(z.c_.b_, z.c_.b_, T1.b_);
+		in_FpDbl_add(z.c_.b_, z.c_.b_, T1.b_);
+#else
 		// FpDbl::addNC(z.c_.b_, z.c_.b_, T1.b_);
 		in_FpDbl_addNC(z.c_.b_, z.c_.b_, T1.b_);
+#endif
 #endif
 		add(rsp, SS);
 		ret();
-- 
2.43.0


From 36445c90d6640ec0d0a5f17367cf4cb8c85640d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 19/34] fix: generated FpDbl::neg and Fp2Dbl::neg gave p *
 2^256 as the negative of zero

---
 src/zm2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 01be123..440444e 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -1552,12 +1552,12 @@ L("@@");
 		mov(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 		load_rm(gt4, gt3, gt2, gt1, mx + 32);
 		or_(rdx, gt4);
 		or_(rdx, gt3);
 		or_(rdx, gt2);
-		or_(rdx, gp1);
+		or_(rdx, gt1);
 #ifdef DEBUG_COUNT
 		jnz(".neg", T_NEAR);
 #else
-- 
2.43.0


From ec2e0e24b00a11b19ac9ada96a3a0a507d63b63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 20/34] fix: generated CompressT::square_n ran forever for n =
 0 and used the undefined upper half of the argument

---
 src/zm2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zm2.cpp b/src/zm2.cpp
index 440444e..e3ed8e9 100644
--- a/src/zm2.cpp
+++ b/src/zm2.cpp
@@ -2373,10 +2373,13 @@ L("@@");
 		const int g4 = sizeof(Fp2) * 1;
 		const int g5 = sizeof(Fp2) * 5;
 		mov(z, ptr [gp1]);
+		movsxd(gp2, Reg32(gp2.getIdx())); // upper half of int n is undefined
 		mov(ptr [rsp + nsave], gp2);
 		movq(zsave, z);
 
 		inLocalLabel();
+		test(gp2, gp2);
+		jle(".exit", T_NEAR);
 	L(".lp");
 
 		// Fp2Dbl::square(T0, z.g4_);
@@ -2535,6 +2538,7 @@ L("@@");
 
 		sub(qword [rsp + nsave], 1);
 		jnz(".lp", T_NEAR);
+	L(".exit");
 		outLocalLabel();
 	}
 	/*
-- 
2.43.0


From 0f1d7ed56c44a00e94c4d567662689aaef46cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:45 +0000
Subject: [PATCH 21/34] fix: Vuint::sub did not detect a negative difference if
 y is longer than x

It read the words of x over its size, which are not cleared, and returned
a wrong difference if they happened to be larger.
---
 include/zm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zm.h b/include/zm.h
index 549ea17..54bd9f2 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -594,7 +594,8 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 	static void sub(VuintT& out, const VuintT& x, const VuintT& y)
 	{
-		bool c = sub_in(out, x, y);
+		// words of x over its size are not zero
+		bool c = x.size() < y.size() || sub_in(out, x, y);
 		if (c) {
 			local::errExit("can't sub");
 		}
-- 
2.43.0


From 348ec6cfa63d4eba176e31be7b759870aa92ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 22/34] fix: Vuint::bitLen was too large if the top word is
 rounded up, testBit read words over the size

---
 include/zm.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 54bd9f2..fbccd82 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -527,10 +527,12 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 
 		size_t size = this->size();
 		T v = (*this)[size - 1];
-		union di t;
-		t.f = (double)v;
-		size_t ret = 1 + (size_t(t.i >> 52) - (1 << 10) + 1) +
-			(size - 1) * sizeof(T) * 8;
+		// don't use (double)v which may be rounded up
+		size_t ret = (size - 1) * sizeof(T) * 8;
+		while (v) {
+			ret++;
+			v >>= 1;
+		}
 		return ret;
 	}
 
@@ -539,7 +541,7 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 		size_t unit_pos = i / (sizeof(T) * 8);
 		size_t bit_pos  = i % (sizeof(T) * 8);
 		T mask = T(1) << bit_pos;
-		return ((*this)[unit_pos] & mask) != 0;
+		return (getAtWithCheck(unit_pos) & mask) != 0;
 	}
 
 	static bool add_in(VuintT& out, const VuintT& x, const VuintT& y)
-- 
2.43.0


From 1290bd0e9c704d569ef9d0eb43e19c99a5b5e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 23/34] fix: ZmZ(int) was not reduced for x >= m

---
 include/zm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zm.h b/include/zm.h
index fbccd82..d733d0e 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1197,6 +1197,7 @@ public:
 			v_.clear();
 		} else if (x > 0) {
 			v_.set(x);
+			modulo();
 		} else {
 			if (x == -2147483647 - 1 || m_ < -x) {
 				local::errExit("x is too small");
-- 
2.43.0


From cd421b075212dc85fbfb7a722c0c4c84c7c6c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:51 +0000
Subject: [PATCH 24/34] fix: mie::power ended the process for results which fit
 into Vuint

---
 include/zm.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zm.h b/include/zm.h
index d733d0e..f31a8d9 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1407,6 +1407,8 @@ T power(const T& x, const S& y)
 			if (v & (value_type(1) << j)) {
 				out *= t;
 			}
+			// the last square is not used and may exceed the capacity of T
+			if (i == n - 1 && j == m - 1) break;
 			t *= t;
 		}
 	}
-- 
2.43.0


From 82246acb2406371c9c3725a66ac2a44159e5bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 25/34] fix: decimal numbers of more than 541 bits were not
 read back by Vuint

---
 include/zm.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index f31a8d9..4e76251 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -493,9 +493,20 @@ struct VuintT : public local::dividable<VuintT<Buffer>,
 					t = t.substr(0, t.size() - remain);
 				}
 				for (size_t i = 0, n = x.size(); i < n; i++) {
-					if (y.size() >= Buffer::maxSize()) goto ERR;
-					y *= 1000000000;
-					y += x[n - 1 - i];
+					// y = y * 10^9 + x[n - 1 - i]
+					uint64_t c = x[n - 1 - i];
+					for (size_t j = 0; j < y.size(); j++) {
+						const uint64_t v = y[j];
+						const uint64_t L = (v & 0xffffffff) * 1000000000U + c;
+						const uint64_t H = (v >> 32) * 1000000000U + (L >> 32);
+						y[j] = (T)((H << 32) | (L & 0xffffffff));
+						c = sizeof(T) == 8 ? H >> 32 : H;
+					}
+					if (c) {
+						if (y.size() >= Buffer::maxSize()) goto ERR;
+						y.alloc(y.size() + 1);
+						y[y.size() - 1] = (T)c;
+					}
 				}
 			}
 			break;
-- 
2.43.0


From a051215570bc493804ba4d9b5a63f35cec242484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:57 +0000
Subject: [PATCH 26/34] fix: Vuint::div ended the process if the divisor has as
 many words as the capacity

---
 include/zm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zm.h b/include/zm.h
index 4e76251..869b820 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -940,8 +940,8 @@ public:
 		if (q) {
 			std::fill(q, q + xn - yn + 1, 0);
 		}
-		Buffer t;
-		t.alloc(yn + 1);
+		// yn + 1 may be more than the capacity of Buffer
+		T *t = (T*)MIE_ALLOCA_(sizeof(T) * (yn + 1));
 		double yt = GetApp(y, yn, true);
 		while (F::compare(x, xn, y, yn) >= 0) {
 			size_t len = yn;
-- 
2.43.0


From 3dd94d4f5cde98f3c7be217678746713c1ec5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:00 +0000
Subject: [PATCH 27/34] fix: negative numbers and points were written in parts
 which a field width tore apart

---
 include/bn.h | 4 +++-
 include/zm.h | 3 +--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index ee4773b..da48048 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2940,12 +2940,14 @@ public:
 			// normalize a copy because other threads may use self
 			T P[3];
 			ecop::NormalizeJac(P, self.p);
-			return os << P[0].toString(16) << '_' << P[1].toString(16);
+			// write at once because os.width() is used only for the first output
+			return os << P[0].toString(16) + '_' + P[1].toString(16);
 		}
 	}
 	friend inline std::istream& operator>>(std::istream& is, EcT& self)
 	{
 		std::string str;
+		is.width(0); // don't cut off str
 		is >> str;
 		if (is.bad()) throw std::ios_base::failure("operator>>:read error"); // str may be cut off
 		if (str == "0") {
diff --git a/include/zm.h b/include/zm.h
index 869b820..d4549c8 100644
--- a/include/zm.h
+++ b/include/zm.h
@@ -1120,8 +1120,7 @@ public:
 	}
 	inline friend std::ostream& operator<<(std::ostream& os, const VsintT& x)
 	{
-		if (x.isNeg_) os << "-";
-		return os << x.v_;
+		return os << x.toString(os.flags() & std::ios_base::hex ? 16 : 10);
 	}
 	inline friend std::istream& operator>>(std::istream& is, VsintT& x)
 	{
-- 
2.43.0


From b3a1a1469dbd218465ccea380bc854cc15626b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 28/34] fix: Fp2::set and reading a point ignored garbage after
 an element of Fp2

---
 include/bn.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bn.h b/include/bn.h
index da48048..292ec04 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -547,7 +547,11 @@ struct Fp2T : public mie::local::addsubmul<Fp2T<T>
 	void set(const std::string& str)
 	{
 		std::istringstream iss(str);
-		iss >> *this;
+		Fp2T t;
+		char c;
+		iss >> t;
+		if (iss >> c) throw std::ios_base::failure("bad Fp2"); // remaining characters
+		*this = t;
 	}
 
 	// z = x * b
-- 
2.43.0


From 86186d0c55dfebdfc5671f0116396e97d6eb26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:13 +0000
Subject: [PATCH 29/34] fix: EcT::set replaced the point by a rejected one

---
 include/bn.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 292ec04..6c8d388 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2863,21 +2863,21 @@ public:
 
 	void set(const T& x, const T& y, bool verify = true)
 	{
+		if (verify && !EcT(x, y, false).isValid()) {
+			throw std::runtime_error("set(x, y) : bad point");
+		}
 		p[0] = x;
 		p[1] = y;
 		p[2] = 1;
-		if (verify && !isValid()) {
-			throw std::runtime_error("set(x, y) : bad point");
-		}
 	}
 	void set(const T& x, const T& y, const T& z, bool verify = true)
 	{
+		if (verify && !EcT(x, y, z, false).isValid()) {
+			throw std::runtime_error("set(x, y, z) : bad point");
+		}
 		p[0] = x;
 		p[1] = y;
 		p[2] = z;
-		if (verify && !isValid()) {
-			throw std::runtime_error("set(x, y, z) : bad point");
-		}
 	}
 	void clear()
 	{
-- 
2.43.0


From ec83dcb82ca515c4faf49e7be6dd2ac6bfbdcd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 30/34] fix: EcT::set gave a wrong point if an argument is a
 coordinate of the point itself

The arguments were checked as they were given but assigned one after the
other, such that p.set(x, y, p.p[0]) used the new p.p[0]. The Java classes
give references to the coordinates.
---
 include/bn.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bn.h b/include/bn.h
index 6c8d388..d81fae6 100644
--- a/include/bn.h
+++ b/include/bn.h
@@ -2863,21 +2863,25 @@ public:
 
 	void set(const T& x, const T& y, bool verify = true)
 	{
-		if (verify && !EcT(x, y, false).isValid()) {
+		EcT t; // x and y may be coordinates of *this
+		t.p[0] = x;
+		t.p[1] = y;
+		t.p[2] = 1;
+		if (verify && !t.isValid()) {
 			throw std::runtime_error("set(x, y) : bad point");
 		}
-		p[0] = x;
-		p[1] = y;
-		p[2] = 1;
+		*this = t;
 	}
 	void set(const T& x, const T& y, const T& z, bool verify = true)
 	{
-		if (verify && !EcT(x, y, z, false).isValid()) {
+		EcT t; // x, y and z may be coordinates of *this
+		t.p[0] = x;
+		t.p[1] = y;
+		t.p[2] = z;
+		if (verify && !t.isValid()) {
 			throw std::runtime_error("set(x, y, z) : bad point");
 		}
-		p[0] = x;
-		p[1] = y;
-		p[2] = z;
+		*this = t;
 	}
 	void clear()
 	{
-- 
2.43.0


From 11c8bca87285d77dbc4bea0cdff1cabf76ff2b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 31/34] fix: Fp::set ended the process in a debug build if the
 number or text was p or more

The value is reduced modulo p, but with DBG=on an assertion ended the
process before, also for numbers which operator>> read.
---
 include/zm2.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 8bd6df6..8b6e3ce 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -69,7 +69,6 @@ public:
 	}
 	void set(const mie::Vuint& x)
 	{
-		assert(x < getModulo());
 		mie::Vuint y(x);
 //		count++;std::cout << "count=" << count << ", x=" << x << std::endl;
 		if (y.size() > N) y %= getModulo(); // y * R must fit in Vuint
-- 
2.43.0


From 26d80c447cec838afe337688f651ff47e3800a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 32/34] fix: Fp2T::Dbl::mulOpt1C and mulOpt2C ended the process
 in a debug build

They call FpDbl::subOpt1(z, z, d), which is right as long as d is not z, but
an assertion did not allow it.
---
 include/zm2.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/zm2.h b/include/zm2.h
index 8b6e3ce..4a31ae2 100644
--- a/include/zm2.h
+++ b/include/zm2.h
@@ -381,7 +381,6 @@ public:
 
 		static void subOpt1(Dbl &z, const Dbl &x, const Dbl &y)
 		{
-			assert(&z != &x);
 			assert(&z != &y);
 			addNC(z, x, pNTbl_[1]);
 			subNC(z, z, y);
-- 
2.43.0


From b32785ef214ce2f6b481909c53c8e8c06fc4c98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 33/34] fix: Mpz::mod ended the process if the modulus is zero

GMP raises SIGFPE for a division by zero, which ends the Java VM.
Report it by an exception as the declaration says.
---
 java/bn254_if.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 2edfd98..5262ab5 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -52,7 +52,11 @@ public:
 	void add(const Mpz& rhs) throw(std::exception) { self_ += rhs.self_; }
 	void sub(const Mpz& rhs) throw(std::exception) { self_ -= rhs.self_; }
 	void mul(const Mpz& rhs) throw(std::exception) { self_ *= rhs.self_; }
-	void mod(const Mpz& rhs) throw(std::exception) { self_ %= rhs.self_; }
+	void mod(const Mpz& rhs) throw(std::exception)
+	{
+		if (rhs.self_ == 0) throw std::invalid_argument("Mpz::mod:division by zero");
+		self_ %= rhs.self_;
+	}
 };
 
 class Fp {
-- 
2.43.0


From f25903980dd4fe1067ed30d3eb489fa53dec0d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:56 +0000
Subject: [PATCH 34/34] fix: Ec2() of the Java API was an undefined point

Ec1() is the point at infinity, but the coordinates of Ec2() were not
initialized, so it was what the memory contained before.
---
 java/bn254_if.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/java/bn254_if.hpp b/java/bn254_if.hpp
index 5262ab5..d127c85 100644
--- a/java/bn254_if.hpp
+++ b/java/bn254_if.hpp
@@ -207,7 +207,7 @@ class Ec2 {
 	::bn::Ec2 self_;
 	friend class Fp12;
 public:
-	Ec2() {}
+	Ec2() { self_.clear(); }
 	Ec2(const Ec2& x) : self_(x.self_) {}
 	Ec2(const Fp2& x, const Fp2& y) throw(std::exception)
 	{
-- 
2.43.0

