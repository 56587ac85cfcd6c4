From 472fdc55fd0a89837a7916917fc981e248df56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 01/52] fix: strict reals must not have leading zeros

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index cdf5cc2..634025c 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -140,7 +140,7 @@ constexpr std::string_view TEXT_ELLIPSIS                = "[...]";
 constexpr auto REGEX_OPTIONS                            = std::regex::nosubs | std::regex::optimize;
 inline const std::regex INTEGER_REGEX("0|-?[1-9][0-9]*", REGEX_OPTIONS);
 inline const std::regex REAL_REGEX("[+-]?(([0-9]*\\.[0-9]+)|([0-9]+\\.)|([0-9]+))([eE][+-]?[0-9]+)?", REGEX_OPTIONS);
-inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))\\.?[0-9]*", REGEX_OPTIONS);
+inline const std::regex STRICT_REAL_REGEX("-?(0|([1-9][0-9]*))(\\.[0-9]*)?", REGEX_OPTIONS);
 
 static_assert(2'000'000'000'000'000'000_int < LARGE / 2, "LARGE too small");
 static_assert(LARGE <= std::numeric_limits<Integer>::max() / 2, "LARGE too big");
-- 
2.43.0


From e7dbf3ff6cffb652d5853cc16145043d8583fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 02/52] fix: report the position of a token at the end of the
 input

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 634025c..e1650cd 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2677,6 +2677,7 @@ private:
 				if (std::isgraph(in->peek())) {
 					std::string tmp;
 					*in >> tmp;
+					if (in->eof()) in->clear(); // tellg() would fail
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
 					line++;
-- 
2.43.0


From 88184f5f843bf4635b17192594ccbb0a57161ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 03/52] fix: report the correct line for an unexpected newline

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index e1650cd..6b92a06 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2680,9 +2680,9 @@ private:
 					if (in->eof()) in->clear(); // tellg() would fail
 					buffer += tmp;
 				} else if (in->peek() == std::char_traits<char>::to_int_type(NEWLINE)) {
-					line++;
 					in->get();
 					if (in->tellg() < originalPos) {
+						line++;
 						buffer.clear();
 					} else {
 						buffer += ' ';
-- 
2.43.0


From d0daaa2cc8ec18b3aff31469aaeabb01f359616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 04/52] fix: expectReal rejected exactly the equal values

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 6b92a06..011fcf5 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2651,7 +2651,7 @@ public:
 
 	void expectReal(Real expected) {
 		Real seen = real();
-		if (details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
+		if (!details::floatEqual(seen, expected, floatAbsTol, floatRelTol)) {
 			*out << "Expected " << expected << " but got " << seen << "!";
 			if (std::isfinite(seen) and std::isfinite(expected)) {
 				Real absDiff = std::abs(seen-expected);
-- 
2.43.0


From c20c25e1dfa4f80e00b857b1cff9fa54c6ab7203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 05/52] fix: numbers must not start with two signs

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 011fcf5..3ba4f19 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -953,7 +953,7 @@ namespace details {
 	bool parse(std::string_view s, T& res) {
 		const char* begin = s.data();
 		const char* end = s.data() + s.size();
-		if (!s.empty() && s[0] == '+') begin++;
+		if (s.size() > 1 and s[0] == '+' and s[1] != '-') begin++;
 		auto [ptr, ec] = std::from_chars(begin, end, res);
 		return ptr == end and ec == std::errc();
 	}
-- 
2.43.0


From e411f18e8980cba4909671f702e9da9263afc18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 06/52] fix: isLower for strings gives the documented witness

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 3ba4f19..2ce148e 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -745,9 +745,9 @@ void toDefaultCase(std::string& s) {
 	return toUpper(s);
 }
 
-constexpr bool isLower(std::string_view s) {
-	for (char c : s) if (!isLower(c)) return false;
-	return true;
+constexpr boolean<char> isLower(std::string_view s) {
+	for (char c : s) if (!isLower(c)) return boolean<char>(false, c);
+	return boolean<char>(true);
 }
 
 constexpr boolean<char> isUpper(std::string_view s) {
-- 
2.43.0


From 54e9ca0c1ada0752339c65186fe7f468d5afbf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 07/52] fix: allAdjacent for containers called noneAdjacent

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 2ce148e..d62fcf8 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -630,7 +630,7 @@ constexpr boolean<Integer> allAdjacent(RandomIt first, RandomIt last, BinaryPred
 }
 template<typename C, typename BinaryPredicate>
 constexpr boolean<Integer> allAdjacent(const C& c, BinaryPredicate p) {
-	return noneAdjacent(std::begin(c), std::end(c), p);
+	return allAdjacent(std::begin(c), std::end(c), p);
 }
 
 template<typename RandomIt>
-- 
2.43.0


From 6071a0ad20d5f6ceca33f72495482052b264424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 08/52] fix: isPerm must not overflow for extreme values

---
 src/validate.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index d62fcf8..051eca0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -564,10 +564,11 @@ auto isPerm(RandomIt first, RandomIt last, typename std::iterator_traits<RandomI
 	std::vector<bool> seen(count, false);
 	for (; first != last; first++) {
 		const T& x = *first;
-		if (x < offset or x - offset >= count or seen[x - offset]) {
+		UInteger pos = static_cast<UInteger>(x) - static_cast<UInteger>(offset);
+		if (x < offset or pos >= seen.size() or seen[pos]) {
 			return boolean<T>(false, x);
 		}
-		seen[x - offset] = true;
+		seen[pos] = true;
 	}
 	return boolean<T>(true);
 }
-- 
2.43.0


From 85c6cad38b154b9d5d705feb5b712ca260e7496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 09/52] fix: pass the tolerances to all streams of
 answer/output validators and interactors

---
 src/validate.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 051eca0..2e9f2c7 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2906,8 +2906,8 @@ namespace AnswerValidator {
 		ValidateBase::details::init(argc, argv);
 		juryOut = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		ans = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2929,9 +2929,9 @@ namespace OutputValidator {
 		juryOut = OutputStream(std::filesystem::path(arguments[3]) / JUDGE_MESSAGE, MESSAGE_MODE);
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		juryAns = InputStream(std::filesystem::path(arguments[2]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		teamAns = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 		initConstraints();
 	}
 
@@ -2953,8 +2953,8 @@ namespace Interactor {
 		teamOut = OutputStream(std::filesystem::path(arguments[3]) / TEAM_MESSAGE, MESSAGE_MODE);
 		toTeam = OutputStream(std::cout);
 
-		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL);
-		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA);
+		testIn = InputStream(std::filesystem::path(arguments[1]), false, caseSensitive, juryOut, Verdicts::FAIL, floatAbsTol, floatRelTol);
+		fromTeam = InputStream(std::cin, spaceSensitive, caseSensitive, juryOut, Verdicts::WA, floatAbsTol, floatRelTol);
 	}
 
 } // namespace Interactor
-- 
2.43.0


From 03ab52f933d3fb3027cbd538fbf5717f13a710eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 10/52] fix: multInv must find inverses of negative numbers

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 2e9f2c7..7e25b00 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1079,7 +1079,7 @@ constexpr Integer multInv(Integer n, Integer mod) {
 	judgeAssert<std::domain_error>(mod > 0, "multInv(): mod must be positive!");
 	Integer x = 0;
 	Integer y = 0;
-	Integer g = details::extendedEuclid(n, mod, x, y);
+	Integer g = details::extendedEuclid(applyMod(n, mod), mod, x, y);
 	if (g != 1) return -1;
 	else return applyMod(x, mod);
 }
-- 
2.43.0


From 7632a96cb5a0a11aaafddf8a426015ec7bdf9380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 11/52] fix: powMod modulo 1 is always 0

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 7e25b00..d1800e2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1019,7 +1019,7 @@ namespace details {
 	}
 
 	constexpr UInteger powMod(UInteger base, UInteger exp, UInteger mod) {
-		UInteger res = 1;
+		UInteger res = 1 % mod;
 		if (mod <= 0x1'0000'0000) {
 			while (exp > 0) {
 				if (exp & 1) res = (base * res) % mod;
-- 
2.43.0


From 5ecb54ea70ab2213fc7d6d1bd9c21aa528265826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 12/52] fix: primes must not overflow close to 2^63

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index d1800e2..a3b716a 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1127,9 +1127,9 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
 				notPrime[j / 2] = true;
 			}
-			Integer lowest = lower - (lower % (2*i)) + i;
-			if (lowest < lower) lowest += 2*i;
-			for (Integer j = std::max(i * i, lowest); j < upper; j += 2 * i) {
+			UInteger lowest = static_cast<UInteger>(lower - (lower % (2*i))) + i;
+			if (lowest < static_cast<UInteger>(lower)) lowest += 2*i;
+			for (UInteger j = std::max<UInteger>(i * i, lowest); j < static_cast<UInteger>(upper); j += 2 * i) {
 				notPrimeSegment[(j - lower) / 2] = true;
 			}
 		}
-- 
2.43.0


From 831e57b9926823bae5ac915d3dd65fae0e7d6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 13/52] fix: primes must not write out of bounds for large
 ranges

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index a3b716a..b4fede2 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1121,7 +1121,7 @@ std::vector<Integer> primes(Integer lower, Integer upper) {
 	Integer count = std::min<Integer>(0x3FFF'FFFF, upper - lower);
 	Integer cache = (count + 1) / 2;
 
-	std::vector<bool> notPrime(cache), notPrimeSegment(cache);
+	std::vector<bool> notPrime(cache), notPrimeSegment((upper - lower + 1) / 2);
 	for (Integer i = 3; i < count; i += 2) {
 		if (!notPrime[i / 2]) {
 			for (Integer j = i * i; j < count; j += 2 * i) {
-- 
2.43.0


From c3d40a37eb4456a2b65e5123a17b5a0e027af593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 14/52] fix: coordinate bound check must refuse the minimal
 integer

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index b4fede2..e35ae67 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1197,8 +1197,8 @@ namespace details {
 	constexpr std::size_t assertBounds(RandomIt first, RandomIt last) {
 		std::size_t n = 0;
 		for (auto it = first; it != last; it++, n++) {
-			judgeAssert(std::abs(getX(*it)) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
-			judgeAssert(std::abs(getY(*it)) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
+			judgeAssert(-0x3FFF'FFFF <= getX(*it) and getX(*it) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
+			judgeAssert(-0x3FFF'FFFF <= getY(*it) and getY(*it) <= 0x3FFF'FFFF, "assertBounds(): coordinates too large!");
 		}
 		return n;
 	}
-- 
2.43.0


From a4368661724515e4a7c2c83604876d3431a553bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 15/52] fix: isSimple must reject polygons with overlapping
 adjacent edges

---
 src/validate.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/validate.h b/src/validate.h
index e35ae67..763d364 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1193,6 +1193,16 @@ namespace details {
 		});
 	}
 
+	// checks if the path a, b, c turns around at b (or has an edge of length zero)
+	template<typename Point>
+	constexpr bool turnsBack(Point a, const Point& b, Point c) {
+		getX(a) -= getX(b);
+		getY(a) -= getY(b);
+		getX(c) -= getX(b);
+		getY(c) -= getY(b);
+		return cross(a, c) == 0 and dot(a, c) >= 0;
+	}
+
 	template<typename RandomIt>
 	constexpr std::size_t assertBounds(RandomIt first, RandomIt last) {
 		std::size_t n = 0;
@@ -1264,6 +1274,10 @@ bool isSimple(RandomIt first, RandomIt last) {
 
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
+	for (std::size_t i = 0; i < n; i++) {
+		// the sweepline below ignores adjacent segments, those may only share a single point
+		if (details::turnsBack(first[i], first[(i+1) % n], first[(i+2) % n])) return false;
+	}
 
 	std::vector<std::tuple<Integer, Integer, bool, bool, std::size_t>> events;
 	for (std::size_t i = 0; i < n; i++) {
-- 
2.43.0


From 62c8552e08f4be9abd92b18983bdc5b131aa3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 16/52] fix: isConvex must reject polygons winding more than
 once or touching themselves

---
 src/validate.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 763d364..03c0fab 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1216,16 +1216,23 @@ namespace details {
 
 template<typename RandomIt>
 constexpr bool isConvex(RandomIt first, RandomIt last) {
+	using Point = typename std::iterator_traits<RandomIt>::value_type;
 	std::size_t n = details::assertBounds(first, last);
 	if (n < 3) return false;
-	bool hasArea = false;
+	std::size_t rotations = 0;
 	for (std::size_t i = 0; i < n; i++) {
-		if (first[i] == first[(i+1) % n]) return false;
-		if (cross(first[0], first[i], first[(i+1) % n]) < 0) return false;
-		if (cross(first[i], first[(i+1) % n], first[(i+2) % n]) < 0) return false;
-		hasArea |= cross(first[i], first[(i+1) % n], first[(i+2) % n]) != 0;
+		Point a = first[i];
+		Point b = first[(i+1) % n];
+		Point c = first[(i+2) % n];
+		if (details::turnsBack(a, b, c) or cross(a, b, c) < 0) return false;
+		getX(c) -= getX(b);
+		getY(c) -= getY(b);
+		getX(b) -= getX(a);
+		getY(b) -= getY(a);
+		if (details::left(b) and !details::left(c)) rotations++;
 	}
-	return hasArea;
+	// there are only left turns, but they must add up to exactly one rotation
+	return rotations == 1;
 }
 template<typename C>
 constexpr bool isConvex(const C& c) {
-- 
2.43.0


From 4ea37021a7b373aef316e282a04e5a2dd546b1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 17/52] fix: Random::real must be less than 1

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 03c0fab..90672b1 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1421,7 +1421,7 @@ namespace Random {
 			//count trailing (or leading) zeroes in x
 			exponent -= static_cast<int>(std::bitset<64>(~x & (x-1)).count());
 		} while (x == 0);
-		return std::ldexp(mantissa, exponent);
+		return std::ldexp(static_cast<Real>(mantissa), exponent);
 	}
 	Real real(Real upper) {// in [0, upper)
 		judgeAssert<std::domain_error>(std::isfinite(upper), "Random::real(): Upper must be finite!");
-- 
2.43.0


From 79da61b230995bf8ecc0ae3eeb5f6b51a656c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:52 +0000
Subject: [PATCH 18/52] fix: Random::normal must scale by the standard
 deviation

---
 src/validate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 90672b1..7bbb170 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1454,7 +1454,7 @@ namespace Random {
 		Real u1 = real();
 		Real u2 = real();
 		Real res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-		return std::sqrt(stddev) * res + mean;
+		return stddev * res + mean;
 	}
 	Real normal(Real lower, Real upper, Real mean, Real stddev) {// in [lower, upper)
 		judgeAssert<std::domain_error>(!std::isnan(lower), "Random::normal(): Lower must not be NaN!");
@@ -1468,10 +1468,10 @@ namespace Random {
 			// Box-Muller-Methode
 			// https://en.wikipedia.org/wiki/Box%E2%80%93Muller_transform
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::cos(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 			res = std::sqrt(-2.0_real * std::log(u1)) * std::sin(2.0_real * details::PI * u2);
-			res = std::sqrt(stddev) * res + mean;
+			res = stddev * res + mean;
 			if (lower <= res and res < upper) return res;
 		}
 	}
-- 
2.43.0


From 67adb0e140557ec8c23f61764a44e0c9c4bfdced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 19/52] fix: Random::geometric must not overflow

---
 src/validate.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 7bbb170..d9c4091 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1493,16 +1493,20 @@ namespace Random {
 
 	Integer geometric(Real p) {// theoretically in [0, inf)
 		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
-		return std::llround(std::floor(std::log(real()) / std::log1p(-p)));
+		Real res = std::floor(std::log(real()) / std::log1p(-p));
+		if (res >= 0x1p63_real) return std::numeric_limits<Integer>::max();
+		return std::llround(res);
 	}
 	Integer geometric(Integer lower, Integer upper, Real p) {// in [lower, upper)
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::geometric(): Lower must be less than upper!");
-		judgeAssert<std::domain_error>(0.0_real <= p and p < 1.0_real, "Random::geometric(): p must be in [0,1)!");
+		judgeAssert<std::domain_error>(0.0_real < p and p < 1.0_real, "Random::geometric(): p must be in (0,1)!");
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger uu = static_cast<UInteger>(upper);
 		while (true) {
 			// https://en.wikipedia.org/wiki/Geometric_distribution
 			// "The exponential distribution is the continuous analogue of the geometric distribution[...]"
-			Integer res = lower + std::llround(std::floor(std::log(real()) / std::log1p(-p)));
-			if (res < upper) return res;
+			Real res = std::floor(std::log(real()) / std::log1p(-p));
+			if (res < static_cast<Real>(uu - ul)) return static_cast<Integer>(ul + static_cast<UInteger>(res));
 		}
 	}
 
-- 
2.43.0


From 9832fbd1bdfd5f5d6f529003c6cb32a0c2288e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 20/52] fix: Random::binomial must not overflow for tiny
 probabilities

---
 src/validate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index d9c4091..7e9c1d6 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1519,11 +1519,11 @@ namespace Random {
 			// BG: Geometric method
 			// https://dl.acm.org/doi/pdf/10.1145/42372.42381
 			Integer res = 0;
-			Integer y = 0;
+			Real y = 0;
 			Real lg = std::log1p(-p);
 			if (lg >= 0) return swap ? n : 0;
 			do {
-				y += std::llround(std::floor(std::log(real()) / lg)) + 1;
+				y += std::floor(std::log(real()) / lg) + 1;
 				if (y > n) return swap ? n - res : res;
 				res++;
 			} while (true);
-- 
2.43.0


From 8a9f37724055d5b6cfa536481f1681c334198064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 21/52] fix: Random::minimum must not overflow for large ranges

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 7e9c1d6..41c3e11 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1593,7 +1593,9 @@ namespace Random {
 	}
 
 	Integer minimum(Integer lower, Integer upper, Integer n) {// in [lower, upper)
-		return upper - 1 - maximum(0, upper - lower, n);
+		Integer res = maximum(lower, upper, n);
+		// lower + upper - 1 - res, mirrored without overflow
+		return static_cast<Integer>(static_cast<UInteger>(lower) + static_cast<UInteger>(upper) - 1 - static_cast<UInteger>(res));
 	}
 	Integer minimum(Integer upper, Integer n) {
 		return minimum(0, upper, n);
-- 
2.43.0


From 9e613cf36dd05aa098fd1e5ef927cc71fb35a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 22/52] fix: nonDecreasing and nonIncreasing must be uniform

---
 src/validate.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/validate.h b/src/validate.h
index 41c3e11..b9027cd 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1798,8 +1798,22 @@ namespace Random {
 	}
 
 	std::vector<Integer> nonDecreasing(Integer count, Integer lower, Integer upper) {
-		std::vector<Integer> res = multiple(count, lower, upper);
-		std::sort(res.begin(), res.end(), std::less<Integer>());
+		judgeAssert<std::invalid_argument>(count >= 0, "Random::nonDecreasing(): count must be non negative!");
+		judgeAssert<std::invalid_argument>(lower < upper or count == 0, "Random::nonDecreasing(): Lower must be less than upper!");
+		constexpr UInteger offset = static_cast<UInteger>(std::numeric_limits<Integer>::min());
+		UInteger ul = static_cast<UInteger>(lower);
+		UInteger size = static_cast<UInteger>(upper) - ul;
+		UInteger extra = static_cast<UInteger>(std::max<Integer>(count, 1)) - 1;
+		if (size + extra < size) {// (almost) all integers are possible => the elements are distinct with high probability
+			std::vector<Integer> res = multiple(count, lower, upper);
+			std::sort(res.begin(), res.end(), std::less<Integer>());
+			return res;
+		}
+		// subtracting the index maps increasing sequences one to one to non decreasing sequences
+		std::vector<Integer> res = increasing(count, static_cast<Integer>(offset), static_cast<Integer>(offset + size + extra));
+		for (std::size_t i = 0; i < res.size(); i++) {
+			res[i] = static_cast<Integer>(static_cast<UInteger>(res[i]) - offset - i + ul);
+		}
 		return res;
 	}
 	std::vector<Integer> nonDecreasing(Integer count, Integer upper) {
@@ -1807,8 +1821,8 @@ namespace Random {
 	}
 
 	std::vector<Integer> nonIncreasing(Integer count, Integer lower, Integer upper) {
-		std::vector<Integer> res = multiple(count, lower, upper);
-		std::sort(res.begin(), res.end(), std::greater<Integer>());
+		std::vector<Integer> res = nonDecreasing(count, lower, upper);
+		std::reverse(res.begin(), res.end());
 		return res;
 	}
 	std::vector<Integer> nonIncreasing(Integer count, Integer upper) {
-- 
2.43.0


From ab1401858f1a623f5fac4a0b944aa0ded3199805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 23/52] fix: Random::prime must refuse ranges below 2

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index b9027cd..14fc6ec 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1617,7 +1617,7 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(lower < upper, "Random::prime(): Lower must be less than upper!");
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
-		if (sampleL < sampleU) {
+		if (upper > 2 and sampleL < sampleU) {
 			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (isPrime(res)) return res;
-- 
2.43.0


From 1c844e8b69e95c303cb9b3197264d1d55de7137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 24/52] fix: Random::prime must not overflow for large ranges

---
 src/validate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 14fc6ec..44a6832 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1618,7 +1618,8 @@ namespace Random {
 		Integer sampleL = lower <= 2 ? 0 : (lower / 2);
 		Integer sampleU = upper / 2;
 		if (upper > 2 and sampleL < sampleU) {
-			for (Integer i = 0; i < details::PRIME_TRIALS and i < 4 * (upper - lower); i++) {
+			Integer trials = std::min(details::PRIME_TRIALS / 8, sampleU - sampleL) * 8;
+			for (Integer i = 0; i < trials; i++) {
 				Integer res = std::max<Integer>(2, 2*integer(sampleL, sampleU) | 1);
 				if (isPrime(res)) return res;
 			}
-- 
2.43.0


From 159b427e78f0d065bbf23bb1bbe6444e2647f167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 25/52] fix: Random::perm must check the cycle lengths first

---
 src/validate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 44a6832..8a71845 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1741,11 +1741,13 @@ namespace Random {
 	}
 
 	std::vector<Integer> perm(const std::vector<Integer>& cycles, Integer offset = 0) {
+		for (Integer x : cycles) {
+			judgeAssert<std::invalid_argument>(x > 0, "Random::perm(): Cycle lengths must be positive!");
+		}
 		auto p = perm(std::accumulate(cycles.begin(), cycles.end(), 0_int));
 		std::vector<Integer> res(p.size());
 		Integer tmp = 0;
 		for (std::size_t i = 0; i < cycles.size(); tmp += cycles[i], i++) {
-			judgeAssert<std::invalid_argument>(cycles[i] > 0, "Random::perm(): Cycle lengths must be positive!");
 			for (Integer j = tmp; j + 1 < tmp + cycles[i]; j++) {
 				res[p[j]] = p[j + 1] + offset;
 			}
-- 
2.43.0


From a26a9fcaa67c57afbbda054413e732f5a8ba363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:24 +0000
Subject: [PATCH 26/52] fix: Random::perm must handle repeated fixpoints

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 8a71845..5ebd323 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1762,7 +1762,7 @@ namespace Random {
 		std::vector<Integer> res(count, -1);
 		for (Integer x : fix) {
 			judgeAssert<std::invalid_argument>(offset <= x and x < offset + count, "Random::perm(): fix point outside of permutation!");
-			std::swap(tmp[x - offset], res[x - offset]);
+			if (res[x - offset] < 0) std::swap(tmp[x - offset], res[x - offset]);
 		}
 		shuffle(tmp);
 		std::size_t i = 0;
-- 
2.43.0


From 05385c4e7638c101574a16890f028b114529f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 27/52] fix: Random::convex must not return collinear points

---
 src/validate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/validate.h b/src/validate.h
index 5ebd323..35041c0 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1917,6 +1917,7 @@ namespace Random {
 				getX(point) += dim - 1 - maxX;
 				getY(point) += dim - 1 - maxY;
 			}
+			if (!isConvex(res)) continue; // all points are collinear
 			return res;
 		}
 	}
-- 
2.43.0


From cdc0891fe1176ff10e7526022660372e48195bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 28/52] fix: Random::nonCollinearPoints must choose a prime
 that fits into the box

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 35041c0..7050334 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1927,7 +1927,7 @@ namespace Random {
 		judgeAssert<std::invalid_argument>(dim <= 0x1FFF'FFFF, "Random::nonCollinearPoints(): dim too large!");
 		judgeAssert<std::invalid_argument>(n >= 0, "Random::nonCollinearPoints(): dim must be non negative!");
 		judgeAssert<std::invalid_argument>(dim > n, "Random::nonCollinearPoints(): dim too small!");
-		Integer p = prime(dim - 1, 2*dim + 2);
+		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
 		while (rotA == 0 and rotB == 0) {
-- 
2.43.0


From 98fd6e7b107c479dcfaeafe34260f89d77b69cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 29/52] fix: Random::nonCollinearPoints must use an invertible
 rotation

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 7050334..9dc64ef 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1930,7 +1930,7 @@ namespace Random {
 		Integer p = prime(dim - 1, 2*dim - 1);
 		Integer rotA = 0;
 		Integer rotB = 0;
-		while (rotA == 0 and rotB == 0) {
+		while ((rotA * rotA + rotB * rotB) % p == 0) {// the rotation has to be invertible
 			rotA = integer(0, p);
 			rotB = integer(0, p);
 		}
-- 
2.43.0


From 3782bc3aca48929eccc6d75162ac4ed18127c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 30/52] fix: DiGraph::isDAG must start with the in-degrees

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 23ce11e..0186219 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -191,7 +191,7 @@ public:
 		std::vector<std::size_t> deg(adj.size());
 		std::vector<Integer> order, todo;
 		for (std::size_t i = 0; i < adj.size(); i++) {
-			deg[i] = adj[i].size();
+			deg[i] = rev[i].size();
 			if (deg[i] == 0) todo.push_back(i);
 		}
 		while (!todo.empty()) {
-- 
2.43.0


From 3e06e3e81a3a491fcbd61b7039280e44cf1406ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 31/52] fix: DiGraph::isTree must reject graphs with a cycle

---
 src/graph_val.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_val.h b/src/graph_val.h
index 0186219..f1037cf 100644
--- a/src/graph_val.h
+++ b/src/graph_val.h
@@ -209,7 +209,7 @@ public:
 	}
 
 	std::optional<Integer> isTree() const {
-		if (rootCount == 1 and edgeCount() + 1 == nodeCount()) return root + offset;
+		if (rootCount == 1 and root < nodeCount() and edgeCount() + 1 == nodeCount()) return root + offset;
 		return std::nullopt;
 	}
 
-- 
2.43.0


From 1e34a4931b65a43d144959b011318b462277225f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 32/52] fix: Graph::range must work for any ids and without
 edge data

---
 src/graph_gen.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e9d0259..f34deac 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -226,11 +226,9 @@ namespace GraphDetail {
 		Graph range(Integer from, Integer to) const {
 			judgeAssert<std::invalid_argument>(from <= to, "Graph: from must not be greater than to!");
 			Graph res(from, to);
-			from = std::max(static_cast<Integer>(0), from - minId);
-			to = std::min(nodeCount(), to - minId);
 			for (const auto& e : getEdges()) {
 				if (e.from >= from and e.from < to and e.to >= from and e.to < to) {
-					res.addEdge(e.from, e.to, e.data);
+					res.addEdge(e.from, e.to, *e);
 				}
 			}
 			return res;
-- 
2.43.0


From b3b7d3573073a423cf9cec8b0e3fd47e375e24c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 33/52] fix: Graph::permutate must reject permutations of the
 wrong size

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index f34deac..98cf79f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -399,7 +399,7 @@ namespace GraphDetail {
 		}
 
 		Graph& permutate(const std::vector<Integer>& perm) {
-			judgeAssert<std::invalid_argument>(isPerm(perm, minId), "Graph: not a permutation");
+			judgeAssert<std::invalid_argument>(perm.size() == size() and isPerm(perm, minId), "Graph: not a permutation");
 			for (auto& n : adj) n.clear();
 			Random::shuffle(edges.begin(), edges.end());
 			for (auto& e : edges) {
-- 
2.43.0


From 6e096ae0c48657cb3a6357780951ddddb8859042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 34/52] fix: Graph::transitiveClosure must return a graph

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 98cf79f..420fe2f 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -522,7 +522,7 @@ namespace GraphDetail {
 			return res;
 		}
 
-		Graph& transitiveClosure() const {
+		Graph transitiveClosure() const {
 			return power(nodeCount());
 		}
 
-- 
2.43.0


From 5e6e5344cbb13cbe08f987c23bf117529474e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 35/52] fix: Graph::lineGraph must not depend on the edge data

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 420fe2f..6202f5c 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -571,7 +571,7 @@ namespace GraphDetail {
 		}
 
 		Graph lineGraph() const {
-			Graph tmp(minId, minId + nodeCount());
+			GraphType<Integer, DIR> tmp(minId, minId + nodeCount());
 			Integer nextEdge = 0;
 			for (const auto& e : getEdges()) {
 				tmp.emplaceEdge(e.from, e.to, nextEdge);
-- 
2.43.0


From e3691a67023ce26640f76ec672ac5149cf07a06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 36/52] fix: Graph::power must add every undirected edge once

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 6202f5c..10f6a95 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -513,7 +513,7 @@ namespace GraphDetail {
 				}
 				for (auto [c, d] : queue) {
 					seen[c] = false;
-					if (i != c) {
+					if (DIR ? i != c : i < c) {
 						res.emplaceEdge(i + minId, c + minId);
 					}
 				}
-- 
2.43.0


From 238bc15c8de0623034595e792fddb2e62fffd637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 37/52] fix: cycle must build directed cycles

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 10f6a95..e99cffd 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -705,7 +705,7 @@ GraphDetail::GraphType<E, DIR> path(Integer edges) {
 // path 0-1-2-...-n-1-0 with vertices [0, n)
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> cycle(Integer n) {
-	auto p = path<E>(n-1);
+	auto p = path<E, DIR>(n-1);
 	p.addEdge(n - 1, 0);
 	return p;
 }
-- 
2.43.0


From 8512f4b275c3b12cf11b114f8e9e413986fdfd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 38/52] fix: wheel must close the outer cycle

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index e99cffd..ae04901 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -713,7 +713,7 @@ GraphDetail::GraphType<E, DIR> cycle(Integer n) {
 // wheel with root = 1 and outer vertices 1-2-...-outer-1 with vertices [0, outer]
 template<typename E = NoData>
 Graph<E> wheel(Integer outer) {
-	return star<E>(outer).combine(path<E>(outer).setMinId(1));
+	return star<E>(outer).combine(cycle<E>(outer).setMinId(1));
 }
 
 // lolly graph with a path with p edges [0, p] and a clique [p, p+c) and
-- 
2.43.0


From 3f762fed94418b63512d8a371f9c9d95940a2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 39/52] fix: rado must contain every edge of the definition in
 its direction

---
 src/graph_gen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index ae04901..886b2d5 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -792,9 +792,9 @@ template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> rado(Integer n) {
 	GraphDetail::GraphType<E, DIR> res(n);
 	for (Integer i = 0; i < n; i++) {
-		for (Integer j = 0; (1 << j) < i; j++) {
+		for (Integer j = 0; (1 << j) <= i; j++) {
 			if ((i | (1 << j)) == i) {
-				res.addEdge(i, j);
+				res.addEdge(j, i);
 			}
 		}
 	}
-- 
2.43.0


From e07df4f49d96a52120dabebc41dcb91f15075972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 40/52] fix: completeTree must have the given number of levels

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 886b2d5..82c7203 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -759,7 +759,7 @@ Graph<E> hypercube(Integer dimension) {
 // vertices in [0, (children^{level+1}-1)/(children-1))
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> completeTree(Integer level, Integer children = 2) {
-	if (level <= 2) return star<E, DIR>(children);
+	if (level <= 1) return star<E, DIR>(level <= 0 ? 0 : children);
 	GraphDetail::GraphType<E, DIR> res(1);
 	GraphDetail::GraphType<E, DIR> sub = completeTree<E, DIR>(level - 1, children);
 	for (Integer i = 0; i < children; i++) {
-- 
2.43.0


From 8b49c3a19848ec5dfc64f16a1a732c9bf4bc762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 41/52] fix: ffWorstcase has a flow of 2^(n-1)

---
 doc/graph_gen.md | 2 +-
 src/graph_gen.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/graph_gen.md b/doc/graph_gen.md
index 397b391..e158493 100644
--- a/doc/graph_gen.md
+++ b/doc/graph_gen.md
@@ -149,7 +149,7 @@ First a fixed graph with the given degree sequence gets generated and than n\*fl
 
 **`DiGraph<Integer> ffWorstcase(Integer n)`**  
 Generates a worstcase instance for Ford Fulkerson with dfs.
-The graph contains 2\*n vertices and has 2^n flow from 0 to 2\*n-1.
+The graph contains 2\*n vertices and has 2^(n-1) flow from 0 to 2\*n-1.
 See figure 2 in https://people.computing.clemson.edu/~bcdean/iterm.pdf.
 Note that the specific order of edghes is required
 
diff --git a/src/graph_gen.h b/src/graph_gen.h
index 82c7203..13a7956 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -940,7 +940,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 }
 
 // generates a worstcase instance for Ford Fulkerson with dfs.
-// The graph contains 2*n vertices and has 2^n flow from 0 to 2*n-1.
+// The graph contains 2*n vertices and has 2^(n-1) flow from 0 to 2*n-1.
 // Figure 2: https://people.computing.clemson.edu/~bcdean/iterm.pdf
 // Note that the specific order of edghes is required
 DiGraph<Integer> ffWorstcase(Integer n) {
-- 
2.43.0


From 4250d780f662b2e1d94e38629f3cd0b84014c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 42/52] fix: random directed graphs must contain each edge with
 probability p

---
 src/graph_gen.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 13a7956..b016c3e 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -682,7 +682,7 @@ GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Integer k)
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomBipartite(Integer n, Integer m, Real p) {
-	return randomBipartite<E, DIR>(n, m, Random::binomial(n * m, p));
+	return randomBipartite<E, DIR>(n, m, Random::binomial(DIR ? 2 * n * m : n * m, p));
 }
 
 // star with root = 0 and chilrden [1, leaves]
@@ -881,7 +881,7 @@ GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Integer m) {
 // each edge exists with probability p
 template<typename E = NoData, bool DIR = false>
 GraphDetail::GraphType<E, DIR> randomGraph(Integer n, Real p) {
-	return randomGraph<E, DIR>(n, Random::binomial(n * (n - 1) / 2, p));
+	return randomGraph<E, DIR>(n, Random::binomial(DIR ? n * (n - 1) : n * (n - 1) / 2, p));
 }
 
 // generate a random graph with linear growing degrees
-- 
2.43.0


From 74d490b37f02c8c698d4dfc52574a5176d23f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 43/52] fix: randomGraph must reject negative degrees

---
 src/graph_gen.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index b016c3e..7a33edc 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -905,6 +905,9 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 	// havel hakimi in O(m*log(n))
 	std::priority_queue<std::pair<Integer, Integer>> pq;
 	for (Integer i = 0; i < std::ssize(degree); i++) {
+		if (degree[i] < 0) {
+			throw std::invalid_argument("randomGraph(): Invalid degree sequence!");
+		}
 		if (degree[i] > 0) {
 			pq.emplace(degree[i], i);
 		}
-- 
2.43.0


From 08ed54c05bd350453cd1b833d2b8152b7843f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 44/52] fix: randomGraph must handle degree sequences without
 edges

---
 src/graph_gen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_gen.h b/src/graph_gen.h
index 7a33edc..7f82330 100644
--- a/src/graph_gen.h
+++ b/src/graph_gen.h
@@ -929,7 +929,7 @@ Graph<E> randomGraph(const std::vector<Integer>& degree, Integer averageFlips =
 		for (const auto& e : todo) pq.push(e);
 	}
 	// randomly flip edges O(m*log(n))
-	for (Integer i = 0; i < averageFlips*res.nodeCount(); i++) {
+	for (Integer i = 0; i < averageFlips*res.nodeCount() and res.edgeCount() > 0; i++) {
 		auto a = res.getEdgeById(Random::integer(res.edgeCount()));
 		auto b = res.getEdgeById(Random::integer(res.edgeCount()));
 		if (a.from == b.to or res.hasEdge(a.from, b.to)) continue;
-- 
2.43.0


From 9808588331db81caa6906f08af46b034c56e67e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 45/52] fix: let Random::seed work with every engine

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index 9dc64ef..e5b154d 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -1365,7 +1365,7 @@ namespace Random {
 	}
 
 	void seed(UInteger seed) {
-		details::randomNumberGenerator.seed(seed);
+		details::randomNumberGenerator = RandomEngine(seed);
 	}
 
 	//========================================================================//
-- 
2.43.0


From b6c334c32ee49fcd276fc2bf402b9fb7d17fb10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 46/52] fix: PNG::fillRectangle must not overwrite its loop
 variable

---
 src/visualizer_png.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index edc8d5b..875d86a 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -342,7 +342,7 @@ public:
 	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
-				if (y = a.y or y == b.y or x == a.x or x == b.x) {
+				if (y == a.y or y == b.y or x == a.x or x == b.x) {
 					colors[y][x] = details::combine<M>(colors[y][x], border);
 				} else {
 					colors[y][x] = details::combine<M>(colors[y][x], fill);
-- 
2.43.0


From 11bed479a1d4c385d4e9fac36f071d21dbda6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:03 +0000
Subject: [PATCH 47/52] fix: PNG drawing must work when the colour is a pixel
 of the image

---
 src/visualizer_png.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index 875d86a..b3a6e99 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -339,7 +339,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color border, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color border, const Color fill) {
 		for (Integer y = std::min(a.y, b.y); y <= std::max(a.y, b.y); y++) {
 			for (Integer x = std::min(a.x, b.x); x <= std::max(a.x, b.x); x++) {
 				if (y == a.y or y == b.y or x == a.x or x == b.x) {
@@ -352,12 +352,12 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void fillRectangle(const Point& a, const Point& b, const Color& fill) {
+	void fillRectangle(const Point& a, const Point& b, const Color fill) {
 		fillRectangle<M>(a, b, fill, fill);
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void floodFill(const Point& a, const Color& fill) {
+	void floodFill(const Point& a, const Color fill) {
 		std::vector<Point> todo = {a};
 		Color old = colors[a.y][a.x];
 		colors[a.y][a.x] = details::combine<M>(colors[a.y][a.x], fill);
@@ -376,7 +376,7 @@ public:
 	}
 
 	template<BlendMode M = BlendMode::ASSIGN>
-	void drawLine(const Point& a, const Point& b, const Color& fill) {
+	void drawLine(const Point& a, const Point& b, const Color fill) {
 		// Bresenham Algorithm
 		Integer dx = std::abs(b.x - a.x);
 		Integer sx = (a.x - b.x < 0) - (a.x - b.x > 0);
-- 
2.43.0


From 89dc57b0716b219d7fb26ab2216b030b50fad7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 48/52] fix: SVG comments must not end early

---
 src/visualizer_svg.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index ecd0768..11d6258 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -532,7 +532,14 @@ struct Comment final {
 	explicit Comment(const std::string& comment_) : comment(comment_) {}
 
 	friend std::ostream& operator<<(std::ostream& os, const Comment& comment) {
-		return os << "<!-- " << comment.comment << " -->";
+		os << "<!-- ";
+		char last = ' ';
+		for (char c : comment.comment) {
+			if (c == '-' and last == '-') os << ' '; // "--" is not allowed inside of comments
+			os << c;
+			last = c;
+		}
+		return os << " -->";
 	}
 };
 
-- 
2.43.0


From e30c1c94c7a703a5f8bbe3892b11e29be2c0bfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 49/52] fix: printing a Color must restore the fill character

---
 src/visualizer_svg.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 11d6258..73b3a21 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -73,10 +73,12 @@ struct Color {
 
 	friend std::ostream& operator<<(std::ostream& os, const Color& c) {
 		std::ios_base::fmtflags flags(os.flags());
+		char fill = os.fill('0');
 		os << "#" << std::hex;
-		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.r);
-		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.g);
-		os << std::setw(2) << std::setfill('0') << static_cast<int>(c.b);
+		os << std::setw(2) << static_cast<int>(c.r);
+		os << std::setw(2) << static_cast<int>(c.g);
+		os << std::setw(2) << static_cast<int>(c.b);
+		os.fill(fill);
 		os.flags(flags);
 		return os;
 	}
-- 
2.43.0


From 5267ed23b5009d9a2d61c0e88547f063c7c441c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:40 +0000
Subject: [PATCH 50/52] fix: shapes must enlarge the bounding box anywhere in a
 chain

---
 src/visualizer_svg.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 73b3a21..7b456a7 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -346,6 +346,18 @@ public:
 		}
 	}
 
+	// other output must return the SVG, otherwise shapes further down a chain are not included in the bounding box
+	template<typename T>
+	friend SVG& operator<<(SVG& os, const T& x) {
+		static_cast<std::ostream&>(os) << x;
+		return os;
+	}
+
+	friend SVG& operator<<(SVG& os, std::ostream& (*manipulator)(std::ostream&)) {
+		static_cast<std::ostream&>(os) << manipulator;
+		return os;
+	}
+
 	~SVG() {
 		write();
 	}
-- 
2.43.0


From 307e24a5dcc4e5e748c552485335c6f02ec8eaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:58 +0000
Subject: [PATCH 51/52] fix: clamp colours before rounding

---
 src/visualizer_png.h | 4 ++--
 src/visualizer_svg.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/visualizer_png.h b/src/visualizer_png.h
index b3a6e99..a74bc0f 100644
--- a/src/visualizer_png.h
+++ b/src/visualizer_png.h
@@ -92,12 +92,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
diff --git a/src/visualizer_svg.h b/src/visualizer_svg.h
index 7b456a7..671b4c7 100644
--- a/src/visualizer_svg.h
+++ b/src/visualizer_svg.h
@@ -103,12 +103,12 @@ constexpr std::uint8_t clamp_color(int c) {
 
 template<>
 constexpr std::uint8_t clamp_color(long double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0l, 255.0l)));
 }
 
 template<>
 constexpr std::uint8_t clamp_color(double c) {
-	return static_cast<std::uint8_t>(std::clamp(std::llround(c), 0ll, 0xFFll));
+	return static_cast<std::uint8_t>(std::llround(std::clamp(c, 0.0, 255.0)));
 }
 
 constexpr Color operator*(Real f, const Color& c) {
-- 
2.43.0


From b02719f57ce08e6324400ea7f1bc1f309749c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:38 +0000
Subject: [PATCH 52/52] fix: default-constructed InputStream is recognised as
 not initialised

---
 src/validate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validate.h b/src/validate.h
index e5b154d..277d3b6 100644
--- a/src/validate.h
+++ b/src/validate.h
@@ -2301,7 +2301,7 @@ public:
 //============================================================================//
 class InputStream final {
 	std::unique_ptr<std::ifstream> managed;
-	std::istream* in;
+	std::istream* in = nullptr;
 	bool spaceSensitive, caseSensitive;
 	OutputStream* out;
 	Verdicts::Verdict onFail;
-- 
2.43.0

