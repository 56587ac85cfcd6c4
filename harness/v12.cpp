// V12: character classes, case mapping, string comparison
#include "vh.h"
struct Cls { const char* name; bool (*c)(char); boolean<char> (*s)(std::string_view); const char* set; };
int main(int argc, char** argv) {
	mc::init(argc, argv);
	static const char lo[] = "abcdefghijklmnopqrstuvwxyz", up[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	static const std::string all = std::string(lo) + up;
	std::vector<Cls> cls = {
		{"isLower", [](char c) { return isLower(c); }, [](std::string_view s) -> boolean<char> { return isLower(s); }, lo},
		{"isUpper", [](char c) { return isUpper(c); }, [](std::string_view s) -> boolean<char> { return isUpper(s); }, up},
		{"isLetter", [](char c) { return isLetter(c); }, [](std::string_view s) -> boolean<char> { return isLetter(s); }, all.c_str()},
		{"isDigit", [](char c) { return isDigit(c); }, [](std::string_view s) -> boolean<char> { return isDigit(s); }, "0123456789"},
		{"isVowel", [](char c) { return isVowel(c); }, [](std::string_view s) -> boolean<char> { return isVowel(s); }, "aeiouAEIOU"},
		{"isConsonant", [](char c) { return isConsonant(c); }, [](std::string_view s) -> boolean<char> { return isConsonant(s); }, "bcdfghjklmnpqrstvwxyzBCDFGHJKLMNPQRSTVWXYZ"}};
	auto in = [](char c, const char* set) { return c && strchr(set, c); };
	auto low = [&](char c) { const char* p = c ? strchr(up, c) : 0; return p ? lo[p - up] : c; };
	auto upp = [&](char c) { const char* p = c ? strchr(lo, c) : 0; return p ? up[p - lo] : c; };
	mc::parallel(256, [&](u64 item) {
		char c = (char)item;
		mc::state(mc::comb(1, item));
		mc::current("char", "char " + mc::esc(std::string(1, c)));
		for (auto& k : cls) {
			mc::step(2); mc::trace();
			if (k.c(c) != in(c, k.set)) mc::violation(std::string(k.name) + ":char", std::string(k.name) + " wrong for '" + mc::esc(std::string(1, c)) + "'");
			for (int pos = 0; pos < 4; pos++) for (int len = pos + 1; len <= 4; len++) { // the odd one out at every position
				for (const char* f = k.set; *f; f += 3) { if (!*f) break;
					std::string s(len, *f); s[pos] = c;
					auto r = k.s(s); mc::step(); mc::trace();
					if ((bool)r != in(c, k.set)) mc::violation(std::string(k.name) + ":string", std::string(k.name) + "(\"" + mc::esc(s) + "\") = " + mc::str((bool)r));
					else if (!r && (!r.hasReason() || *r.reason != c)) mc::violation(std::string(k.name) + ":witness", std::string(k.name) + "(\"" + mc::esc(s) + "\") does not name the offending character");
					if (strlen(f) < 3) break;
				}
			}
		}
		std::string s = std::string("x") + c + "Y", a = s, b = s, d = s;
		toLower(a); toUpper(b); toDefaultCase(d); mc::step(6); mc::trace();
		if (toLower(c) != low(c) || a != std::string("x") + low(c) + "y") mc::violation("toLower", "toLower wrong for '" + mc::esc(std::string(1, c)) + "'");
		if (toUpper(c) != upp(c) || b != std::string("X") + upp(c) + "Y") mc::violation("toUpper", "toUpper wrong for '" + mc::esc(std::string(1, c)) + "'");
		if (toDefaultCase(c) != low(c) || d != std::string("x") + low(c) + "y") mc::violation("toDefaultCase", "toDefaultCase wrong for '" + mc::esc(std::string(1, c)) + "'");
		for (int q = 0; q < 256; q++) for (int cs = 0; cs < 2; cs++) {
			char e = (char)q; std::string x = std::string("p") + c, y = std::string("p") + e;
			bool eq = cs ? c == e : low(c) == low(e);
			auto r = OutputValidator::stringEqual(x, y, cs); mc::step(); mc::trace();
			if ((bool)r != eq) mc::violation("stringEqual:chars", "stringEqual wrong for '" + mc::esc(x) + "' '" + mc::esc(y) + "' cs=" + mc::str(cs));
			else if (!eq && (!r.hasReason() || *r.reason != 1)) mc::violation("stringEqual:pos", "stringEqual position wrong for '" + mc::esc(x) + "' '" + mc::esc(y) + "'");
		}
	});
	// all strings up to length 4/5 over a mixed alphabet: class of the string = all characters in the class
	static const char al[] = {'a', 'B', 'z', 'E', '0', '9', ' ', '\0', (char)0xe9};
	int L = mc::thorough ? 6 : 5;
	std::vector<std::string> strs;
	for (int l = 0; l <= L; l++) for (u64 i = 0; i < mc::ipow(9, l); i++) { auto d = mc::digits(i, 9, l); std::string s; for (int x : d) s += al[x]; strs.push_back(s); }
	mc::parallel((strs.size() + 511) / 512, [&](u64 b) {
		for (u64 i = b * 512; i < std::min<u64>(strs.size(), b * 512 + 512); i++) {
			const std::string& s = strs[i]; mc::state(s); mc::current("string", mc::esc(s));
			for (auto& k : cls) {
				bool w = true; for (char c : s) w = w && in(c, k.set);
				auto r = k.s(s); mc::step(); mc::trace();
				if ((bool)r != w) mc::violation(std::string(k.name) + ":string", std::string(k.name) + "(\"" + mc::esc(s) + "\") = " + mc::str((bool)r));
				else if (!w && (!r.hasReason() || in(*r.reason, k.set) || s.find(*r.reason) == std::string::npos)) mc::violation(std::string(k.name) + ":witness", std::string(k.name) + "(\"" + mc::esc(s) + "\") names no offending character");
			}
			std::string a = s, c = s, d = s; for (char& x : a) x = low(x); for (char& x : c) x = upp(x);
			std::string a2 = s, c2 = s; toLower(a2); toUpper(c2); toDefaultCase(d); mc::step(3);
			if (a2 != a || c2 != c || d != a) mc::violation("mapping:string", "case mapping wrong for \"" + mc::esc(s) + "\"");
		}
	});
	// all pairs of strings up to length 3 over {a,A,b,B,0,@,`,[,{}: look-alikes 32 apart that are no letters
	static const char al2[] = {'a', 'A', 'b', '@', '`', '[', '{'};
	std::vector<std::string> ps;
	for (int l = 0; l <= (mc::thorough ? 4 : 3); l++) for (u64 i = 0; i < mc::ipow(7, l); i++) { auto d = mc::digits(i, 7, l); std::string s; for (int x : d) s += al2[x]; ps.push_back(s); }
	mc::parallel(ps.size(), [&](u64 i) {
		const std::string& a = ps[i];
		for (auto& b : ps) for (int m = 0; m < 4; m++) { // 0/1 explicit, 2/3 through the setting
			bool cs = m & 1;
			mc::current("stringEqual", mc::esc(a) + " " + mc::esc(b));
			size_t k = 0; while (k < a.size() && k < b.size() && (cs ? a[k] == b[k] : low(a[k]) == low(b[k]))) k++;
			bool eq = k == a.size() && k == b.size();
			boolean<std::size_t> r(false);
			if (m < 2) r = OutputValidator::stringEqual(a, b, cs); else { ValidateBase::caseSensitive = cs; r = OutputValidator::stringEqual(a, b); }
			mc::step(); mc::trace(); if (!eq) mc::nontrivial();
			if ((bool)r != eq) mc::violation("stringEqual:value", "stringEqual(\"" + a + "\",\"" + b + "\",cs=" + mc::str(cs) + ") = " + mc::str((bool)r));
			else if (!eq && (!r.hasReason() || *r.reason != k)) mc::violation("stringEqual:pos", "stringEqual(\"" + a + "\",\"" + b + "\") does not report position " + mc::str(k));
		}
		mc::state("p" + a);
	});
	// long strings: the odd character far inside
	const std::vector<size_t> LN = {128, 129, 255, 256, 257, 1001, 4097, 32769, 65537, mc::thorough ? size_t(1) << 20 : size_t(70000)};
	mc::parallel(LN.size() * (cls.size() + 1), [&](u64 it) {
		size_t n = LN[it % LN.size()]; u64 ci = it / LN.size();
		std::set<size_t> pos; for (size_t e : {size_t(0), n / 3, n - 2, n - 1, size_t(126), size_t(127), size_t(128), size_t(254), size_t(255), size_t(256), size_t(999), size_t(1000), size_t(4095), size_t(4096), size_t(32767), size_t(32768), size_t(65535), size_t(65536)}) if (e < n) pos.insert(e);
		if (ci < cls.size()) {
			auto& k = cls[ci]; size_t m = strlen(k.set); std::string base(n, ' '); for (size_t i = 0; i < n; i++) base[i] = k.set[i * 5 % m];
			mc::current("long-class", std::string(k.name) + " length " + mc::str(n)); mc::step(); mc::trace(); mc::state(mc::hashStr(k.name, n));
			if (!k.s(base)) mc::violation(std::string(k.name) + ":long", std::string(k.name) + " rejects a string of " + mc::str(n) + " characters of the class");
			for (size_t p : pos) for (char c : {'\0', ' ', '@', '[', '`', '{', '/', ':', 'a', 'Z', 'b', 'Y', '5', '\x80', '\xe1'}) {
				if (in(c, k.set)) continue;
				std::string s = base; s[p] = c; auto r = k.s(s); mc::step(); mc::trace();
				if (r || !r.hasReason() || *r.reason != c) mc::violation(std::string(k.name) + ":long", std::string(k.name) + " of " + mc::str(n) + " characters with '" + mc::esc(std::string(1, c)) + "' at " + mc::str(p) + (r ? " is true" : " does not name that character"));
			}
			return;
		}
		std::string a(n, ' '); for (size_t i = 0; i < n; i++) a[i] = (char)(i * 37 % 256); std::string l = a, u = a, d = a; for (char& c : l) c = low(c); for (char& c : u) c = upp(c);
		mc::current("long-case", "length " + mc::str(n)); std::string x = a, y = a; toLower(x); toUpper(y); toDefaultCase(d); mc::step(3); mc::trace(); mc::state(mc::comb(n, 77));
		if (x != l || y != u || d != l) mc::violation("mapping:long", "case mapping of a string of " + mc::str(n) + " characters is wrong");
		for (size_t p : pos) for (int cs = 0; cs < 2; cs++) for (int what = 0; what < 4; what++) { // 0 changed byte, 1 changed case, 2 cut, 3 nothing
			std::string b = cs ? a : what == 3 ? u : l; if (what == 0) b[p] = b[p] == '!' ? '"' : '!'; if (what == 1) b[p] = b[p] == low(a[p]) ? upp(b[p]) : low(b[p]); if (what == 2) b.resize(p);
			size_t q = 0; while (q < a.size() && q < b.size() && (cs ? a[q] == b[q] : low(a[q]) == low(b[q]))) q++;
			bool eq = q == a.size() && q == b.size(); auto r = OutputValidator::stringEqual(a, b, cs), r2 = OutputValidator::stringEqual(b, a, cs); mc::step(2); mc::trace();
			for (auto& z : {r, r2}) if ((bool)z != eq || (!eq && (!z.hasReason() || *z.reason != q))) mc::violation("stringEqual:long", "stringEqual of two strings of about " + mc::str(n) + " characters, difference at " + mc::str(q) + ", cs=" + mc::str(cs) + ": " + (z ? "true" : z.hasReason() ? "reports " + mc::str(*z.reason) : "no position"));
		}
	});
	// the character constants hold exactly the characters of their class, once each, in order
	mc::parallel(1, [&](u64) {
		auto chk = [&](const char* n, std::string_view got, auto pred) {
			std::string want; for (int c = 0; c < 128; c++) if (pred((char)c)) want += (char)c;
			mc::step(); mc::trace(); mc::state(std::string("K") + n);
			if (got != want) mc::violation(std::string("constant:") + n, std::string(n) + " is \"" + mc::esc(std::string(got)) + "\", expected \"" + want + "\"");
		};
		auto lo = [](char c) { return c >= 'a' && c <= 'z'; }; auto up = [](char c) { return c >= 'A' && c <= 'Z'; }; auto di = [](char c) { return c >= '0' && c <= '9'; };
		auto vo = [](char c) { return c && strchr("aeiouAEIOU", c) != nullptr; };
		chk("LETTER", LETTER, [&](char c) { return lo(c) || up(c); }); chk("UPPER", UPPER, up); chk("LOWER", LOWER, lo); chk("DIGITS", DIGITS, di);
		chk("VOWEL", VOWEL, vo); chk("UPPER_VOWELS", UPPER_VOWELS, [&](char c) { return vo(c) && up(c); }); chk("LOWER_VOWELS", LOWER_VOWELS, [&](char c) { return vo(c) && lo(c); });
		chk("CONSONANT", CONSONANT, [&](char c) { return (lo(c) || up(c)) && !vo(c); }); chk("UPPER_CONSONANT", UPPER_CONSONANT, [&](char c) { return up(c) && !vo(c); }); chk("LOWER_CONSONANT", LOWER_CONSONANT, [&](char c) { return lo(c) && !vo(c); });
		chk("ALPHA_NUMERIC", ALPHA_NUMERIC, [&](char c) { return lo(c) || up(c) || di(c); }); chk("UPPER_ALPHA_NUMERIC", UPPER_ALPHA_NUMERIC, [&](char c) { return up(c) || di(c); }); chk("LOWER_ALPHA_NUMERIC", LOWER_ALPHA_NUMERIC, [&](char c) { return lo(c) || di(c); });
		if (BRACKETS != "()[]{}<>" || NEWLINE != 10 || SPACE != 32) mc::violation("constant:other", "BRACKETS, NEWLINE or SPACE is wrong");
	});
	mc::sample("isLower/isUpper/.../isConsonant on all 256 bytes and on every string up to length 5 over {a,B,z,E,0,9,space,NUL,0xe9}");
	return mc::finish();
}
