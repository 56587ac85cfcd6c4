// V18 (2): no read operation demands more input than its token (and the one character that ends it)
#include "vh.h"
using namespace std;
struct Feed : streambuf { // one byte at a time; counts what was demanded
	const string& s; size_t at = 0; bool beyond = false; char c;
	explicit Feed(const string& s_) : s(s_) {}
	int_type underflow() override { if (at >= s.size()) { beyond = true; return traits_type::eof(); } c = s[at++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
};
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
enum { STR, INT, REAL, STRICT, EXS, EXI, SPC, NL, NE, EOFF, INTS, STRS, REALS, RX, NO };
static const char* ON[] = {"string", "integer", "real", "realStrict", "expectString(a)", "expectInt(1)", "space", "newline", "noteof", "eof", "integers(2)", "strings(2,newline)", "reals(1)", "string(regex)"};
static string op(InputStream& i, int o) { static regex rx("a+"); return vh::outcome([&]() -> string { switch (o) {
	case STR: return i.string(); case INT: return to_string(i.integer()); case REAL: i.real(); return "."; case STRICT: i.realStrict(0, 5, 0, 3); return "."; case EXS: i.expectString("a"); return "."; case EXI: i.expectInt(1); return ".";
	case SPC: i.space(); return "."; case NL: i.newline(); return "."; case NE: i.noteof(); return "."; case EOFF: i.eof(); return "."; case INTS: i.integers(2); return "."; case STRS: i.strings(2, NEWLINE); return "."; case REALS: i.reals(1); return "."; case RX: return i.string(rx); } return ""; }); }
// how many bytes may be demanded by o starting at p (and what is consumed if it is successful): -1 = all and the end
struct Need { size_t bytes; size_t after; bool failed; };
static Need token(const string& s, size_t p, bool strict) {
	if (!strict) while (p < s.size() && ws(s[p])) p++;
	if (p >= s.size()) return {s.size() + 1, p, true};
	if (strict && !(s[p] > 32 && s[p] < 127)) return {p + 1, p + 1, true};
	while (p < s.size() && !ws(s[p])) p++;
	return {p + 1, p, false};
}
static Need one(const string& s, size_t p, bool strict, char c) { if (!strict) return {p, p, false}; if (p >= s.size()) return {s.size() + 1, p, true}; return {p + 1, p + 1, s[p] != c}; }
static Need need(const string& s, size_t p, bool strict, int o) { switch (o) {
	case SPC: return one(s, p, strict, ' '); case NL: return one(s, p, strict, '\n');
	case NE: case EOFF: if (!strict) while (p < s.size() && ws(s[p])) p++; return {p + 1, p, p >= s.size() ? o == NE : o == EOFF};
	case INTS: case STRS: { Need a = token(s, p, strict); if (a.failed) return a; Need b = one(s, a.after, strict, o == INTS ? ' ' : '\n'); if (b.failed) return {max(a.bytes, b.bytes), b.after, true}; Need c = token(s, b.after, strict); return {max(max(a.bytes, b.bytes), c.bytes), c.after, c.failed}; }
	default: return token(s, p, strict); } }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const string A("1a \n.\x01", 6); int L = mc::thorough ? 7 : 6;
	mc::parallel(36, [&](mc::u64 it) { string pre = {A[it / 6], A[it % 6]};
		for (int len = 0; len <= L - 2; len++) for (mc::u64 k = 0; k < mc::ipow(6, len); k++) {
			string s = pre; for (int x : mc::digits(k, 6, len)) s += A[x];
			for (int strict = 0; strict < 2; strict++) for (int o1 = 0; o1 < NO; o1++) for (int o2 = -1; o2 < NO; o2++) {
				mc::current("demand", mc::esc(s) + " " + ON[o1]);
				Feed f(s); istream in(&f); ostringstream m; OutputStream os(m); InputStream i(in, strict, true, os, Verdicts::WA);
				if (f.at) { mc::violation("demand:construction", "constructing a stream already reads from it"); return; }
				size_t p = 0, most = 0; string names; bool dead = false;
				for (int o : {o1, o2}) { if (o < 0 || dead) break; names += string(ON[o]) + " "; Need n = need(s, p, strict, o); string r = op(i, o); mc::step(); dead = r.rfind("verdict", 0) == 0;
					most = max(most, n.bytes); p = n.after; bool bad = f.at > most || (f.beyond && most <= s.size());
					if (n.failed && !dead) bad = true; // accepted what cannot be accepted
					if (bad) { mc::violation(string("demand:") + ON[o], "input \"" + mc::esc(s) + "\" " + (strict ? "space sensitive" : "insensitive") + ": " + names + "-> " + r + " demanded " + to_string(f.at) + (f.beyond ? " and more" : "") + " bytes, " + to_string(most) + " suffice"); dead = true; }
					mc::state(mc::hashStr(s.substr(0, min(s.size(), most)), strict * 100 + o + (o1 + 1) * 1000)); }
				mc::trace(); if (o2 < 0 && dead && 0) break;
			}
			if (it % 7 == 1 && k == 200) mc::sample("\"" + mc::esc(s) + "\" fed byte by byte to all pairs of 14 operations, both modes");
		}
	});
	return mc::finish();
}
