// V19: settings overridden before the include take effect everywhere and change nothing else.
// CFG selects one combination; every unit is compared with the same reference, parameterised by the settings.
#ifndef CFG
#define CFG 0
#endif
#if CFG == 0
#define LOW 1
#define PREC 6
#define EPS 1e-6L
#elif CFG == 1
#define LOW 0
#define PREC 0
#define EPS 0.25L
#elif CFG == 2
#define LOW 0
#define PREC 3
#define EPS 0.0L
#elif CFG == 3
#define LOW 1
#define PREC 12
#define EPS 1e-3L
#define LARGE_ 0x3800000000000000
#elif CFG == 4
#define LOW 1
#define PREC 6
#define EPS 1e-6L
#define DOUBLE_FALLBACK
#else
#define LOW 0
#define PREC 1
#define EPS 0.5L
#define DOUBLE_FALLBACK
#endif
#if CFG != 0 && CFG != 4
namespace Settings { constexpr bool DEFAULT_CASE_LOWER = LOW; constexpr int DEFAULT_PRECISION = PREC; constexpr long double DEFAULT_EPS = EPS; }
#endif
#ifdef LARGE_
namespace Settings { constexpr long LARGE = LARGE_; }
#endif
#include "vh.h"
using namespace std;
static bool low(char c) { return c >= 'a' && c <= 'z'; }
static bool up(char c) { return c >= 'A' && c <= 'Z'; }
static char dc(char c) { return LOW ? (up(c) ? c + 32 : c) : (low(c) ? c - 32 : c); }
static string dc(string s) { for (char& c : s) c = dc(c); return s; }
static string fx(Real x) { char b[6000]; snprintf(b, sizeof b, "%.*Lf", PREC, x); return b; }
static void bad(const string& key, const string& what) { mc::violation(key, "precision " + to_string(PREC) + ", default case " + (LOW ? "lower" : "upper") + ", tolerance " + to_string((double)EPS) + ": " + what); }
static void expect(const string& key, const string& what, const string& got, const string& want) { mc::step(); mc::state(mc::hashStr(key + what)); if (got != want) bad(key, what + " gives \"" + mc::esc(got) + "\" instead of \"" + mc::esc(want) + "\""); }
template<class F> static string in(const string& s, bool space, bool cs, F f) { istringstream i(s); ostringstream m; OutputStream o(m); InputStream is(i, space, cs, o, Verdicts::WA); return vh::outcome([&]() -> string { return f(is); }); }
// reference of the comparison; -1 if too close to call
static int eq(Real g, Real e, Real a, Real r) {
	Real d = fabsl(g - e); auto cmp = [&](Real lim) { if (lim == 0) return d == 0 ? 1 : 0; if (fabsl(d - lim) <= 1e-12L * (lim + fabsl(e) + fabsl(g))) return -1; return d <= lim ? 1 : 0; };
	int x = cmp(a), y = e == 0 ? (d == 0 ? -1 : 0) : cmp(r * fabsl(e)); if (x == 1 || y == 1) return 1; return x == -1 || y == -1 ? -1 : 0;
}
static const string A = "aZm1[z";
static void cases(mc::u64 it) {
	string s; s += A[it / 36]; s += A[it / 6 % 6]; s += A[it % 6];
	for (size_t len = 1; len <= 3; len++) { string t = s.substr(0, len); mc::current("case", t); mc::trace(); mc::nontrivial();
		string u = t; toDefaultCase(u); expect("case:toDefaultCase", "toDefaultCase(" + t + ")", u, dc(t));
		expect("case:read", "reading " + t + " case-insensitively", in(t + " ", false, false, [](InputStream& i) { return i.string(); }), dc(t));
		expect("case:read", "reading " + t + " case-sensitively", in(t + " ", true, true, [](InputStream& i) { return i.string(); }), t);
		expect("case:batch", "reading " + t + " twice", in(t + " " + t + "\n", true, false, [](InputStream& i) { auto v = i.strings(2); return v[0] + v[1]; }), dc(t) + dc(t));
		for (int k = 0; k < 2; k++) { regex r(k ? "[A-Z]+" : "[a-z]+"); bool all = true; for (char c : t) all = all && (k ? up(dc(c)) : low(dc(c)));
			expect("case:regex", "reading " + t + " with pattern " + (k ? "[A-Z]+" : "[a-z]+") + " case-insensitively", in(t, false, false, [&](InputStream& i) { return i.string(r); }), all ? dc(t) : "verdict43");
			regex q = ValidateBase::caseSensitive.regex(k ? "[A-Z]+" : "[a-z]+"); bool any = true; for (char c : t) any = any && (up(c) || low(c)); expect("case:caseSensitive.regex", "caseSensitive.regex on " + t, regex_match(t, q) ? "match" : "no", any ? "match" : "no"); }
		for (mc::u64 k = 0; k < 216 + 36 + 6; k++) { string v; mc::u64 x = k; size_t l = k < 216 ? 3 : k < 252 ? 2 : 1; for (size_t j = 0; j < l; j++, x /= 6) v += A[x % 6]; bool same = dc(t) == dc(v);
			expect("case:stringEqual", "stringEqual(" + t + "," + v + ")", bool(ValidateBase::stringEqual(t, v)) ? "1" : "0", same ? "1" : "0");
			expect("case:expectString", "expecting " + v + " on " + t, in(t, false, false, [&](InputStream& i) { i.expectString(v); return "ok"s; }), same ? "ok" : "verdict43"); } }
}
static void precision() {
	mc::current("precision", ""); vector<Real> V = {0, 1, -1, 0.5L, 2.5L, 0.125L, 1.0L / 3, -2.0L / 3, 1e-3L, 1e-7L, 123456789.987654321L, 1e18L, -0.0625L, 1e-13L, 0.1L, 1e-20L, 9.9999999999L};
	string wd = getenv("MC_WD") ? getenv("MC_WD") : "/tmp"; string file = wd + "/v19out" + to_string(CFG) + "-" + to_string(getpid());
	for (Real x : V) for (Real y : V) { mc::trace(); mc::nontrivial(); string a = fx(x), b = fx(y);
		auto os = [&](auto f) { ostringstream s; OutputStream o(s); f(o); return s.str(); };
		expect("precision:pair", "<< pair", os([&](OutputStream& o) { o << make_pair(x, y); }), a + " " + b);
		expect("precision:tuple", "<< tuple", os([&](OutputStream& o) { o << make_tuple(x, 1, true, y); }), a + " 1 true " + b);
		expect("precision:vector", "<< vector", os([&](OutputStream& o) { o << vector<Real>{x, y}; }), a + " " + b);
		expect("precision:join", "join(vector)", join(vector<Real>{x, y}, ',').asString(), a + "," + b);
		expect("precision:join", "join{}", join({x, y}, NOSEP).asString(), a + b);
		if (y == 0) { char b2[3000]; snprintf(b2, sizeof b2, "%.*f", PREC, (double)x); expect("precision:double", "<< double", os([&](OutputStream& o) { o << (double)x; }), b2);
			{ OutputStream o{filesystem::path(file), ios::out}; o << x << '\n' << vector<Real>{y, x}; } ifstream i(file); string c((istreambuf_iterator<char>(i)), {}); expect("precision:file", "writing to a file", c, a + "\n" + b + " " + a);
			OutputStream moved; { ostringstream s; OutputStream t(s); moved = std::move(t); moved << x; expect("precision:moved", "<< on a moved stream", s.str(), a); moved = OutputStream(); } }
		if (x <= y) { { ConstraintsLogger L(file); L["c"].log(x, y, y); L["i"].log(-5, 8, Integer(7)); L["u"].log(x, y, x); } ifstream i(file); string l, n, u; getline(i, l); getline(i, n); getline(i, u); int um = eq(x, x, EPS, EPS), ux = eq(x, y, EPS, EPS); if (EPS == 0) um = 1; int hm = eq(y, x, EPS, EPS), hx = eq(y, y, EPS, EPS); if (EPS == 0) hx = 1;
			if (hm >= 0 && hx >= 0) expect("precision:constraints", "constraint with bounds " + a + " " + b + " value " + b, l, "LocationNotSupported:c c " + to_string(hm) + " " + to_string(hx) + " " + b + " " + b + " " + a + " " + b); if (um >= 0 && ux >= 0) expect("precision:constraints", "constraint with bounds " + a + " " + b + " value " + a, u, "LocationNotSupported:u u " + to_string(um) + " " + to_string(ux) + " " + a + " " + a + " " + a + " " + b); expect("precision:constraints", "integer constraint", n, "LocationNotSupported:i i 0 1 7 7 -5 7"); }
	}
	remove(file.c_str());
}
static void tolerance() {
	mc::current("tolerance", "");
	for (Real e : {0.0L, 1.0L, -3.0L, 1000.0L, 1e-9L, -1e6L, 0.25L}) for (Real k : {0.0L, 0.5L, 0.98L, 1.02L, 2.0L, 100.0L, 1e-3L, 1e4L}) for (int sg : {-1, 1}) for (int rel = 0; rel < 3; rel++) {
		Real d = rel == 2 ? k * 1e-6L : k * EPS * (rel ? fabsl(e) : 1), g = e + sg * d; int w = eq(g, e, EPS, EPS); mc::trace(); if (w < 0) continue; mc::nontrivial(); string nm = "(" + to_string((double)g) + "," + to_string((double)e) + ") with difference " + to_string((double)(g - e)) + " times 1e-6: " + to_string((double)((g - e) * 1e6L));
		expect("tolerance:floatEqual", "floatEqual" + nm, ValidateBase::floatEqual(g, e) ? "1" : "0", w ? "1" : "0");
		expect("tolerance:floatLess", "floatLess" + nm, ValidateBase::floatLess(g, e) ? "1" : "0", g <= e || w ? "1" : "0");
		expect("tolerance:floatGreater", "floatGreater" + nm, ValidateBase::floatGreater(g, e) ? "1" : "0", g >= e || w ? "1" : "0");
		for (Real a : {0.0L, 2 * EPS}) { int v = eq(g, e, a, EPS); if (v >= 0) expect("tolerance:floatEqual3", "floatEqual with absolute tolerance " + to_string((double)a) + nm, ValidateBase::floatEqual(g, e, a) ? "1" : "0", v ? "1" : "0"); }
		char t[100]; snprintf(t, sizeof t, "%.21Le", g); Real gg = strtold(t, nullptr); int v = eq(gg, e, EPS, EPS); if (v < 0) continue;
		expect("tolerance:expectReal", string("expectReal") + nm, in(t, false, false, [&](InputStream& i) { i.expectReal(e); return "ok"s; }), v ? "ok" : "verdict43");
		if (d < 1e8L) expect("tolerance:range", string("real(lower,upper) at lower") + nm, in(t, true, true, [&](InputStream& i) { i.real(e, e + 1e9L); return "ok"s; }), v || gg >= e || eq(gg, e + 1e9L, EPS, EPS) ? "ok" : "verdict43");
		if (d < 1e8L) expect("tolerance:range", string("real(lower,upper) at upper") + nm, in(t, true, true, [&](InputStream& i) { i.real(e - 1e9L, e); return "ok"s; }), v || gg < e || eq(gg, e - 1e9L, EPS, EPS) ? "ok" : "verdict43");
		{ static string file = string(getenv("MC_WD") ? getenv("MC_WD") : "/tmp") + "/v19in" + to_string(CFG) + "-" + to_string(getpid()); { ofstream f(file); f << t; }
			expect("tolerance:file", string("expectReal on a stream reading a file") + nm, vh::outcome([&]() -> string { ostringstream m; OutputStream o(m); InputStream i(filesystem::path(file), false, false, o, Verdicts::WA); i.expectReal(e); return "ok"; }), v ? "ok" : "verdict43"); remove(file.c_str()); }
		expect("tolerance:strict", string("realStrict ignores the tolerance") + nm, in(fx(0), true, true, [&](InputStream& i) { i.realStrict(EPS / 2 + 1e-30L, 1, 0, 99); return "ok"s; }), "verdict43");
	}
	expect("tolerance:initial", "initial tolerances", to_string((double)(Real)ValidateBase::floatAbsTol) + to_string((double)(Real)ValidateBase::floatRelTol), to_string((double)EPS) + to_string((double)EPS));
}
static void verdicts() {
	mc::current("verdicts", ""); auto code = [](auto f) { return vh::outcome([&]() -> string { f(); return "returned"; }); };
	for (int c : {42, 43, 1, 0, 7, 255, -1}) { Verdicts::Verdict v(c); string w = "verdict" + to_string(c); mc::trace(); mc::nontrivial();
		expect("verdict:exit", "Verdict.exit()", code([&] { v.exit(); }), w);
		expect("verdict:ostream", "ostream << verdict", code([&] { ostringstream o; o << v; }), w);
		expect("verdict:stream", "OutputStream << verdict", code([&] { ostringstream o; OutputStream s(o); s << "x" << v; }), w);
		expect("verdict:null", "uninitialised OutputStream << verdict", code([&] { OutputStream s; s << v; }), w);
		for (const char* t : {"", "x", "5 ", " 5", "\n", "12345678901234567890", "1e99", "0.5"}) for (int sp = 0; sp < 2; sp++) for (int op = 0; op < 10; op++) {
			istringstream i(t); ostringstream m; OutputStream o(m); InputStream is(i, sp, true, o, v); bool more = false;
			string r = code([&] { switch (op) { case 0: is.integer(); break; case 1: is.integer(7, 9); break; case 2: is.real(3, 4); break; case 3: is.realStrict(0, 1, 2, 3); break; case 4: is.expectString("yy"); break; case 5: is.expectInt(4); break; case 6: is.newline(); is.string(); is.eof(); break; case 7: is.space(); is.integers(2); break; case 8: is.string(regex("[q]")); break; case 9: is.expectReal(7); break; } more = true; });
			mc::step(); if (r == "returned" ? !more : r != w) bad("verdict:read", string("operation ") + to_string(op) + " on \"" + mc::esc(t) + "\" ends with " + r + " instead of " + w); } }
	static_assert(std::is_same_v<decltype(LARGE), const Integer>); 
#ifdef LARGE_
	expect("large", "LARGE", to_string(LARGE), to_string((Integer)LARGE_));
#else
	expect("large", "LARGE", to_string(LARGE), to_string((Integer)0x3FFF'FFFF'FFFF'FFFF));
#endif
}
// grammar of reals and their value: independent of the selected parser
static bool grammar(const string& s) { size_t p = 0; auto dig = [&] { size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++; return p - q; };
	if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; size_t a = dig(), b = 0; if (p < s.size() && s[p] == '.') { p++; b = dig(); } if (a + b == 0) return false;
	if (p < s.size() && (s[p] == 'e' || s[p] == 'E')) { p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (!dig()) return false; } return p == s.size(); }
static void token(const string& s) {
	string want = "verdict43"; if (grammar(s)) { Real v = strtold(s.c_str(), nullptr); if (isfinite(v)) { char b[80]; snprintf(b, sizeof b, "%La", v); want = b; } }
	auto show = [](Real r) { char b[80]; snprintf(b, sizeof b, "%La", r); return string(b); }; mc::trace();
	expect("parse:real", "real() on " + s, in(s, true, true, [&](InputStream& i) { Real r = i.real(); i.eof(); return show(r); }), want);
	auto q = isReal(s); expect("parse:isReal", "isReal(" + s + ")", bool(q) ? show(*q.reason) : "verdict43", want);
}
static void parse(mc::u64 it) {
	static const string B = "01.+-eE9"; int L = mc::thorough ? 7 : 6; mc::current("parse", to_string(it));
	for (int l = 1; l <= L; l++) { if (l < 2 && it % 8) continue; for (mc::u64 k = 0; k < mc::ipow(8, max(0, l - 2)); k++) { string s(1, B[it / 8]); if (l > 1) s += B[it % 8]; for (int x : mc::digits(k, 8, max(0, l - 2))) s += B[x]; token(s); } }
	if (it == 0) for (const char* s : {"inf", "nan", "0x10", "0x1p3", "1e400", "1e4000", "1e4932", "-1e4932", "1e5000", "-1e5000", "1e99999999999", "1e-300", "1e-4900", "1,5", "1f", "1l", "infinity", "-nan", "nan(1)", "123456789012345678901234567890", "0.1000000000000000055511151231257827", "3.14159265358979323846264338327950288", "1e+0000000000000000000001", "00000000000000000000000001.5", "1e-99", "18446744073709551615", "9007199254740993"}) token(s);
	if (it == 9) mc::sample("every token over {0,1,9,.,+,-,e,E} up to length " + to_string(L) + " read as a real");
}
// roles: the default tolerance and case reach the streams of the role, flags override them
static string role(vector<string> args, const string& text, function<void()> prog, void (*init)(int, char**)) {
	fflush(stdout); pid_t p = fork(); if (!p) { args.insert(args.begin(), "x"); vector<char*> a; for (auto& s : args) a.push_back(&s[0]); a.push_back(nullptr); static istringstream i; i.str(text); cin.rdbuf(i.rdbuf()); static ostringstream o; cout.rdbuf(o.rdbuf()); cerr.rdbuf(o.rdbuf()); string r = vh::outcome([&]() -> string { init((int)args.size(), a.data()); prog(); return "returned"; }); _exit(r == "returned" ? 99 : r.rfind("verdict", 0) == 0 ? atoi(r.c_str() + 7) : 98); }
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} mc::step(); return WIFEXITED(st) ? to_string(WEXITSTATUS(st)) : "signal";
}
static void roles() {
	mc::current("roles", ""); auto R = [&](const string& nm, vector<string> args, const string& text, function<void()> prog, const string& want) { mc::trace(); mc::nontrivial(); expect("role", nm + " on " + text, role(args, text, prog, InputValidator::init), want); };
	Real e = 8; for (Real k : {0.0L, 0.5L, 0.98L, 1.02L, 3.0L}) { char t[99]; snprintf(t, sizeof t, "%.18Lf", e + k * 8 * EPS); Real g = strtold(t, nullptr); int w = eq(g, e, EPS, EPS); if (w < 0) continue;
		R("expectReal of an input validator", {}, t, [&] { InputValidator::testIn.expectReal(e); }, w ? "99" : "43");
		R("expectReal of an input validator with float_tolerance 0.75", {"float_tolerance", "0.75"}, t, [&] { InputValidator::testIn.expectReal(e); }, eq(g, e, .75L, .75L) ? "99" : "43");
		R("floatEqual of an input validator", {}, "", [&] { if (ValidateBase::floatEqual(g, e)) InputValidator::juryOut << Verdicts::AC; InputValidator::juryOut << Verdicts::WA; }, w ? "42" : "43"); }
	R("case-sensitive read", {}, "aB", [&] { if (InputValidator::testIn.string() != "aB") Verdicts::FAIL.exit(); }, "99");
	R("NEXT without initialisation of the multipass facility", {}, "", [&] { Verdicts::Verdict(9).exit(); }, "9");
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	mc::parallel(216, [&](mc::u64 it) { cases(it); if (it == 100) mc::sample("all strings up to length 3 over {a,Z,m,1,[,z}, compared pairwise, default case " + string(LOW ? "lower" : "upper")); });
	mc::parallel(64, parse);
	mc::parallel(4, [&](mc::u64 it) { if (it == 0) precision(); if (it == 1) tolerance(); if (it == 2) verdicts(); if (it == 3) roles(); });
	for (int c = 0; c < 256; c++) { mc::step(); if (toDefaultCase((char)c) != dc((char)c)) bad("case:char", "toDefaultCase of character " + to_string(c)); }
	return mc::finish();
}
