// V10: command line lookup
#include "vh.h"
using namespace std;
static bool isCmd(const string& s) { return s.size() > 2 && s[0] == '-' && s[1] == '-'; }
static bool pInt(const string& s, Integer& v) {
	size_t i = 0; bool neg = false; if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
	if (i == s.size()) return false;
	for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false;
	string d = s.substr(i); while (d.size() > 1 && d[0] == '0') d = d.substr(1);
	string lim = neg ? "9223372036854775808" : "9223372036854775807";
	if (d.size() > 19 || (d.size() == 19 && d > lim)) return false;
	UInteger u = 0; for (char c : d) u = u * 10 + (c - '0'); v = (Integer)(neg ? 0 - u : u); return true;
}
static bool pReal(const string& s, Real& v) { // only used on the vocabulary below
	size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
	if (i == s.size()) return false; int dots = 0, dg = 0, e = 0;
	for (size_t k = i; k < s.size(); k++) { if (s[k] == '.') dots++; else if (s[k] >= '0' && s[k] <= '9') dg++; else if (s[k] == 'e' && dg && !e && k + 1 < s.size()) { e = 1; if (s[k+1] == '-') k++; } else return false; }
	if (!dg || dots > 1) return false; v = strtold(s.c_str(), 0); return true;
}
static string F(Real x) { char b[60]; snprintf(b, 60, "%La", x); return b; }
struct RC { bool found = false; vector<string> par; };
static string q(function<string()> f) { mc::step(); try { return f(); } catch (const VerdictExit&) { return "verdict"; } catch (const std::exception&) { return "ERR"; } }
template<class C> static string single(const C& c) { // accessors common to Command and Parameter
	string r;
	r += q([&] { return string(c.exists() ? "E" : "e"); }) + (bool(c) ? "B" : "b");
	r += "|" + q([&] { return c.asString(); }) + "|" + q([&] { return c.asString("dflt"); });
	r += "|" + q([&] { return to_string(c.asInteger()); }) + "|" + q([&] { return to_string(c.asInteger(-77)); });
	r += "|" + q([&] { return F(c.asReal()); }) + "|" + q([&] { return F(c.asReal(2.5L)); });
	return r;
}
static string refSingle(bool ex, bool has, const string& t) {
	Integer i; Real x; string r = ex ? "EB" : "eb";
	r += "|" + (has ? t : string("ERR")) + "|" + (has ? t : string("dflt"));
	r += "|" + (has && pInt(t, i) ? to_string(i) : string("ERR")) + "|" + (!has ? string("-77") : pInt(t, i) ? to_string(i) : string("ERR"));
	r += "|" + (has && pReal(t, x) ? F(x) : string("ERR")) + "|" + (!has ? F(2.5L) : pReal(t, x) ? F(x) : string("ERR"));
	return r;
}
template<class T, class G> static string listOf(G g) { return q([&] { string r = "("; for (auto& x : g()) { ostringstream o; o << setprecision(21) << x; r += o.str() + ","; } return r + ")"; }); }
template<class Tu, size_t... I> static string tupTxt(const Tu& t, index_sequence<I...>) { string r = "<"; ((r += [&] { ostringstream o; o << setprecision(21) << get<I>(t); return o.str(); }() + ","), ...); return r + ">"; }
static string tell(const Command& c) {
	string r = single(c) + "|" + to_string(c.parameterCount());
	for (Integer i : {-1, 0, 1, 2, 5}) r += "\n[" + to_string(i) + "]" + single(c[i]);
	r += "\n" + listOf<string>([&] { return c.asStrings(); }) + listOf<Integer>([&] { return c.asIntegers(); }) + listOf<Real>([&] { return c.asReals(); });
	r += q([&] { return tupTxt(c.asStrings<0>(), make_index_sequence<0>{}); }) + q([&] { return tupTxt(c.asStrings<1>(), make_index_sequence<1>{}); }) + q([&] { return tupTxt(c.asStrings<2>(), make_index_sequence<2>{}); });
	r += q([&] { return tupTxt(c.asIntegers<1>(), make_index_sequence<1>{}); }) + q([&] { return tupTxt(c.asIntegers<2>(), make_index_sequence<2>{}); }) + q([&] { return tupTxt(c.asReals<2>(), make_index_sequence<2>{}); });
	return r;
}
static string refTell(const RC& c) {
	auto& p = c.par; size_t n = p.size();
	string r = refSingle(c.found, n > 0, n ? p[0] : "") + "|" + to_string(n);
	for (Integer i : {-1, 0, 1, 2, 5}) { bool h = i >= 0 && i < (Integer)n; r += "\n[" + to_string(i) + "]" + refSingle(h, h, h ? p[i] : ""); }
	auto lst = [&](int kind, size_t k, const char* br) -> string {
		if (k > n) return "ERR"; string s(1, br[0]);
		for (size_t i = 0; i < k; i++) { Integer v; Real x; ostringstream o; o << setprecision(21); if (kind == 0) o << p[i]; else if (kind == 1) { if (!pInt(p[i], v)) return "ERR"; o << v; } else { if (!pReal(p[i], x)) return "ERR"; o << x; } s += o.str() + ","; }
		return s + br[1];
	};
	r += "\n" + lst(0, n, "()") + lst(1, n, "()") + lst(2, n, "()") + lst(0, 0, "<>") + lst(0, 1, "<>") + lst(0, 2, "<>") + lst(1, 1, "<>") + lst(1, 2, "<>") + lst(2, 2, "<>");
	return r;
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const vector<string> V = {"--a", "--bb", "x", "7", "-3", "1.5", "-", "--", "---c", "", "+4", "12z", "+-5"};
	int N = V.size(), L = mc::thorough ? 5 : 4;
	mc::parallel(N * N, [&](mc::u64 it) {
		for (int len = 0; len <= L; len++) for (mc::u64 k = 0; k < mc::ipow(N, max(0, len - 2)); k++) {
			if (len == 0 && it) continue;
			if (len == 1 && it % N) continue;
			vector<string> a; if (len >= 1) a.push_back(V[it / N]); if (len >= 2) a.push_back(V[it % N]);
			for (int x : mc::digits(k, N, max(0, len - 2))) a.push_back(V[x]);
			string show; for (auto& s : a) show += "\"" + s + "\" ";
			mc::current("args", show);
			vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr);
			bool dup = false; { set<string> seen; for (auto& s : a) if (isCmd(s) && !seen.insert(s).second) dup = true; }
			bool threw = false; unique_ptr<CommandParser> p;
			mc::step();
			try { p = make_unique<CommandParser>(len, av.data()); } catch (const std::exception&) { threw = true; }
			mc::trace(); mc::state(show);
			if (threw != dup) { mc::violation("duplicate", show + (threw ? "refused" : "not refused")); continue; }
			if (threw) continue;
			if (it == 5 && k == 60) mc::sample(show);
			for (const char* cmd : {"--a", "--bb", "---c", "--", "-", "x", "7", "--zz", "-3"}) {
				RC c, r;
				for (int i = 0; i < len; i++) if (a[i] == cmd) {
					if (!r.found) { r.found = true; r.par.assign(a.begin() + i + 1, a.end()); }
					if (isCmd(a[i]) && !c.found) { c.found = true; for (int j = i + 1; j < len && !isCmd(a[j]); j++) c.par.push_back(a[j]); }
				}
				string got = tell((*p)[cmd]), want = refTell(c);
				mc::trace();
				if (got != want) mc::violation("lookup", "args " + show + " [\"" + cmd + "\"]: got " + mc::esc(got, 500) + " expected " + mc::esc(want, 500));
				got = tell(p->getRaw(cmd)), want = refTell(r);
				if (got != want) mc::violation("raw-lookup", "args " + show + " getRaw(\"" + cmd + "\"): got " + mc::esc(got, 500) + " expected " + mc::esc(want, 500));
			}
			{ RC r; r.found = true; r.par = a; string got = tell(p->getRaw()), want = refTell(r); if (got != want) mc::violation("raw-all", "args " + show + ": got " + mc::esc(got, 500) + " expected " + mc::esc(want, 500)); }
			for (Integer i = -1; i <= len + 1; i++) {
				string got = q([&] { return string((*p)[i]); }), want = i >= 0 && i < len ? a[i] : "ERR";
				if (got != want) mc::violation("positional", "args " + show + " [" + to_string(i) + "]: " + got);
			}
			for (const char* bad : {"", "a b", "\n"}) if (!vh::refuses([&] { (*p)[bad]; }) || !vh::refuses([&] { p->getRaw(bad); })) mc::violation("bad-name", "lookup of non-token not refused");
			// a moved parser answers the same
			string before = tell((*p)["--a"]); CommandParser m(std::move(*p)); string after = tell(m["--a"]);
			if (before != after) mc::violation("moved", "args " + show + ": after move " + mc::esc(after, 400));
		}
	});
	// typed conversion: all short number-like strings
	const string A = "01-+.ex";
	mc::parallel(49, [&](mc::u64 it) {
		for (int len = 0; len <= 4; len++) for (mc::u64 k = 0; k < mc::ipow(7, len); k++) {
			string s = {A[it / 7], A[it % 7]}; for (int x : mc::digits(k, 7, len)) s += A[x];
			if (isCmd(s)) continue;
			string prog = "p", cmd = "--n"; char* av[] = {&prog[0], &cmd[0], &s[0], nullptr};
			mc::current("convert", s);
			CommandParser p(3, av); Integer i; Real x;
			mc::trace(); mc::state("n" + s);
			string got = q([&] { return to_string(p["--n"].asInteger()); }), want = pInt(s, i) ? to_string(i) : "ERR";
			if (got != want) mc::violation("asInteger", "\"" + s + "\": got " + got + " expected " + want);
			got = q([&] { return F(p["--n"].asReal()); }), want = pReal(s, x) ? F(x) : "ERR";
			// exponent forms: only require consistency where the reference is sure
			if (s.find('e') == string::npos && got != want) mc::violation("asReal", "\"" + s + "\": got " + got + " expected " + want);
		}
	});
	mc::parallel(1, [&](mc::u64) {
	for (string s : {"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "18446744073709551616", "+9223372036854775807", "00000000000000000000000012"}) {
		string prog = "p", cmd = "--n"; char* av[] = {&prog[0], &cmd[0], &s[0], nullptr}; CommandParser p(3, av); Integer i;
		string got = q([&] { return to_string(p["--n"].asInteger()); }), want = pInt(s, i) ? to_string(i) : "ERR"; mc::trace();
		if (got != want) mc::violation("asInteger-limit", "\"" + s + "\": got " + got + " expected " + want);
	}
	});
	// long command lines: many commands, many parameters, long strings
	mc::parallel(12, [&](mc::u64 it) {
		int n = vector<int>{60, 130, 300, 5000}[it % 4], k = vector<int>{0, 1, 7}[it / 4]; vector<string> a{"prog"}; for (int i = 0; i < n; i++) { a.push_back("--c" + to_string(i)); for (int j = 0; j < (i % 10 == 3 ? k : i % 3); j++) a.push_back(to_string(i * 100 + j)); }
		a.push_back("--" + string(3000, 'n')); a.push_back(string(200000, 'q')); a.push_back("--many"); for (int j = 0; j < n; j++) a.push_back(to_string(j * j) + ".5");
		vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr); mc::current("long-line", to_string(a.size()) + " arguments"); CommandParser p(a.size(), av.data()); mc::step(); mc::state(mc::comb(it, 4711));
		auto check = [&](const string& cmd) {
			RC c, r; for (size_t i = 0; i < a.size(); i++) if (a[i] == cmd) { if (!r.found) { r.found = true; r.par.assign(a.begin() + i + 1, a.end()); } if (isCmd(a[i]) && !c.found) { c.found = true; for (size_t j = i + 1; j < a.size() && !isCmd(a[j]); j++) c.par.push_back(a[j]); } }
			mc::trace(); if (tell(p[cmd]) != refTell(c)) mc::violation("lookup-long", "command line of " + to_string(a.size()) + " arguments: [\"" + mc::esc(cmd, 60) + "\"] differs"); if (tell(p.getRaw(cmd)) != refTell(r)) mc::violation("lookup-long", "command line of " + to_string(a.size()) + " arguments: getRaw(\"" + mc::esc(cmd, 60) + "\") differs");
		};
		for (int i = 0; i < n; i += 1 + n / 40) check("--c" + to_string(i)); for (int i = n - 3; i <= n; i++) check("--c" + to_string(i)); check("--many"); check("--" + string(3000, 'n')); check("--" + string(2999, 'n')); check(string(200000, 'q')); check(to_string((n - 1) * (n - 1)) + ".5");
		for (size_t i = 0; i < a.size(); i++) if (p[Integer(i)] != a[i]) mc::violation("lookup-long", "argument " + to_string(i) + " of " + to_string(a.size()) + " differs");
	});
	return mc::finish();
}
