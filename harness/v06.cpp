// V06: reading n tokens with a separator == n single reads with the separator in between
#include "vh.h"
using namespace std;
template<class T> static string txt(const T& x) { ostringstream o; o << setprecision(25) << x; return o.str(); }
template<class T> static string list(const vector<T>& v) { string r = "("; for (auto& x : v) r += txt(x) + ","; return r + ")"; }
static string rest(istream& in) { in.clear(); string r; char c; while (in.get(c)) r += c; return r; }
static string wd;
static const int NV = 14;
static const regex RX("-?[0-9a]+b?", REGEX_OPTIONS);
// variant v: read everything at once (batch) or token by token
static string run(const string& s, bool strict, int v, Integer n, char sep, bool useDefault, bool batch, int con) {
	istringstream in(s); string r;
	string file = wd + (batch ? "/cb" : "/cs");
	{
		ConstraintsLogger lg = con ? ConstraintsLogger(file) : ConstraintsLogger();
		Constraint& c = lg["c"];
		ostringstream msg; OutputStream os(msg);
		InputStream is(in, strict, true, os, Verdicts::WA);
		r = vh::outcome([&]() -> string {
			auto loop = [&](auto f) { vector<decltype(f())> res; for (Integer i = 0; i < n; i++) { if (i) { if (sep == ' ') is.space(); else is.newline(); } res.push_back(f()); mc::step(); } return list(res); };
			if (batch) mc::step();
#define D(call_d, call_s) (useDefault ? list(call_d) : list(call_s))
			switch (v) {
			case 0: return batch ? D(is.strings(n), is.strings(n, sep)) : loop([&] { return is.string(); });
			case 1: return batch ? D(is.strings(1, 3, n), is.strings(1, 3, n, sep)) : loop([&] { return is.string(1, 3); });
			case 2: return batch ? D(is.strings(2, 4, c, n), is.strings(2, 4, c, n, sep)) : loop([&] { return is.string(2, 4, c); });
			case 3: return batch ? D(is.strings(RX, n), is.strings(RX, n, sep)) : loop([&] { return is.string(RX); });
			case 4: return batch ? D(is.strings(RX, 1, 3, n), is.strings(RX, 1, 3, n, sep)) : loop([&] { return is.string(RX, 1, 3); });
			case 5: return batch ? D(is.strings(RX, 1, 3, c, n), is.strings(RX, 1, 3, c, n, sep)) : loop([&] { return is.string(RX, 1, 3, c); });
			case 6: return batch ? D(is.integers(n), is.integers(n, sep)) : loop([&] { return is.integer(); });
			case 7: return batch ? D(is.integers(-1, 2, n), is.integers(-1, 2, n, sep)) : loop([&] { return is.integer(-1, 2); });
			case 8: return batch ? D(is.integers(-2, 7, c, n), is.integers(-2, 7, c, n, sep)) : loop([&] { return is.integer(-2, 7, c); });
			case 9: return batch ? D(is.reals(n), is.reals(n, sep)) : loop([&] { return is.real(); });
			case 10: return batch ? D(is.reals(-1.0L, 0.75L, n), is.reals(-1.0L, 0.75L, n, sep)) : loop([&] { return is.real(-1.0L, 0.75L); });
			case 11: return batch ? D(is.reals(-2.0L, 2.0L, c, n), is.reals(-2.0L, 2.0L, c, n, sep)) : loop([&] { return is.real(-2.0L, 2.0L, c); });
			case 12: return batch ? D(is.realsStrict(-2.0L, 2.0L, 0, 2, n), is.realsStrict(-2.0L, 2.0L, 0, 2, n, sep)) : loop([&] { return is.realStrict(-2.0L, 2.0L, 0, 2); });
			case 13: return batch ? D(is.realsStrict(-1.0L, 2.0L, 0, 2, c, n), is.realsStrict(-1.0L, 2.0L, 0, 2, c, n, sep)) : loop([&] { return is.realStrict(-1.0L, 2.0L, 0, 2, c); });
			}
			return "?";
		});
		if (r.rfind("verdict", 0) != 0) r += " rest=" + rest(in);
	}
	if (con) { FILE* f = fopen(file.c_str(), "r"); char b[400] = ""; if (f) { size_t k = fread(b, 1, 399, f); b[k] = 0; fclose(f); } r += string(" log=") + b; unlink(file.c_str()); }
	return r;
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	string base = getenv("MC_WD") ? getenv("MC_WD") : "/tmp";
	const vector<string> T = {"1", "-2", "0.5", "ab", "b", "a11"}, S = {" ", "\n", "  ", "\t"};
	int N = mc::thorough ? 5 : 4;
	mc::parallel(mc::ipow(6, 3) * 2, [&](mc::u64 it) {
		wd = base + "/w" + to_string(it); filesystem::create_directories(wd);
		vector<int> first = mc::digits(it / 2, 6, 3);
		bool strict = it & 1;
		for (int k = 0; k <= N; k++) for (mc::u64 sc = 0; sc < mc::ipow(4, max(0, k - 1)); sc++) for (mc::u64 tc = 0; tc < mc::ipow(6, max(0, k - 3)); tc++) {
			if (k < 3) { bool canon = true; for (int q = k; q < 3; q++) canon &= first[q] == 0; if (!canon) continue; }
			auto sd = mc::digits(sc, 4, max(0, k - 1)); auto td = mc::digits(tc, 6, max(0, k - 3));
			if (k >= 4) { int odd = 0; for (int q : sd) odd += q != sd[0]; if (odd > 1) continue; if (odd && (td[0] > 3 || k > 4)) continue; }
			string s;
			for (int i = 0; i < k; i++) { s += T[i < 3 ? first[i] : td[i - 3]]; s += i + 1 < k ? S[sd[i]] : "\n"; }
			for (int v = 0; v < NV; v++) for (Integer n = 0; n <= N; n++) for (char sep : {' ', '\n'}) for (int def = 0; def <= (sep == ' '); def++) {
				mc::current("batch", mc::esc(s) + " variant " + to_string(v));
				int con = (v == 2 || v == 5 || v == 8 || v == 11 || v == 13) && k <= 2 && !def && n <= k;
				string want = run(s, strict, v, n, sep, false, false, con), got = run(s, strict, v, n, sep, def, true, con);
				mc::trace(); mc::state(mc::hashStr(s, v * 1000 + n * 10 + (sep == ' ') * 2 + def + strict * 100000));
				if (got != want) mc::violation("batch-variant" + to_string(v), "input \"" + mc::esc(s) + "\" variant " + to_string(v) + " count " + to_string(n) + " sep " + (sep == ' ' ? "space" : "newline") + " strict " + to_string(strict) + ": batch " + mc::esc(got) + ", one by one " + mc::esc(want));
			}
		}
		if (it == 9) mc::sample("tokens {1,-2,0.5,ab,b,a11}, separators {space,newline,2 spaces,tab}, 14 call variants, counts 0..4");
		filesystem::remove_all(wd);
	});
	// long batches: a separator or a token that goes wrong anywhere, also far into the batch
	const vector<int> LN = mc::thorough ? vector<int>{129, 257, 300, 1025, 5000, 70000} : vector<int>{129, 300, 1025, 5000};
	mc::parallel(NV * 2 * LN.size(), [&](mc::u64 it) {
		int v = it % NV, n = LN[it / NV / 2]; char sep = it / NV % 2 ? '\n' : ' ';
		wd = base + "/l" + to_string(it); filesystem::create_directories(wd);
		const vector<string> good = v < 3 ? vector<string>{"ab", "12", "a1"} : v < 6 ? vector<string>{"12", "1", "-2", "a1"} : v < 9 ? vector<string>{"1", "-1", "0"} : v < 12 ? vector<string>{"0.5", "0", "-0.25", "0.74"} : vector<string>{"0.5", "0", "-0.2", "1"};
		vector<string> g; for (auto& x : good) if (!(v == 2 && x.size() < 2)) g.push_back(x);
		set<int> pos = {-1, 0, n / 2, n - 2}; for (int e : {126, 127, 128, 254, 255, 256, 999, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535, 65536}) if (e < n - 1) pos.insert(e);
		for (int p : pos) for (int what = 0; what < (p < 0 ? 1 : 4); what++) {
			if (n > 5000 && what > 1) continue;
			string s; for (int i = 0; i < n; i++) { s += i == p + 1 && what == 3 ? "a!a!a" : g[i * 7 % g.size()]; if (i + 1 < n) s += i != p || what == 3 ? string(1, sep) : what == 0 ? string(1, sep == ' ' ? '\n' : ' ') : what == 1 ? string() + sep + sep : string("\t"); }
			mc::current("long-batch", "variant " + to_string(v) + " count " + to_string(n) + " defect " + to_string(what) + " behind token " + to_string(p));
			for (int strict = 0; strict < 2; strict++) {
				int con = v == 2 || v == 5 || v == 8 || v == 11 || v == 13;
				string want = run(s, strict, v, n, sep, false, false, con), got = run(s, strict, v, n, sep, false, true, con);
				mc::trace(); mc::state(mc::hashStr(s, v * 10 + strict));
				if (got != want) { size_t d = 0; while (d < got.size() && d < want.size() && got[d] == want[d]) d++; mc::violation("long-batch-variant" + to_string(v), to_string(n) + " tokens, defect " + to_string(what) + " behind token " + to_string(p) + ", variant " + to_string(v) + " strict " + to_string(strict) + ": batch ..." + mc::esc(got.substr(d > 20 ? d - 20 : 0, 60)) + ", one by one ..." + mc::esc(want.substr(d > 20 ? d - 20 : 0, 60))); }
				if (p < 0 && want.rfind("verdict", 0) == 0) mc::violation("harness", "long batch without a defect is refused one by one: variant " + to_string(v));
			}
		}
		filesystem::remove_all(wd);
	});
	// refused separators
	mc::parallel(1, [&](mc::u64) {
	for (int c = 0; c < 256; c++) if (c != ' ' && c != '\n') for (int v = 0; v < 4; v++) for (Integer n = 0; n < 3; n++) {
		istringstream in("1 1 1"); ostringstream msg; OutputStream os(msg); InputStream is(in, true, true, os, Verdicts::WA);
		bool ref = vh::refuses([&] { if (v == 0) is.strings(n, char(c)); else if (v == 1) is.integers(n, char(c)); else if (v == 2) is.reals(n, char(c)); else is.realsStrict(0, 2, 0, 5, n, char(c)); });
		mc::step(); mc::trace();
		if (!ref) mc::violation("separator", "separator " + to_string(c) + " not refused (variant " + to_string(v) + " count " + to_string(n) + ")");
	}
	});
	return mc::finish();
}
