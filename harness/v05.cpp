// V05: expectString / expectInt / expectReal
#include "vh.h"
using namespace std;
static string lower(string s) { for (char& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static string expS(const string& input, const string& e, bool strict, bool cs, int code, string* m = nullptr) {
	ostringstream msg; OutputStream os(msg); istringstream in(input); InputStream is(in, strict, cs, os, Verdicts::Verdict(code));
	string r = vh::outcome([&] { is.expectString(e); return string("ok"); });
	mc::step(); mc::trace(); if (m) *m = msg.str();
	return r;
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	// all pairs of strings over {a,A,b,0} up to length 3
	vector<string> S; const string A = "aAb0";
	for (int len = 1; len <= 3; len++) for (mc::u64 k = 0; k < mc::ipow(4, len); k++) { string t; for (int x : mc::digits(k, 4, len)) t += A[x]; S.push_back(t); }
	mc::parallel(S.size(), [&](mc::u64 it) {
		for (auto& e : S) for (int mode = 0; mode < 4; mode++) {
			const string& s = S[it]; bool cs = mode & 1, strict = mode & 2; int code = (it & 1) ? 43 : 1;
			mc::current("expectString", s + " vs " + e);
			bool eq = cs ? s == e : lower(s) == lower(e);
			string got = expS(s + "\n", e, strict, cs, code);
			mc::state("s" + s + "/" + e + to_string(mode));
			if (got != (eq ? "ok" : "verdict" + to_string(code))) mc::violation("expectString", "seen \"" + s + "\" expected \"" + e + "\" caseSensitive=" + to_string(cs) + ": " + got);
		}
	});
	// mismatch at every position for every length up to 60, also length differences
	mc::parallel(61, [&](mc::u64 n) {
		string base; for (size_t i = 0; i < n; i++) base += char('a' + (i * 5 + i / 26) % 26);
		auto both = [&](const string& s, const string& e) {
			if (s.empty() || e.empty()) return;
			for (int mode = 0; mode < 4; mode++) {
				bool cs = mode & 1;
				mc::current("expectString-long", s + " vs " + e);
				bool eq = cs ? s == e : lower(s) == lower(e);
				string m, got = expS(s, e, mode & 2, cs, 43, &m);
				mc::state("l" + s + "/" + e + to_string(mode));
				if (got != (eq ? "ok" : "verdict43")) mc::violation("expectString-long", "seen \"" + s + "\" expected \"" + e + "\" caseSensitive=" + to_string(cs) + ": " + got);
			}
		};
		for (size_t i = 0; i < n; i++) {
			string t = base; t[i] = '#'; both(t, base); both(base, t);
			t = base; t[i] -= 32; both(t, base); both(base, t);
		}
		for (size_t m = 0; m <= 60; m++) { string t = base + string(m, 'z'); both(t, base); both(base, t); t = string(m, 'q') + base; both(base, t); }
	});
	// integers
	vector<Integer> G; Integer MX = numeric_limits<Integer>::max(), MN = numeric_limits<Integer>::min();
	for (Integer d = 0; d < 3; d++) { G.push_back(MX - d); G.push_back(MN + d); }
	for (Integer d = -12; d <= 12; d++) G.push_back(d);
	for (Integer b : {(Integer)1 << 31, (Integer)1 << 32, (Integer)1 << 53, (Integer)1000000000}) for (Integer d = -1; d <= 1; d++) { G.push_back(b + d); G.push_back(-b + d); }
	mc::parallel(G.size(), [&](mc::u64 it) {
		for (Integer e : G) for (int strict = 0; strict < 2; strict++) {
			mc::current("expectInt", to_string(G[it]));
			ostringstream msg; OutputStream os(msg); istringstream in(to_string(G[it]) + "\n"); InputStream is(in, strict, true, os, Verdicts::WA);
			string got = vh::outcome([&] { is.expectInt(e); return string("ok"); });
			mc::step(); mc::trace(); mc::state(mc::comb(mc::comb(G[it], e), strict));
			if (got != (G[it] == e ? "ok" : "verdict43")) mc::violation("expectInt", "seen " + to_string(G[it]) + " expected " + to_string(e) + ": " + got);
		}
		for (string t : {"00", "+1", "1.0", "-0", "01", "x", "1e0", "9223372036854775808", "-9223372036854775809"}) {
			ostringstream msg; OutputStream os(msg); istringstream in(t); InputStream is(in, true, true, os, Verdicts::WA);
			string got = vh::outcome([&] { is.expectInt(G[it]); return string("ok"); });
			mc::step(); mc::trace();
			if (got != "verdict43") mc::violation("expectInt-malformed", "token " + t + " accepted");
		}
	});
	// reals: all arithmetic below is exact (dyadic values and tolerances), so the boundary itself is decided
	vector<Real> V; for (int i = -24; i <= 24; i++) V.push_back(i / 8.0L);
	for (Real b : {64.0L, 1024.0L}) for (int i = -9; i <= 9; i++) { V.push_back(b + i * b / 64); V.push_back(-b + i * b / 64); }
	vector<Real> T = {0.0L, 0.0625L, 0.125L, 0.25L, 0.5L, 1.0L, 2.0L};
	mc::parallel(V.size(), [&](mc::u64 it) {
		Real e = V[it];
		for (Real s : V) for (Real ta : T) for (Real tr : T) {
			char buf[64]; snprintf(buf, sizeof buf, "%.10Lf", s);
			mc::current("expectReal", buf);
			Real d = s > e ? s - e : e - s, m = e < 0 ? -e : e;
			bool eq = d <= ta || (m > 0 && d <= tr * m);
			ostringstream msg; OutputStream os(msg); istringstream in(buf); InputStream is(in, true, true, os, Verdicts::WA, ta, tr);
			string got = vh::outcome([&] { is.expectReal(e); return string("ok"); });
			mc::step(); mc::trace(); mc::state(mc::hashStr(buf, mc::hashBytes(&e, 10, mc::hashBytes(&ta, 10, mc::hashBytes(&tr, 10)))));
			if (got != (eq ? "ok" : "verdict43")) mc::violation("expectReal", string("seen ") + buf + " expected " + mc::str(e) + " tolerances " + mc::str(ta) + "/" + mc::str(tr) + ": " + got);
		}
		// defaults: 1e-6
		for (Real f : {0.0L, 0.5e-6L, -0.5e-6L, 2.3e-6L, -2.3e-6L, 1e-3L}) {
			Real s = e + f * (e < 0 ? -e : e); char buf[64]; snprintf(buf, sizeof buf, "%.18Lf", s);
			ostringstream msg; OutputStream os(msg); istringstream in(buf); InputStream is(in, true, true, os, Verdicts::WA);
			string got = vh::outcome([&] { is.expectReal(e); return string("ok"); });
			mc::step(); mc::trace();
			Real d = f * e; if (d < 0) d = -d; Real af = f < 0 ? -f : f;
			bool eq = af <= 1e-6L || d <= 1e-6L;
			if (got != (eq ? "ok" : "verdict43")) mc::violation("expectReal-default", string("seen ") + buf + " expected " + mc::str(e) + " default tolerances: " + got);
		}
		for (string t : {"nan", "inf", "x", "1.0.0", "--1", "1e"}) {
			ostringstream msg; OutputStream os(msg); istringstream in(t); InputStream is(in, true, true, os, Verdicts::WA);
			string got = vh::outcome([&] { is.expectReal(e); return string("ok"); });
			mc::step(); mc::trace();
			if (got != "verdict43") mc::violation("expectReal-malformed", "token " + t + ": " + got);
		}
	});
	mc::parallel(1, [&](mc::u64) {
	// end of input
	for (string t : {"", " ", "\n"}) for (int k = 0; k < 3; k++) {
		ostringstream msg; OutputStream os(msg); istringstream in(t); InputStream is(in, false, false, os, Verdicts::WA);
		string got = vh::outcome([&] { if (k == 0) is.expectString("a"); else if (k == 1) is.expectInt(0); else is.expectReal(0); return string("ok"); });
		mc::step(); mc::trace();
		if (got != "verdict43") mc::violation("expect-eof", "at end of input: " + got);
	}
	// text that can never be a token cannot be demanded
	for (string e : {"", " ", "a b", "a ", "\na", "a\tb", "\r", "a\n", "\f", "b\v"}) for (string t : {"a", "a b", ""}) {
		ostringstream msg; OutputStream os(msg); istringstream in(t); InputStream is(in, false, false, os, Verdicts::WA);
		string got = vh::outcome([&] { is.expectString(e); return string("ok"); }); mc::step(); mc::trace(); mc::current("expect-no-token", mc::esc(e));
		if (got.find("verdict") == 0 || got == "ok") mc::violation("expect-no-token", "demanding \"" + mc::esc(e) + "\" when the input is \"" + t + "\": " + got + " instead of a refusal");
	}
	});
	mc::sample("expectString: all pairs over {a,A,b,0}^1..3; mismatch at every position of length 1..60");
	mc::sample("expectReal: 87 x 87 dyadic values x 7 x 7 tolerances");
	return mc::finish();
}
