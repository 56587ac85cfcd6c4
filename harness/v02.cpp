// V02: real tokens
#include "vh.h"
using namespace std;
static bool dig(char c) { return c >= '0' && c <= '9'; }
// reference acceptor: [+-]? (d+ | d+ . | d* . d+) ([eE][+-]?d+)?
static bool refReal(const string& s) {
	size_t i = 0, n = s.size(), a = 0, b = 0; bool dot = false;
	if (i < n && (s[i] == '+' || s[i] == '-')) i++;
	while (i < n && dig(s[i])) i++, a++;
	if (i < n && s[i] == '.') { dot = true; i++; while (i < n && dig(s[i])) i++, b++; }
	if (a + b == 0) return false;
	(void)dot;
	if (i < n && (s[i] == 'e' || s[i] == 'E')) {
		i++;
		if (i < n && (s[i] == '+' || s[i] == '-')) i++;
		size_t e = 0; while (i < n && dig(s[i])) i++, e++;
		if (!e) return false;
	}
	return i == n;
}
// strict: -? (0 | [1-9]d*) (. d*)?
static bool refStrict(const string& s, Integer& dec) {
	size_t i = 0, n = s.size(); dec = 0;
	if (i < n && s[i] == '-') i++;
	if (i == n || !dig(s[i])) return false;
	if (s[i] == '0') i++; else while (i < n && dig(s[i])) i++;
	if (i == n) return true;
	if (s[i] != '.') return false;
	i++;
	while (i < n && dig(s[i])) i++, dec++;
	return i == n;
}
static string fmt(Real x) { char b[64]; snprintf(b, sizeof b, "%La", x); return b; }
static string res(function<Real()> f) { return vh::outcome([&] { return fmt(f()); }); }
static bool tolEq(Real a, Real b, Real at, Real rt) {
	if (!isfinite(a) || !isfinite(b)) return a == b;
	Real d = a > b ? a - b : b - a; Real m = b < 0 ? -b : b;
	if (d <= at) return true;
	return b != 0 && d / m <= rt;
}
static void one(const string& t, bool strictStream, int code) {
	mc::current("real", "token \"" + mc::esc(t) + "\"");
	bool ok = refReal(t); Real v = 0; bool loose = false;
	if (ok) {
		errno = 0; v = strtold(t.c_str(), nullptr);
		if (errno == ERANGE) { if (isinf(v)) ok = false; else loose = true; }
	}
	string want = ok ? fmt(v) : "verdict" + to_string(code);
	ostringstream msg; OutputStream os(msg);
	{
		istringstream in(t + (strictStream ? "" : "\n")); InputStream is(in, strictStream, true, os, Verdicts::Verdict(code));
		string got = res([&] { return is.real(); });
		mc::step(); mc::trace(); mc::state("r" + t);
		if (got != want && !(loose && got == "verdict" + to_string(code)))
			mc::violation(ok ? "real-rejected-or-changed" : "real-accepted", "real(): token \"" + mc::esc(t) + "\": got " + got + ", expected " + want);
		auto p = isReal(t); mc::step();
		if (!loose && (bool(p) != ok || (ok && (!p.hasReason() || fmt(*p.reason) != want)))) mc::violation("isReal", "isReal(\"" + mc::esc(t) + "\") = " + to_string(bool(p)));
	}
	Integer dec; bool st = refStrict(t, dec);
	string wantS = st ? fmt(strtold(t.c_str(), nullptr)) : "verdict" + to_string(code);
	{
		istringstream in(t + (strictStream ? "" : "\n")); InputStream is(in, strictStream, true, os, Verdicts::Verdict(code));
		string got = res([&] { return is.realStrict(-1e300L, 1e300L, 0, 1000); });
		mc::step(); mc::trace();
		if (got != wantS) mc::violation(st ? "strict-rejected-or-changed" : "strict-accepted", "realStrict(): token \"" + mc::esc(t) + "\": got " + got + ", expected " + wantS);
		if (!st) mc::nontrivial();
	}
	if (st) { // the window of allowed decimals
		for (Integer lo : {dec - 1, dec, dec + 1}) for (Integer hi : {dec - 1, dec, dec + 1, dec + 2}) {
			bool k = lo <= dec && dec < hi;
			istringstream in(t + " "); InputStream is(in, false, true, os, Verdicts::Verdict(code));
			string got = res([&] { return is.realStrict(-1e300L, 1e300L, lo, hi); });
			mc::step(); mc::trace();
			if (got != (k ? wantS : "verdict" + to_string(code))) mc::violation("strict-decimals", "realStrict decimals [" + to_string(lo) + "," + to_string(hi) + "): token \"" + t + "\": got " + got);
		}
	}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const string A("019.-+eEnx", 10);
	int L = mc::thorough ? 7 : 6;
	mc::parallel(1 + 10 + 100, [&](mc::u64 it) {
		if (it == 0) {
			for (string s : {"nan", "NaN", "-nan", "inf", "-inf", "INF", "infinity", "Infinity", "nan(1)", "0x1p3", "0x10", "1e", "e1", ".", "-.", "+", "1.5.2", "1e5.0", "1,5", "1_0", "1e+-5", "++1", "+-1", "-+1", "--1", "1-", "1f", "1L", "9e4932", "1e-4000", "1e99999999999999999999", "0e99999", "0.1", "123456789012345678901234567890.123456789012345678901234567890", "1e4931", "-1e4932"})
				for (int st = 0; st < 2; st++) one(s, st, 43);
			return;
		}
		if (it <= 10) { one(string(1, A[it - 1]), it & 1, 43); return; }
		it -= 11;
		string pre = {A[it / 10], A[it % 10]};
		for (int len = 0; len <= L - 2; len++) {
			mc::u64 n = mc::ipow(10, len);
			for (mc::u64 k = 0; k < n; k++) {
				auto d = mc::digits(k, 10, len);
				string t = pre; for (int x : d) t += A[x];
				one(t, k & 1, (k & 2) ? 43 : 1);
				if (k == 7777 % n && it % 17 == 0 && len == 4) mc::sample("token \"" + mc::esc(t) + "\"");
			}
		}
	});
	// range checks: value x bounds (dense around the bounds) x tolerances
	vector<string> vals; vector<Real> B = {-1000.0L, -1.0L, -0.5L, 0.0L, 0.5L, 1.0L, 1.5L, 1000.0L, 1e9L};
	for (Real b : B) for (Real d : {0.0L, 1e-9L, 0.9e-6L, 1.1e-6L, 0.9e-3L, 1.1e-3L, 0.05L, 0.25L, 600.0L, 1100.0L}) for (int s : {1, -1}) {
		char buf[80]; snprintf(buf, sizeof buf, "%.12Lf", b + s * d); vals.push_back(buf);
	}
	struct Tol { Real a, r; }; vector<Tol> T = {{1e-6L, 1e-6L}, {1e-3L, 0}, {0, 1e-3L}, {0, 0}, {0.1L, 1e-6L}};
	mc::parallel(vals.size(), [&](mc::u64 it) {
		const string& t = vals[it]; Real v = strtold(t.c_str(), nullptr);
		for (Real l : B) for (Real u : B) {
			for (auto& tol : T) for (int con = 0; con < 2; con++) {
				mc::current("range", t);
				bool ok = (l <= v && v < u) || tolEq(v, l, tol.a, tol.r) || tolEq(v, u, tol.a, tol.r);
				ostringstream msg; OutputStream os(msg); istringstream in(t); InputStream is(in, true, true, os, Verdicts::WA, tol.a, tol.r);
				Constraint c;
				string got = res([&] { return con ? is.real(l, u, c) : is.real(l, u); });
				mc::step(); mc::trace(); mc::state(mc::hashStr(t, mc::hashBytes(&l, 10, mc::hashBytes(&u, 10, mc::hashBytes(&tol.a, 10)))));
				if (got != (ok ? fmt(v) : "verdict43")) mc::violation("range", "real(" + mc::str(l) + "," + mc::str(u) + ") tol " + mc::str(tol.a) + "/" + mc::str(tol.r) + " token " + t + ": got " + got + ", expected " + (ok ? "accept" : "reject"));
			}
			bool ok = l <= v && v < u;
			for (int con = 0; con < 2; con++) {
				ostringstream msg; OutputStream os(msg); istringstream in(t); InputStream is(in, true, true, os, Verdicts::WA);
				Constraint c;
				string got = res([&] { return con ? is.realStrict(l, u, 0, 20, c) : is.realStrict(l, u, 0, 20); });
				mc::step(); mc::trace();
				if (got != (ok ? fmt(v) : "verdict43")) mc::violation("strict-range", "realStrict(" + mc::str(l) + "," + mc::str(u) + ") token " + t + ": got " + got + ", expected " + (ok ? "accept" : "reject"));
			}
		}
	});
	// many digits before and behind the point
	mc::parallel(12, [&](mc::u64 it) {
		const int N[] = {60, 126, 127, 128, 129, 255, 256, 257, 300, 383, 511, 700}; int n = N[it];
		for (string t : {"0." + string(n, '0'), "0." + string(n, '3'), "-1." + string(n - 1, '0') + "7", "12." + string(n, '9'), string(n < 290 ? n : 290, '7') + "." + string(n, '5'), string(n, '0') + ".5", "-." + string(n, '1'), "1" + string(n < 290 ? n : 290, '0'), string(n, '0'), "1e" + string(n, '0') + "1", "1." + string(n, '2') + "e3", "." + string(n, '0') + "1e" + to_string(n), string(n, '-') + "1", "0." + string(n, '4') + "x", "0." + string(n, '4') + ".", "0." + string(n, '4') + "+1"})
			for (int st = 0; st < 2; st++) one(t, st, 43);
	});
	// very long tokens: still a verdict (or the value), never a crash
	vector<size_t> LEN = {1000, 5000, 20000, 200000};
	mc::parallel(LEN.size(), [&](mc::u64 it) {
		mc::current(LEN[it] > 20000 ? "long-real-token" : "medium-token", "token of " + to_string(LEN[it]) + " digits");
		ostringstream msg; OutputStream os(msg); istringstream in("0." + string(LEN[it], '0') + "1"); InputStream is(in, true, true, os, Verdicts::WA);
		string got = vh::outcome([&] { return fmt(is.real()); });
		mc::step(); mc::trace();
		if (got != fmt(strtold(("0." + string(LEN[it], '0') + "1").c_str(), 0)) && !(LEN[it] > 4000 && got == "verdict43")) mc::violation("long-token-outcome", "token of " + to_string(LEN[it]) + " digits: " + got);
	});
	return mc::finish();
}
