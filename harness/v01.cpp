// V01: integer tokens
#include "vh.h"
using namespace std;
// ---- reference: canonical decimal, value within signed 64 bit
static bool refInt(const string& s, Integer& v) {
	size_t i = 0; bool neg = false;
	if (s == "0") { v = 0; return true; }
	if (i < s.size() && s[i] == '-') { neg = true; i++; }
	string d = s.substr(i);
	if (d.empty() || d[0] == '0') return false;
	for (char c : d) if (c < '0' || c > '9') return false;
	string lim = neg ? "9223372036854775808" : "9223372036854775807";
	if (d.size() > lim.size() || (d.size() == lim.size() && d > lim)) return false;
	UInteger u = 0; for (char c : d) u = u * 10 + (c - '0');
	v = (Integer)(neg ? 0 - u : u);
	return true;
}
static void one(const string& tok, bool strict, int code) {
	Integer v; bool ok = refInt(tok, v);
	string want = ok ? to_string(v) : "verdict" + to_string(code);
	mc::current("integer", "token \"" + mc::esc(tok) + "\"");
	ostringstream msg; OutputStream os(msg);
	istringstream in(tok + (strict ? "" : " \n"));
	InputStream is(in, strict, true, os, Verdicts::Verdict(code));
	string got = vh::outcome([&] { return to_string(is.integer()); });
	mc::step(); mc::trace(); mc::state(tok + "/" + want);
	if (got != want) mc::violation(ok ? "integer-rejected-or-changed" : "integer-accepted", "token \"" + mc::esc(tok) + "\" strict=" + to_string(strict) + ": got " + got + ", expected " + want);
	if (!ok) mc::nontrivial();
	// the same language is offered as a predicate
	auto p = isInteger(tok);
	mc::step();
	if (bool(p) != ok || (ok && (!p.hasReason() || *p.reason != v)) ) mc::violation("isInteger", "isInteger(\"" + mc::esc(tok) + "\") = " + to_string(bool(p)));
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	const string A("01289-+.x\x80", 10);
	int L = mc::thorough ? 7 : 6;
	// all tokens: first two symbols are the work item
	mc::parallel(1 + 10 + 100, [&](mc::u64 it) {
		if (it == 0) { // no token at all
			for (string s : {"", " ", "\n", " \n\t"}) for (int strict = 0; strict < 2; strict++) {
				mc::current("eof", mc::esc(s));
				ostringstream msg; OutputStream os(msg); istringstream in(s);
				InputStream is(in, strict, true, os, Verdicts::Verdict(43));
				string got = vh::outcome([&] { return to_string(is.integer()); });
				mc::step(); mc::trace();
				if (got != "verdict43") mc::violation("eof", "integer() on \"" + mc::esc(s) + "\": " + got);
			}
			if (isInteger("")) mc::violation("isInteger-empty", "isInteger(\"\") is true");
			return;
		}
		if (it <= 10) { for (int st = 0; st < 2; st++) if (st == 0 || A[it-1] != '\x80') one(string(1, A[it - 1]), st, 43); return; }
		it -= 11;
		string pre = {A[it / 10], A[it % 10]};
		for (int len = 0; len <= L - 2; len++) {
			mc::u64 n = mc::ipow(10, len);
			for (mc::u64 k = 0; k < n; k++) {
				auto d = mc::digits(k, 10, len);
				string t = pre; for (int x : d) t += A[x];
				one(t, k & 1, (k & 2) ? 43 : 1);
				if (k == 7777 % n && it % 17 == 0 && len == 4) mc::sample("token \"" + mc::esc(t) + "\"");
			}
		}
	});
	// windows around the 64-bit limits and around powers of ten, each with local mutations
	vector<string> near;
	for (UInteger c : {(UInteger)1 << 63, ~(UInteger)0, (UInteger)1 << 31, (UInteger)1 << 32, (UInteger)1000000000000000000ull, (UInteger)10000000000000000000ull, (UInteger)1 << 62})
		for (long long d = -40; d <= 40; d++) { UInteger x = c + d; if (x > 1000) near.push_back(to_string(x)); }
	mc::parallel(near.size(), [&](mc::u64 it) {
		const string& b = near[it];
		vector<string> m = {b, "0" + b, b + "0", b + "9", "1" + b, "+" + b, b + "-", b + ".", b + "e0", "0x" + b, b + "u", b + "LL"};
		for (size_t i = 0; i < b.size(); i++) for (char c : string("09-+. x")) { string t = b; t[i] = c; if (c != ' ') m.push_back(t); }
		for (size_t i = 0; i <= b.size(); i++) for (char c : string("059-+_'")) { string t = b; t.insert(t.begin() + i, c); m.push_back(t); }
		for (auto& t : m) for (string sgn : {"", "-"}) for (int st = 0; st < 2; st++) one(sgn + t, st, 43);
	});
	// bounds: all (value, lower, upper) on a grid
	vector<Integer> G; Integer MX = numeric_limits<Integer>::max(), MN = numeric_limits<Integer>::min();
	for (Integer d = 0; d < 3; d++) { G.push_back(MX - d); G.push_back(MN + d); }
	for (Integer d : {-1000000000, -3, -2, -1, 0, 1, 2, 3, 10, 1000000000}) G.push_back(d);
	for (Integer b : {(Integer)1 << 31, (Integer)1 << 32, (Integer)1 << 53}) for (Integer d = -1; d <= 1; d++) { G.push_back(b + d); G.push_back(-b + d); }
	mc::parallel(G.size(), [&](mc::u64 it) {
		Integer v = G[it];
		for (Integer l : G) for (Integer u : G) for (int mode = 0; mode < 2; mode++) {
			mc::current("bounds", to_string(v) + " in [" + to_string(l) + "," + to_string(u) + ")");
			bool ok = l <= v && v < u;
			string want = ok ? to_string(v) : "verdict43";
			ostringstream msg; OutputStream os(msg); istringstream in(to_string(v) + "\n");
			InputStream is(in, true, true, os, Verdicts::WA);
			Constraint c;
			string got = vh::outcome([&] { return to_string(mode ? is.integer(l, u, c) : is.integer(l, u)); });
			mc::step(); mc::trace(); mc::state(mc::comb(mc::comb(l, u), v) + mode);
			if (got != want) mc::violation("bounds", to_string(v) + " in [" + to_string(l) + "," + to_string(u) + ") mode " + to_string(mode) + ": got " + got + " expected " + want);
		}
	});
	// very long tokens: still a verdict (or the value), never a crash
	vector<size_t> LEN = {1000, 5000, 20000, 200000};
	mc::parallel(LEN.size(), [&](mc::u64 it) {
		mc::current(LEN[it] > 20000 ? "long-integer-token" : "medium-token", "token of " + to_string(LEN[it]) + " digits");
		ostringstream msg; OutputStream os(msg); istringstream in(string(LEN[it], '1')); InputStream is(in, true, true, os, Verdicts::WA);
		string got = vh::outcome([&] { return to_string(is.integer()); });
		mc::step(); mc::trace();
		if (got != "verdict43") mc::violation("long-token-outcome", "token of " + to_string(LEN[it]) + " digits: " + got);
	});
	return mc::finish();
}
