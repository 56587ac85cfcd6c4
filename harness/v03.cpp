// V03: whitespace / end-of-input protocol: all inputs x all sequences of read operations
// The successful prefixes form a tree; every edge is executed on a fresh real stream by replaying the
// prefix, and compared with a reference automaton working on the raw bytes.
#include "vh.h"
using namespace std;
enum Op { STR, INT, SPC, NL, EOFOP, NOTEOF, REAL, NOPS };
static const char* NAME[] = {"string", "integer", "space", "newline", "eof", "noteof", "real"};
static bool ws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static bool graph(char c) { return c > 32 && c < 127; }
static const string FAILED = "verdict43";
struct Ref {
	const string& s; bool strict, cs; size_t p = 0;
	void skip() { while (p < s.size() && ws(s[p])) p++; }
	string token(bool& ok) {
		if (!strict) skip();
		if (p == s.size() || (strict && !graph(s[p]))) { ok = false; return ""; }
		string t;
		while (p < s.size() && !ws(s[p])) { char c = s[p++]; t += (!cs && c >= 'A' && c <= 'Z') ? char(c + 32) : c; }
		ok = true; return t;
	}
	string op(int o) {
		bool ok; string t;
		switch (o) {
		case STR: t = token(ok); return ok ? t : FAILED;
		case INT: t = token(ok); if (!ok) return FAILED;
			if (t.size() && (t == "0" || (t[0] == '1' && t.find_first_not_of("01") == string::npos && t.size() < 18))) return t;
			return FAILED;
		case REAL: t = token(ok); if (!ok) return FAILED;
			if (t.size() && t.find_first_not_of("01") == string::npos && t.size() < 15) return to_string(stoll(t));
			return FAILED;
		case SPC: if (!strict) return "."; if (p < s.size() && s[p] == ' ') { p++; return "."; } return FAILED;
		case NL: if (!strict) return "."; if (p < s.size() && s[p] == '\n') { p++; return "."; } return FAILED;
		case EOFOP: if (!strict) skip(); return p == s.size() ? "." : FAILED;
		case NOTEOF: if (!strict) skip(); return p < s.size() ? "." : FAILED;
		}
		return "?";
	}
};
static string real(InputStream& is, int o) {
	return vh::outcome([&]() -> string {
		switch (o) {
		case STR: return is.string();
		case INT: return to_string(is.integer());
		case REAL: { Real r = is.real(); return to_string((long long)r); }
		case SPC: is.space(); return ".";
		case NL: is.newline(); return ".";
		case EOFOP: is.eof(); return ".";
		case NOTEOF: is.noteof(); return ".";
		}
		return "?";
	});
}
static int DEPTH;
static void dfs(const string& s, bool strict, bool cs, vector<int>& ops) {
	for (int o = 0; o < NOPS; o++) {
		if (o == REAL && s.size() > 4) continue;
		if ((o == REAL || o == INT) && s.find_first_of("23456789-+.eE") != string::npos) continue; // other numbers: V01, V02
		// reference
		Ref r{s, strict, cs}; string want;
		for (int q : ops) r.op(q);
		want = r.op(o);
		// implementation, replayed from scratch
		ostringstream msg; OutputStream os(msg);
		istringstream in(s); InputStream is(in, strict, cs, os, Verdicts::WA);
		bool ok = true; string got;
		for (int q : ops) { real(is, q); mc::step(); }
		got = real(is, o); mc::step(); mc::trace();
		mc::state(mc::comb(mc::comb(mc::hashStr(s), r.p), strict * 2 + cs) * 16 + o);
		if (got != want) {
			string t; for (int q : ops) t += string(NAME[q]) + " ";
			mc::violation(string("op-") + NAME[o] + (strict ? "-strict" : "-lenient"), "input \"" + mc::esc(s) + "\" ops [" + t + NAME[o] + "] strict=" + to_string(strict) + " caseSensitive=" + to_string(cs) + ": got \"" + mc::esc(got) + "\" expected \"" + mc::esc(want) + "\"");
		}
		if (want != FAILED) {
			if (o != EOFOP && o != NOTEOF && (int)ops.size() + 1 < DEPTH && (strict || o < SPC || ops.empty() || ops.back() < SPC)) { ops.push_back(o); dfs(s, strict, cs, ops); ops.pop_back(); }
		} else mc::nontrivial();
	}
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	DEPTH = 5;
	const string A("aB1 \n\t\r\x01\x80", 9);
	int L = mc::thorough ? 6 : 5;
	mc::parallel(82, [&](mc::u64 it) {
		auto go = [&](const string& s) {
			for (int m = 0; m < 4; m++) {
				mc::current("protocol", "input \"" + mc::esc(s) + "\" mode " + to_string(m));
				if ((m & 2) && s.find('B') == string::npos && s.size() > 3) continue; // case matters only with letters
				vector<int> ops; dfs(s, m & 1, !(m & 2), ops);
			}
		};
		if (it == 81) { go(""); for (char c : A) go(string(1, c)); go(string("a\0b", 3)); go(string("\0", 1)); go(string("1\v1\f1")); return; }
		string pre = {A[it / 9], A[it % 9]};
		for (int len = 0; len <= L - 2; len++) {
			mc::u64 n = mc::ipow(9, len);
			for (mc::u64 k = 0; k < n; k++) {
				auto d = mc::digits(k, 9, len);
				string t = pre; for (int x : d) t += A[x];
				go(t);
				if (it % 8 == 1 && k == 100) mc::sample("input \"" + mc::esc(t) + "\" with every operation sequence up to depth 5, 4 sensitivity modes");
			}
		}
	});
	// longer inputs over the essential alphabet {1, space, newline}
	int L2 = mc::thorough ? 11 : 9;
	mc::parallel(mc::ipow(3, 4), [&](mc::u64 it) {
		DEPTH = L2 + 1;
		auto pd = mc::digits(it, 3, 4); string pre; for (int x : pd) pre += "1 \n"[x];
		for (int len = 2; len <= L2 - 4; len++) for (mc::u64 k = 0; k < mc::ipow(3, len); k++) {
			string t = pre; for (int x : mc::digits(k, 3, len)) t += "1 \n"[x];
			mc::current("protocol", "input \"" + mc::esc(t) + "\"");
			vector<int> ops; dfs(t, true, true, ops);
		}
	});
	// every byte and every pair of bytes, alone and next to ordinary tokens
	mc::parallel(256, [&](mc::u64 it) {
		char c = char(it); string C(1, c);
		auto go = [&](const string& s, int depth) { mc::current("bytes", "input \"" + mc::esc(s) + "\""); DEPTH = depth; for (int m = 0; m < 3; m++) { vector<int> ops; dfs(s, m & 1, !(m & 2), ops); } };
		for (string s : {C, "a" + C, C + "a", "a" + C + "b", "a " + C, "a\n" + C, C + "\n", C + " 1", "1" + C + "1", "a" + C + C + "b", "A" + C + "\n", "1\n" + C + "\n"}) go(s, 4);
		for (int d = 0; d < 256; d++) { go(C + char(d), 3); if (mc::thorough || (it + d) % 5 == 0) go("a" + C + char(d) + "1", 4); }
	});
	return mc::finish();
}
