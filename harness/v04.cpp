// V04: the failure report names the true line and column and marks exactly the offending text
#include "vh.h"
using namespace std;
static const string ELL = "[...]";
static bool wsp(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
// text: the whole input; [b,e): the offending text. Returns "" or what is wrong.
static string judge(const string& text, size_t b, size_t e, const string& msg) {
	size_t ls = b; while (ls > 0 && text[ls - 1] != '\n') ls--;
	size_t le = b; while (le < text.size() && text[le] != '\n') le++;
	long line = 1 + count(text.begin(), text.begin() + b, '\n');
	size_t col = b - ls;
	string X = text.substr(ls, le - ls), T = text.substr(b, e - b);
	if (T == "\n") { X += ' '; T = " "; }
	size_t p = msg.rfind(" Line: ");
	if (p == string::npos) return "no location in report \"" + mc::esc(msg) + "\"";
	long gl = -1, gc = -1; int used = 0;
	if (sscanf(msg.c_str() + p, " Line: %ld, Char: %ld%n", &gl, &gc, &used) < 2) return "malformed location";
	if (gl != line || gc != (long)col) return "location line " + to_string(gl) + " char " + to_string(gc) + ", true line " + to_string(line) + " char " + to_string(col);
	size_t q = p + used; if (q >= msg.size() || msg[q] != '\n') return "no excerpt";
	q++; size_t q2 = msg.find('\n', q); if (q2 == string::npos) return "no marker line";
	string E = msg.substr(q, q2 - q), M = msg.substr(q2 + 1);
	while (!M.empty() && M.back() == '\n') M.pop_back();
	size_t l = 0; while (l < M.size() && M[l] == ' ') l++;
	size_t k = M.size() - l;
	if (k == 0 || M[l] != '^' || M.substr(l + 1) != string(k - 1, '~')) return "malformed marker \"" + mc::esc(M) + "\"";
	if (E.size() > 80) return "excerpt has " + to_string(E.size()) + " characters";
	if (l + k > E.size()) return "marker [" + to_string(l) + "," + to_string(l + k) + ") beyond excerpt of length " + to_string(E.size());
	if (l > col) return "marker right of the column";
	size_t off = col - l;
	size_t from = 0, to = E.size();
	if (off > 0) { if (E.substr(0, 5) != ELL) return "shifted excerpt without ellipsis"; from = 5; }
	bool cut = off + E.size() < X.size() || (E.size() >= 5 && E.substr(E.size() - 5) == ELL && off + E.size() <= X.size() + 5 && X.substr(min(X.size(), off + E.size() - 5), 5) != ELL);
	if (cut) { if (E.size() < 5 || E.substr(E.size() - 5) != ELL) return "cut excerpt without ellipsis"; to -= 5; }
	for (size_t i = from; i < to; i++) if (off + i >= X.size() || E[i] != X[off + i]) return "excerpt \"" + mc::esc(E) + "\" is not the line's text at " + to_string(i);
	if (l < from || l >= to) return "start of the offending text is not visible";
	// trailing data may be marked by its first character or as the whole token it starts
	size_t full = T.size(); if (!wsp(T[0])) { size_t x = e; while (x < text.size() && !wsp(text[x])) x++; full = x - b; }
	if (k == full) return "";
	if (k != T.size() && !(cut && k < full && l + k == E.size())) return "marker has length " + to_string(k) + ", offending text has " + to_string(T.size());
	return "";
}
struct Step { int op; }; // 0 string 1 space 2 newline
static void run(const string& text, bool strict, const vector<int>& pre, int kind, size_t b, size_t e, const string& cls) {
	ostringstream m; OutputStream os(m); istringstream in(text); InputStream is(in, strict, true, os, Verdicts::WA);
	mc::current("report", "text \"" + mc::esc(text, 400) + "\" kind " + to_string(kind));
	string r = vh::outcome([&]() -> string {
		for (int o : pre) { if (o == 0) is.string(); else if (o == 1) is.space(); else is.newline(); mc::step(); }
		mc::step();
		switch (kind) {
		case 0: is.integer(); break;
		case 1: is.string(0, 0); break;
		case 2: is.expectString("!"); break;
		case 3: is.eof(); break;
		case 4: is.space(); break;
		case 5: is.newline(); break;
		case 6: is.string(); break;
		case 7: is.real(); break;
		case 8: is.string(std::regex("!+")); break;
		case 9: is.expectInt(-7); break;
		}
		return "ok";
	});
	mc::trace(); mc::state(mc::comb(mc::hashStr(text), mc::comb(b, kind * 2 + strict)));
	if (r != "verdict43") { mc::violation("verdict:" + cls, "text \"" + mc::esc(text) + "\": outcome " + r); return; }
	string w = judge(text, b, e, m.str());
	if (!w.empty()) mc::violation("report:" + cls + ":" + w.substr(0, w.find_first_of("0123456789\"")), w + "; kind " + to_string(kind) + " strict " + to_string(strict) + " offending text [" + to_string(b) + "," + to_string(e) + ") of input \"" + mc::esc(text, 500) + "\"");
}
static string body(size_t n, int salt) { string s; for (size_t i = 0; i < n; i++) s += char('a' + (i * 7 + salt + i / 26) % 26); return s; }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	// (1) layout grid: column c, token length t, rest of the line m, preceding lines
	vector<int> C, T, M;
	for (int i = 0; i <= 130; i++) if (mc::thorough || i < 30 || (i > 50 && i < 90) || i % 7 == 0) C.push_back(i);
	for (int i = 1; i <= 130; i++) if (mc::thorough || i < 8 || (i > 35 && i < 90) || i % 9 == 0) T.push_back(i);
	for (int i = 0; i <= 100; i++) if (i < 8 || (i > 70 && i < 86) || i % (mc::thorough ? 3 : 11) == 0) M.push_back(i);
	mc::parallel(C.size(), [&](mc::u64 it) {
		int c = C[it];
		for (int t : T) for (int m : M) for (int lines = 0; lines < 3; lines++) {
			if (lines && (t + m + c) % 3) continue;
			string text; vector<int> pre;
			for (int i = 0; i < lines; i++) { text += body(i * 40 + 1, i) + "\n"; pre.push_back(0); pre.push_back(2); }
			if (c == 1) { text += " "; pre.push_back(1); }
			else if (c > 1) { text += body(c - 1, 3) + " "; pre.push_back(0); pre.push_back(1); }
			size_t b = text.size(); text += body(t, 11); size_t e = text.size();
			if (m > 0) text += " " + body(m - 1, 5);
			text += "\n";
			int k = (t + m) % 3;
			run(text, true, pre, k, b, e, "token");
			run(text, false, pre, k, b, e, "token");
		}
		if (it == 20) mc::sample("tokens of every length in the grid at column " + to_string(c));
	});
	// (2) every short text over {x, 1, space, newline, tab}: fail at every possible operation
	const string A("x1 \n\t", 5);
	int L = mc::thorough ? 8 : 7;
	mc::parallel(25, [&](mc::u64 it) {
		for (int len = 0; len <= L - 2; len++) for (mc::u64 k = 0; k < mc::ipow(5, len); k++) {
			string s = {A[it / 5], A[it % 5]}; for (int x : mc::digits(k, 5, len)) s += A[x];
			// strict: walk through the text with operations that succeed; at each position try all failing ones
			vector<int> pre; size_t p = 0;
			for (;;) {
				if (p == s.size()) break;
				char c = s[p];
				bool g = !wsp(c);
				size_t e = p + 1; if (g) while (e < s.size() && !wsp(s[e])) e++;
				if (p > 0 || len > 2) {
					string cls = c == '\n' ? "newline-char" : e == s.size() ? "at-end" : "token";
					string ccls = c == '\n' ? "newline-char" : p + 1 == s.size() ? "char-at-end" : "char";
					run(s, true, pre, 3, p, p + 1, ccls);
					if (c != ' ') run(s, true, pre, 4, p, p + 1, ccls);
					if (c != '\n') run(s, true, pre, 5, p, p + 1, ccls);
					if (!g) run(s, true, pre, 6, p, p + 1, ccls);
					else { string t = s.substr(p, e - p); run(s, true, pre, 1, p, e, cls); if (t.find('x') != string::npos) { run(s, true, pre, 0, p, e, cls); run(s, true, pre, 7, p, e, cls); } else run(s, true, pre, 9, p, e, cls); run(s, true, pre, 8, p, e, cls); }
				}
				if (g) { pre.push_back(0); p = e; } else if (c == ' ') { pre.push_back(1); p++; } else if (c == '\n') { pre.push_back(2); p++; } else break;
			}
			// lenient
			pre.clear(); p = 0;
			for (;;) {
				while (p < s.size() && wsp(s[p])) p++;
				if (p == s.size()) break;
				size_t e = p; while (e < s.size() && !wsp(s[e])) e++;
				string cls = e == s.size() ? "at-end" : "token";
				run(s, false, pre, 1, p, e, cls); run(s, false, pre, 2, p, e, cls);
				run(s, false, pre, 3, p, p + 1, p + 1 == s.size() ? "char-at-end" : "char");
				pre.push_back(0); p = e;
			}
		}
	});
	// (3) very many lines, very long lines
	vector<pair<int, int>> big; for (int n : {255, 300, 32766, 32767, 32768, 65535, 65536, 70000}) for (int k = 0; k < 10; k++) big.push_back({n, k});
	mc::parallel(big.size(), [&](mc::u64 it) {
		auto [n, k] = big[it];
		for (int strict = 0; strict < 2; strict++) for (int shape = 0; shape < 2; shape++) {
			string text; vector<int> pre;
			if (shape == 0) for (int i = 0; i < n; i++) { text += i % 2 ? "a\n" : "b7c\n"; pre.push_back(0); pre.push_back(2); }
			else { text = "q\n" + body(n - 1, 3) + " "; pre = {0, 2, 0, 1}; }
			size_t b = text.size(); text += "xyz rest\n";
			if (!strict && (k == 4 || k == 5 || k == 6)) continue;
			if (k == 6) continue;
			run(text, strict, pre, k, b, (k == 3 || k == 4 || k == 5) ? b + 1 : b + 3, "big");
		}
	});
	return mc::finish();
}
