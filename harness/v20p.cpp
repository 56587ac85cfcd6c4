// V20 (2): the whole chain of real processes - generator, input validator, answer validator, output validator -
// on every seed; then every single-character change of every file, judged by hand-written acceptors
#include "proc.h"
#include "validate.h"
using std::string; using std::vector;
// the problem. input: "n mode\n", a permutation of 1..n, a real in [0,1) with 6 decimals. answer/output: yes or no, then
// a rearrangement of the permutation different from it, and twice the real.
static void generator(int argc, char** argv) { using namespace Generator; init(argc, argv); Integer n = arguments["--n"].asInteger(); string mode = arguments["--mode"].asString("asc"); testOut << n << ' ' << mode << '\n' << Random::perm(n, 1) << '\n' << Random::real(0, 1) << '\n'; }
static void inputValidator(int argc, char** argv) { using namespace InputValidator; init(argc, argv); Integer n = testIn.integer(1, 5, constraint["n"]); testIn.space(); string m = testIn.string(std::regex("asc|desc")); testIn.newline(); auto p = testIn.integers(1, n + 1, constraint["p"], n, SPACE); testIn.newline(); if (!isPerm(p, 1)) juryOut << "not a permutation" << WA; testIn.realStrict(0, 1.0000001L, 6, 7); testIn.newline(); testIn.eof(); juryOut << "fine" << AC; }
static void answer(InputStream& in, const vector<Integer>& p, Real r, OutputStream& out, Verdicts::Verdict bad) {
	bool any = p.size() > 1; in.expectString(any ? "yes" : "no"); in.newline(); if (any) { auto q = in.integers(1, (Integer)p.size() + 1, (Integer)p.size(), SPACE); in.newline(); if (!isPerm(q, 1)) out << "not a permutation" << bad; if (q == p) out << "not changed" << bad; }
	in.expectReal(2 * r); in.newline(); in.eof();
}
static Real testcase(InputStream& t, vector<Integer>& p) { Integer n = t.integer(); t.space(); t.string(); t.newline(); p = t.integers(n, SPACE); t.newline(); Real r = t.real(); t.newline(); t.eof(); return r; }
static void answerValidator(int argc, char** argv) { using namespace AnswerValidator; init(argc, argv); vector<Integer> p; Real r = testcase(testIn, p); answer(ans, p, r, juryOut, WA); juryOut << AC; }
static void outputValidator(int argc, char** argv) { using namespace OutputValidator; init(argc, argv); vector<Integer> p, q; Real r = testcase(testIn, p); answer(juryAns, p, r, juryOut, FAIL); answer(teamAns, p, r, juryOut, WA); juryOut << "accepted" << AC; }
static int run(const string& in, void (*f)(int, char**), vector<string> a) { a.insert(a.begin(), "prog"); mc::step(); return proc::run(in, [&] { proc::Args args(a); f(args.argc(), args.argv()); }); }
// acceptors, written from the format alone
static bool strictInt(const string& s, long lo, long hi, long* out = nullptr) { size_t i = s[0] == '-'; if (s.size() <= i || s.size() > i + 9) return false; for (size_t k = i; k < s.size(); k++) if (s[k] < '0' || s[k] > '9') return false; if (s[i] == '0' && (s.size() > i + 1 || i)) return false; long v = atol(s.c_str()); if (out) *out = v; return v >= lo && v < hi; }
static bool inputOk(const string& t) {
	vector<string> l; size_t a = 0; for (size_t b; (b = t.find('\n', a)) != string::npos; a = b + 1) l.push_back(t.substr(a, b - a)); if (a != t.size() || l.size() != 3) return false;
	size_t s = l[0].find(' '); if (s == string::npos) return false; long n; if (!strictInt(l[0].substr(0, s), 1, 5, &n)) return false; string m = l[0].substr(s + 1); if (m != "asc" && m != "desc") return false;
	std::set<long> seen; string r = l[1] + " "; long c = 0; while (!r.empty()) { size_t k = r.find(' '); long v; if (!strictInt(r.substr(0, k), 1, n + 1, &v)) return false; seen.insert(v); c++; r = r.substr(k + 1); } if (c != n || (long)seen.size() != n) return false;
	const string& x = l[2]; if (x.size() != 8 || x[1] != '.') return false; for (size_t k = 0; k < 8; k++) if (k != 1 && !isdigit((unsigned char)x[k])) return false; return atof(x.c_str()) <= 1.0000001 && (x[0] == '0' || x == "1.000000");
}
static vector<string> toks(const string& s) { vector<string> r; string w; for (char c : s + " ") { if (c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f') { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; } return r; }
static bool realTok(const string& s, Real& v) { size_t p = 0, a = 0; if (s[0] == '-' || s[0] == '+') p++; size_t q = p; while (p < s.size() && isdigit((unsigned char)s[p])) p++, a++; if (p < s.size() && s[p] == '.') { p++; while (p < s.size() && isdigit((unsigned char)s[p])) p++, a++; } if (!a || p != s.size()) return false; (void)q; v = strtold(s.c_str(), nullptr); return true; }
static int outputOk(const string& in, const string& out) { // 1 yes, 0 no, -1 too close to call
	auto t = toks(in), o = toks(out); long n = atol(t[0].c_str()); size_t need = n > 1 ? n + 2 : 2; if (o.size() != need) return 0; string y = o[0]; for (char& c : y) c = tolower(c); if (y != (n > 1 ? "yes" : "no")) return 0;
	if (n > 1) { std::set<long> s; bool diff = false; for (long i = 0; i < n; i++) { long v; if (!strictInt(o[1 + i], 1, n + 1, &v)) return 0; s.insert(v); diff |= v != atol(t[2 + i].c_str()); } if ((long)s.size() != n || !diff) return 0; }
	Real v, e = 2 * strtold(t[2 + n].c_str(), nullptr); if (!realTok(o.back(), v)) return 0; Real d = fabsl(v - e), lim = 1e-6L * std::max<Real>(1, fabsl(e)); if (fabsl(d - lim) < 1e-12L) return -1; return d < lim;
}
static int answerOk(const string& in, const string& t) { // the same, but white space and letter case matter
	auto o = toks(t); long n = atol(in.c_str()); if (o.size() != size_t(n > 1 ? n + 2 : 2)) return 0; string w = o[0] + "\n"; for (long i = 0; n > 1 && i < n; i++) w += o[1 + i] + (i + 1 < n ? " " : "\n"); w += o.back() + "\n"; if (w != t || o[0] != (n > 1 ? "yes" : "no")) return 0; return outputOk(in, t);
}
static void check(const string& key, const string& what, int got, int want) { if (got != want) mc::violation("chain:" + key, what + ": the process ends with " + (got >= 1000 ? "signal " + mc::str(got - 1000) : "status " + mc::str(got)) + " instead of " + mc::str(want) + " (stdout \"" + mc::esc(proc::get("stdout").substr(0, 200)) + "\", stderr \"" + mc::esc(proc::get("stderr").substr(0, 200)) + "\")"); }
static const string SUB = "0179 \n\t-+.ayZ", INS = "0 \n.";
template<class F> static void mutants(const string& t, F f) { for (size_t i = 0; i <= t.size(); i++) { if (i < t.size()) { f(t.substr(0, i) + t.substr(i + 1)); for (char c : SUB) if (c != t[i]) f(t.substr(0, i) + c + t.substr(i + 1)); } for (char c : INS) f(t.substr(0, i) + c + t.substr(i)); if (i + 1 < t.size() && t[i] != t[i + 1]) { string u = t; std::swap(u[i], u[i + 1]); f(u); } } }
static void chain(int n, int seed, const string& mode, bool mutate) {
	proc::setup(); string nm = "n=" + mc::str(n) + " seed " + mc::str(seed) + " " + mode; mc::current("chain", nm); mc::trace(); mc::nontrivial();
	vector<string> ga = {"--n", mc::str(n), "--seed", mc::str(seed)}; if (mode != "asc") { ga.push_back("--mode"); ga.push_back(mode); }
	check("generator", "generator " + nm, run("", generator, ga), 0); string in = proc::get("stdout"); check("again", "second run of generator " + nm, run("", generator, ga), 0); if (proc::get("stdout") != in) mc::violation("chain:deterministic", "the generator gives \"" + mc::esc(in) + "\" and then \"" + mc::esc(proc::get("stdout")) + "\" for " + nm);
	mc::state(mc::hashStr(in)); if (!inputOk(in)) { mc::violation("chain:generated", "the generator printed \"" + mc::esc(in) + "\" for " + nm); return; }
	auto cf = [&] { unlink((proc::dir + "/c").c_str()); return vector<string>{"--constraints_file", proc::dir + "/c"}; }; check("input", "input validator on \"" + mc::esc(in) + "\"", run(in, inputValidator, cf()), 42);
	auto t = toks(in); vector<long> p; for (int i = 0; i < n; i++) p.push_back(atol(t[2 + i].c_str())); string cs = proc::get("c"), cw; { char b[200]; long mn = 1, mx = n; snprintf(b, sizeof b, "n n %d %d %d %d 1 4\n", n == 1, n == 4, n, n); cw = b; snprintf(b, sizeof b, "p p 1 1 %ld %ld 1 %d\n", mn, mx, n); cw += b; }
	string cg; for (string w; std::istringstream s{cs};) { string l; while (std::getline(s, l)) { size_t k = l.find(':'); cg += (k == string::npos ? l : l.substr(k + 1)) + "\n"; } break; }
	if (cg != cw) mc::violation("chain:constraints", "input \"" + mc::esc(in) + "\" is logged as \"" + mc::esc(cs) + "\", expected values \"" + mc::esc(cw) + "\"");
	proc::put("in", in); string ans = n > 1 ? "yes\n" : "no\n"; if (n > 1) { for (int i = 0; i < n; i++) ans += (i ? " " : "") + mc::str(p[(i + 1) % n]); ans += "\n"; } { char b[50]; snprintf(b, sizeof b, "%.6Lf\n", 2 * strtold(t.back().c_str(), nullptr)); ans += b; }
	string D = proc::dir; check("answer", "answer validator on \"" + mc::esc(ans) + "\"", run(ans, answerValidator, {D + "/in"}), 42); proc::put("ans", ans);
	auto output = [&](const string& o, vector<string> flags) { proc::put("fb/judgemessage.txt", ""); proc::put("fb/teammessage.txt", ""); flags.insert(flags.begin(), {D + "/in", D + "/ans", D + "/fb"}); return run(o, outputValidator, flags); };
	mkdir((D + "/fb").c_str(), 0755); check("output", "output validator on \"" + mc::esc(ans) + "\"", output(ans, {}), 42); if (proc::get("fb/judgemessage.txt").substr(0, 8) != "accepted") mc::violation("chain:message", "judge message is \"" + mc::esc(proc::get("fb/judgemessage.txt")) + "\""); check("strict", "output validator (sensitive) on \"" + mc::esc(ans) + "\"", output(ans, {"space_change_sensitive", "case_sensitive"}), 42);
	if (!mutate) return;
	mutants(in, [&](const string& m) { mc::trace(); mc::state(mc::hashStr(m)); check("input mutant", "input validator on \"" + mc::esc(m) + "\"", run(m, inputValidator, cf()), inputOk(m) ? 42 : 43); });
	mutants(ans, [&](const string& m) { int w = answerOk(in, m); if (w < 0) return; mc::trace(); check("answer mutant", "answer validator on \"" + mc::esc(m) + "\" for input \"" + mc::esc(in) + "\"", run(m, answerValidator, {D + "/in"}), w ? 42 : 43); w = answerOk(in, m); check("sensitive mutant", "output validator (sensitive) on \"" + mc::esc(m) + "\" for input \"" + mc::esc(in) + "\"", output(m, {"space_change_sensitive", "case_sensitive"}), w ? 42 : 43); });
	mutants(ans, [&](const string& m) { int w = outputOk(in, m); if (w < 0) return; mc::trace(); mc::state(mc::hashStr(m) + 1); check("output mutant", "output validator on \"" + mc::esc(m) + "\" for input \"" + mc::esc(in) + "\"", output(m, {}), w ? 42 : 43); });
	// broken jury files are never blamed on the team
	for (size_t i = 0; i + 1 < ans.size(); i++) { string m = ans.substr(0, i); int w = outputOk(in, m); if (w != 0) continue; proc::put("ans", m); check("broken answer", "output validator with the jury answer \"" + mc::esc(m) + "\"", output(ans, {}), 1); } proc::put("ans", ans);
}
int main(int argc, char** argv) {
	mc::init(argc, argv); struct J { int n, seed; string mode; bool mut; }; vector<J> js; for (int n = 1; n <= 4; n++) for (int s = 0; s < (mc::thorough ? 300 : 60); s++) js.push_back({n, s, s % 2 ? "desc" : "asc", s < (mc::thorough ? 40 : 6)}); std::stable_sort(js.begin(), js.end(), [](auto& a, auto& b) { return a.mut > b.mut; });
	mc::parallel(js.size(), [&](mc::u64 i) { chain(js[i].n, js[i].seed, js[i].mode, js[i].mut); if (i == 0) mc::sample("generator, input, answer and output validator as processes; every one-character change of input and output"); });
	return mc::finish();
}
