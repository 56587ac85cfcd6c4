// V07: process protocol of every validator role. One real process per case.
#include "proc.h"
#include "validate.h"
using std::string;
enum { INPUT, ANSWER, OUTPUT, INTERACT, GENERATE };
static const char* RN[] = {"InputValidator", "AnswerValidator", "OutputValidator", "Interactor", "Generator"};
static const std::vector<std::vector<const char*>> SN = {{"testIn"}, {"testIn", "ans"}, {"testIn", "juryAns", "teamAns"}, {"testIn", "fromTeam"}, {}};
static void initRole(int role, int argc, char** argv) {
	switch (role) { case INPUT: InputValidator::init(argc, argv); break; case ANSWER: AnswerValidator::init(argc, argv); break; case OUTPUT: OutputValidator::init(argc, argv); break; case INTERACT: Interactor::init(argc, argv); break; default: Generator::init(argc, argv); }
}
static InputStream& stream(int role, int s) {
	if (role == INPUT) return InputValidator::testIn;
	if (role == ANSWER) return s ? AnswerValidator::ans : AnswerValidator::testIn;
	if (role == OUTPUT) return s == 0 ? OutputValidator::testIn : s == 1 ? OutputValidator::juryAns : OutputValidator::teamAns;
	return s ? Interactor::fromTeam : Interactor::testIn;
}
struct Cfg { int role, flags, preset, order; };
enum { F_TOL = 1, F_ABS = 2, F_REL = 4, F_CASE = 8, F_SPACE = 16 };
enum { P_CASE = 1, P_SPACE = 2, P_ABS = 4, P_REL = 8 };
static bool effCase(const Cfg& c) { return c.role == INPUT || c.role == ANSWER || (c.flags & F_CASE) || (c.preset & P_CASE); }
static bool effSpace(const Cfg& c) { return c.role == INPUT || c.role == ANSWER || (c.flags & F_SPACE) || (c.preset & P_SPACE); }
// tolerance exponent: preset 1e-5, float_tolerance 1e-4, absolute 1e-3, relative 1e-2, default 1e-6
static int effAbs(const Cfg& c) { return c.flags & F_ABS ? 3 : c.flags & F_TOL ? 4 : c.preset & P_ABS ? 5 : 6; }
static int effRel(const Cfg& c) { return c.flags & F_REL ? 2 : c.flags & F_TOL ? 4 : c.preset & P_REL ? 5 : 6; }
static bool fromStdin(int role, int s) { return role == INPUT || (role != GENERATE && s == (int)SN[role].size() - 1); }
static bool strictSpace(const Cfg& c, int s) { return fromStdin(c.role, s) && effSpace(c); }
static int failCode(int role, int s) { return fromStdin(role, s) ? 43 : 1; }
struct Probe { const char* name; string text; std::function<void(InputStream&)> act; std::function<int(const Cfg&, int)> steps; int full; };
static void ok() { proc::board->progress++; }
static std::vector<Probe> probes() {
	std::vector<Probe> v;
	v.push_back({"expectString case", "YES\n", [](InputStream& s) { s.expectString("yes"); ok(); s.newline(); ok(); s.eof(); ok(); }, [](const Cfg& c, int) { return effCase(c) ? 0 : 3; }, 3});
	v.push_back({"string case", "YeS\n", [](InputStream& s) { proc::note(s.string()); ok(); s.newline(); s.eof(); ok(); }, [](const Cfg&, int) { return 2; }, 2});
	v.push_back({"double space", "a  b\n", [](InputStream& s) { s.string(); ok(); s.space(); ok(); s.string(); ok(); s.newline(); ok(); s.eof(); ok(); }, [](const Cfg& c, int s) { return strictSpace(c, s) ? 2 : 5; }, 5});
	v.push_back({"newline for space", "a\nb\n", [](InputStream& s) { s.string(); ok(); s.space(); ok(); s.string(); ok(); }, [](const Cfg& c, int s) { return strictSpace(c, s) ? 1 : 3; }, 3});
	v.push_back({"space for newline", "a b", [](InputStream& s) { s.string(); ok(); s.newline(); ok(); s.string(); ok(); s.eof(); ok(); }, [](const Cfg& c, int s) { return strictSpace(c, s) ? 1 : 4; }, 4});
	v.push_back({"trailing newline", "7\n\n", [](InputStream& s) { s.integer(); ok(); s.newline(); ok(); s.eof(); ok(); }, [](const Cfg& c, int s) { return strictSpace(c, s) ? 2 : 3; }, 3});
	v.push_back({"leading space", " 7\n", [](InputStream& s) { s.integer(); ok(); s.newline(); ok(); s.eof(); ok(); }, [](const Cfg& c, int s) { return strictSpace(c, s) ? 0 : 3; }, 3});
	v.push_back({"trailing data", "7\nx", [](InputStream& s) { s.integer(); ok(); s.newline(); ok(); s.eof(); ok(); }, [](const Cfg&, int) { return 2; }, 3});
	v.push_back({"not an integer", "1 +2\n", [](InputStream& s) { s.integer(); ok(); s.space(); ok(); s.integer(); ok(); }, [](const Cfg&, int) { return 2; }, 3});
	v.push_back({"out of range", "1 2\n", [](InputStream& s) { s.integer(1, 2); ok(); s.space(); s.integer(1, 2); ok(); }, [](const Cfg&, int) { return 1; }, 2});
	v.push_back({"empty", "", [](InputStream& s) { s.string(); ok(); }, [](const Cfg&, int) { return 0; }, 1});
	v.push_back({"wellformed", "x 12 -0.5\n3 4 5\n", [](InputStream& s) { s.string(); s.space(); s.integer(12, 13); s.space(); s.realStrict(-1, 1, 1, 2); s.newline(); ok(); s.integers(0, 10, 3); s.newline(); s.eof(); ok(); }, [](const Cfg&, int) { return 2; }, 2});
	auto absTok = [](int k) { return "0.0000005 0.000005 0.00005 0.0005 0.005 0.05"; };
	v.push_back({"absolute tolerance", absTok(0), [](InputStream& s) { for (int i = 0; i < 6; i++) { if (i) s.space(); s.expectReal(0); ok(); } }, [](const Cfg& c, int) { return 7 - effAbs(c); }, 6});
	v.push_back({"relative tolerance", "1000000.5 1000005 1000050 1000500 1005000 1050000", [](InputStream& s) { for (int i = 0; i < 6; i++) { if (i) s.space(); s.expectReal(1000000); ok(); } }, [](const Cfg& c, int) { return 7 - effRel(c); }, 6});
	v.push_back({"range absolute tolerance", "-0.0000005 -0.000005 -0.00005 -0.0005 -0.005 -0.05", [](InputStream& s) { for (int i = 0; i < 6; i++) { if (i) s.space(); s.real(0, 1); ok(); } }, [](const Cfg& c, int) { return 7 - effAbs(c); }, 6});
	v.push_back({"range relative tolerance", "1000000.5 1000005 1000050 1000500 1005000 1050000", [](InputStream& s) { for (int i = 0; i < 6; i++) { if (i) s.space(); s.real(0, 1000000); ok(); } }, [](const Cfg& c, int) { return 7 - effRel(c); }, 6});
	return v;
}
static std::vector<string> argvOf(const Cfg& c, int extra) {
	std::vector<string> a = {"prog"};
	if (c.role != INPUT && c.role != GENERATE) a.push_back(proc::dir + "/in");
	if (c.role == OUTPUT || c.role == INTERACT) { a.push_back(proc::dir + "/jury"); a.push_back(proc::dir + "/feedback"); }
	std::vector<std::vector<string>> f;
	if (c.flags & F_TOL) f.push_back({"float_tolerance", "1e-4"});
	if (c.flags & F_ABS) f.push_back({"float_absolute_tolerance", "1e-3"});
	if (c.flags & F_REL) f.push_back({"float_relative_tolerance", "0.01"});
	if (c.flags & F_CASE) f.push_back({"case_sensitive"});
	if (c.flags & F_SPACE) f.push_back({"space_change_sensitive"});
	if (c.order) std::reverse(f.begin(), f.end());
	if (extra == 2) for (int i = 0; i < 150; i++) { a.push_back("--filler" + std::to_string(i)); a.push_back(std::to_string(i)); } // flags far behind many other arguments
	for (auto& x : f) a.insert(a.end(), x.begin(), x.end());
	if (extra) { a.push_back("--own"); a.push_back("3"); }
	return a;
}
static void preset(const Cfg& c) {
	if (c.preset & P_CASE) ValidateBase::caseSensitive = true;
	if (c.preset & P_SPACE) ValidateBase::spaceSensitive = true;
	if (c.preset & P_ABS) ValidateBase::floatAbsTol = 1e-5_real;
	if (c.preset & P_REL) ValidateBase::floatRelTol = 1e-5_real;
}
static string desc(const Cfg& c) { string r = RN[c.role]; auto a = argvOf(c, false); for (size_t i = 1; i < a.size(); i++) if (a[i][0] != '/') r += " " + a[i]; r += " preset="; if (c.preset & P_CASE) r += "case,"; if (c.preset & P_SPACE) r += "space,"; if (c.preset & P_ABS) r += "absTol,"; if (c.preset & P_REL) r += "relTol,"; return r; }
static void clean() {
	mkdir((proc::dir + "/feedback").c_str(), 0755);
	unlink((proc::dir + "/feedback/judgemessage.txt").c_str()); unlink((proc::dir + "/feedback/teammessage.txt").c_str());
}
static string jury(int role) { return role == OUTPUT || role == INTERACT ? proc::get("feedback/judgemessage.txt") : role == GENERATE ? proc::get("stderr") : proc::get("stdout"); }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	auto P = probes();
	int presets = 16;
	mc::parallel(4 * 32 * presets, [&](u_int64_t item) {
		proc::setup(); clean();
		Cfg c{(int)(item % 4), (int)(item / 4 % 32), (int)(item / 128), 0};
		for (c.order = 0; c.order < (mc::thorough ? 2 : 1); c.order++) {
			if (!mc::thorough && (item / 4) % 2) c.order = 1;
			for (int s = 0; s < (int)SN[c.role].size(); s++) for (size_t pi = 0; pi < P.size(); pi++) {
				auto& p = P[pi];
				if (!mc::thorough && pi < 12 && (c.flags & 7) && (c.preset & 12)) continue; // tolerances do not matter to these
				proc::put("in", "i 1\n"); proc::put("jury", "j 2\n");
				string in = "t 3\n"; if (fromStdin(c.role, s)) in = p.text; else proc::put(s == 0 ? "in" : "jury", p.text);
				string w = desc(c) + ": " + SN[c.role][s] + " reading \"" + mc::esc(p.text) + "\" [" + p.name + "]";
				mc::current("role", w);
				proc::Args a(argvOf(c, pi % 3));
				int st = proc::run(in, [&] { preset(c); initRole(c.role, a.argc(), a.argv()); ValidateBase::juryOut << "JURYMSG"; if (c.role == OUTPUT) OutputValidator::teamOut << "TEAMMSG"; if (c.role == INTERACT) Interactor::teamOut << "TEAMMSG"; p.act(stream(c.role, s)); ValidateBase::juryOut << Verdicts::AC; });
				int want = p.steps(c, s); bool acc = want == p.full; int code = acc ? 42 : failCode(c.role, s);
				mc::step(p.full + 1); mc::trace(); mc::state(mc::hashStr(w)); if (!acc) mc::nontrivial();
				string key = string(RN[c.role]) + ":" + SN[c.role][s] + ":" + p.name;
				std::replace(key.begin(), key.end(), ' ', '-');
				if (proc::board->progress != want) mc::violation(key, w + ": " + std::to_string(proc::board->progress) + " of " + std::to_string(p.full) + " operations accepted, expected " + std::to_string(want));
				else if (st != code) mc::violation(key + ":status", w + ": exit status " + std::to_string(st) + ", expected " + std::to_string(code));
				string j = jury(c.role);
				if (j.substr(0, 7) != "JURYMSG" || (acc ? j != "JURYMSG\n" : j.size() <= 9)) mc::violation(key + ":judgemessage", w + ": judge message is \"" + mc::esc(j) + "\"");
				if ((c.role == OUTPUT || c.role == INTERACT) && proc::get("feedback/teammessage.txt") != "TEAMMSG") mc::violation(key + ":teammessage", w + ": team message is \"" + mc::esc(proc::get("feedback/teammessage.txt")) + "\"");
				if (pi == 1 && string(proc::board->note) != (effCase(c) ? "YeS" : "yes")) mc::violation(key + ":token", w + " delivered " + proc::board->note);
			}
			// the settings as the program sees them after init
			proc::put("in", "i 1\n"); proc::put("jury", "j 2\n"); proc::Args a(argvOf(c, 1 + (item / 4 + item / 128) % 2));
			proc::run("t", [&] { preset(c); initRole(c.role, a.argc(), a.argv()); using namespace ValidateBase; std::ostringstream o; o << bool(caseSensitive) << bool(spaceSensitive) << " " << std::setprecision(4) << Real(floatAbsTol) << " " << Real(floatRelTol) << " " << arguments["--own"].asInteger(); proc::note(o.str()); Verdicts::AC.exit(); });
			std::ostringstream e; e << effCase(c) << effSpace(c) << " " << std::setprecision(4) << powl(10, -effAbs(c)) << " " << powl(10, -effRel(c)) << " 3"; mc::step(); mc::trace();
			if (e.str() != proc::board->note) mc::violation(string(RN[c.role]) + ":settings", desc(c) + ": settings after init are " + proc::board->note + ", expected " + e.str());
			if (!mc::thorough) break;
		}
	});
	// endings: every verdict through every channel
	mc::parallel(5 * 4, [&](u_int64_t item) {
		proc::setup(); clean(); int role = item % 5, v = item / 5; Cfg c{role, 0, 0, 0};
		const Verdicts::Verdict vs[4] = {Verdicts::AC, Verdicts::WA, Verdicts::PE, Verdicts::FAIL}; const int code[4] = {42, 43, 43, 1};
		for (int ch = 0; ch < 6; ch++) for (int msg = 0; msg < 2; msg++) {
			proc::put("in", "i"); proc::put("jury", "j"); clean(); proc::Args a(argvOf(c, false));
			string w = string(RN[role]) + " ending with verdict " + std::to_string(code[v]) + " through channel " + std::to_string(ch); mc::current("verdict", w);
			int st = proc::run("t", [&] {
				initRole(role, a.argc(), a.argv()); using namespace ValidateBase;
				if (role == INTERACT) Interactor::toTeam << "PING" << std::endl;
				if (role == GENERATE) Generator::testOut << "DATA";
				OutputStream& team = role == OUTPUT ? OutputValidator::teamOut : role == INTERACT ? Interactor::teamOut : juryOut;
				if (msg) { juryOut << "M1"; if (&team != &juryOut) team << "M2"; }
				switch (ch) { case 0: juryOut << vs[v]; break; case 1: team << vs[v]; break; case 2: juryErr << vs[v]; break; case 3: vs[v].exit(); break; case 4: std::cerr << vs[v]; break; default: juryOut << 1.5 << " " << std::vector<int>{1, 2} << vs[v]; }
			});
			mc::step(); mc::trace(); mc::state(mc::hashStr(w + (msg ? "m" : ""))); mc::nontrivial();
			if (st != code[v]) mc::violation("verdict:status", w + ": exit status " + std::to_string(st));
			string j = jury(role), wantJ = string(msg ? "M1" : "") + (ch == 5 ? "1.500000 1 2" : "") + (ch == 0 || ch == 5 || (ch == 1 && role != OUTPUT && role != INTERACT) ? "\n" : "");
			if (role == GENERATE && (ch == 2 || ch == 4)) wantJ += "\n";
			if (j != wantJ) mc::violation("verdict:judgemessage", w + ": judge message \"" + mc::esc(j) + "\", expected \"" + mc::esc(wantJ) + "\"");
			if (role == OUTPUT || role == INTERACT) { string t = proc::get("feedback/teammessage.txt"), wt = string(msg ? "M2" : "") + (ch == 1 ? "\n" : ""); if (t != wt) mc::violation("verdict:teammessage", w + ": team message \"" + mc::esc(t) + "\""); }
			if (role == INTERACT && proc::get("stdout") != "PING\n") mc::violation("interactor:stdout", w + ": stdout is \"" + mc::esc(proc::get("stdout")) + "\"");
			if (role == OUTPUT && proc::get("stdout") != "") mc::violation("output:stdout", w + ": stdout is \"" + mc::esc(proc::get("stdout")) + "\"");
			if (role == GENERATE && proc::get("stdout") != "DATA") mc::violation("generator:stdout", w + ": stdout is \"" + mc::esc(proc::get("stdout")) + "\"");
		}
	});
	// every stream reads its own file, independently and in any order
	mc::parallel(3, [&](u_int64_t item) {
		proc::setup(); clean(); int role = 1 + item; Cfg c{role, 0, 0, 0}; int n = SN[role].size();
		std::vector<int> seq; for (u_int64_t code = 0; code < mc::ipow(n, 4); code++) {
			auto d = mc::digits(code, n, 4); proc::put("in", "i0 i1 i2 i3"); proc::put("jury", "j0 j1 j2 j3"); proc::Args a(argvOf(c, false)); string want; std::vector<int> cnt(n, 0);
			for (int s : d) want += string(s == n - 1 ? "t" : s == 0 ? "i" : "j") + std::to_string(cnt[s]++) + " ";
			string w = string(RN[role]) + " reads streams " + mc::show(d); mc::current("streams", w);
			int st = proc::run("t0 t1 t2 t3", [&] { initRole(role, a.argc(), a.argv()); std::vector<int> k(n, 0); for (int s : d) { if (k[s]++) stream(role, s).space(); proc::note(stream(role, s).string() + " "); } ValidateBase::juryOut << Verdicts::AC; });
			mc::step(4); mc::trace(); mc::state(w);
			if (st != 42 || want != proc::board->note) mc::violation("streams:" + string(RN[role]), w + ": status " + std::to_string(st) + ", tokens " + proc::board->note + ", expected " + want);
		}
	});
	mc::sample("OutputValidator float_tolerance 1e-4 preset=absTol: teamAns reading 0.0000005 .. 0.05, expectReal(0)");
	return mc::finish();
}
