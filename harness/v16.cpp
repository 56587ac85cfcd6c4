// V16: initialisation exactly once; settings frozen afterwards; uninitialised use refused. One process per history.
#include "proc.h"
#include "validate.h"
using std::string;
// actions; every one is caught separately so that a history goes on after a refusal
enum { SET_ABS, SET_REL, SET_SPACE, SET_CASE, INIT_IN, INIT_ANS, INIT_OUT, INIT_INT, INIT_GEN, USE_TESTIN, USE_LAST, MP_INIT, MP_USE, READ_SET, NACT };
static const char* AN[] = {"floatAbsTol=", "floatRelTol=", "spaceSensitive=", "caseSensitive=", "InputValidator::init", "AnswerValidator::init", "OutputValidator::init", "Interactor::init", "Generator::init", "read testIn", "read team/ans", "Multipass::init", "Multipass::prevstate", "read settings"};
static string show(const std::vector<int>& h) { string r; for (int x : h) r += string(r.empty() ? "" : "; ") + AN[x]; return r; }
struct M { int role = -1; bool mp = false; Real at = 1e-6L, rt = 1e-6L; bool sp = false, cs = false; };
static string RD(Real a, Real b, bool c, bool d) { std::ostringstream o; o << std::setprecision(5) << a << "," << b << "," << c << d; return o.str(); }
int main(int argc, char** argv) {
	mc::init(argc, argv);
	int D = mc::thorough ? 5 : 4;
	std::vector<std::vector<int>> hs; // all sequences up to depth D; at depth D only those with at most 2 setting actions (thorough: all)
	for (int l = 0; l <= D; l++) for (u_int64_t i = 0; i < mc::ipow(NACT, l); i++) { auto d = mc::digits(i, NACT, l); int inits = 0, sets = 0; for (int x : d) inits += x >= INIT_IN && x <= INIT_GEN, sets += x <= SET_CASE; if (l == D && (sets > 2 || inits == 0 || inits > 2)) continue; if (l == D && mc::thorough && sets > 1) continue; hs.push_back(d); }
	mc::parallel((hs.size() + 63) / 64, [&](u_int64_t b) {
		proc::setup(); proc::put("in", "i1 i2 i3 i4 i5"); proc::put("jury", "j1 j2 j3 j4 j5"); mkdir((proc::dir + "/fb").c_str(), 0755);
		for (size_t hi = b * 64; hi < std::min<size_t>(hs.size(), b * 64 + 64); hi++) {
			auto& h = hs[hi]; string w = "history: " + show(h); mc::current("init", w);
			for (const char* f : {".pass", ".state0", ".state1"}) unlink((proc::dir + "/fb/" + f).c_str());
			proc::Args a({"prog", proc::dir + "/in", proc::dir + "/jury", proc::dir + "/fb"});
			int st = proc::run("t1 t2 t3 t4 t5", [&] {
				using namespace ValidateBase; int n = 0;
				for (int x : h) {
					n++;
					try {
						string r = "ok";
						switch (x) {
							case SET_ABS: floatAbsTol = n * 0.125L; break; case SET_REL: floatRelTol = n * 0.25L; break; case SET_SPACE: spaceSensitive = !spaceSensitive; break; case SET_CASE: caseSensitive = !caseSensitive; break;
							case INIT_IN: InputValidator::init(1, a.argv()); break; case INIT_ANS: AnswerValidator::init(2, a.argv()); break; case INIT_OUT: OutputValidator::init(4, a.argv()); break; case INIT_INT: Interactor::init(4, a.argv()); break; case INIT_GEN: Generator::init(1, a.argv()); break;
							case USE_TESTIN: { bool any = false; string t; for (InputStream* s : {&InputValidator::testIn, &AnswerValidator::testIn, &OutputValidator::testIn, &Interactor::testIn}) try { s->noteof(); any = true; t += "r"; } catch (std::exception&) { t += "-"; } r = t; (void)any; break; }
							case USE_LAST: { string t; for (InputStream* s : {&AnswerValidator::ans, &OutputValidator::juryAns, &OutputValidator::teamAns, &Interactor::fromTeam}) try { s->noteof(); t += "r"; } catch (std::exception&) { t += "-"; } r = t; break; }
							case MP_INIT: Multipass::init(); break; case MP_USE: Multipass::prevstate.noteof(); break;
							default: r = RD(floatAbsTol, floatRelTol, spaceSensitive, caseSensitive);
						}
						proc::note(r + ";");
					} catch (std::exception&) { proc::note("refused;"); }
				}
			});
			// reference
			M m; string want; int n = 0; bool known = true, mpPrev = false;
			for (int x : h) {
				n++; string r = "ok"; bool in = m.role >= 0;
				if (x <= SET_CASE) { if (in) r = "refused"; else if (x == SET_ABS) m.at = n * 0.125L; else if (x == SET_REL) m.rt = n * 0.25L; else if (x == SET_SPACE) m.sp = !m.sp; else m.cs = !m.cs; }
				else if (x <= INIT_GEN) { if (in) r = "refused"; else { m.role = x - INIT_IN; if (m.role < 2) m.sp = m.cs = true; } }
				else if (x == USE_TESTIN) { r = "----"; if (m.role >= 0 && m.role < 4) r[m.role] = 'r'; }
				else if (x == USE_LAST) { r = "----"; if (m.role == 1) r[0] = 'r'; if (m.role == 2) r[1] = r[2] = 'r'; if (m.role == 3) r[3] = 'r'; }
				else if (x == MP_INIT) { if (!in) r = "refused"; else if (m.role == 2 || m.role == 3) { if (m.mp) { known = false; break; } m.mp = true; } else r = "refused"; }
				else if (x == MP_USE) { r = "refused"; } // first pass: there is no previous state
				else r = RD(m.at, m.rt, m.sp, m.cs);
				want += r + ";";
			}
			(void)mpPrev; mc::step(h.size()); mc::trace(); mc::state(w);
			string got = proc::board->note; if (!known) got = got.substr(0, want.size());
			if (got != want) { string key = "init:other"; std::istringstream A(got), B(want); string p, q; size_t i = 0; while (std::getline(B, q, ';')) { if (!std::getline(A, p, ';') || p != q) { key = string("init:") + AN[h[std::min(i, h.size() - 1)]]; break; } i++; } std::replace(key.begin(), key.end(), ' ', '-'); mc::violation(key, w + ": outcomes " + got + " expected " + want); }
			if (m.role < 0) { if (st == 0 || st == 42) mc::violation("init:never", w + ": never initialised, but ended with status " + std::to_string(st)); }
			else { mc::nontrivial(); if (known && st != 0) mc::violation("init:status", w + ": initialised, ended with status " + std::to_string(st) + " instead of 0"); }
		}
	});
	// every reading operation on a stream that was never set up is refused: streams of the roles and
	// default-constructed ones in memory with arbitrary previous content, in every order of two operations
	{
		using Op = std::pair<string, std::function<void(InputStream&)>>;
		std::vector<Op> ops = {{"eof", [](InputStream& s) { s.eof(); }}, {"noteof", [](InputStream& s) { s.noteof(); }}, {"string", [](InputStream& s) { s.string(); }}, {"string(1,2)", [](InputStream& s) { s.string(1, 2); }},
			{"integer", [](InputStream& s) { s.integer(); }}, {"integer(1,2)", [](InputStream& s) { s.integer(1, 2); }}, {"real", [](InputStream& s) { s.real(); }}, {"real(0,1)", [](InputStream& s) { s.real(0, 1); }}, {"realStrict", [](InputStream& s) { s.realStrict(0, 1, 0, 1); }},
			{"strings(2)", [](InputStream& s) { s.strings(2); }}, {"integers(2)", [](InputStream& s) { s.integers(2, NEWLINE); }}, {"reals(2)", [](InputStream& s) { s.reals(2); }}, {"expectString", [](InputStream& s) { s.expectString("a"); }}, {"expectInt", [](InputStream& s) { s.expectInt(1); }}, {"expectReal", [](InputStream& s) { s.expectReal(1); }}};
		mc::parallel(ops.size(), [&](u_int64_t a) {
			proc::setup();
			for (auto& second : ops) for (int fill : {0x00, 0x01, 0x7f, 0xff, -1, -2, -3, -4, -5}) {
				string w = ops[a].first + ", " + second.first + (fill >= 0 ? " on a default-constructed stream in memory filled with " + std::to_string(fill) : " on stream " + std::to_string(-fill) + " of the roles before any init"); mc::current("uninitialised", w);
				proc::Args ar({"prog"});
				int st = proc::run("1 2 3", [&] {
					alignas(InputStream) unsigned char mem[sizeof(InputStream)]; InputStream* s;
					if (fill >= 0) { memset(mem, fill, sizeof mem); s = new (mem) InputStream; } else { InputStream* G[] = {&InputValidator::testIn, &AnswerValidator::ans, &OutputValidator::juryAns, &OutputValidator::teamAns, &Interactor::fromTeam}; s = G[-fill - 1]; }
					for (auto* o : {&ops[a], &second}) try { o->second(*s); proc::note("read;"); } catch (std::exception&) { proc::note("refused;"); }
					if (fill >= 0) { s->~InputStream(); Generator::init(1, ar.argv()); }
				});
				mc::trace(); mc::step(2); mc::state(w);
				if (string(proc::board->note) != "refused;refused;") mc::violation("uninitialised", w + ": outcomes " + string(proc::board->note) + " (status " + std::to_string(st) + ") instead of refusals");
			}
		});
	}
	mc::sample("history: caseSensitive=; OutputValidator::init; caseSensitive= (refused); Interactor::init (refused)");
	return mc::finish();
}
