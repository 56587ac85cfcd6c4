// V08: multipass pass counter and state hand-over; every run of every history is a real process
#include "proc.h"
#include "validate.h"
using std::string;
struct Run { int state, np, end, order; };
static string ST(int i, int k) { switch (i) { case 0: return ""; case 1: return "a" + std::to_string(k) + " B\n  q" + std::to_string(k) + "\n"; case 2: return string(9000, 'x') + " " + std::to_string(k); case 3: return "7"; default: return string(100000, 'w') + "\n" + std::to_string(k); } }
static string NP(int i, int k) { return i == 0 ? "" : i == 1 ? "n" + std::to_string(k) + "\n2 \n" : i == 3 ? string("n\0m\n\0\r\n\xff", 8) + string(70000, 'z') : string(5000, 'y') + "\n"; }
static const char* EN[] = {"NEXT()", "juryOut<<NEXT", "AC", "WA", "FAIL"};
static string toks(const string& s) { std::istringstream i(s); string t, r; while (i >> t) r += (t.size() > 50 ? "L" + std::to_string(t.size()) : t) + ","; return r; }
static void wipe() { string d = proc::dir + "/fb"; for (const char* f : {".pass", ".state0", ".state1", "nextpass.in", "judgemessage.txt", "teammessage.txt"}) unlink((d + "/" + f).c_str()); mkdir(d.c_str(), 0755); }
static string show(const std::vector<Run>& h, size_t n) { string r; if (n > 30) r = "... run " + std::to_string(n); for (size_t i = n > 30 ? n - 3 : 0; i < n; i++) r += "[state " + std::to_string(h[i].state) + " next " + std::to_string(h[i].np) + " " + EN[h[i].end] + (h[i].order == 0 ? " read-first" : h[i].order == 1 ? " write-first" : " no-read") + "]"; return r; }
static void history(const std::vector<Run>& h, int role) {
	wipe(); proc::put("in", "1"); proc::put("jury", "2");
	string nextpass = "<none>";
	for (size_t k = 0; k < h.size(); k++) {
		const Run& r = h[k]; string w = string(role ? "Interactor" : "OutputValidator") + " history " + show(h, k + 1); mc::current("multipass", w);
		proc::Args a({"prog", proc::dir + "/in", proc::dir + "/jury", proc::dir + "/fb"});
		string st = ST(r.state, k), np = NP(r.np, k);
		int code = proc::run("team", [&] {
			if (role) Interactor::init(a.argc(), a.argv()); else OutputValidator::init(a.argc(), a.argv());
			Multipass::init();
			proc::note(std::to_string(Multipass::pass) + "|");
			auto readPrev = [&] {
				if (k == 0) { try { Multipass::prevstate.string(); proc::note("READ"); } catch (std::exception&) { proc::note("refused"); } return; }
				string t; int n = 0; string want = ST(h[k - 1].state, k - 1); std::istringstream c(want); string x; while (c >> x) n++;
				for (int i = 0; i < n; i++) { string s = Multipass::prevstate.string(); proc::note((s.size() > 50 ? "L" + std::to_string(s.size()) : s) + ","); }
				Multipass::prevstate.eof(); proc::note("E");
			};
			if (r.order == 0) readPrev();
			Multipass::nextstate << st; Multipass::nextpass << np.substr(0, np.size() / 2);
			if (r.order == 1) readPrev();
			Multipass::nextpass << np.substr(np.size() / 2);
			switch (r.end) { case 0: Multipass::NEXT(); case 1: ValidateBase::juryOut << Multipass::NEXT; break; case 2: ValidateBase::juryOut << Verdicts::AC; break; case 3: ValidateBase::juryOut << Verdicts::WA; break; default: ValidateBase::juryOut << Verdicts::FAIL; }
		});
		mc::step(); string prev = r.order == 2 ? "" : k == 0 ? "refused" : toks(ST(h[k - 1].state, k - 1)) + "E";
		string want = std::to_string(k) + "|" + prev; int wc = r.end <= 2 ? 42 : r.end == 3 ? 43 : 1;
		mc::state(mc::hashStr(w));
		if (want != proc::board->note) { mc::violation(string(proc::board->note).substr(0, want.find('|') + 1) != want.substr(0, want.find('|') + 1) ? "multipass:pass" : "multipass:prevstate", w + ": pass|previous state seen " + proc::board->note + ", expected " + want); return; }
		if (code != wc) { mc::violation("multipass:status", w + ": exit status " + std::to_string(code) + ", expected " + std::to_string(wc)); return; }
		if (r.end <= 1) nextpass = np;
		if (proc::get("fb/nextpass.in") != nextpass) { mc::violation("multipass:nextpass", w + ": nextpass.in is \"" + mc::esc(proc::get("fb/nextpass.in")) + "\", expected \"" + mc::esc(nextpass) + "\""); return; }
		if (k) mc::nontrivial();
	}
	mc::trace();
}
int main(int argc, char** argv) {
	mc::init(argc, argv);
	// two runs, every combination of behaviours
	std::vector<Run> all; for (int s = 0; s < 3; s++) for (int n = 0; n < 3; n++) for (int e = 0; e < 5; e++) for (int o = 0; o < 3; o++) all.push_back({s, n, e, o});
	mc::parallel(all.size(), [&](u_int64_t i) { proc::setup(); for (size_t j = 0; j < all.size(); j++) { if (!mc::thorough && (j % 3) == 2 && all[i].order == 2) continue; for (int role = 0; role < (mc::thorough ? 2 : 1); role++) history({all[i], all[j]}, mc::thorough ? role : (i + j) % 2); } });
	// longer histories over a reduced alphabet
	std::vector<Run> red; for (int s = 0; s < 2; s++) for (int e : {0, 3}) for (int o = 0; o < 2; o++) red.push_back({s, 1, e, o});
	int D = mc::thorough ? 5 : 4;
	mc::parallel(512, [&](u_int64_t i) { proc::setup(); for (u_int64_t j = 0; j < mc::ipow(8, D - 3); j++) { auto d = mc::digits(i, 8, 3), e = mc::digits(j, 8, D - 3); d.insert(d.end(), e.begin(), e.end()); std::vector<Run> h; for (int x : d) h.push_back(red[x]); history(h, (i + j) & 1); } });
	// long ones: the counter gets more digits, states shrink and grow
	mc::parallel(24, [&](u_int64_t i) { proc::setup(); std::vector<Run> h; for (int k = 0; k < 24; k++) h.push_back({int((k * (i % 4 + 1) + i) % 4), int((k + i) % 3), int(k % (i % 2 + 1)), int((k + i / 3) % 2)}); history(h, i & 1); });
	mc::parallel(4, [&](u_int64_t i) { proc::setup(); std::vector<Run> h; for (int k = 0; k < (mc::thorough ? 600 : 290); k++) h.push_back({int((k * (i % 4 + 1) + i) % 5), int((k + i) % 4), int(k % (i % 2 + 1)), int((k + i / 3) % 2)}); history(h, i & 1); });
	// NEXT and Multipass::init outside their place
	mc::parallel(1, [&](u_int64_t) {
		proc::setup(); wipe(); proc::put("in", "1"); proc::put("jury", "2"); proc::Args a({"prog", proc::dir + "/in", proc::dir + "/jury", proc::dir + "/fb"});
		proc::run("", [&] { try { Multipass::init(); proc::note("accepted"); } catch (std::exception&) { proc::note("refused"); } OutputValidator::init(a.argc(), a.argv()); ValidateBase::juryOut << Verdicts::AC; });
		mc::step(); mc::trace(); if (string(proc::board->note) != "refused") mc::violation("multipass:early", "Multipass::init() before init() was accepted");
		if (proc::get("fb/.pass") != "<none>") mc::violation("multipass:earlycount", "a refused Multipass::init() counted as a pass");
	});
	mc::sample("run 0 writes state \"a0 B q0\" and ends with NEXT, run 1 writes first and then reads its previous state");
	return mc::finish();
}
