// V18 (1): conversations between a real interactor process and a team played by the explorer, which only
// answers after it has received everything that was written to it, and then waits
#include "proc.h"
#include "validate.h"
#include <poll.h>
using std::string;
enum Op { W, E, P, M, R, S, B, X, C, NOPS }; // write line, write line with flush, write prompt without newline, message, read, read, batch, case ... , close
static const char* ON[] = {"toTeam<<line", "toTeam<<line<<endl", "toTeam<<token", "juryOut<<..teamOut<<..", "fromTeam.integer()", "fromTeam.string()", "fromTeam.integers(2)", "fromTeam.expectString()", "fromTeam.eof()"};
enum End { AC_, WA_, FAIL_, EXIT_, NEND };
static const char* EN[] = {"juryOut<<AC", "juryOut<<WA", "juryOut<<FAIL", "return"};
enum Bad { NONE, BADTOK, CLOSED }; // what the team does at its last answer
struct Sc { std::vector<int> ops; int end, bad, chunk, strict; };
static string out(int op, int i) { return (op == P ? "p" : "w") + std::to_string(i) + (op == P ? "" : "\n"); }
static string reply(int op, int i) { string a = std::to_string(10 + i); return op == R ? a + "\n" : op == S ? "s" + a + "\n" : op == B ? a + "\n7\n" : op == X ? "YES\n" : ""; }
static string show(const Sc& s) { string r = s.strict ? "space sensitive: " : ""; for (int o : s.ops) r += string(ON[o]) + "; "; r += EN[s.end]; static const char* BN[] = {"", ", the last answer is no valid token", ", the team closes instead of the last answer"}; return r + BN[s.bad] + (s.chunk ? ", answers byte by byte" : ""); }
static void program(const Sc& s) {
	using namespace Interactor;
	std::vector<string> a = {"x", proc::dir + "/in", proc::dir + "/ans", proc::dir + "/fb"}; if (s.strict) a.push_back("space_change_sensitive");
	proc::Args args(a); Interactor::init(args.argc(), args.argv());
	for (size_t i = 0; i < s.ops.size(); i++) switch (s.ops[i]) {
		case W: toTeam << "w" << i << '\n'; break;
		case E: toTeam << "w" << i << std::endl; break;
		case P: toTeam << "p" << i; break;
		case M: juryOut << "j" << i << '\n'; teamOut << "t" << i << '\n'; break;
		case R: if (fromTeam.integer() != Integer(10 + i)) proc::note("wrong value;"); fromTeam.newline(); break;
		case S: if (fromTeam.string() != "s" + std::to_string(10 + i)) proc::note("wrong value;"); fromTeam.newline(); break;
		case B: if (fromTeam.integers(2, NEWLINE) != std::vector<Integer>{Integer(10 + i), 7}) proc::note("wrong value;"); fromTeam.newline(); break;
		case X: fromTeam.expectString("yes"); fromTeam.newline(); break;
		case C: fromTeam.eof(); break;
	}
	if (s.end == AC_) juryOut << AC; if (s.end == WA_) juryOut << WA; if (s.end == FAIL_) juryOut << FAIL;
	std::exit(0);
}
static int pin[2], pout[2]; static int patience = 20000;
// receive until total bytes are there; false: nothing came for long, or the process closed its output
static bool await(string& got, size_t total, bool& closed) {
	closed = false;
	while (got.size() < total) {
		pollfd f = {pout[0], POLLIN, 0}; int k = poll(&f, 1, patience); if (k == 0) return false; if (k < 0) continue;
		char b[512]; ssize_t n = read(pout[0], b, sizeof b); if (n <= 0) { closed = true; return false; } got.append(b, n);
	}
	return true;
}
static bool stop = false;
static void run(const Sc& s) {
	mc::current("conversation", show(s)); mc::state(mc::hashStr(show(s)));
	proc::put("fb/judgemessage.txt", ""); proc::put("fb/teammessage.txt", ""); memset(proc::board, 0, sizeof *proc::board);
	if (pipe2(pin, O_CLOEXEC) || pipe2(pout, O_CLOEXEC)) { perror("pipe"); _exit(2); }
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (!p) { dup2(pin[0], 0); dup2(pout[1], 1); int n = open("/dev/null", O_WRONLY); dup2(n, 2); close(pin[0]); close(pin[1]); close(pout[0]); close(pout[1]); struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl); program(s); }
	close(pin[0]); close(pout[1]);
	string got, want, judge, team; int code = s.end == AC_ ? 42 : s.end == WA_ ? 43 : s.end == FAIL_ ? 1 : 0; bool closed, over = false, shut = false; string err;
	int last = -1; for (size_t i = 0; i < s.ops.size(); i++) if (s.ops[i] >= R && s.ops[i] <= X) last = i;
	for (size_t i = 0; i < s.ops.size() && !over && err.empty(); i++) { int o = s.ops[i]; mc::step();
		if (o <= P) { want += out(o, i); continue; }
		if (o == M) { judge += "j" + std::to_string(i); team += "t" + std::to_string(i) + "\n"; continue; }
		// the program reads now: the team has received all that was written, and only then answers
		if (!await(got, want.size(), closed)) { err = (closed ? "the process ended" : "both sides wait") + string(": at operation ") + std::to_string(i) + " the team received \"" + mc::esc(got) + "\" instead of \"" + mc::esc(want) + "\""; break; }
		if (o == C) { if (!shut) close(pin[1]); shut = true; continue; }
		string r = reply(o, i);
		if ((int)i == last && s.bad == CLOSED) { if (!shut) close(pin[1]); shut = true; over = true; code = 43; break; }
		if ((int)i == last && s.bad == BADTOK) { r = o == S ? string("\x01\n") : o == B ? "5x\n" : "x1\n"; over = true; code = 43; }
		if (shut) { over = true; code = 43; break; } // the team has closed earlier
		if (s.chunk) for (char c : r) { if (write(pin[1], &c, 1) != 1) break; if (c != '\n') usleep(200); } else (void)!write(pin[1], r.data(), r.size());
	}
	if (err.empty()) { // the end of the process, without any further answer
		while (await(got, 1 << 20, closed)) {}
		if (!closed) err = "the process neither ends nor writes although everything it may read has been answered; the team received \"" + mc::esc(got) + "\"";
	}
	if (!err.empty()) kill(p, SIGKILL);
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} close(pout[0]); if (!shut) close(pin[1]);
	int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	if (err.empty()) {
		if (code >= 0 && rc != code) err = "exit status " + std::to_string(rc) + " instead of " + std::to_string(code);
		else if (got != want) err = "the team received \"" + mc::esc(got) + "\" instead of \"" + mc::esc(want) + "\"";
		else if (proc::board->note[0]) err = proc::board->note;
		else if (!over && code >= 0) { string j = proc::get("fb/judgemessage.txt"), t = proc::get("fb/teammessage.txt"), jj; for (char c : j) if (c != '\n') jj += c; if (jj != judge) err = "judge message \"" + mc::esc(j) + "\""; if (t != team) err = "team message \"" + mc::esc(t) + "\""; }
		else if (over && code >= 0) { string t = proc::get("fb/teammessage.txt"); if (t != team) err = "team message \"" + mc::esc(t) + "\""; if (proc::get("fb/judgemessage.txt").empty()) err = "no judge message"; }
	}
	mc::trace(); if (want.size() && last >= 0) mc::nontrivial();
	if (!err.empty()) { static int n = 0; mc::violation(string("conversation:") + (err[0] == 'b' || err[0] == 't' ? "stall" : "outcome"), show(s) + ": " + err); patience = 3000; if (++n > 5) stop = true; }
}
static int lastRead(const std::vector<int>& ops) { int r = -1; for (int o : ops) if (o >= R && o <= X) r = o; return r; }
int main(int argc, char** argv) {
	mc::init(argc, argv); signal(SIGPIPE, SIG_IGN);
	int L = mc::thorough ? 5 : 4;
	mc::parallel(NOPS * NOPS, [&](mc::u64 it) {
		proc::setup(); mkdir((proc::dir + "/fb").c_str(), 0755); proc::put("in", "1\n"); proc::put("ans", "2\n");
		for (int len = 1; len <= L; len++) for (mc::u64 k = 0; k < mc::ipow(NOPS, std::max(0, len - 2)); k++) {
			std::vector<int> ops = {(int)it / NOPS}; if (len > 1) ops.push_back(it % NOPS); else if (it % NOPS) continue;
			if (len > 2) for (int x : mc::digits(k, NOPS, len - 2)) ops.push_back(x);
			int reads = 0, close_ = 0, msgs = 0, pr = 0; for (int o : ops) { reads += o >= R && o <= X; close_ += o == C; msgs += o == M; pr += o == P || o == S || o == X; }
			if (close_ > 1 || msgs > 1) continue; // nothing new: the stream is at its end, messages go to files
			if (len == L && (pr > 1 || msgs)) continue; // the longest scripts over the core operations
			for (int strict = 0; strict < 2; strict++) for (int bad = 0; bad < (reads ? 3 : 1); bad++) for (int end = 0; end < NEND; end++) {
				if (bad == BADTOK && !strict && lastRead(ops) == S) continue; // any token is a string there
				if (end && (bad || len > 2)) continue; // the end of the program only matters if it is reached
				if (len == L && strict && bad) continue;
				run({ops, end, bad, (int)((k + it + strict) % 3 == 0 && reads), strict}); if (stop) return;
			}
			if (it % 16 == 5 && k == 3) mc::sample(show({ops, 0, 0, 0, 0}));
		}
	});
	return mc::finish();
}
