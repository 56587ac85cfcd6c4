// proc.h -- run one scripted "validator program" per forked process, with real std::exit, real files and real fds
#pragma once
#include "mc.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <fstream>
namespace proc {
struct Board { int progress; char note[4000]; };
inline Board* board; inline std::string dir;
inline void setup() { // once per worker: scratch directory of its own and a board shared with the children
	static pid_t owner = 0;
	if (owner == getpid()) return;
	owner = getpid();
	const char* wd = getenv("MC_WD");
	std::string t = std::string(wd ? wd : "/tmp") + "/pXXXXXX";
	if (!mkdtemp(&t[0])) { perror("mkdtemp"); _exit(2); }
	dir = t;
	board = (Board*)mmap(0, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
inline void put(const std::string& name, const std::string& s) {
	int fd = open((dir + "/" + name).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0 || write(fd, s.data(), s.size()) != (ssize_t)s.size()) { perror("put"); _exit(2); }
	close(fd);
}
inline std::string get(const std::string& name) { // "<none>" if absent
	int fd = open((dir + "/" + name).c_str(), O_RDONLY);
	if (fd < 0) return "<none>";
	std::string r; char b[4096]; ssize_t n;
	while ((n = read(fd, b, sizeof b)) > 0) r.append(b, n);
	close(fd); return r;
}
inline void note(const std::string& s) { size_t k = strlen(board->note); snprintf(board->note + k, sizeof board->note - k, "%s", s.c_str()); }
// exit status (0..255), or 1000+signal; in is the content of stdin
inline int run(const std::string& in, const std::function<void()>& body) {
	put("stdin", in); put("stdout", ""); put("stderr", "");
	memset(board, 0, sizeof *board);
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(2); }
	if (!p) {
		const char* n[3] = {"stdin", "stdout", "stderr"};
		for (int i = 0; i < 3; i++) { int fd = open((dir + "/" + n[i]).c_str(), i ? O_WRONLY | O_APPEND : O_RDONLY); if (fd < 0 || dup2(fd, i) < 0) _exit(99); close(fd); }
		struct rlimit rl = {20, 20}; setrlimit(RLIMIT_CPU, &rl);
		std::ios::sync_with_stdio(true);
		body();
		std::exit(0);
	}
	int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
struct Args { std::vector<std::string> s; std::vector<char*> p; Args(std::vector<std::string> v) : s(std::move(v)) { for (auto& x : s) p.push_back(&x[0]); p.push_back(nullptr); } int argc() { return (int)s.size(); } char** argv() { return p.data(); } };
}
