// Running a tool built from /repo in a scratch directory of its own.
#ifndef VERIF_PROC_H
#define VERIF_PROC_H
#include "common.h"
#include <fstream>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>

namespace proc {

struct Dir { // made in the current directory, removed with all its files
	std::string path;
	Dir() { char t[] = "./vfdirXXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(3); } char* r = realpath(t, 0); path = r; free(r); }
	~Dir() { if (DIR* d = opendir(path.c_str())) { while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") { std::string f = path + "/" + n; if (unlink(f.c_str())) rmdir(f.c_str()); } } closedir(d); } rmdir(path.c_str()); }
	std::string file(const std::string& n) const { return path + "/" + n; }
	void write(const std::string& n, const std::string& s) const { std::ofstream o(file(n).c_str(), std::ios::binary); o << s; if (!o.flush()) { fprintf(stderr, "cannot write\n"); _exit(3); } }
	std::string read(const std::string& n) const { std::ifstream i(file(n).c_str(), std::ios::binary); std::ostringstream s; s << i.rdbuf(); return s.str(); }
};

struct Result { int status; bool signalled, timeout; std::string out, err; };

// Runs argv with the given standard input, in the directory; status: exit status, or the signal's number
inline Result run(const Dir& dir, const std::vector<std::string>& argv, const std::string& input, unsigned seconds = 60)
{
	dir.write(".in", input); std::vector<char*> a; for (auto& s : argv) a.push_back((char*) s.c_str()); a.push_back(0);
	std::string in = dir.file(".in"), out = dir.file(".out"), err = dir.file(".err");
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(3); }
	if (!p) {
		struct itimerval none; memset(&none, 0, sizeof none); setitimer(ITIMER_PROF, &none, 0); signal(SIGPROF, SIG_DFL);
		struct rlimit l; l.rlim_cur = seconds; l.rlim_max = seconds + 5; setrlimit(RLIMIT_CPU, &l);
		int i = open(in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (i < 0 || o < 0 || e < 0 || dup2(i, 0) < 0 || dup2(o, 1) < 0 || dup2(e, 2) < 0 || chdir(dir.path.c_str())) _exit(127);
		close(i); close(o); close(e); execv(a[0], a.data()); _exit(127);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); _exit(3); }
	Result r; r.signalled = WIFSIGNALED(st); r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st); r.timeout = r.signalled && r.status == SIGXCPU;
	r.out = dir.read(".out"); r.err = dir.read(".err");
	if (!r.signalled && r.status == 127) { fprintf(stderr, "cannot run %s\n", argv[0].c_str()); _exit(3); }
	return r;
}

// Ended by itself, and no monitor in it saw anything
inline bool clean(const Result& r) { return !r.signalled && r.status < 90; }

inline std::string show(const std::vector<std::string>& argv) { std::string s; for (size_t i = 1; i < argv.size(); ++i) s += " '" + vf::show(argv[i]) + "'"; return s; }
inline const char* tool(const char* env) { const char* t = getenv(env); if (!t) { fprintf(stderr, "%s not set\n", env); _exit(3); } return t; }

} // namespace proc
#endif
