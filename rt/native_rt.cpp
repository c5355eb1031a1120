// Native side of sym.h: runs a harness on recorded input values.
//   prog replay ENTRY FILE     values, one per line; 0 = ran to the end
//   prog batch ENTRY TRACES    traces written by symex; compares observations
#define SYM_NATIVE
#include "sym.h"

#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static std::map<std::string, void (*)()>& table()
{
	static std::map<std::string, void (*)()> t;
	return t;
}
SymEntry::SymEntry(const char* name, void (*fn)()) { table()[name] = fn; }

static std::vector<uint64_t> in;
static size_t pos;
static volatile int allow;
static std::vector<std::pair<std::string, uint64_t>> obs;
static std::map<std::string, uint64_t> params;
static int outFd = -1;

enum { X_CHECK = 41, X_ASSUME = 42, X_INPUT = 43, X_REJECT = 44, X_DONE = 0 };

static uint64_t next()
{
	if(pos >= in.size())
	{
		fprintf(stderr, "INPUTS-EXHAUSTED\n");
		_exit(X_INPUT);
	}
	return in[pos++];
}

static void writeObs()
{
	if(outFd < 0) return;
	std::ostringstream o;
	o << obs.size();
	for(auto& p : obs) o << " " << p.first << " " << p.second;
	o << "\n";
	std::string s = o.str();
	size_t k = 0;
	while(k < s.size())
	{
		ssize_t n = write(outFd, s.data() + k, s.size() - k);
		if(n <= 0) break;
		k += n;
	}
}

extern "C"
{
uint64_t sym_bits(unsigned w, const char*)
{
	uint64_t v = next();
	return w >= 64 ? v : v & ((1ull << w) - 1);
}
uint64_t sym_choice(uint64_t, const char*) { return next(); }
void sym_assume(int c)
{
	if(!c)
	{
		fprintf(stderr, "ASSUMPTION-VIOLATED\n");
		_exit(X_ASSUME);
	}
}
void sym_check(int c, const char* msg)
{
	if(!c)
	{
		fprintf(stderr, "CHECK-FAILED: %s\n", msg);
		_exit(X_CHECK);
	}
}
void sym_reach(const char*) {}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(const char* n, uint64_t v) { obs.push_back({n, v}); }
void sym_allow_abort(int on) { allow = on; }
uint64_t sym_param(const char* n, uint64_t d)
{
	auto it = params.find(n);
	return it == params.end() ? d : it->second;
}
int sym_is_engine(void) { return 0; }
void sym_end_path(void)
{
	writeObs();
	_exit(X_DONE);
}
}

static void onAbort(int)
{
	if(allow)
	{
		writeObs();
		_exit(X_REJECT);
	}
	signal(SIGABRT, SIG_DFL);
	raise(SIGABRT);
}

int main(int argc, char** argv)
{
	if(argc < 4) return 64;
	std::string mode = argv[1], entry = argv[2];
	for(int i = 4; i < argc; i++)
	{
		std::string p = argv[i];
		auto e = p.find('=');
		params[p.substr(0, e)] = std::stoull(p.substr(e + 1));
	}
	auto it = table().find(entry);
	if(it == table().end()) return 64;
	signal(SIGABRT, onAbort);
	std::ifstream f(argv[3]);
	if(mode == "replay")
	{
		std::string l;
		while(std::getline(f, l))
		{
			if(l.empty() || l[0] == '#') continue;
			in.push_back(std::stoull(l));
		}
		it->second();
		return X_DONE;
	}
	std::string l;
	int ok = 0, bad = 0;
	while(std::getline(f, l))
	{
		std::istringstream s(l);
		std::string t, end;
		size_t n, m;
		s >> t >> end >> n;
		in.assign(n, 0);
		for(auto& v : in) s >> v;
		s >> m;
		std::vector<std::pair<std::string, uint64_t>> want(m);
		for(auto& p : want) s >> p.first >> p.second;
		int fd[2];
		if(pipe(fd)) return 64;
		pid_t pid = fork();
		if(pid == 0)
		{
			close(fd[0]);
			outFd = fd[1];
			alarm(120);
			it->second();
			writeObs();
			_exit(X_DONE);
		}
		close(fd[1]);
		std::string got;
		char buf[4096];
		ssize_t k;
		while((k = read(fd[0], buf, sizeof buf)) > 0) got.append(buf, k);
		close(fd[0]);
		int st;
		waitpid(pid, &st, 0);
		int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
		std::ostringstream w;
		w << want.size();
		for(auto& p : want) w << " " << p.first << " " << p.second;
		w << "\n";
		if(code == (end == "rejected" ? X_REJECT : X_DONE) && got == w.str())
			ok++;
		else
		{
			bad++;
			fprintf(stderr, "TRACE-MISMATCH exit=%d (expected %s)\n got  %s want %s in %s\n",
			        code, end.c_str(), got.c_str(), w.str().c_str(), l.c_str());
		}
	}
	printf("ok %d bad %d\n", ok, bad);
	return bad ? 1 : 0;
}
