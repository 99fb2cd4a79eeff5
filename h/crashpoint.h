// Ends the process at a chosen mutating file operation below a directory, by interposing the C library's calls.
// Operations are counted per class (file group), because the code under test writes some groups from several threads:
// a crash state is one count per class, every combination of which some schedule can reach.
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <pthread.h>
#include <string>
#include <vector>
#include <map>
#include <atomic>
#include <cstring>
#include <cstdio>
namespace cp {
struct Op { std::string cls, what; size_t len; };
struct State {
	bool armed = false, record = false;
	std::string root;
	std::string (*classify)(const std::string&) = nullptr; // "" = not counted
	std::vector<Op> ops;                  // recording
	// crash: sequential index, or per-class limits inside the parallel section
	long at = -1; long n = 0; bool torn = false;
	std::map<std::string, long> limit, done; // classes with a limit stop there; the process ends when all have
	pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
};
inline State& S() { static State* s = new State(); return *s; }
inline std::string fdPath(int fd) { char l[64], b[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, b, sizeof b - 1); if (n < 0) return ""; b[n] = 0; return b; }
[[noreturn]] inline void die() { _exit(99); }
inline bool allReached() { for (auto& l : S().limit) if (S().done[l.first] < l.second) return false; return true; }
// returns how many bytes of a torn write to let through before dying; -1: go on
inline ssize_t gate(const std::string& path, const char* what, size_t len)
{
	State& s = S();
	if (!s.armed || path.empty() || path.compare(0, s.root.size(), s.root) != 0) return -1;
	std::string c = s.classify ? s.classify(path.substr(s.root.size())) : path;
	if (c.empty()) return -1;
	pthread_mutex_lock(&s.mu);
	if (s.record) s.ops.push_back({ c, what, len });
	ssize_t r = -1;
	if (!s.limit.empty()) {
		auto it = s.limit.find(c);
		if (it == s.limit.end()) { /* not limited */ }
		else if (s.done[c] >= it->second) { // this thread goes no further
			while (!allReached()) { pthread_mutex_unlock(&s.mu); usleep(200); pthread_mutex_lock(&s.mu); }
			die();
		} else s.done[c]++;
	} else if (s.at >= 0 && s.n == s.at) {
		if (!s.torn || len < 2) die();
		r = (ssize_t)(len / 2);
	}
	s.n++;
	pthread_mutex_unlock(&s.mu);
	return r;
}
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
}
#ifdef CRASHPOINT_DEFINE
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { static auto f = cp::real<ssize_t (*)(int, const void*, size_t)>("write"); if (cp::S().armed) { ssize_t k = cp::gate(cp::fdPath(fd), "write", n); if (k >= 0) { f(fd, b, k); cp::die(); } } return f(fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { static auto f = cp::real<ssize_t (*)(int, const void*, size_t, off_t)>("pwrite"); if (cp::S().armed) { ssize_t k = cp::gate(cp::fdPath(fd), "pwrite", n); if (k >= 0) { f(fd, b, k, o); cp::die(); } } return f(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { static auto f = cp::real<ssize_t (*)(int, const void*, size_t, off64_t)>("pwrite64"); if (cp::S().armed) { ssize_t k = cp::gate(cp::fdPath(fd), "pwrite", n); if (k >= 0) { f(fd, b, k, o); cp::die(); } } return f(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) { static auto f = cp::real<ssize_t (*)(int, const struct iovec*, int)>("writev"); if (cp::S().armed) { size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; ssize_t k = cp::gate(cp::fdPath(fd), "writev", t); if (k >= 0) { static auto w = cp::real<ssize_t (*)(int, const void*, size_t)>("write"); for (int i = 0; i < c && k > 0; i++) { size_t m = std::min<size_t>(k, v[i].iov_len); w(fd, v[i].iov_base, m); k -= m; } cp::die(); } } return f(fd, v, c); }
int ftruncate(int fd, off_t n) { static auto f = cp::real<int (*)(int, off_t)>("ftruncate"); if (cp::S().armed) cp::gate(cp::fdPath(fd), "ftruncate", 0); return f(fd, n); }
int ftruncate64(int fd, off64_t n) { static auto f = cp::real<int (*)(int, off64_t)>("ftruncate64"); if (cp::S().armed) cp::gate(cp::fdPath(fd), "ftruncate", 0); return f(fd, n); }
int truncate(const char* p, off_t n) { static auto f = cp::real<int (*)(const char*, off_t)>("truncate"); if (cp::S().armed) cp::gate(p, "truncate", 0); return f(p, n); }
int truncate64(const char* p, off64_t n) { static auto f = cp::real<int (*)(const char*, off64_t)>("truncate64"); if (cp::S().armed) cp::gate(p, "truncate", 0); return f(p, n); }
int rename(const char* a, const char* b) { static auto f = cp::real<int (*)(const char*, const char*)>("rename"); if (cp::S().armed) cp::gate(b, "rename", 0); return f(a, b); }
int unlink(const char* p) { static auto f = cp::real<int (*)(const char*)>("unlink"); if (cp::S().armed) cp::gate(p, "unlink", 0); return f(p); }
int remove(const char* p) { static auto f = cp::real<int (*)(const char*)>("remove"); if (cp::S().armed) cp::gate(p, "remove", 0); return f(p); }
int mkdir(const char* p, mode_t m) { static auto f = cp::real<int (*)(const char*, mode_t)>("mkdir"); if (cp::S().armed) cp::gate(p, "mkdir", 0); return f(p, m); }
FILE* fopen(const char* p, const char* m) { static auto f = cp::real<FILE* (*)(const char*, const char*)>("fopen"); if (cp::S().armed && strchr(m, 'w')) cp::gate(p, "create", 0); return f(p, m); }
FILE* fopen64(const char* p, const char* m) { static auto f = cp::real<FILE* (*)(const char*, const char*)>("fopen64"); if (cp::S().armed && strchr(m, 'w')) cp::gate(p, "create", 0); return f(p, m); }
}
#endif
