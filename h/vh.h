// Small common runtime of the harnesses: enumeration bookkeeping, sharding, replay, reporting.
// A harness enumerates named cases; a case name is enough to run that case again (--only NAME).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <chrono>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>

namespace vh {

struct State {
	std::string prop, tier = "quick", scratch, only, curfile;
	int shard = 0, nshards = 1;
	uint64_t seed = 1;
	double budget = 600;
	bool replay = false;
	uint64_t evals = 0, nontrivial = 0, states = 0, transitions = 0, traces = 0;
	uint64_t index = 0;
	std::unordered_set<std::string> distinct; // outcome signatures
	std::vector<std::string> samples;
	std::map<std::string, uint64_t> counters;
	int violations = 0;
	std::set<std::string> reported;
	bool capped = false;
	std::string current;
	char* cur = nullptr;
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
};
inline State& S() { static State* s = new State(); return *s; }
inline bool thorough() { return S().tier == "thorough"; }

inline std::string esc(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o;
}
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count(); }
inline bool outOfTime() { if (elapsed() > S().budget) { S().capped = true; return true; } return false; }

inline void rmtree(const std::string& p)
{
	// only ever called on paths below the scratch directory this run created
	if (S().scratch.size() < 8 || p.compare(0, S().scratch.size(), S().scratch) != 0) { fprintf(stderr, "rmtree refused %s\n", p.c_str()); abort(); }
	struct stat st;
	if (lstat(p.c_str(), &st) != 0) return;
	if (S_ISDIR(st.st_mode)) {
		if (DIR* d = opendir(p.c_str())) {
			while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rmtree(p + "/" + n); }
			closedir(d);
		}
		rmdir(p.c_str());
	} else unlink(p.c_str());
}
// a fresh, empty directory below the scratch directory
inline std::string freshDir(const std::string& name)
{
	std::string p = S().scratch + "/" + name;
	rmtree(p);
	mkdir(p.c_str(), 0777);
	return p;
}

inline std::string scratchDir(const std::string& n) { return freshDir(n); }
inline void fini();
inline void init(int argc, char** argv)
{
	State& s = S();
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--prop") s.prop = val();
		else if (a == "--tier") s.tier = val();
		else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%d/%d", &s.shard, &s.nshards); }
		else if (a == "--only") { s.only = val(); s.replay = true; }
		else if (a == "--scratch") s.scratch = val();
		else if (a == "--cur") s.curfile = val();
		else if (a == "--seed") s.seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--budget") s.budget = atof(val().c_str());
	}
	if (s.scratch.empty()) {
		char t[] = "/dev/shm/vh.XXXXXX"; char* d = mkdtemp(t);
		s.scratch = d ? d : "/tmp/vh";
	}
	setenv("HOME", s.scratch.c_str(), 1);
	{ std::string t = s.scratch + "/tmp"; ::mkdir(t.c_str(), 0777); ::mkdir((t + "/Snapshots").c_str(), 0777); setenv("TMPDIR", t.c_str(), 1); } // what the code under test puts in the temporary directory stays with this process
	if (!s.curfile.empty()) {
		int fd = open(s.curfile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
		if (fd >= 0 && ftruncate(fd, 65536) == 0) {
			void* p = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			if (p != MAP_FAILED) s.cur = (char*)p;
		}
		if (fd >= 0) close(fd);
	}
	setvbuf(stdout, nullptr, _IOLBF, 0);
}
inline void setCurrent(const std::string& id)
{
	State& s = S();
	s.current = id;
	if (s.cur) { size_t n = std::min<size_t>(id.size(), 65000); memcpy(s.cur, id.data(), n); s.cur[n] = 0; }
}
// start of a case; false: not ours (other shard, or not the case to replay)
inline bool begin(const std::string& id)
{
	State& s = S();
	if (s.replay) { if (id != s.only) return false; }
	else {
		uint64_t i = s.index++;
		if ((int)(i % (uint64_t)s.nshards) != s.shard) return false;
		if (outOfTime()) return false;
	}
	setCurrent(id);
	s.evals++;
	if (s.samples.size() < 3 || (s.samples.size() < 6 && (s.evals & (s.evals - 1)) == 0)) s.samples.push_back(id);
	return true;
}
inline void outcome(const std::string& sig) { S().distinct.insert(sig); }
inline void count(const std::string& k, uint64_t n = 1) { S().counters[k] += n; }
// key: stable name of what failed (used to match known findings); desc: for people
inline void fail(const std::string& key, const std::string& desc)
{
	State& s = S();
	s.violations++;
	if (!s.reported.insert(key).second || s.reported.size() > 40) return;
	printf("@V {\"key\":\"%s\",\"case\":\"%s\",\"desc\":\"%s\"}\n", esc(key).c_str(), esc(s.current).c_str(), esc(desc.substr(0, 3000)).c_str());
	fflush(stdout);
}
inline bool check(bool ok, const std::string& key, const std::string& desc) { if (!ok) fail(key, desc); return ok; }
inline void fini()
{
	State& s = S();
	std::ostringstream o;
	o << "@S {\"evals\":" << s.evals << ",\"distinct\":" << s.distinct.size() << ",\"states\":" << s.states << ",\"transitions\":" << s.transitions
	  << ",\"traces\":" << s.traces << ",\"violations\":" << s.violations << ",\"capped\":" << (s.capped ? "true" : "false") << ",\"counters\":{";
	bool f = true;
	for (auto& c : s.counters) { o << (f ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; f = false; }
	o << "},\"samples\":[";
	f = true;
	for (auto& x : s.samples) { o << (f ? "" : ",") << "\"" << esc(x.substr(0, 400)) << "\""; f = false; }
	o << "],\"sigs\":[";
	f = true; int n = 0;
	for (auto& x : s.distinct) { if (n++ > 20000) break; o << (f ? "" : ",") << "\"" << std::hex << std::hash<std::string>()(x) << std::dec << "\""; f = false; }
	o << "]}\n";
	fputs(o.str().c_str(), stdout);
	fflush(stdout);
}
template <class... A> std::string cat(const A&... a) { std::ostringstream o; int x[] = {0, ((o << a), 0)...}; (void)x; return o.str(); }
inline std::string hex(const void* p, size_t n) { static const char* d = "0123456789abcdef"; std::string o; for (size_t i = 0; i < n; i++) { o += d[((const unsigned char*)p)[i] >> 4]; o += d[((const unsigned char*)p)[i] & 15]; } return o; }
template <class C> std::string hexv(const C& v) { return hex(v.data(), v.size()); }
}
// leave without running the code base's static destructors (they may block on background threads)
#define VH_MAIN(...) int main(int argc, char** argv) { vh::init(argc, argv); __VA_ARGS__; vh::fini(); fflush(stdout); _exit(0); }
