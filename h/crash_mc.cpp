// C05: ends the node at every file operation of every kind of step, reopens what is left and goes on.
#define CRASHPOINT_DEFINE
#include "crashpoint.h"
#include "tree.h"
#include <sys/wait.h>
using namespace ch;
// ---- model of the history (no node is ever opened in this process; every node lives in a child) ----
static std::vector<BlkP> base;             // genesis..tip
static std::map<std::string, BlkP> nb;     // named blocks above the tip
static std::map<B, BlkP> byHash; static std::set<B> all;
static void remember(const BlkP& b) { byHash[ref::bytes(b->hash())] = b; for (auto& o : b->full->GetOutputs()) all.insert(ref::bytes(o.GetCommitment())); }
static void build()
{
	base.push_back(genesis()); remember(base[0]);
	for (int i = 0; i < 27; i++) { base.push_back(mine(base.back(), vh::cat("b", i))); reg(base.back()->coinbase); remember(base.back()); }
	std::vector<std::pair<std::string, uint64_t>> o; for (int i = 0; i < 8; i++) o.push_back({ "P" + std::to_string(i), 7000000000ull });
	std::vector<Out> P; auto tx = spend({ base[1]->coinbase }, o, &P);
	base.push_back(mine(base.back(), "refill", { tx })); reg(base.back()->coinbase); remember(base.back());
	auto add = [&](const std::string& n, const BlkP& p, std::vector<TransactionPtr> t, uint64_t d = 1) { BlkOpt op; op.addDiff = d; nb[n] = mine(p, n, t, op); reg(nb[n]->coinbase); remember(nb[n]); return nb[n]; };
	BlkP T = base.back();
	add("A1", T, { spend({ P[0], P[1] }, { { "a1x", 3000000000ull }, { "a1y", 0 } }) });
	std::vector<Out> a2; add("A2", nb["A1"], { spend({ P[2] }, { { "a2x", 0 } }, &a2) });
	add("A3", nb["A2"], { spend({ a2[0] }, { { "a3x", 0 } }) });
	std::vector<Out> f1; add("F1", T, { spend({ P[0], P[3] }, { { "f1x", 1000000000ull }, { "a1x2", 0 } }, &f1) });
	add("F2", nb["F1"], { spend({ f1[0], P[1] }, { { "f2x", 0 } }) });
	add("F3", nb["F2"], { spend({ P[4] }, { { "f3x", 0 } }) }, 4);
}
// steps: Bname block, Hname header, Lname headers of its branch, O orphans, C close+open
static void step(Node& n, const std::string& s)
{
	if (s[0] == 'B') addBlock(n, *nb.at(s.substr(1))->full);
	else if (s[0] == 'H') addHeader(n, nb.at(s.substr(1))->header());
	else if (s[0] == 'L') { std::vector<BlockHeaderPtr> h; for (const Blk* p = nb.at(s.substr(1)).get(); p != base.back().get(); p = p->parent.get()) h.insert(h.begin(), p->header()); addHeaders(n, h); }
	else if (s[0] == 'O') orphans(n);
	else if (s[0] == 'C') n.restart();
}
struct Sc { std::string name; std::vector<std::string> pre; std::string op; };
static const std::vector<Sc> scenarios = {
	{ "extend", {}, "BA1" }, { "extend2", { "BA1" }, "BA2" }, { "extend-after-header", { "HA1" }, "BA1" },
	{ "header", {}, "HA1" }, { "headers", {}, "LA3" }, { "header-reorg", { "LA2" }, "LF3" }, { "header-side", { "BA1", "BA2" }, "HF1" },
	{ "side-block", { "BA1" }, "BF1" }, { "reorg", { "BA1", "BA2", "BF1", "BF2" }, "BF3" }, { "reorg-after-headers", { "BA1", "BA2", "LF3", "BF1", "BF2" }, "BF3" },
	{ "reorg-orphans", { "BA1", "LF3", "BF3", "BF2", "BF1" }, "O" }, { "orphan-block", { "LA2" }, "BA2" }, { "restart", { "BA1" }, "C" }, { "restart-fork", { "BA1", "BF1", "LF3" }, "C" }, { "first-start", {}, "N" },
};
static std::string root;
static std::string classify(const std::string& p)
{
	if (p.find("candidate.chain") != std::string::npos) return "candidate.chain";
	if (p.find("confirmed.chain") != std::string::npos) return "confirmed.chain";
	if (p.find("header_mmr") != std::string::npos) return "header_mmr";
	for (const char* k : { "kernel", "output", "rangeproof" }) if (p.find(vh::cat("/", k, "/")) != std::string::npos) return k;
	if (p.find("/LOG") != std::string::npos || p.find("LOCK") != std::string::npos || p.find("/log") != std::string::npos) return "";
	if (p.find("/DB") != std::string::npos || p.find("/CHAIN") != std::string::npos) return "db";
	if (p.find(".log") != std::string::npos) return "db";
	return "other:" + p;
}
static std::string baseDir; static int seq = 0;
// runs f in a child; returns what it wrote and how it ended
struct Run { std::string out; int rc; };
static Run child(std::function<std::string()> f, int secs = 120)
{
	int p[2]; if (pipe(p)) abort();
	fflush(stdout);
	pid_t c = fork();
	if (c == 0) { close(p[0]); alarm(secs); std::string o; int rc = 0; try { o = f(); } catch (std::exception& e) { o = std::string("!exception ") + e.what(); rc = 3; } catch (...) { o = "!exception"; rc = 3; } ssize_t w = ::write(p[1], o.data(), o.size()); (void)w; close(p[1]); cp::S().armed = false; _exit(rc); }
	close(p[1]); Run r; char b[4096]; ssize_t k; while ((k = read(p[0], b, sizeof b)) > 0) r.out.append(b, k); close(p[0]);
	int st; waitpid(c, &st, 0); r.rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); return r;
}
static void makeBase()
{
	baseDir = vh::freshDir("base");
	Run r = child([&] { Node n(baseDir); for (size_t i = 1; i < base.size(); i++) { Res x = addBlock(n, *base[i]->full); if (x != OK) return vh::cat("base block ", i, " refused"); } n.close(); return std::string("ok"); });
	if (r.out != "ok") vh::fail("base", "cannot build the base chain: " + r.out);
}
static std::string observe(Node& n, const std::set<B>& allowed, std::string* tipName)
{
	Tip t = tipOf(n);
	if (t.hash.empty()) return "no confirmed tip";
	auto it = byHash.find(t.hash); if (it == byHash.end()) return "the confirmed tip is no known block";
	*tipName = it->second->name;
	if (!allowed.count(t.hash)) return "the confirmed tip was never accepted: " + it->second->name;
	auto c = chainOf(*it->second); std::vector<const Blk*> up(c.size() > 8 ? c.end() - 8 : c.begin(), c.end());
	std::string d = diffState(n, *it->second, up, all, &c); if (!d.empty()) return d + " (tip " + it->second->name + ")";
	return diffHeaderState(n, byHash);
}
static std::set<B> allowedOf()
{
	std::set<B> a; for (auto& b : base) a.insert(ref::bytes(b->hash()));
	for (auto& x : nb) a.insert(ref::bytes(x.second->hash())); return a;
}
// what a node that never crashed ends with
static BlkP best() { BlkP r = base.back(); for (auto& x : nb) if (x.second->diff() > r->diff()) r = x.second; return r; }
static std::string resume(Node& n)
{
	for (int round = 0; round < 3; round++) {
		for (size_t i = 1; i < base.size(); i++) if (i + 6 > base.size() || tipOf(n).height + 6 < base.size()) { addHeader(n, base[i]->header()); addBlock(n, *base[i]->full); }
		for (const char* b : { "A3", "F3" }) step(n, std::string("L") + b);
		for (int k = 0; k < 10; k++) { orphans(n); auto need = n.chain->GetBlocksNeeded(100); if (need.empty()) break; for (auto& q : need) { auto it = byHash.find(ref::bytes(q.second)); if (it != byHash.end()) addBlock(n, *it->second->full); } }
	}
	Tip t = tipOf(n); if (t.hash != ref::bytes(best()->hash())) { auto it = byHash.find(t.hash); return vh::cat("cannot be brought to the best tip again, stays at ", it == byHash.end() ? "?" : it->second->name, " height ", t.height); }
	std::string nm; return observe(n, { t.hash }, &nm);
}
// arm = how the crash is placed; returns the recorded operations when only recording
static std::vector<cp::Op> runOp(const std::string& dir, const Sc& s, std::function<void()> arm, int* rc)
{
	Run r = child([&] {
		auto on = [&] { cp::S().root = dir; cp::S().classify = classify; arm(); cp::S().armed = true; };
		if (s.op == "N") on();
		Node n(dir); for (auto& p : s.pre) step(n, p);
		if (s.op != "N") { on(); step(n, s.op); }
		cp::S().armed = false; n.close();
		std::string o; for (auto& x : cp::S().ops) o += x.cls + " " + x.what + " " + std::to_string(x.len) + "\n"; return o; });
	*rc = r.rc; std::vector<cp::Op> v; std::istringstream in(r.out); cp::Op o; while (in >> o.cls >> o.what >> o.len) v.push_back(o); return v;
}
// inside: the crash lies between the first and the last file operation of one commit
static void verify(const std::string& dir, const std::string& where, const std::string& inside)
{
	vh::S().states++;
	Run r = child([&]() -> std::string {
		std::string nm; std::unique_ptr<Node> n;
		try { n.reset(new Node(dir)); } catch (std::exception& e) { return std::string("open:the node cannot be opened: ") + e.what(); }
		std::string d; try { d = observe(*n, allowedOf(), &nm); } catch (std::exception& e) { d = std::string("reading the state throws ") + e.what(); }
		if (!d.empty()) { try { resume(*n); } catch (std::exception&) {} return "state:" + d; } // going on must not kill the node in any case
		try { d = resume(*n); } catch (std::exception& e) { d = std::string("going on throws ") + e.what(); }
		if (!d.empty()) return "resume:" + d;
		n->close(); return "ok " + nm; });
	std::string what = r.rc >= 1000 ? vh::cat("dies:the node dies with signal ", r.rc - 1000, " ", r.out) : r.out;
	vh::outcome(where.substr(0, 6) + what.substr(0, 30));
	if (getenv("CRASH_LOG")) printf("%s -> %s\n", where.c_str(), what.c_str());
	if (what.compare(0, 2, "ok") != 0) vh::fail((inside.empty() ? "crash:" : "inside-commit:" + inside + ":") + what.substr(0, what.find(':')), where + ": " + what);
	vh::S().traces++;
}
static std::string keyOf(const std::string& c) { return c.find(".chain") != std::string::npos ? "chain" : c; }
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	useDir(vh::freshDir("model")); build(); makeBase();
	auto par = [](const std::string& c) { return c == "kernel" || c == "output" || c == "rangeproof"; };
	for (auto& s : scenarios) {
		auto setup = [&](const std::string& d) { if (s.op != "N") copyTree(baseDir, d); };
		std::string d0 = vh::scratchDir("rec"); setup(d0);
		int rc; auto ops = runOp(d0, s, [] { cp::S().record = true; }, &rc); vh::rmtree(d0);
		if (rc != 0) { vh::fail("recording", s.name + vh::cat(" ended with ", rc)); continue; }
		if (getenv("CRASH_LOG")) for (auto& o : ops) printf("%s: %s %s %zu\n", s.name.c_str(), o.cls.c_str(), o.what.c_str(), o.len);
		vh::count("operations", ops.size());
		auto go = [&](const std::string& id, const std::string& where, const std::string& inside, std::function<void()> arm) {
			if (!vh::begin(id)) return;
			std::string d = vh::scratchDir(vh::cat("c", seq++)); setup(d); int rc2;
			runOp(d, s, arm, &rc2); vh::S().transitions++;
			if (rc2 != 99) vh::count("not-reached"); else verify(d, s.name + " " + where, inside);
			vh::rmtree(d);
		};
		bool two = false; for (auto& o : ops) if (o.cls != ops[0].cls) two = true; // a step that changes one store only is atomic
		std::map<std::string, long> before; // operations of each group before the present section
		for (size_t i = 0; i < ops.size();) {
			if (!par(ops[i].cls) || s.op == "C") {
				for (int torn = 0; torn < (ops[i].len > 1 ? 2 : 1); torn++)
					go(vh::cat(s.name, "|", i, torn ? "t" : ""), vh::cat(torn ? "in the middle of" : "before", " operation ", i, " (", ops[i].what, " ", ops[i].cls, ", after ", i ? ops[i - 1].cls : "start", ")"), two && (i > 0 || torn) ? keyOf(i ? ops[i - 1].cls : "start") + ">" + keyOf(ops[i].cls) : "", [=] { cp::S().at = (long)i; cp::S().torn = torn; });
				i++; continue;
			}
			std::map<std::string, long> in; size_t j = i; for (; j < ops.size() && par(ops[j].cls); j++) in[ops[j].cls]++;
			std::vector<std::string> g; for (auto& x : in) g.push_back(x.first);
			std::vector<long> k(g.size(), 0);
			for (;;) {
				bool full = true; int partial = 0; for (size_t q = 0; q < g.size(); q++) { if (k[q] < in[g[q]]) full = false; if (k[q] && k[q] < in[g[q]]) partial++; }
				if (!full && (vh::thorough() || partial <= 1)) {
					std::string w; for (size_t q = 0; q < g.size(); q++) w += vh::cat(q ? "," : "", k[q]);
					auto bf = before;
					go(vh::cat(s.name, "|", i, "p", w), vh::cat("with ", w, " of the operations on kernel, output, rangeproof files from ", i, " done"), std::string("files"), [=] { for (size_t q = 0; q < g.size(); q++) { auto it = bf.find(g[q]); cp::S().limit[g[q]] = k[q] + (it == bf.end() ? 0 : it->second); } });
				}
				size_t q = 0; for (; q < g.size(); q++) { if (++k[q] <= in[g[q]]) break; k[q] = 0; }
				if (q == g.size()) break;
			}
			for (auto& x : in) before[x.first] += x.second;
			i = j;
		}
	}
	// the process dies between steps: everything reported as done is still there
	std::vector<std::string> al = { "BA1", "BA2", "BF1", "BF2", "BF3", "LA3", "LF3" };
	int len = vh::thorough() ? 4 : 3; std::vector<int> ix;
	std::function<void()> rec = [&] {
		if (!ix.empty()) {
			std::string id = "steps"; for (int x : ix) id += "|" + al[x];
			if (vh::begin(id)) {
				std::string d = vh::scratchDir(vh::cat("c", seq++)); copyTree(baseDir, d);
				Run r = child([&] { Node n(d); for (int x : ix) { step(n, al[x]); orphans(n); } std::string t = tipOf(n).hash + tipOf(n, EChainType::CANDIDATE).hash; ssize_t w = ::write(1, "", 0); (void)w; std::string o = vh::hexv(t); fflush(stdout); int fd = ::open((d + ".tip").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); w = ::write(fd, o.data(), o.size()); _exit(98); return o; });
				vh::S().transitions += ix.size();
				if (r.rc != 98) vh::fail("dies", id + vh::cat(": ended with ", r.rc, " ", r.out));
				else {
					std::string want; { char b[300] = {0}; FILE* f = fopen((d + ".tip").c_str(), "r"); if (f) { size_t k = fread(b, 1, 299, f); want.assign(b, k); fclose(f); } unlink((d + ".tip").c_str()); }
					Run r2 = child([&] { Node n(d); return vh::hexv(tipOf(n).hash + tipOf(n, EChainType::CANDIDATE).hash); });
					if (r2.out != want) vh::fail("killed:tips-differ", id + ": chain or header tip differ after the process was killed");
					verify(d, "killed after " + id, "");
				}
				vh::rmtree(d);
			}
		}
		if ((int)ix.size() == len) return;
		for (size_t x = 0; x < al.size(); x++) { bool used = false; for (int y : ix) used |= y == (int)x; if (used) continue; ix.push_back((int)x); rec(); ix.pop_back(); }
	};
	rec();
	vh::fini(); _exit(0);
}
