// Explores delivery histories of small block trees on a real node (C01, C03, C04).
#include "tree.h"
using namespace ch;
static Session ses;

struct Watch {
	Session& s; const std::map<B, BlkP>& by; uint64_t lastDiff; std::string log;
	std::string prop = vh::S().prop;
	void step(const std::string& what)
	{
		vh::S().transitions++;
		Node& n = *s.node;
		Tip t = tipOf(n);
		auto it = by.find(t.hash);
		if (it == by.end()) { vh::fail("unknown-tip", log + what + ": confirmed tip is no block of the tree"); return; }
		if (t.diff < lastDiff) vh::fail("difficulty-decreased", log + what + vh::cat(": confirmed difficulty fell from ", lastDiff, " to ", t.diff));
		lastDiff = std::max(lastDiff, t.diff);
		auto c = chainOf(*it->second);
		// only the part above the shared base can differ: look at the last 12 blocks in full detail
		std::vector<const Blk*> up(c.size() > 12 ? c.end() - 12 : c.begin(), c.end());
		std::string d = diffState(n, *it->second, up, s.all, &c);
		if (!d.empty()) vh::fail("state:" + d.substr(0, 40), log + what + ": " + d);
		d = diffHeaderState(n, by);
		if (!d.empty()) vh::fail("headers:" + d.substr(0, 40), log + what + ": " + d);
		vh::outcome(vh::cat(t.height - s.tip->height(), ":", tipOf(n, EChainType::CANDIDATE).height - s.tip->height(), ":", resName(last)));
		log += what + " ";
	}
	int last = 0;
};
static BlkP find(const std::string& h) { auto it = ses.byHash.find(h); return it == ses.byHash.end() ? nullptr : it->second; }

// honest peers go on: headers of every branch in chain order, then whatever the node asks for
static void fairSync(Node& n, const std::vector<BlkP>& b, Watch* w)
{
	for (int round = 0; round < 4; round++) {
		for (auto& x : b) { std::vector<BlockHeaderPtr> hs; for (const Blk* p = x.get(); p && p != ses.tip.get(); p = p->parent.get()) hs.insert(hs.begin(), p->header()); int r = addHeaders(n, hs); if (w) w->last = r; }
		for (int k = 0; k < 12; k++) {
			orphans(n);
			auto need = n.chain->GetBlocksNeeded(100);
			if (need.empty()) break;
			bool any = false;
			for (auto& q : need) { BlkP x = find(ref::bytes(q.second)); if (x) { Tip a = tipOf(n); int r = addBlock(n, *x->full); if (w) w->last = r; orphans(n); if (tipOf(n).hash != a.hash || r == OK || r == ORPHAN) any = true; } }
			if (!any) break;
		}
	}
	if (w) w->step("sync");
}
static void deliver(Node& n, const std::vector<BlkP>& b, const std::vector<int>& perm, char mode, Watch& w, int restartAt)
{
	int k = 0;
	auto ev = [&](const std::string& nm, int r) {
		w.last = r; orphans(n); w.step(nm + "=" + resName(r));
		if (k++ == restartAt || restartAt == -2) {
			n.restart(); w.step("restart");
		}
	};
	auto H = [&](int i) { ev(vh::cat("H", i), addHeader(n, b[i]->header())); };
	auto BL = [&](int i) { ev(vh::cat("B", i), addBlock(n, *b[i]->full)); };
	auto branch = [&](int i) { std::vector<BlockHeaderPtr> hs; for (const Blk* p = b[i].get(); p && p != ses.tip.get(); p = p->parent.get()) hs.insert(hs.begin(), p->header()); ev(vh::cat("HS", i), addHeaders(n, hs)); };
	switch (mode) {
	case 'B': for (int i : perm) BL(i); break;
	case 'A': for (size_t i = 0; i < b.size(); i++) branch((int)i); for (int i : perm) BL(i); break;
	case 'I': for (int i : perm) { H(i); BL(i); } break;
	case 'R': for (int i : perm) H(i); for (auto i = perm.rbegin(); i != perm.rend(); ++i) BL(*i); break;
	case 'D': for (int i : perm) { BL(i); BL(i); H(i); } break;
	case 'S': for (int i : perm) { branch(i); BL(i); } break;
	}
}
static void runCase(const std::string& id, const TreeSpec& t, const std::vector<int>& perm, char mode, int restartAt, int* events = nullptr)
{
	int viol0 = vh::S().violations;
	ses.begin(vh::S().replay);
	auto b = buildTree(ses, t);
	Node& n = *ses.node;
	Watch w{ ses, ses.byHash, ses.tip->diff(), "" };
	deliver(n, b, perm, mode, w, restartAt);
	fairSync(n, b, &w);
	uint64_t best = ses.tip->diff(); for (auto& x : b) best = std::max(best, x->diff());
	Tip tp = tipOf(n);
	vh::S().states++; vh::S().traces++;
	if (tp.diff != best) vh::fail("not-heaviest", vh::cat(id, " ", w.log, ": after everything was delivered the tip has difficulty +", tp.diff - ses.tip->diff(), ", best branch +", best - ses.tip->diff()));
	BlkP end = find(tp.hash);
	// a block on top of the winner is accepted
	if (end && tp.diff == best) {
		BlkP z = mine(end, ses.prefix() + "z", {}, {}); reg(z->coinbase); ses.remember(z);
		int r = addBlock(n, *z->full);
		if (r != OK) vh::fail("next-block-refused", vh::cat(id, " ", w.log, ": a valid block on the final tip was refused: ", resName(r)));
		else { ses.settle(z); w.log += "Z "; w.step("next"); }
	} else ses.used = ses.maxUse;
	if (vh::S().violations != viol0) ses.used = ses.maxUse;
}
// every sequence of restarts, headers and blocks on a node that is new
static void freshCases(int depth)
{
	BlkP g = genesis(); BlkOpt w2; w2.addDiff = 4;
	std::vector<BlkP> A, F; A.push_back(mine(g, "fa1")); A.push_back(mine(A[0], "fa2")); A.push_back(mine(A[1], "fa3")); F.push_back(mine(g, "ff1", {}, w2)); F.push_back(mine(F[0], "ff2"));
	std::map<B, BlkP> by; std::set<B> all; by[ref::bytes(g->hash())] = g;
	for (auto& v : { A, F }) for (auto& b : v) { by[ref::bytes(b->hash())] = b; for (auto& o : b->full->GetOutputs()) all.insert(ref::bytes(o.GetCommitment())); }
	for (auto& o : g->full->GetOutputs()) all.insert(ref::bytes(o.GetCommitment()));
	const std::string alpha = "RhbfgH"; int seq = 0;
	std::function<void(std::string)> rec = [&](std::string ops) {
		if (ops.find('R') != ops.npos && vh::begin("fresh|" + ops)) {
			std::string d = vh::freshDir(vh::cat("fresh", seq++)); useDir(d); std::string log;
			{
				Node n(d); size_t nh = 0, nb = 0; uint64_t diff = 0;
				auto look = [&](const std::string& what) {
					vh::S().transitions++;
					Tip t = tipOf(n); auto it = by.find(t.hash); if (it == by.end()) { vh::fail("unknown-tip", log + what + ": confirmed tip is no known block"); return; }
					if (t.diff < diff) vh::fail("difficulty-decreased", log + what + ": confirmed difficulty fell"); diff = std::max(diff, t.diff);
					auto c = chainOf(*it->second); std::vector<const Blk*> up(c.begin(), c.end());
					std::string e = diffState(n, *it->second, up, all, &c); if (!e.empty()) vh::fail("state:" + e.substr(0, 40), log + what + ": " + e);
					e = diffHeaderState(n, by); if (!e.empty()) vh::fail("headers:" + e.substr(0, 40), log + what + ": " + e);
					log += what + " ";
				};
				for (char c : ops) {
					if (c == 'R') n.restart(); else if (c == 'h') { if (nh < 3) addHeader(n, A[nh++]->header()); } else if (c == 'b') { if (nb < 3) addBlock(n, *A[nb++]->full); }
					else if (c == 'f') addBlock(n, *F[0]->full); else if (c == 'g') addBlock(n, *F[1]->full); else if (c == 'H') addHeaders(n, { F[0]->header(), F[1]->header() });
					orphans(n); look(std::string(1, c));
				}
				for (auto& b : A) { addBlock(n, *b->full); orphans(n); } for (auto& b : F) { addBlock(n, *b->full); orphans(n); } for (auto& b : A) { addBlock(n, *b->full); orphans(n); }
				look("all"); n.restart(); look("restart");
				if (tipOf(n).hash != ref::bytes(F[1]->hash())) vh::fail("not-heaviest", log + "the heaviest branch was not adopted");
				vh::S().states++; vh::S().traces++;
			}
			vh::rmtree(d);
		}
		if ((int)ops.size() < depth) for (char c : alpha) rec(ops + c);
	};
	rec("");
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	const std::string prop = vh::S().prop;
	bool th = vh::thorough();
	struct Space { int n; std::vector<int> adds; std::string schemes, modes; std::vector<int> restarts; };
	std::vector<Space> sp;
	if (prop == "C01" || prop == "C03") {
		std::string sch = prop == "C01" ? "cs" : "ksu";
		if (prop == "C01") {
			sp.push_back({ 1, {1, 3}, sch, "BAIRDS", {-1} }); sp.push_back({ 2, {1, 3}, sch, "BAIRDS", {-1} }); sp.push_back({ 3, {1, 3}, "c", "BAIRDS", {-1} });
			sp.push_back({ 4, {1, 3}, "c", th ? "BAIRDS" : "BA", {-1} });
			if (th) { sp.push_back({ 3, {1, 2, 4}, "s", "BAIRDS", {-1} }); sp.push_back({ 5, {1, 2}, "c", "BA", {-1} }); }
		} else {
			sp.push_back({ 2, {1, 3}, sch, "BA", {-1} }); sp.push_back({ 3, {1, 3}, sch, "BAI", {-1} }); sp.push_back({ 4, {1, 2}, "k", "A", {-1} });
			if (th) { sp.push_back({ 4, {1, 3}, "ksu", "BAIR", {-1} }); sp.push_back({ 5, {1, 2}, "k", "A", {-1} }); }
		}
	} else { // C04
		sp.push_back({ 2, {1, 3}, "k", "BA", {-2} });
		sp.push_back({ 3, {1, 3}, "k", "BA", {0, 1, 2, 3, 4, 5} });
		if (th) sp.push_back({ 4, {1, 2}, "s", "BAI", {0, 1, 2, 3, 4, 5, 6, 7} });
	}
	for (auto& s : sp) for (char sc : s.schemes) {
		auto trees = allTrees(s.n, s.adds, sc);
		for (auto& t : trees) {
			std::vector<int> perm; for (int i = 0; i < s.n; i++) perm.push_back(i);
			do {
				std::string ps; for (int i : perm) ps += (char)('0' + i);
				for (char m : s.modes) for (int r : s.restarts) {
					int events = m == 'B' || m == 'A' ? (m == 'A' ? 2 * s.n : s.n) : 3 * s.n; if (r >= events) continue;
					std::string id = t.str() + "|" + m + "|" + ps + "|" + std::to_string(r);
					if (!vh::begin(id)) continue;
					runCase(id, t, perm, m, r);
				}
			} while (std::next_permutation(perm.begin(), perm.end()));
		}
	}
	if (prop == "C04") { ses.node.reset(); freshCases(th ? 4 : 3); }
	ses.node.reset();
	vh::fini(); _exit(0);
}
