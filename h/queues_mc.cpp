// C18: the queues, caches and tables shared between threads.  Every small program over them under every schedule (up to
// a preemption bound) and the race detector; the results must be those of some sequential order.
#include "explore.h"
#include <Common/ConcurrentQueue.h>
#include <Common/SharedQueue.h>
#include <Net/RateCounter.h>
#include <Core/Traits/Lockable.h>
#include "Crypto/BulletProofsCache.h"
#include "BlockChain/OrphanPool/OrphanPool.h"
#include <asio.hpp>
#include <Net/SocketAddress.h>
#include <P2P/Peer.h>
#include <Database/PeerDB.h>
#include <Core/Context.h>
#include <unordered_map>
#include <unordered_set>
#define private public
#include "P2P/Seed/PeerManager.h"
#undef private
#include "P2P/Seed/PeerManager.cpp"
#include <atomic>
#include <deque>
static std::atomic<int> clk{0};
struct Ev { int t, op, inv, ret; std::string res; };
static std::vector<Ev> hist[4];
// one operation: its effect on the real object, and on a sequential model given as a text state
struct Op { std::string n; std::function<std::string()> real; std::function<std::string(std::vector<std::string>&)> model; std::function<bool(const std::vector<std::string>&)> enabled; };
static std::vector<Op> ops;
static void add(const std::string& n, std::function<std::string()> r, std::function<std::string(std::vector<std::string>&)> m, std::function<bool(const std::vector<std::string>&)> e = nullptr) { ops.push_back(Op{ n, r, m, e }); }
static void run(int t, int o) { Ev e; e.t = t; e.op = o; e.inv = clk.fetch_add(1, std::memory_order_relaxed); e.res = ops[o].real(); e.ret = clk.fetch_add(1, std::memory_order_relaxed); hist[t].push_back(e); }
static bool lin(const std::vector<Ev>& evs, unsigned done, std::vector<std::string> st, const std::string& want)
{
	if (done == (1u << evs.size()) - 1) { std::string s; for (auto& x : st) s += x + ","; return want.empty() || s == want; }
	for (size_t i = 0; i < evs.size(); i++) if (!(done >> i & 1)) {
		bool first = true;
		for (size_t j = 0; j < evs.size(); j++) if (j != i && !(done >> j & 1) && evs[j].ret < evs[i].inv) first = false;
		if (!first) continue;
		if (ops[evs[i].op].enabled && !ops[evs[i].op].enabled(st)) continue;
		auto s2 = st;
		if (ops[evs[i].op].model(s2) != evs[i].res) continue;
		if (lin(evs, done | 1u << i, std::move(s2), want)) return true;
	}
	return false;
}
struct Subject { std::string n; std::function<void()> reset; std::vector<std::string> init; std::function<std::string()> content; };
static int idx(const std::string& n) { for (size_t i = 0; i < ops.size(); i++) if (ops[i].n == n) return (int)i; abort(); }
static void one(const Subject& s, const std::vector<std::vector<int>>& prog, int bound)
{
	std::string name = s.n; for (auto& t : prog) { name += " |"; for (int o : t) name += " " + ops[o].n; }
	if (!vh::begin(name)) return;
	std::vector<std::function<void()>> th;
	for (size_t t = 0; t < prog.size(); t++) th.push_back([&, t] { for (int o : prog[t]) run((int)t, o); });
	ex::program(th, bound, false, [&] { for (auto& h : hist) h.clear(); clk = 0; s.reset(); }, [&](const std::string& tr) {
		std::vector<Ev> evs; for (auto& h : hist) for (auto& e : h) evs.push_back(e);
		std::string c = s.content ? s.content() : "";
		if (!lin(evs, 0, s.init, c)) {
			std::string d; for (auto& e : evs) d += vh::cat(" [thread ", e.t, " ", ops[e.op].n, " -> ", e.res, " @", e.inv, "-", e.ret, "]");
			vh::fail(vh::cat("order-", s.n.substr(0, s.n.find('/'))), vh::cat("schedule ", tr, ": no sequential order gives these results:", d, " final ", c));
		}
		std::string sig = name; for (auto& e : evs) sig += e.res + ";"; vh::outcome(sig + c); vh::S().traces++;
	});
}
// all programs of the shapes used here over the operations of a subject
static void programs(const Subject& s, const std::vector<int>& all, const std::vector<int>& core, int bound, bool wide = true)
{
	bool T = vh::thorough();
	for (int i : all) for (int j : all) if (i <= j) one(s, { { i }, { j } }, bound);
	for (int i : T ? all : core) for (int j : T ? all : core) for (int k : T ? all : core) one(s, { { i, j }, { k } }, bound);
	if (T || wide) for (int i : core) for (int j : core) for (int k : core) for (int l : core) if (std::make_pair(i, j) <= std::make_pair(k, l)) one(s, { { i, j }, { k, l } }, bound);
	for (int i : T ? all : core) for (int j : T ? all : core) for (int k : T ? all : core) if (i <= j && j <= k) one(s, { { i }, { j }, { k } }, bound);
	if (T) for (int i : core) for (int j : core) for (int k : core) for (int l : core) for (int m : core) if (l <= m) one(s, { { i, j, k }, { l }, { m } }, bound);
}
static std::vector<int> pickOps(std::initializer_list<const char*> l) { std::vector<int> r; for (auto x : l) r.push_back(idx(x)); return r; }
static std::vector<int> allOps() { std::vector<int> r; for (size_t i = 0; i < ops.size(); i++) r.push_back((int)i); return r; }
static std::string S(const std::string& s) { return s; }
static std::string itm(int i) { return "a fairly long item number " + std::to_string(i); } // strings on the heap: a torn copy is a memory error
static std::string sh(const std::string& s) { return s.substr(s.rfind(' ') + 1); }

typedef std::vector<std::string> St;
static void concurrentQueue()
{
	static std::unique_ptr<ConcurrentQueue<std::string>> q; ops.clear();
	typedef std::function<bool(const std::string&, const std::string&)> Cmp;
	add("push1", [] { std::string v = itm(1); q->push_back(v); return S(""); }, [](St& s) { s.push_back("1"); return S(""); });
	add("push2", [] { q->push_back(itm(2)); return S(""); }, [](St& s) { s.push_back("2"); return S(""); });
	auto un = [](int k) { return [k] { Cmp c = [](const std::string& a, const std::string& b) { return a == b; }; return S(q->push_back_unique(itm(k), c) ? "new" : "known"); }; };
	auto um = [](int k) { return [k](St& s) { for (auto& x : s) if (x == std::to_string(k)) return S("known"); s.push_back(std::to_string(k)); return S("new"); }; };
	add("uniq1", un(1), um(1)); add("uniq7", un(7), um(7));
	add("pop1", [] { q->pop_front(1); return S(""); }, [](St& s) { if (s.size()) s.erase(s.begin()); return S(""); });
	add("pop2", [] { q->pop_front(2); return S(""); }, [](St& s) { for (int i = 0; i < 2; i++) if (s.size()) s.erase(s.begin()); return S(""); });
	add("front", [] { auto p = q->copy_front(); return p ? sh(*p) : S("none"); }, [](St& s) { return s.size() ? s[0] : S("none"); });
	add("front2", [] { std::string r; for (auto& x : ((const ConcurrentQueue<std::string>&)*q).copy_front(2)) r += sh(x) + " "; return r; }, [](St& s) { std::string r; for (size_t i = 0; i < s.size() && i < 2; i++) r += s[i] + " "; return r; });
	add("has1", [] { return S(q->contains(itm(1)) ? "y" : "n"); }, [](St& s) { for (auto& x : s) if (x == "1") return S("y"); return S("n"); });
	add("has7", [] { std::function<bool(const std::string&, const int&)> c = [](const std::string& a, const int& b) { return a == itm(b); }; int k = 7; return S(q->contains(k, c) ? "y" : "n"); }, [](St& s) { for (auto& x : s) if (x == "7") return S("y"); return S("n"); });
	add("size", [] { return std::to_string(q->size()); }, [](St& s) { return std::to_string(s.size()); });
	auto content = [] { std::string r; for (auto& x : ((const ConcurrentQueue<std::string>&)*q).copy_front(100)) r += sh(x) + ","; return r.empty() ? S("") : r; };
	Subject e{ "cqueue/empty", [] { q.reset(new ConcurrentQueue<std::string>()); }, {}, content }, f{ "cqueue/two", [] { q.reset(new ConcurrentQueue<std::string>()); q->push_back(itm(7)); q->push_back(itm(8)); }, { "7", "8" }, content };
	programs(e, allOps(), pickOps({ "push1", "uniq1", "pop1", "front" }), 3);
	programs(f, allOps(), pickOps({ "push2", "pop1", "front2", "size" }), 3);
}
static void sharedQueue()
{
	static std::unique_ptr<SharedQueue<std::string>> q; ops.clear();
	add("push1", [] { std::string v = itm(1); q->push_back(v); return S(""); }, [](St& s) { s.push_back("1"); return S(""); });
	add("push2", [] { q->push_back(itm(2)); return S(""); }, [](St& s) { s.push_back("2"); return S(""); });
	add("pop", [] { q->pop_front(); return S(""); }, [](St& s) { s.erase(s.begin()); return S(""); }, [](const St& s) { return !s.empty(); });
	add("front", [] { return sh(q->front()); }, [](St& s) { return s[0]; }, [](const St& s) { return !s.empty(); });
	add("size", [] { return std::to_string(q->size()); }, [](St& s) { return std::to_string(s.size()); });
	add("empty", [] { return S(q->empty() ? "y" : "n"); }, [](St& s) { return S(s.empty() ? "y" : "n"); });
	for (int k = 0; k <= 2; k++) {
		Subject s{ vh::cat("squeue/", k), [k] { q.reset(new SharedQueue<std::string>()); for (int i = 0; i < k; i++) q->push_back(itm(7 + i)); }, {}, [] { std::string r; while (q->size()) { r += sh(q->front()) + ","; q->pop_front(); } return r; } };
		for (int i = 0; i < k; i++) s.init.push_back(std::to_string(7 + i));
		// programs that end in every schedule: enough items for every thread, and front only where nobody else takes items
		auto fits = [&](const std::vector<std::vector<int>>& p) {
			int push = k, pop = 0, poppers = 0; bool frontElse = false;
			for (size_t t = 0; t < p.size(); t++) { int own = 0; bool fr = false; for (int o : p[t]) { if (o < 2) push++; if (o == 2) { pop++; own++; } if (o == 3) fr = true; } if (own) poppers++; for (size_t u = 0; fr && u < p.size(); u++) if (u != t) for (int o : p[u]) if (o == 2 || o == 3) frontElse = true; }
			if (pop > push || frontElse) return false;
			// a thread that takes before it puts, waiting for another that does the same, would wait for ever: that is the program's fault
			std::vector<size_t> at(p.size(), 0); int have = k; bool moved = true;
			while (moved) { moved = false; for (size_t t = 0; t < p.size(); t++) while (at[t] < p[t].size()) { int o = p[t][at[t]]; if (o == 2 || o == 3) { if (have == 0) break; if (o == 2) have--; } if (o < 2) have++; at[t]++; moved = true; } }
			for (size_t t = 0; t < p.size(); t++) if (at[t] < p[t].size()) return false;
			// fair for every order: the worst order lets pops go first; with several taking threads that also put later it may starve, so require puts first there
			if (poppers > 1) for (auto& t : p) { bool popped = false; for (int o : t) { if (o == 2) popped = true; if (o < 2 && popped) return false; } }
			// fronts need an item at their moment whatever was taken before: only the taking thread's own order matters
			for (auto& t : p) { int own = 0; for (int o : t) { if (o == 2) own++; if (o == 3 && push - own <= 0) return false; } }
			return true;
		};
		auto tryP = [&](const std::vector<std::vector<int>>& p) { if (fits(p)) one(s, p, 3); };
		int n = (int)ops.size(); bool T = vh::thorough();
		for (int i = 0; i < n; i++) for (int j = i; j < n; j++) tryP({ { i }, { j } });
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int l = 0; l < n; l++) { tryP({ { i, j }, { l } }); for (int m = 0; m < n; m++) if (T || i < 4) tryP({ { i, j }, { l, m } }); }
		for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (int l = j; l < n; l++) tryP({ { i }, { j }, { l } });
		if (T) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int l = 0; l < n; l++) for (int m = l; m < n; m++) tryP({ { i, j }, { l }, { m } });
	}
}
static Commitment comm(int k) { std::vector<unsigned char> v(33, (unsigned char)k); v[0] = 8; v[1] = k >> 8; return Commitment(CBigInteger<33>(v)); }
static void proofCache()
{
	static std::unique_ptr<BulletProofsCache> c; ops.clear();
	for (int k : { 1, 2 }) {
		add(vh::cat("add", k), [k] { c->AddToCache(comm(k)); return S(""); }, [k](St& s) { s.push_back(std::to_string(k)); return S(""); });
		add(vh::cat("has", k), [k] { return S(c->WasAlreadyVerified(comm(k)) ? "y" : "n"); }, [k](St& s) { for (auto& x : s) if (x == std::to_string(k)) return S("y"); return S("n"); });
	}
	// what was added lately is known, what never was is not (how old entries leave is the cache's business)
	Subject e{ "proofs/empty", [] { c.reset(new BulletProofsCache()); }, {}, nullptr };
	programs(e, allOps(), allOps(), 3);
	static std::unique_ptr<BulletProofsCache> full;
	Subject f{ "proofs/full", [] { if (!full) { full.reset(new BulletProofsCache()); for (int i = 0; i < 3000; i++) full->AddToCache(comm(300 + i)); } static int gen = 0; gen++; c.reset(); c.swap(full); }, {}, nullptr };
	// a full cache: only programs that add (the cache is reused, so reads of 1 and 2 could see earlier programs)
	auto addsAndReads = pickOps({ "add1", "add2" });
	auto reset = f.reset; f.reset = [reset] { if (c && !full) full.swap(c); reset(); };
	for (int i : addsAndReads) for (int j : addsAndReads) for (int k : addsAndReads) one(f, { { i, j }, { k } }, 3);
}
static void rate()
{
	static std::unique_ptr<RateCounter> c; ops.clear();
	add("recv", [] { c->AddMessageReceived(); return S(""); }, [](St& s) { s[0] += "x"; return S(""); });
	add("sent", [] { c->AddMessageSent(); return S(""); }, [](St& s) { s[1] += "x"; return S(""); });
	add("#recv", [] { return std::to_string(c->GetReceivedInLastMinute()); }, [](St& s) { return std::to_string(s[0].size()); });
	add("#sent", [] { return std::to_string(c->GetSentInLastMinute()); }, [](St& s) { return std::to_string(s[1].size()); });
	Subject e{ "rate/new", [] { c.reset(new RateCounter()); }, { "", "" }, nullptr };
	programs(e, allOps(), allOps(), 3);
}
static BlockHeaderPtr hdr(int h, int n) { return std::make_shared<BlockHeader>(BlockHeader(1, h, 1000 + n, Hash(CBigInteger<32>::ValueOf((unsigned char)(h * 16 + n - 16))), Hash::ValueOf(2), Hash::ValueOf(3), Hash::ValueOf(4), Hash::ValueOf(5), BlindingFactor(CBigInteger<32>::ValueOf(1)), 1, 1, 10, 1, 7, ProofOfWork(29, std::vector<uint64_t>(42, n)))); }
static void orphans()
{
	static std::shared_ptr<OrphanPool> p; static std::unique_ptr<Locked<OrphanPool>> L; ops.clear();
	static std::vector<FullBlock>* B = new std::vector<FullBlock>(); static std::vector<Hash>* H = new std::vector<Hash>();
	if (B->empty()) for (int i = 0; i < 3; i++) { auto h = hdr(i < 2 ? 5 : 6, i); B->push_back(FullBlock(h, TransactionBody())); H->push_back(h->GetHash()); }
	auto S1 = [](St& s, const std::string& x) { for (size_t i = 0; i < s.size(); i++) if (s[i] == x) return (int)i; return -1; };
	for (int k = 0; k < 3; k++) {
		std::string b = vh::cat("b", k), hd = vh::cat("h", k); uint64_t ht = (*B)[k].GetHeight();
		add("add" + b, [k] { L->Write()->AddOrphanBlock((*B)[k]); return S(""); }, [=](St& s) { if (S1(s, b) < 0) s.push_back(b); if (S1(s, hd) < 0) s.push_back(hd); return S(""); });
		if (k < 2) add("del" + b, [k, ht] { L->Write()->RemoveOrphan(ht, (*H)[k]); return S(""); }, [=](St& s) { int i = S1(s, b); if (i >= 0) s.erase(s.begin() + i); return S(""); });
		if (k < 2) add("is" + b, [k, ht] { return S(L->Read()->IsOrphan(ht, (*H)[k]) ? "y" : "n"); }, [=](St& s) { return S(S1(s, b) >= 0 ? "y" : "n"); });
		if (k < 1) add("get" + b, [k, ht] { auto r = L->Read()->GetOrphanBlock(ht, (*H)[k]); return S(r && r->GetHash() == (*H)[k] ? "y" : r ? "wrong" : "n"); }, [=](St& s) { return S(S1(s, b) >= 0 ? "y" : "n"); });
		if (k < 1) add("head" + b, [k] { auto r = L->Read()->GetOrphanHeader((*H)[k]); return S(r && r->GetHash() == (*H)[k] ? "y" : r ? "wrong" : "n"); }, [=](St& s) { return S(S1(s, hd) >= 0 ? "y" : "n"); });
	}
	Subject e{ "orphans/empty", [] { p = std::make_shared<OrphanPool>(); L.reset(new Locked<OrphanPool>(p)); }, {}, nullptr };
	programs(e, allOps(), pickOps({ "addb0", "delb0", "headb0", "isb0" }), 2, false);
	Subject f{ "orphans/two", [] { p = std::make_shared<OrphanPool>(); L.reset(new Locked<OrphanPool>(p)); p->AddOrphanBlock((*B)[0]); p->AddOrphanBlock((*B)[1]); }, { "b0", "h0", "b1", "h1" }, nullptr };
	programs(f, allOps(), pickOps({ "addb2", "delb0", "getb0", "headb0" }), 2, false);
}
struct MemDB : public IPeerDB {
	std::map<std::string, std::string> m;
	std::vector<PeerPtr> LoadAllPeers() const override { return {}; }
	std::optional<PeerPtr> GetPeer(const IPAddress&, const std::optional<uint16_t>&) const override { return std::nullopt; }
	void SavePeers(const std::vector<PeerPtr>& v) override { for (auto& p : v) { Serializer s; p->Serialize(s); m[p->GetIPAddress().Format()] = std::string((const char*)s.data(), s.size()); } }
	void DeletePeers(const std::vector<PeerPtr>& v) override { for (auto& p : v) m.erase(p->GetIPAddress().Format()); }
	void Commit() override {} void Rollback() noexcept override {}
};
static void peers()
{
	static std::shared_ptr<Context> ctx = std::make_shared<Context>(Environment::AUTOMATED_TESTING, nullptr, std::make_shared<Bosma::Scheduler>(1));
	static std::shared_ptr<MemDB> db; static std::shared_ptr<Locked<IPeerDB>> ldb; static std::unique_ptr<Locked<PeerManager>> L; static PeerPtr A; ops.clear();
	static IPAddress a = IPAddress::Parse("10.0.0.1"), b = IPAddress::Parse("10.0.0.2");
	auto has = [](St& s, const std::string& x) { for (auto& y : s) if (y == x) return true; return false; };
	auto put = [=](St& s, const std::string& x) { if (!has(s, x)) s.push_back(x); };
	auto del = [](St& s, const std::string& x) { for (size_t i = 0; i < s.size(); i++) if (s[i] == x) { s.erase(s.begin() + i); return; } };
	add("get-b", [] { auto p = L->Write()->GetPeer(b); return S(p && p->GetIPAddress() == b ? "ok" : "no"); }, [=](St& s) { put(s, "b"); return S("ok"); });
	add("fresh", [] { L->Write()->AddFreshPeers({ SocketAddress(a, 1), SocketAddress(b, 2) }); return S(""); }, [=](St& s) { put(s, "b"); return S(""); });
	add("ban-a", [] { L->Write()->BanPeer(a, EBanReason::BadBlock); return S(""); }, [=](St& s) { put(s, "A"); return S(""); });
	add("ban-b", [] { L->Write()->BanPeer(b, EBanReason::BadBlock); return S(""); }, [=](St& s) { put(s, "b"); put(s, "B"); return S(""); });
	add("unban-a", [] { L->Write()->UnbanPeer(a); return S(""); }, [=](St& s) { del(s, "A"); return S(""); });
	add("banned-a", [] { return S(A->IsBanned() ? "y" : "n"); }, [=](St& s) { return S(has(s, "A") ? "y" : "n"); });
	add("all", [] { return std::to_string(L->Read()->GetPeers(Capabilities::UNKNOWN, 10).size()); }, [=](St& s) { return std::to_string(1 + (has(s, "b") ? 1 : 0)); });
	add("save", [] { auto w = L->Write(); PeerManager::Thread_ManagePeers(*w.GetShared()); return S(""); }, [=](St& s) { return S(""); });
	// what the handshake and the answers of a peer do to it, on their own threads
	add("agent", [] { A->UpdateUserAgent("a rather long user agent string of this peer"); A->UpdateVersion(3); A->UpdateCapabilities(Capabilities::FAST_SYNC_NODE); A->UpdateLastContactTime(); A->SetConnected(true); return S(""); }, [=](St&) { return S(""); });
	add("json", [] { auto r = L->Read(); std::string s; for (auto& p : r->GetAllPeers()) s += p->ToJSON()["user_agent"].asString(); return S(s.empty() || s == "Grin++ a long name for a peer" || s == "a rather long user agent string of this peer" ? "ok" : s); }, [](St&) { return S("ok"); });
	Subject e{ "peers/one", [] { L.reset(); db = std::make_shared<MemDB>(); ldb = std::make_shared<Locked<IPeerDB>>(db); auto m = std::shared_ptr<PeerManager>(new PeerManager(ctx, ldb)); A = m->GetPeer(a); A->UpdateUserAgent("Grin++ a long name for a peer"); A->UpdateLastContactTime(); A->SetConnected(false); L.reset(new Locked<PeerManager>(m)); }, {}, nullptr };
	programs(e, allOps(), pickOps({ "ban-a", "unban-a", "save", "agent" }), 2, false);
}
VH_MAIN({
	concurrentQueue(); sharedQueue(); proofCache(); rate(); orphans(); peers();
})
