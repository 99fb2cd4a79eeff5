// C11: the real transaction pool, chain and dandelion monitor; the monitor runs when the explorer lets it, the clock,
// the coin and the relay's answers are the explorer's.
#include "txs.h"
#include "ctl.h"
#include "P2P/Dandelion.cpp"
#include <Crypto/CSPRNG.h>
using namespace ch;
namespace net {
static bool peersOn = true, sendOk = true;
static std::vector<PeerPtr>& peers() { static std::vector<PeerPtr> p = { std::make_shared<Peer>(IPAddress::Parse("10.0.0.1")), std::make_shared<Peer>(IPAddress::Parse("10.0.0.2")), std::make_shared<Peer>(IPAddress::Parse("10.0.0.3")) }; return p; }
struct Sent { bool stem; bool ok; std::set<B> k; };
static std::vector<Sent> sent;
static void record(const IMessage& m, bool toOne, bool ok)
{
	Sent s; s.ok = ok;
	if (m.GetMessageType() == MessageTypes::StemTransaction) { s.stem = true; s.k = kersOf(*((const StemTransactionMessage&)m).GetTransaction()); if (!toOne) vh::fail("stem-broadcast", "a stem message is broadcast"); }
	else if (m.GetMessageType() == MessageTypes::TransactionMsg) { s.stem = false; s.k = kersOf(*((const TransactionMessage&)m).GetTransaction()); }
	else { s.stem = false; vh::count("other-message"); return; }
	sent.push_back(s);
}
}
ConnectionManager::ConnectionManager() : m_connections(std::make_shared<std::vector<ConnectionPtr>>()), m_numOutbound(0), m_numInbound(0) {}
ConnectionManager::~ConnectionManager() {}
std::shared_ptr<ConnectionManager> ConnectionManager::Create() { return std::shared_ptr<ConnectionManager>(new ConnectionManager()); }
std::vector<PeerPtr> ConnectionManager::GetMostWorkPeers() const { return net::peersOn ? net::peers() : std::vector<PeerPtr>(); }
bool ConnectionManager::SendMessageToPeer(const IMessage& m, PeerConstPtr p) { net::record(m, true, net::sendOk); return net::sendOk; }
PeerPtr ConnectionManager::SendMessageToMostWorkPeer(const IMessage& m) { net::record(m, true, net::sendOk); return net::sendOk ? net::peers()[0] : nullptr; }
void ConnectionManager::BroadcastMessage(const IMessage& m, const uint64_t) { net::record(m, false, true); }

static Session ses;
static std::shared_ptr<ConnectionManager> conns;
static std::shared_ptr<Dandelion> dandelion;
static unsigned coinStem, coinFluff, extra0, extra30;
static void findSeeds()
{
	ctl::fixedSeed = true; bool a = false, b = false, c = false, d = false;
	for (unsigned i = 1; i < 20000 && !(a && b && c && d); i++) { ctl::seed = i; auto v = CSPRNG::GenerateRandom(0, 100); if (!a && v < 20) { coinStem = i; a = true; } if (!b && v > 95) { coinFluff = i; b = true; } auto e = CSPRNG::GenerateRandom(0, 30); if (!c && e == 0) { extra0 = i; c = true; } if (!d && e == 30) { extra30 = i; d = true; } }
}
static void up(bool fresh)
{
	ctl::fixedSeed = false;
	if (fresh || !ses.node || ses.used >= ses.maxUse) {
		if (dandelion) { ctl::offset += 30; ctl::release(); dandelion.reset(); ctl::grants = ctl::parked = 0; }
		ses.used = ses.maxUse; ses.begin();
		ctl::park = true;
		if (!conns) conns = ConnectionManager::Create();
		dandelion = Dandelion::Create(Global::GetConfig(), *conns, ses.node->chain, ses.node->mgr, ses.node->pool, ses.node->db->GetBlockDB());
		if (!ctl::waitParked()) { fprintf(stderr, "the dandelion monitor does not sleep\n"); _exit(3); }
	} else ses.begin();
	ctl::fixedSeed = true;
}
struct Ent { char c; TransactionPtr tx; int64_t born; bool fluff; bool stemmed = false; };
struct World {
	BlkP base, tip; std::string px, log; std::map<char, TransactionPtr> tx; int nb = 0;
	std::vector<TransactionPtr> mem; std::vector<Ent> stem; std::set<char> accepted; int64_t now = 0;
	std::set<B> mined;
	std::set<B> pubK() const { std::set<B> r; for (auto& t : mem) for (auto& k : kersOf(*t)) r.insert(k); return r; }
	bool okMem(const Transaction& t) const { if (!fits(t, tip)) return false; for (auto& m : mem) if (clash(*m, t)) return false; return true; }
	World()
	{
		base = tip = ses.tip; px = ses.prefix(); auto& P = ses.plain;
		tx['a'] = sp({ P[0] }, { { px + "A1", 3000000000ull }, { px + "A2", 0 } }, nullptr, px + "oa");
		tx['b'] = sp({ P[0] }, { { px + "B1", 0 } }, nullptr, px + "ob");
		tx['c'] = sp({ P[1] }, { { px + "C1", 0 } });
		tx['d'] = sp({ P[2] }, { { px + "D1", 0 } }, nullptr, px + "od");
		ctl::offset += 2000; ctl::seed = extra0; net::peersOn = true; net::sendOk = true; net::sent.clear(); ctl::grant(); net::sent.clear(); // forget the relay of the case before
	}
	std::string names(const std::set<B>& k) const { std::string s; for (auto& x : tx) if (meet(kersOf(*x.second), k)) s += x.first; return s; }
	void arrive(char c, EPoolType type, unsigned coin)
	{
		TransactionPtr t = tx.at(c); bool ok = okMem(*t);
		if (type == EPoolType::STEMPOOL) for (auto& e : stem) if (clash(*e.tx, *t)) ok = false;
		ctl::seed = coin;
		bool got = ses.node->chain->AddTransaction(wireTx(t), type) == EBlockChainStatus::SUCCESS;
		log += vh::cat(type == EPoolType::STEMPOOL ? (coin == coinStem ? "stem-" : "stemfluff-") : "public-", c, got ? "+ " : "- ");
		if (got != ok) { vh::fail(vh::cat(got ? "accepted-" : "refused-", c), vh::cat("after ", log, got ? ": accepted though it does not fit" : ": refused though it fits")); return; }
		if (!ok) return;
		accepted.insert(c);
		if (type == EPoolType::STEMPOOL) stem.push_back({ c, t, now, coin != coinStem });
		else { mem.push_back(t); for (size_t i = 0; i < stem.size(); i++) if (stem[i].c == c) { stem.erase(stem.begin() + i); break; } }
	}
	static std::set<B> uni(const std::vector<Ent*>& v) { std::set<B> r; for (auto* e : v) for (auto& k : kersOf(*e->tx)) r.insert(k); return r; }
	std::vector<Ent*> greedy(bool fluff) { std::vector<Ent*> v; for (auto& e : stem) { if (e.fluff != fluff || e.stemmed) continue; bool ok = okMem(*e.tx); for (auto* x : v) if (clash(*x->tx, *e.tx)) ok = false; if (ok) v.push_back(&e); } return v; }
	TransactionPtr agg(const std::vector<Ent*>& v) { TransactionPtr t = v[0]->tx; for (size_t i = 1; i < v.size(); i++) t = merge(t, v[i]->tx); return t; }
	void tick(const char* nm, int64_t dt, bool peersOn, bool ok, unsigned extra)
	{
		log += vh::cat(nm, " "); now += dt; ctl::offset += dt; net::peersOn = peersOn; net::sendOk = ok; net::sent.clear(); ctl::seed = extra;
		if (!ctl::grant()) { vh::fail("monitor-stuck", vh::cat("after ", log, ": the dandelion monitor does not come back to sleep")); _exit(9); }
		// what is expected to leave the node in this run
		std::vector<net::Sent> exp;
		bool relayKnown = peersOn || hadPeers; if (peersOn) hadPeers = true;
		if (relayKnown) {
			auto v = greedy(false);
			if (!v.empty()) {
				exp.push_back({ true, ok, uni(v) }); auto t = agg(v);
				for (auto* e : v) e->stemmed = true;
				if (!ok) { mem.push_back(t); exp.push_back({ false, true, uni(v) }); }
			}
		}
		{ auto v = greedy(true); if (!v.empty()) { exp.push_back({ false, true, uni(v) }); mem.push_back(agg(v)); std::set<char> gone; for (auto* e : v) gone.insert(e->c); std::vector<Ent> ns; for (auto& e : stem) if (!(gone.count(e.c) && e.fluff)) ns.push_back(e); stem = ns; } }
		std::vector<Ent> ns;
		for (auto& e : stem) {
			int64_t age = now - e.born; bool pub = false;
			if (age > 212) pub = true;
			else if (age >= 179) { for (auto& s : net::sent) if (!s.stem && s.k == kersOf(*e.tx)) pub = true; }
			if (pub && okMem(*e.tx)) { exp.push_back({ false, true, kersOf(*e.tx) }); mem.push_back(e.tx); } else ns.push_back(e);
		}
		stem = ns;
		auto show = [&](const std::vector<net::Sent>& v) { std::string s; for (auto& x : v) s += vh::cat(x.stem ? (x.ok ? "relay{" : "relay-failed{") : "broadcast{", names(x.k), "} "); return s.empty() ? std::string("nothing") : s; };
		bool same = exp.size() == net::sent.size(); for (size_t i = 0; same && i < exp.size(); i++) same = exp[i].stem == net::sent[i].stem && exp[i].k == net::sent[i].k;
		if (!same) vh::fail(vh::cat("sent-", show(net::sent), "not-", show(exp)), vh::cat("after ", log, ": the node sent ", show(net::sent), " but the pending transactions call for ", show(exp)));
		vh::outcome(show(net::sent) + nm);
	}
	bool hadPeers = true; // the run before the case had peers; the relay stays chosen for 600 s
	void block(const char* nm, const std::vector<char>& w)
	{
		log += vh::cat(nm, " ");
		std::vector<TransactionPtr> v; for (char c : w) if (fits(*tx[c], tip)) v.push_back(tx[c]);
		BlkOpt o; o.addDiff = 5; BlkP b = mine(tip, px + "b" + std::to_string(nb++), v, o); reg(b->coinbase); ses.remember(b);
		if (addBlock(*ses.node, *b->full) != OK) { vh::fail("block-refused", "after " + log); return; }
		tip = b;
		std::set<B> bi, bk; for (auto& i : b->full->GetInputs()) bi.insert(ref::bytes(i.GetCommitment())); for (auto& k : b->full->GetKernels()) bk.insert(ref::bytes(k.GetHash()));
		for (auto& t : v) for (auto& k : kersOf(*t)) mined.insert(k);
		auto keep = [&](const Transaction& t) { return fits(t, tip) && !meet(insOf(t), bi) && !meet(kersOf(t), bk); };
		std::vector<TransactionPtr> nm2; for (auto& t : mem) if (keep(*t)) nm2.push_back(t); mem = nm2;
		std::vector<Ent> ns; for (auto& e : stem) { bool ok = keep(*e.tx) && okMem(*e.tx); for (auto& x : ns) if (clash(*x.tx, *e.tx)) ok = false; if (ok) ns.push_back(e); } stem = ns;
	}
	void look()
	{
		std::set<B> pk = pubK();
		std::set<TransactionKernel> all; for (auto& x : tx) for (auto& k : x.second->GetKernels()) all.insert(k);
		std::multiset<std::set<B>> g, e; for (auto& t : ses.node->pool->FindTransactionsByKernel(all)) g.insert(kersOf(*t)); for (auto& t : mem) e.insert(kersOf(*t));
		if (g != e) { std::string gs, es; for (auto& x : g) gs += "{" + names(x) + "}"; for (auto& x : e) es += "{" + names(x) + "}"; vh::fail("public-" + gs + "-not-" + es, vh::cat("after ", log, ": the public pool holds ", gs, " but should hold ", es)); }
		for (auto& x : tx) for (auto& k : x.second->GetKernels()) {
			bool served = ses.node->chain->GetTransactionByKernelHash(k.GetHash()) != nullptr, pub = pk.count(ref::bytes(k.GetHash())) > 0;
			if (served && !pub) vh::fail(vh::cat("served-private-", x.first), vh::cat("after ", log, ": a peer that asks for the kernel of ", x.first, " gets a transaction that is not public"));
			if (!served && pub) vh::fail(vh::cat("not-served-", x.first), vh::cat("after ", log, ": a public transaction is not found by its kernel"));
		}
		vh::S().states++;
	}
	void step(char c)
	{
		switch (c) {
		case 'a': case 'b': case 'c': case 'd': arrive(c, EPoolType::STEMPOOL, coinStem); break;
		case 'A': case 'C': case 'D': arrive((char)tolower(c), EPoolType::STEMPOOL, coinFluff); break;
		case 'm': arrive('a', EPoolType::MEMPOOL, coinStem); break;
		case 'n': arrive('b', EPoolType::MEMPOOL, coinStem); break;
		case 'T': tick("tick", 11, true, true, extra0); break;
		case 'F': tick("tick(send fails)", 11, true, false, extra30); break;
		case 'N': tick("tick(no peers)", 11, false, true, extra0); break;
		case 'w': tick("+82s", 82, true, true, extra0); break;
		case 'X': tick("+230s", 230, true, true, extra30); break;
		case 'E': block("block{}", {}); break;
		case 'O': block("block{a}", { 'a' }); break;
		case 'B': block("block{b}", { 'b' }); break;
		}
		vh::S().transitions++; look();
	}
	void end()
	{
		tick("+230s", 230, true, true, extra30); look();
		std::set<B> pk = pubK();
		for (char c : accepted) {
			auto k = kersOf(*tx[c]); bool in = true; for (auto& x : k) if (!pk.count(x) && !mined.count(x)) in = false;
			bool out = !fits(*tx[c], tip); for (auto& t : mem) if (clash(*t, *tx[c])) out = true;
			if (!in && !out) vh::fail(vh::cat("lost-", c), vh::cat("after ", log, ": transaction ", c, " was accepted, is still valid, and is neither public nor mined"));
		}
		std::vector<TransactionPtr> v; std::set<TransactionKernel> all; for (auto& x : tx) for (auto& k : x.second->GetKernels()) all.insert(k);
		for (auto& t : ses.node->pool->FindTransactionsByKernel(all)) v.push_back(t);
		for (char c : std::string("acd")) { bool ok = fits(*tx[c], tip); for (auto& t : v) if (clash(*t, *tx[c])) ok = false; if (ok) v.push_back(tx[c]); } // sweep what is left
		BlkOpt o; o.addDiff = 5; BlkP b = mine(tip, px + "end", v, o); reg(b->coinbase); ses.remember(b);
		if (addBlock(*ses.node, *b->full) != OK) { vh::fail("not-mineable", vh::cat("after ", log, ": a block of the public transactions is refused")); ses.used = ses.maxUse; return; }
		ses.settle(b); vh::S().traces++;
	}
};
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	ses.maxUse = 60; findSeeds(); ctl::fixedSeed = false;
	bool fresh = true;
	auto run = [&](const std::string& seq) {
		if (!vh::begin(seq)) return;
		auto v0 = vh::S().violations; up(fresh); fresh = false;
		World w; for (char c : seq) w.step(c); w.end();
		if (vh::S().violations != v0) fresh = true;
	};
	std::function<void(std::string, const std::string&, int)> rec = [&](std::string s, const std::string& al, int d) { if (d == 0) { run(s); return; } for (char c : al) rec(s + c, al, d - 1); };
	const std::string full = "abcdACmnTFNwXEOB", core = "acAnTFwXE";
	rec("", full, vh::thorough() ? 4 : 3);
	rec("", core, vh::thorough() ? 6 : 4);
	vh::fini(); _exit(0);
}
