// C12: every small block against every conflict-free pool content.
#include "txs.h"
#include <BlockChain/BlockHydrator.h>
#include <BlockChain/CompactBlockFactory.h>
using namespace ch;
static Session ses;
static CompactBlock wireC(const CompactBlock& c) { Serializer s(EProtocolVersion::V2); c.Serialize(s); ByteBuffer b(s.GetBytes(), EProtocolVersion::V2); return CompactBlock::Deserialize(b); }
static B bytesOf(const FullBlock& b) { Serializer s(EProtocolVersion::V2); b.Serialize(s); return ref::bytes(s.GetBytes()); }
static Out blindOut(const BlindingFactor& b, uint64_t v, const std::string& nm)
{
	Out r; r.v = v; r.b = b; Commitment c = Crypto::CommitBlinded(v, b); SecretKey k(BlindingFactor(b).ToSecretKey()), n(blind("n" + nm).ToSecretKey());
	RangeProof p = Crypto::GenerateRangeProof(v, k, n, n, ProofMessage()); r.o = std::make_shared<TransactionOutput>(EOutputFeatures::DEFAULT, std::move(c), std::move(p)); return reg(r);
}
static const std::string BLK = "0123z", POOL = "0123uxyvVwqr";
struct World {
	BlkP base; std::string px; std::map<char, TransactionPtr> tx;
	World()
	{
		ses.begin(); base = ses.tip; px = ses.prefix(); auto& P = ses.plain;
		std::vector<Out> m0, m1;
		tx['0'] = sp({ P[0] }, { { px + "a", 0 } }, &m0, px + "o0");
		tx['1'] = sp({ P[1] }, { { px + "b", 1000000000ull }, { px + "c", 0 } }, &m1);
		tx['x'] = sp({ P[2] }, { { px + "x", 0 } }); tx['y'] = sp({ P[3] }, { { px + "y", 0 } }, nullptr, px + "oy");
		tx['2'] = merge(tx['x'], tx['y']);
		{ TxSpec x; x.in = { P[4] }; x.fee = fee(F); x.kf = EKernelFeatures::HEIGHT_LOCKED; x.lock = base->height(); x.out = { reg(mkOut(px + "h", P[4].v - F)) }; tx['3'] = mkTx(x); }
		tx['u'] = merge(tx['0'], tx['1']);
		tx['q'] = sp({ P[5] }, { { px + "q", 0 } });
		tx['w'] = merge(tx['0'], tx['q']);
		tx['r'] = sp({ P[0] }, { { px + "r", 0 } });
		tx['z'] = sp({ P[6] }, { { px + "z", 0 } });
		// same kernel as 0, another output, another offset
		{ BlindingFactor ex = Crypto::AddBlindingFactors({ m0[0].b }, { P[0].b, tx['0']->GetOffset() }); Out o = reg(mkOut(px + "v", m0[0].v)); BlindingFactor off = Crypto::AddBlindingFactors({ o.b }, { P[0].b, ex }); tx['v'] = build(off, tx['0']->GetInputs(), { *o.o }, tx['0']->GetKernels()); }
		// same kernel and offset as 1, other outputs
		{ BlindingFactor d = blind(px + "delta"); Out a = blindOut(Crypto::AddBlindingFactors({ m1[0].b, d }, {}), m1[0].v, px + "Va"), b = blindOut(Crypto::AddBlindingFactors({ m1[1].b }, { d }), m1[1].v, px + "Vb"); tx['V'] = build(tx['1']->GetOffset(), tx['1']->GetInputs(), { *a.o, *b.o }, tx['1']->GetKernels()); }
	}
	void fill(const std::string& pool) { for (char c : pool) if (ses.node->chain->AddTransaction(wireTx(tx[c]), EPoolType::MEMPOOL) != EBlockChainStatus::SUCCESS) vh::fail(vh::cat("pool-refused-", c), vh::cat("a transaction that fits was refused by the pool: ", c, " of {", pool, "}")); }
	BlkP mk(const BlkP& on, const std::string& txs, const std::string& nm, uint64_t add = 5) { std::vector<TransactionPtr> v; for (char c : txs) v.push_back(tx[c]); BlkOpt o; o.addDiff = add; BlkP b = mine(on, px + nm, v, o); reg(b->coinbase); ses.remember(b); return b; }
};
// is the pool able to supply exactly the kernels of the block?
static std::string same(const World& w, const std::string& blk, const std::string& pool)
{
	std::set<B> bk, bo; for (char c : blk) { for (auto& k : kersOf(*w.tx.at(c))) bk.insert(k); for (auto& k : outsOf(*w.tx.at(c))) bo.insert(k); }
	std::set<B> pk, po; for (char c : pool) { auto k = kersOf(*w.tx.at(c)); if (!meet(k, bk)) continue; for (auto& x : k) pk.insert(x); for (auto& x : outsOf(*w.tx.at(c))) po.insert(x); }
	if (pk != bk) { for (auto& x : bk) if (!pk.count(x)) return "missing"; return "mixed"; }
	return po == bo ? "exact" : "altered";
}
static std::vector<std::string> pools(World& w)
{
	std::vector<std::string> r;
	for (int m = 0; m < (1 << POOL.size()); m++) {
		std::string s; for (size_t i = 0; i < POOL.size(); i++) if (m >> i & 1) s += POOL[i];
		bool ok = true; for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) if (clash(*w.tx[s[i]], *w.tx[s[j]])) ok = false;
		if (ok) r.push_back(s);
	}
	return r;
}
static void check(World& w, const std::string& blk, const std::string& pool, char ctx, const std::string& id)
{
	Node& n = *ses.node; BlkP par = w.base, sib;
	if (ctx == 'O') par = w.mk(w.base, "", "par"); // parent arrives later
	if (ctx == 'F') { sib = w.mk(w.base, "", "sib", 5); addBlock(n, *sib->full); } // the block is a heavier sibling of the tip
	if (ctx == 'L') { sib = w.mk(w.base, "", "sib", 50); addBlock(n, *sib->full); } // a lighter one
	BlkP b = w.mk(par, blk, "blk", ctx == 'F' ? 9 : 5);
	w.fill(pool);
	const std::string rel = same(w, blk, pool);
	CompactBlock c = wireC(CompactBlockFactory::CreateCompactBlock(*b->full));
	// the compact form itself: coinbase in full, everything else by short id
	{
		std::set<B> co, ck; for (auto& o : b->full->GetOutputs()) if (o.IsCoinbase()) co.insert(ref::bytes(o.GetCommitment())); for (auto& k : b->full->GetKernels()) if (k.IsCoinbase()) ck.insert(ref::bytes(k.GetHash()));
		std::set<B> go, gk, si, se; for (auto& o : c.GetOutputs()) go.insert(ref::bytes(o.GetCommitment())); for (auto& k : c.GetKernels()) gk.insert(ref::bytes(k.GetHash()));
		for (auto& s : c.GetShortIds()) si.insert(ref::bytes(s.GetId().GetData())); for (auto& k : b->full->GetKernels()) if (!k.IsCoinbase()) se.insert(ref::bytes(ShortId::Create(k.GetHash(), b->hash(), c.GetNonce()).GetId().GetData()));
		if (co != go || ck != gk || si != se || c.GetShortIds().size() != se.size() || c.GetHash() != b->hash()) vh::fail("compact-form", id + ": the compact form does not list the block's coinbase and short ids");
	}
	const bool tampered = pool.find('v') != std::string::npos || pool.find('V') != std::string::npos;
	{
		auto h = BlockHydrator(n.pool).Hydrate(c);
		if (h && !tampered && bytesOf(*h) != bytesOf(*b->full)) vh::fail("hydrated-" + rel, id + ": the rebuilt block differs from the original (" + rel + ")");
		if (!h && rel == "exact") vh::fail("not-hydrated", id + ": the pool holds exactly the block's transactions, but the block is not rebuilt");
	}
	EBlockChainStatus st; 
	try { st = n.chain->AddCompactBlock(c); } catch (std::exception& e) { vh::fail("throws", id + ": " + e.what()); st = EBlockChainStatus::INVALID; }
	vh::outcome(vh::cat(ctx, rel, (int)st));
	auto stored = n.chain->GetBlockByHash(b->hash());
	if (stored && bytesOf(*stored) != bytesOf(*b->full)) vh::fail("stored-" + rel, id + ": a block that differs from the original is stored under its hash");
	if (st == EBlockChainStatus::SUCCESS && !stored) vh::fail("success-not-stored", id + ": accepted but not stored");
	if (st == EBlockChainStatus::INVALID) vh::fail("invalid-" + rel, id + ": a valid block's compact form is called invalid");
	if (rel == "exact" && ctx != 'O' && st != EBlockChainStatus::SUCCESS) vh::fail("exact-refused", vh::cat(id, ": the pool holds exactly the block's transactions but the answer is ", (int)st));
	if (rel != "exact" && !blk.empty() && st == EBlockChainStatus::SUCCESS) vh::fail("success-" + rel, id + ": accepted although the pool does not hold the block's transactions");
	BlkP tip = ctx == 'F' ? sib : ctx == 'L' ? sib : w.base;
	if (st == EBlockChainStatus::TRANSACTIONS_MISSING) { if (tipOf(n).hash != ref::bytes(tip->hash())) vh::fail("tip-moved", id + ": the chain moved though the block is missing transactions"); }
	if (ctx == 'O') {
		if (st != EBlockChainStatus::ORPHANED && st != EBlockChainStatus::TRANSACTIONS_MISSING) vh::fail("orphan-status", vh::cat(id, ": answer ", (int)st, " for a block whose parent is unknown"));
		// as the protocol goes on: ask for what is missing, then the parent arrives
		if (st == EBlockChainStatus::TRANSACTIONS_MISSING) addBlock(n, *b->full);
		addHeaders(n, { par->header(), b->header() }); addBlock(n, *par->full); orphans(n);
	} else if (st == EBlockChainStatus::TRANSACTIONS_MISSING) addBlock(n, *b->full);
	BlkP end = ctx == 'L' ? sib : b;
	if (tipOf(n).hash != ref::bytes(end->hash())) vh::fail("not-followed-" + rel, vh::cat(id, ": after the usual exchange the node is not on the block (answer ", (int)st, ")"));
	auto fin = n.chain->GetBlockByHash(b->hash());
	if (!fin || bytesOf(*fin) != bytesOf(*b->full)) vh::fail("final-" + rel, id + ": the block finally stored differs from the original");
	// sweep: spend everything that is left so that the pool ends empty
	std::vector<TransactionPtr> sw; for (char t : std::string("0123qz")) if (fits(*w.tx[t], end)) sw.push_back(w.tx[t]);
	for (char t : std::string("xy")) { bool ok = fits(*w.tx[t], end); for (auto& s : sw) if (clash(*s, *w.tx[t])) ok = false; if (ok) sw.push_back(w.tx[t]); }
	BlkOpt o; o.addDiff = 60; BlkP s2 = mine(end, w.px + "sweep", sw, o); reg(s2->coinbase); ses.remember(s2);
	if (addBlock(n, *s2->full) != OK) { vh::fail("sweep", id + ": the node refuses the next block"); ses.used = ses.maxUse; return; }
	ses.settle(s2);
	vh::S().states += 2; vh::S().transitions += 3; vh::S().traces++;
}
int main(int argc, char** argv)
{
	vh::init(argc, argv); ses.maxUse = 40;
	std::vector<std::string> ps; { World w; ps = pools(w); }
	std::vector<std::string> bs; for (int m = 0; m < (1 << BLK.size()); m++) { std::string s; for (size_t i = 0; i < BLK.size(); i++) if (m >> i & 1) s += BLK[i]; bs.push_back(s); }
	vh::count("max.pools", ps.size());
	for (char ctx : std::string("TOFL")) for (auto& b : bs) for (auto& p : ps) {
		// quick: on the tip everything; elsewhere without the transactions that only enlarge the pool
		if (!vh::thorough() && (p.find('3') != std::string::npos || p.find('q') != std::string::npos || b.find('z') != std::string::npos)) { if (ctx != 'T') continue; if (p.find('3') != std::string::npos && b.find('3') == std::string::npos) continue; }
		std::string id = vh::cat(ctx, ":", b, "|", p);
		if (!vh::begin(id)) continue;
		auto v0 = vh::S().violations; World w; check(w, b, p, ctx, id); if (vh::S().violations != v0) ses.used = ses.maxUse;
	}
	vh::fini(); _exit(0);
}
