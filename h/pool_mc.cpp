// C10: every sequence of submissions, blocks and reorganisations up to a depth, against an exact reference of the pool.
#include "txs.h"
using namespace ch;
static Session ses;
struct T { std::string nm; TransactionPtr tx; bool bad = false; uint64_t lock = 0; };
struct World {
	Session& s; std::string px; BlkP base, tip; std::map<char, T> tx; std::vector<char> pool; int nb = 0;
	std::map<B, char> kernelOwner; std::string log;
	explicit World(Session& s_) : s(s_)
	{
		s.begin(); base = tip = s.tip; px = s.prefix();
		auto& P = s.plain; std::vector<Out> m;
		uint64_t h = tip->height();
		auto put = [&](char c, const TransactionPtr& t, bool bad = false, uint64_t lock = 0) { T x; x.nm = std::string(1, c); x.tx = t; x.bad = bad; x.lock = lock; tx[c] = x; };
		Out A1;
		{ put('a', sp({ P[0] }, { { px + "A1", 3000000000ull }, { px + "A2", 0 } }, &m, px + "oa")); A1 = m[0]; }
		put('b', sp({ P[0] }, { { px + "B1", 0 } }, nullptr, px + "ob"));
		put('c', sp({ P[1] }, { { px + "C1", 0 } }));
		put('d', sp({ P[2], P[1] }, { { px + "D1", 0 } }, nullptr, px + "od"));
		{ TxSpec x; x.in = { P[4] }; x.fee = fee(F); x.offset = px + "oe"; Out rest = reg(mkOut(px + "E1", P[4].v - F - A1.v)); x.out = { A1, rest }; put('e', mkTx(x)); } // makes a's output again
		put('f', sp({ A1 }, { { px + "F1", 0 } }));
		Out cb; for (auto& u : tip->utxo) if (u.second.f == EOutputFeatures::COINBASE_OUTPUT && u.second.height == h + 2 - 25) cb = registry().at(u.first);
		put('g', sp({ cb }, { { px + "G1", 0 } }));
		{ TxSpec x; x.in = { P[3] }; x.fee = fee(F); x.kf = EKernelFeatures::HEIGHT_LOCKED; x.lock = h + 2; x.out = { reg(mkOut(px + "H1", P[3].v - F)) }; put('h', mkTx(x), false, h + 2); }
		put('i', merge(tx['a'].tx, tx['c'].tx));
		put('j', sp({ P[5] }, { { px + "J1", 0 } }, nullptr, px + "oj"));
		// broken ones
		auto& P6 = P[6];
		put('1', sp({ P6 }, { { px + "L1", 0 } }, nullptr, "", 1000), false); // fee far too low
		{ auto t = sp({ P6 }, { { px + "S1", 0 } }, nullptr, px + "os"); auto k = t->GetKernels(); auto sig = k[0].GetExcessSignature().GetSignatureBytes(); std::vector<unsigned char> v(sig.begin(), sig.end()); v[40] ^= 1;
		  put('2', build(t->GetOffset(), t->GetInputs(), t->GetOutputs(), { TransactionKernel(k[0].GetFeatures(), k[0].GetFeeShift() ? Fee(k[0].GetFeeShift(), k[0].GetFee()) : fee(k[0].GetFee()), 0, Commitment(k[0].GetCommitment()), Signature(CBigInteger<64>(v))) }), true); }
		{ auto t = sp({ P6 }, { { px + "R1", 0 } }); auto pr = t->GetOutputs()[0].GetRangeProof().GetProofBytes(); pr[20] ^= 1;
		  put('3', build(t->GetOffset(), t->GetInputs(), { TransactionOutput(EOutputFeatures::DEFAULT, Commitment(t->GetOutputs()[0].GetCommitment()), RangeProof(std::move(pr))) }, t->GetKernels()), true); }
		{ TxSpec x; x.in = { P6 }; x.fee = fee(F); x.out = { reg(mkOut(px + "X1", P6.v - F, EOutputFeatures::COINBASE_OUTPUT)) }; put('4', mkTx(x), true); }
		{ TxSpec x; x.in = { P6 }; x.fee = fee(F); x.out = { reg(mkOut(px + "X2", P6.v - F + 1)) }; put('5', mkTx(x), true); } // makes money
		{ TxSpec x; x.in = { P6, P6 }; x.fee = fee(F); x.out = { reg(mkOut(px + "X3", 2 * P6.v - F)) }; put('6', mkTx(x), true); } // spends twice
		{ Out no = mkOut(px + "none", 5000000000ull); put('7', sp({ no }, { { px + "X4", 0 } })); } // spends what does not exist
		{ Out sp = s.plain[7]; TxSpec x; x.in = { P6 }; x.fee = fee(F); x.out = { sp }; Out rest = P6; x.fee = fee(F); x.in = { P6, P[5] }; x.out = { sp, reg(mkOut(px + "X5", P6.v + P[5].v - F - sp.v)) }; put('8', mkTx(x)); } // makes an output that exists
		{ auto t = sp({ P6 }, { { px + "X6", 0 } }); put('9', build(blind(px + "wrong"), t->GetInputs(), t->GetOutputs(), t->GetKernels()), true); } // wrong offset
		{ auto t = sp({ P6 }, { { px + "X7", 0 } }); BlindingFactor kb = blind(px + "ck"); auto k = t->GetKernels(); k.push_back(mkKernel(EKernelFeatures::COINBASE_KERNEL, Fee(), 0, kb)); put('0', build(Crypto::AddBlindingFactors({ t->GetOffset() }, { kb }), t->GetInputs(), t->GetOutputs(), k), true); }
		for (auto& x : tx) for (auto& k : x.second.tx->GetKernels()) if (x.first != 'i') kernelOwner[ref::bytes(k.GetHash())] = x.first;
	}
	static std::set<B> ins(const Transaction& t) { std::set<B> r; for (auto& i : t.GetInputs()) r.insert(ref::bytes(i.GetCommitment())); return r; }
	static std::set<B> outs(const Transaction& t) { std::set<B> r; for (auto& i : t.GetOutputs()) r.insert(ref::bytes(i.GetCommitment())); return r; }
	static std::set<B> kers(const Transaction& t) { std::set<B> r; for (auto& i : t.GetKernels()) r.insert(ref::bytes(i.GetHash())); return r; }
	template <class S> static bool meet(const S& a, const S& b) { for (auto& x : a) if (b.count(x)) return true; return false; }
	bool validOn(const T& t, const BlkP& b) const
	{
		if (t.bad || t.nm == "1") return false;
		if (t.lock > b->height() + 1) return false;
		for (auto& i : ins(*t.tx)) { auto it = b->utxo.find(i); if (it == b->utxo.end()) return false; if (it->second.f == EOutputFeatures::COINBASE_OUTPUT && it->second.height + 25 > b->height() + 1) return false; }
		for (auto& o : outs(*t.tx)) if (b->utxo.count(o)) return false;
		return true;
	}
	void submit(char c)
	{
		T& t = tx[c];
		bool ok = validOn(t, tip);
		for (char p : pool) if (p == c || meet(ins(*t.tx), ins(*tx[p].tx)) || meet(outs(*t.tx), outs(*tx[p].tx)) || meet(kers(*t.tx), kers(*tx[p].tx))) ok = false;
		EBlockChainStatus st = s.node->chain->AddTransaction(wireTx(t.tx), EPoolType::MEMPOOL);
		bool got = st == EBlockChainStatus::SUCCESS;
		log += vh::cat(c, got ? "+" : "-", " ");
		if (got != ok) vh::fail(vh::cat(got ? "accepted-" : "refused-", c), vh::cat("after ", log, got ? ": a transaction was accepted that does not fit" : ": a valid transaction was refused"));
		if (t.bad && st != EBlockChainStatus::INVALID) vh::fail(vh::cat("not-invalid-", c), "a malformed transaction is not reported as invalid");
		if (!t.bad && st == EBlockChainStatus::INVALID) vh::fail(vh::cat("invalid-", c), vh::cat("after ", log, ": a well-formed transaction is reported as invalid (its sender would be banned)"));
		if (ok) pool.push_back(c);
	}
	void advance(const std::vector<BlkP>& bs, const BlkP& to)
	{
		tip = to;
		std::vector<char> np;
		for (char p : pool) {
			bool keep = validOn(tx[p], tip);
			for (auto& b : bs) { std::set<B> bi, bk; for (auto& i : b->full->GetInputs()) bi.insert(ref::bytes(i.GetCommitment())); for (auto& k : b->full->GetKernels()) bk.insert(ref::bytes(k.GetHash())); if (meet(ins(*tx[p].tx), bi) || meet(kers(*tx[p].tx), bk)) keep = false; }
			if (keep) np.push_back(p);
		}
		pool = np;
	}
	BlkP mk(const BlkP& on, const std::string& which, uint64_t add)
	{
		std::vector<TransactionPtr> v; BlkP tmp = on; for (char c : which) if (validOn(tx[c], on)) v.push_back(tx[c].tx);
		BlkOpt o; o.addDiff = add; BlkP b = mine(on, px + "b" + std::to_string(nb++), v, o); reg(b->coinbase); s.remember(b); return b;
	}
	void expectTip(const char* what) { auto t = tipOf(*s.node); if (t.hash != ref::bytes(tip->hash())) vh::fail(vh::cat("tip-", what), vh::cat("after ", log, ": the confirmed tip is not the expected one")); }
	void step(char c)
	{
		Node& n = *s.node;
		if (tx.count(c)) { submit(c); }
		else {
			log += vh::cat(c, " ");
			switch (c) {
			case 'E': { auto b = mk(tip, "", 5); addBlock(n, *b->full); advance({ b }, b); break; }
			case 'A': { auto b = mk(tip, "a", 5); addBlock(n, *b->full); advance({ b }, b); break; }
			case 'D': { auto b = mk(tip, "d", 5); addBlock(n, *b->full); advance({ b }, b); break; }
			case 'I': { auto b = mk(tip, "i", 5); addBlock(n, *b->full); advance({ b }, b); break; }
			case 'B': { BlkP on = tip == base ? base : tip->parent; auto b = mk(on, "b", tip->diff() - on->diff() + 4); addBlock(n, *b->full); advance({ b }, b); break; } // heavier sibling
			case 'R': { BlkP on = tip == base ? base : tip->parent; auto b = mk(on, "e", 5), b2 = mk(b, "j", tip->diff() - on->diff() + 5); addHeaders(n, { b->header(), b2->header() }); addBlock(n, *b2->full); addBlock(n, *b->full); orphans(n); addBlock(n, *b2->full); advance({ b, b2 }, b2); break; } // two blocks instead of one, the second first
			case 'S': { auto b = mk(base, "", tip->diff() - base->diff() + 7); addBlock(n, *b->full); advance({ b }, b); break; } // shorter but heavier
			case 'L': { if (tip == base) break; auto b = mk(tip->parent, "ac", 1); addBlock(n, *b->full); break; } // lighter sibling
			case 'X': { BlkOpt o; o.addDiff = 5; o.hdr = [](Hdr& h) { h.kernRoot = h.outRoot; }; std::vector<TransactionPtr> v; for (char q : std::string("ac")) if (validOn(tx[q], tip)) v.push_back(tx[q].tx); auto b = mine(tip, px + "x" + std::to_string(nb++), v, o); addBlock(n, *b->full); break; }
			case 'Y': { BlkP on = tip == base ? base : tip->parent; auto b = mk(on, "ac", 1); BlkOpt o; o.addDiff = tip->diff() - on->diff() + 40; o.hdr = [](Hdr& h) { h.kernRoot = h.outRoot; }; auto b2 = mine(b, px + "y" + std::to_string(nb++), {}, o);
				if (on == tip) { addBlock(n, *b2->full); addBlock(n, *b->full); orphans(n); advance({ b }, b); } else { addBlock(n, *b->full); addBlock(n, *b2->full); orphans(n); } break; } // fork with a broken end
			}
			expectTip(std::string(1, c).c_str());
		}
		vh::S().transitions++;
		look();
	}
	void look()
	{
		Node& n = *s.node;
		std::set<TransactionKernel> all; for (auto& x : tx) for (auto& k : x.second.tx->GetKernels()) all.insert(k);
		auto got = n.pool->FindTransactionsByKernel(all);
		std::multiset<B> g, e; for (auto& t : got) g.insert(ref::bytes(t->GetHash()));
		for (char p : pool) e.insert(ref::bytes(tx[p].tx->GetHash()));
		std::string ex(pool.begin(), pool.end()), gs; for (auto& t : got) for (auto& x : tx) if (x.second.tx->GetHash() == t->GetHash()) gs += x.first;
		if (g != e) {
			std::string miss, extra; for (char p : pool) if (gs.find(p) == std::string::npos) miss += p; for (char q : gs) if (ex.find(q) == std::string::npos) extra += q;
			vh::fail("pool" + (miss.empty() ? "" : "-lost-" + miss) + (extra.empty() ? "" : "-kept-" + extra), vh::cat("after ", log, ": the pool holds {", gs, "} but {", ex, "} are the transactions that fit"));
		}
		for (auto& x : tx) for (auto& k : x.second.tx->GetKernels()) {
			auto f = n.chain->GetTransactionByKernelHash(k.GetHash());
			bool in = false; for (char p : pool) if (kers(*tx[p].tx).count(ref::bytes(k.GetHash()))) in = true;
			if ((f != nullptr) != in) vh::fail("lookup", vh::cat("after ", log, ": lookup of a kernel of ", x.first, in ? " fails though it is pooled" : " finds a transaction that is not pooled"));
		}
		vh::S().states++; vh::outcome(vh::cat(gs, "@", tip->height() - base->height()));
	}
	void end()
	{
		Node& n = *s.node;
		// what is pooled can be mined at once
		std::string p(pool.begin(), pool.end()); log += "mine-pool ";
		std::vector<TransactionPtr> v; std::set<TransactionKernel> all; for (auto& x : tx) for (auto& k : x.second.tx->GetKernels()) all.insert(k);
		for (auto& t : n.pool->FindTransactionsByKernel(all)) v.push_back(t);
		BlkOpt o; o.addDiff = 5; auto b = mine(tip, px + "end", v, o); reg(b->coinbase); s.remember(b);
		Res r = addBlock(n, *b->full); advance({ b }, b);
		if (r != OK) { vh::fail("not-mineable", vh::cat("after ", log, ": a block of all pooled transactions is refused (", resName(r), ")")); s.used = s.maxUse; return; }
		look();
		s.settle(tip); vh::S().traces++;
	}
};
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	auto run = [&](const std::string& seq) {
		if (!vh::begin(seq)) return;
		auto v0 = vh::S().violations;
		if (ses.node && !ses.node->chain) ses.used = ses.maxUse;
		ses.maxUse = 40;
		World w(ses);
		for (char c : seq) w.step(c);
		w.end();
		if (vh::S().violations != v0) ses.used = ses.maxUse;
	};
	std::function<void(std::string, const std::string&, int)> rec = [&](std::string s, const std::string& al, int d) { if (d == 0) { run(s); return; } for (char c : al) rec(s + c, al, d - 1); };
	const std::string full = "abcdefghij1234567890EADIBRSLXY", mid = "abcdefghiEADBRSLXY", core = "aeghEABRSY";
	rec("", full, 2);
	rec("", mid, vh::thorough() ? 4 : 3);
	rec("", core, vh::thorough() ? 5 : 4);
	ses.node.reset(); vh::fini(); _exit(0);
}
