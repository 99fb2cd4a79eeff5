// C02: every rule-breaking mutation of a block, at every place of a small history, is refused and changes nothing.
#include "tree.h"
using namespace ch;
typedef std::vector<TransactionInput> VI; typedef std::vector<TransactionOutput> VO; typedef std::vector<TransactionKernel> VK;
static Session ses;

struct Mut {
	std::string name;
	bool valid = false;      // a boundary case which must be accepted
	bool headerBad = false;  // the header alone is enough to refuse it
	// builds the block on parent p; txs: what the honest block would contain
	std::function<BlkP(const BlkP& p, const std::string& nm, std::vector<TransactionPtr> txs, BlkOpt o)> make;
	std::string ctxs;        // contexts in which it makes sense; empty: all
};
static BlkP honest(const BlkP& p, const std::string& nm, const std::vector<TransactionPtr>& txs, BlkOpt o) { return mine(p, nm, txs, o); }
static Hash flip(const Hash& h) { B b = ref::bytes(h); b[5] ^= 1; return toHash(b); }
static TransactionOutput withFeatures(const TransactionOutput& o, EOutputFeatures f) { return TransactionOutput(f, Commitment(o.GetCommitment()), RangeProof(o.GetRangeProof())); }
static TransactionKernel kern(const TransactionKernel& k, std::function<void(EKernelFeatures&, Fee&, uint64_t&, Commitment&, B&)> f)
{
	EKernelFeatures ft = k.GetFeatures(); Fee fe(k.GetFeeShift(), k.GetFee()); uint64_t l = k.GetLockHeight(); Commitment c = k.GetExcessCommitment(); B s = ref::bytes(k.GetExcessSignature().GetSignatureBytes());
	f(ft, fe, l, c, s);
	return TransactionKernel(ft, fe, l, std::move(c), Signature(CBigInteger<64>((const unsigned char*)s.data())));
}
// the output set of the parent knows this commitment's Out
static Out spentOf(const BlkP& p) { for (const Blk* b = p.get(); b; b = b->parent.get()) for (auto& i : b->full->GetInputs()) { auto it = registry().find(ref::bytes(i.GetCommitment())); if (it != registry().end() && !p->utxo.count(it->first)) return it->second; } return Out(); }
static Out liveCoinbase(const BlkP& p, uint64_t age) // age: height of the new block minus height of the coinbase
{
	for (auto& u : p->utxo) if (u.second.f == EOutputFeatures::COINBASE_OUTPUT && u.second.height + age == p->height() + 1) { auto it = registry().find(u.first); if (it != registry().end()) return it->second; }
	return Out();
}
static std::vector<Mut> catalogue()
{
	std::vector<Mut> v;
	auto hdr = [&](const std::string& n, std::function<void(Hdr&)> f, bool hb) { v.push_back({ n, false, hb, [f](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) { o.hdr = f; return mine(p, nm, t, o); }, "" }); };
	hdr("height+1", [](Hdr& h) { h.height++; }, true);
	hdr("height-1", [](Hdr& h) { h.height--; }, true);
	hdr("height+big", [](Hdr& h) { h.height += 1ull << 33; }, true);
	hdr("time-equal", [](Hdr& h) { h.ts -= 60; }, true);
	hdr("time-before", [](Hdr& h) { h.ts -= 61; }, true);
	hdr("time-future", [](Hdr& h) { h.ts = time(nullptr) + 86400; }, true);
	hdr("time-just-over", [](Hdr& h) { h.ts = time(nullptr) + 301 + 600; }, true);
	hdr("version-0", [](Hdr& h) { h.version = 0; }, true);
	hdr("version+1", [](Hdr& h) { h.version++; }, true);
	hdr("version-99", [](Hdr& h) { h.version = 99; }, true);
	hdr("prev-root", [](Hdr& h) { h.prevRoot = flip(h.prevRoot); }, true);
	hdr("prev-root-zero", [](Hdr& h) { h.prevRoot = Hash(); }, true);
	hdr("output-root", [](Hdr& h) { h.outRoot = flip(h.outRoot); }, false);
	hdr("proof-root", [](Hdr& h) { h.proofRoot = flip(h.proofRoot); }, false);
	hdr("kernel-root", [](Hdr& h) { h.kernRoot = flip(h.kernRoot); }, false);
	hdr("roots-swapped", [](Hdr& h) { std::swap(h.outRoot, h.proofRoot); }, false);
	hdr("offset", [](Hdr& h) { h.offset = blind("other"); }, false);
	hdr("offset-zero", [](Hdr& h) { h.offset = zeroBlind(); }, false);
	for (int d : { -1, 1, 5, 1000 }) {
		hdr(vh::cat("output-size", d), [d](Hdr& h) { h.outSize += d; }, false);
		hdr(vh::cat("kernel-size", d), [d](Hdr& h) { h.kernSize += d; }, false);
	}
	hdr("sizes-zero", [](Hdr& h) { h.outSize = h.kernSize = 0; }, false);
	// sizes and roots that agree with each other but belong to the parent
	v.push_back({ "parent-sizes-and-roots", false, false, [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) {
		o.hdr = [p](Hdr& h) { h.outSize = p->outs.size(); h.kernSize = p->kernels.size(); h.outRoot = toHash(p->outs.root()); h.proofRoot = toHash(p->proofs.root()); h.kernRoot = toHash(p->kernels.root()); };
		return mine(p, nm, t, o); }, "" });
	auto body = [&](const std::string& n, std::function<void(VI&, VO&, VK&)> f, bool after = false) {
		v.push_back({ n, false, false, [f, after](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) { (after ? o.bodyAfterSort : o.body) = f; return mine(p, nm, t, o); }, "" }); };
	body("inputs-unsorted", [](VI& i, VO&, VK&) { std::reverse(i.begin(), i.end()); }, true);
	body("outputs-unsorted", [](VI&, VO& o, VK&) { std::swap(o.front(), o.back()); }, true);
	body("outputs-swap2", [](VI&, VO& o, VK&) { std::swap(o[o.size() - 1], o[o.size() - 2]); }, true);
	body("kernels-unsorted", [](VI&, VO&, VK& k) { std::reverse(k.begin(), k.end()); }, true);
	body("input-twice", [](VI& i, VO&, VK&) { i.push_back(TransactionInput(i.back())); });
	body("input-twice-features", [](VI& i, VO&, VK&) { i.push_back(TransactionInput(EOutputFeatures::COINBASE_OUTPUT, Commitment(i.back().GetCommitment()))); });
	body("output-twice", [](VI&, VO& o, VK&) { o.push_back(TransactionOutput(o[0])); });
	body("output-twice-features", [](VI&, VO& o, VK&) { o.push_back(withFeatures(o[0], EOutputFeatures::COINBASE_OUTPUT)); });
	body("input-dropped", [](VI& i, VO&, VK&) { i.pop_back(); });
	body("output-dropped", [](VI&, VO& o, VK&) { o.erase(o.begin()); });
	body("kernel-dropped", [](VI&, VO&, VK& k) { k.erase(k.begin()); });
	body("plain-output-as-coinbase", [](VI&, VO& o, VK&) { o[0] = withFeatures(o[0], EOutputFeatures::COINBASE_OUTPUT); });
	body("coinbase-output-as-plain", [](VI&, VO& o, VK&) { for (auto& x : o) if (x.IsCoinbase()) x = withFeatures(x, EOutputFeatures::DEFAULT); });
	body("coinbase-kernel-as-plain", [](VI&, VO&, VK& k) { for (auto& x : k) if (x.IsCoinbase()) x = kern(x, [](EKernelFeatures& f, Fee&, uint64_t&, Commitment&, B&) { f = EKernelFeatures::DEFAULT_KERNEL; }); });
	for (int at : { 0, 31, 32, 63 }) {
		body(vh::cat("kernel-signature-bit-", at), [at](VI&, VO&, VK& k) { k[0] = kern(k[0], [at](EKernelFeatures&, Fee&, uint64_t&, Commitment&, B& s) { s[at] ^= 1; }); });
		body(vh::cat("coinbase-signature-bit-", at), [at](VI&, VO&, VK& k) { k.back() = kern(k.back(), [at](EKernelFeatures&, Fee&, uint64_t&, Commitment&, B& s) { s[at] ^= 1; }); });
	}
	body("kernel-signatures-exchanged", [](VI&, VO&, VK& k) { B a = ref::bytes(k[0].GetExcessSignature().GetSignatureBytes()), b = ref::bytes(k.back().GetExcessSignature().GetSignatureBytes());
		k[0] = kern(k[0], [&](EKernelFeatures&, Fee&, uint64_t&, Commitment&, B& s) { s = b; }); k.back() = kern(k.back(), [&](EKernelFeatures&, Fee&, uint64_t&, Commitment&, B& s) { s = a; }); });
	body("fee-changed-unsigned", [](VI&, VO&, VK& k) { k[0] = kern(k[0], [](EKernelFeatures&, Fee& f, uint64_t&, Commitment&, B&) { f = fee(FEE + 1); }); });
	body("excess-exchanged", [](VI&, VO&, VK& k) { Commitment a = k[0].GetExcessCommitment(), b = k.back().GetExcessCommitment();
		k[0] = kern(k[0], [&](EKernelFeatures&, Fee&, uint64_t&, Commitment& c, B&) { c = b; }); k.back() = kern(k.back(), [&](EKernelFeatures&, Fee&, uint64_t&, Commitment& c, B&) { c = a; }); });
	for (int at : { 0, 40, 300, 674 }) body(vh::cat("proof-bit-", at), [at](VI&, VO& o, VK&) { auto b = o[0].GetRangeProof().GetProofBytes(); b[at] ^= 1; o[0] = TransactionOutput(o[0].GetFeatures(), Commitment(o[0].GetCommitment()), RangeProof(std::vector<unsigned char>(b))); });
	body("last-proof-bit", [](VI&, VO& o, VK&) { auto b = o.back().GetRangeProof().GetProofBytes(); b[100] ^= 1; o.back() = TransactionOutput(o.back().GetFeatures(), Commitment(o.back().GetCommitment()), RangeProof(std::vector<unsigned char>(b))); });
	body("proof-short", [](VI&, VO& o, VK&) { auto b = o[0].GetRangeProof().GetProofBytes(); b.pop_back(); o[0] = TransactionOutput(o[0].GetFeatures(), Commitment(o[0].GetCommitment()), RangeProof(std::vector<unsigned char>(b))); });
	body("proofs-exchanged", [](VI&, VO& o, VK&) { auto a = o[0].GetRangeProof(), b = o[1].GetRangeProof(); o[0] = TransactionOutput(o[0].GetFeatures(), Commitment(o[0].GetCommitment()), RangeProof(b)); o[1] = TransactionOutput(o[1].GetFeatures(), Commitment(o[1].GetCommitment()), RangeProof(a)); });
	// an honest block apart from the amounts
	auto opt = [&](const std::string& n, std::function<void(BlkOpt&)> f) { v.push_back({ n, false, false, [f](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) { f(o); return mine(p, nm, t, o); }, "" }); };
	opt("reward+1", [](BlkOpt& o) { o.rewardDelta = 1; });
	opt("reward-1", [](BlkOpt& o) { o.rewardDelta = -1; });
	opt("reward-twice", [](BlkOpt& o) { o.rewardDelta = (int64_t)Consensus::REWARD; });
	opt("no-coinbase", [](BlkOpt& o) { o.noCoinbase = true; });
	auto withTx = [&](const std::string& n, std::function<std::vector<TransactionPtr>(const BlkP&, const std::string&)> f, bool valid = false, const std::string& ctxs = "") {
		v.push_back({ n, valid, false, [f](const BlkP& p, const std::string& nm, std::vector<TransactionPtr>, BlkOpt o) { return mine(p, nm, f(p, nm), o); }, ctxs }); };
	v.push_back({ "two-kernels-same", false, false, [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr>, BlkOpt bo) { // the same kernel twice, amounts and excess made to balance
		auto& s = ses.plain; TxSpec x; (void)p;
		Out o1 = reg(mkOut(nm + "dk1", s[6].v - FEE)); x.in = { s[6] }; x.out = { o1 }; x.fee = fee(FEE);
		auto t1 = mkTx(x);
		// second: out2 - in2 has the same excess: b(out2) = b(in2) + excess
		Out o2; o2.v = s[7].v - FEE; o2.b = Crypto::AddBlindingFactors({ s[7].b, o1.b }, { s[6].b });
		Commitment c = Crypto::CommitBlinded(o2.v, o2.b); SecretKey k(BlindingFactor(o2.b).ToSecretKey()), n(blind("dk2" + nm).ToSecretKey());
		o2.o = std::make_shared<TransactionOutput>(EOutputFeatures::DEFAULT, std::move(c), Crypto::GenerateRangeProof(o2.v, k, n, n, ProofMessage()));
		reg(o2); x.in = { s[7] }; x.out = { o2 };
		bo.body = [](VI&, VO&, VK& k) { for (size_t i = 0; i < k.size(); i++) for (size_t j = i + 1; j < k.size(); j++) if (k[i].GetExcessCommitment() == k[j].GetExcessCommitment()) k[j] = k[i]; };
		return mine(p, nm, { t1, mkTx(x) }, bo); }, "" });
	withTx("unknown-output", [](const BlkP&, const std::string& nm) { return std::vector<TransactionPtr>{ spend({ mkOut("never" + nm, 5000000000ull) }, { { nm + "a", 0 } }) }; });
	withTx("already-spent", [](const BlkP& p, const std::string& nm) { return std::vector<TransactionPtr>{ spend({ spentOf(p) }, { { nm + "a", 0 } }) }; });
	withTx("existing-output", [](const BlkP&, const std::string& nm) { TxSpec x; x.in = { ses.plain[6] }; x.fee = fee(FEE); Out o = ses.plain[7]; x.out = { o }; x.fee = fee(FEE); // amounts: 7 grin in, 7 grin out + fee does not balance, so add another input
		x.in.push_back(ses.plain[5]); x.out.push_back(reg(mkOut(nm + "a", 7000000000ull - FEE))); return std::vector<TransactionPtr>{ mkTx(x) }; });
	withTx("immature-24", [](const BlkP& p, const std::string& nm) { return std::vector<TransactionPtr>{ spend({ liveCoinbase(p, 24) }, { { nm + "a", 0 } }) }; });
	withTx("immature-1", [](const BlkP& p, const std::string& nm) { return std::vector<TransactionPtr>{ spend({ liveCoinbase(p, 1) }, { { nm + "a", 0 } }) }; });
	withTx("mature-25", [](const BlkP& p, const std::string& nm) { return std::vector<TransactionPtr>{ spend({ liveCoinbase(p, 25) }, { { nm + "a", 0 } }) }; }, true, "NHF");
	withTx("immature-marked-plain", [](const BlkP& p, const std::string& nm) { Out o = liveCoinbase(p, 10); o.f = EOutputFeatures::DEFAULT; return std::vector<TransactionPtr>{ spend({ o }, { { nm + "a", 0 } }) }; });
	auto lock = [](const BlkP& p, const std::string& nm, int d) { TxSpec x; x.in = { ses.plain[6] }; x.fee = fee(FEE); x.kf = EKernelFeatures::HEIGHT_LOCKED; x.lock = p->height() + 1 + d; x.out = { reg(mkOut(nm + "a", 7000000000ull - FEE)) }; return std::vector<TransactionPtr>{ mkTx(x) }; };
	withTx("lock+1", [lock](const BlkP& p, const std::string& nm) { return lock(p, nm, 1); });
	withTx("lock+far", [lock](const BlkP& p, const std::string& nm) { return lock(p, nm, 1 << 30); });
	withTx("lock-now", [lock](const BlkP& p, const std::string& nm) { return lock(p, nm, 0); }, true, "NHF");
	auto unbalanced = [](const std::string& nm, int64_t d) { TxSpec x; x.in = { ses.plain[6] }; x.fee = fee(FEE); x.out = { reg(mkOut(nm + "a", 7000000000ull - FEE + d)) }; return std::vector<TransactionPtr>{ mkTx(x) }; };
	withTx("inflate+1", [unbalanced](const BlkP&, const std::string& nm) { return unbalanced(nm, 1); });
	withTx("inflate-1", [unbalanced](const BlkP&, const std::string& nm) { return unbalanced(nm, -1); });
	withTx("no-cut-through", [](const BlkP&, const std::string&) { return std::vector<TransactionPtr>(); });
	v.back().make = [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr>, BlkOpt o) {
		// a -> b, b -> c with b kept on both sides
		std::vector<Out> m; auto t1 = spend({ ses.plain[6] }, { { nm + "ct", 0 } }, &m); auto t2 = spend(m, { { nm + "ct2", 0 } });
		Out b = m[0];
		o.body = [b](VI& i, VO& ou, VK&) { i.push_back(toInput(b)); ou.push_back(*b.o); };
		return mine(p, nm, { t1, t2 }, o); };
	withTx("other-branch-output", [](const BlkP&, const std::string&) { return std::vector<TransactionPtr>(); }, false, "FOM");
	v.back().make = [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr>, BlkOpt o) { auto it = registry().find(ref::b2b("A1out")); return mine(p, nm, { spend({ it->second }, { { nm + "a", 0 } }) }, o); };
	// header of the honest block, another body
	v.push_back({ "body-of-another-block", false, false, [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) {
		auto h = mine(p, nm, t, o); auto x = mine(p, nm + "other", { spend({ ses.plain[6] }, { { nm + "ob", 0 } }) }, o);
		auto r = std::make_shared<Blk>(*h); r->full = std::make_shared<FullBlock>(h->full->GetHeader(), TransactionBody(x->full->GetTransactionBody())); return r; }, "" });
	v.push_back({ "body-without-tx", false, false, [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) {
		auto h = mine(p, nm, t, o); auto x = mine(p, nm, {}, o);
		auto r = std::make_shared<Blk>(*h); r->full = std::make_shared<FullBlock>(h->full->GetHeader(), TransactionBody(x->full->GetTransactionBody())); return r; }, "" });
	v.push_back({ "body-proof-altered", false, false, [](const BlkP& p, const std::string& nm, std::vector<TransactionPtr> t, BlkOpt o) {
		auto h = mine(p, nm, t, o); auto b = h->full->GetTransactionBody(); VO ou(b.GetOutputs()); auto pb = ou[0].GetRangeProof().GetProofBytes(); pb[70] ^= 4; ou[0] = TransactionOutput(ou[0].GetFeatures(), Commitment(ou[0].GetCommitment()), RangeProof(std::vector<unsigned char>(pb)));
		auto r = std::make_shared<Blk>(*h); r->full = std::make_shared<FullBlock>(h->full->GetHeader(), TransactionBody::NoSort(b.GetInputs(), ou, b.GetKernels())); return r; }, "" });
	// weight at these heights: 4 per output, 1 per kernel, less 1 per input; at most 40000
	auto heavy = [](const std::string& nm, int nin, int nout) {
		TxSpec x; x.fee = fee(FEE); uint64_t tot = 0;
		for (int i = 0; i < nin; i++) { x.in.push_back(ses.plain[i]); tot += ses.plain[i].v; }
		for (int i = 0; i + 1 < nout; i++) { std::string s = nm + "w" + std::to_string(i); x.out.push_back(mkOut(s, 100000)); tot -= 100000; }
		x.out.push_back(mkOut(nm + "wl", tot - FEE)); return std::vector<TransactionPtr>{ mkTx(x) }; };
	withTx("weight-over", [heavy](const BlkP&, const std::string& nm) { return heavy(nm, 1, 9999); }, false, "N"); // 40001
	withTx("weight-fits", [heavy](const BlkP&, const std::string& nm) { return heavy(nm, 2, 9999); }, true, "N");  // 40000
	return v;
}
static std::string state(const BlkP& b, std::string what)
{
	Node& n = *ses.node;
	auto c = chainOf(*b); std::vector<const Blk*> up(c.size() > 8 ? c.end() - 8 : c.begin(), c.end());
	std::string d = diffState(n, *b, up, ses.all, &c); if (!d.empty()) return what + ": " + d;
	d = diffHeaderState(n, ses.byHash); if (!d.empty()) return what + ": " + d;
	return "";
}
static bool onHeaderChain(const BlkP& b) { for (uint64_t h = 0; h <= ses.node->chain->GetHeight(EChainType::CANDIDATE); h++) { auto x = ses.node->chain->GetBlockHeaderByHeight(h, EChainType::CANDIDATE); if (x && x->GetHash() == b->hash()) return true; } return false; }
static void run(const std::string& id, const Mut& m, char ctx, bool restart)
{
	int v0 = vh::S().violations;
	ses.begin(vh::S().replay);
	Node& n = *ses.node;
	std::string px = ses.prefix(), log;
	auto T = ses.tip;
	auto& pl = ses.plain;
	BlkOpt o1, o3; o3.addDiff = 3;
	auto rec = [&](const BlkP& b) { reg(b->coinbase); ses.remember(b); return b; };
	std::vector<TransactionPtr> txs;
	std::vector<Out> a1; BlkP A1;
	std::vector<Out> fo; BlkP F1;
	auto contend = [&] { // the tip A1 competes with the fork
		A1 = rec(mine(T, px + "A1", { spend({ pl[0] }, { { px + "a1", 0 } }, &a1) }, o1)); registry()[ref::b2b("A1out")] = a1[0];
		int r = addBlock(n, *A1->full); if (r != OK) vh::fail("valid-refused", id + ": valid block A1 refused");
	};
	auto honestTx = [&](const std::string& s) { return std::vector<TransactionPtr>{ spend({ pl[1], pl[2] }, { { px + s + "h1", 1000000000ull }, { px + s + "h2", 0 } }, nullptr, px + s) }; };
	auto refused = [&](const BlkP& bad, const BlkP& tip, const std::string& lg) {
		vh::S().transitions++; vh::S().states++;
		std::string d = state(tip, lg);
		if (!d.empty()) { vh::fail((m.headerBad ? "header:" : "block:") + m.name, id + " " + d); return; }
		if (m.headerBad && bad->hash() != tip->hash() && onHeaderChain(bad)) vh::fail("header-accepted:" + m.name, id + " " + lg + ": the broken header is on the header chain");
	};
	auto accepted = [&](const BlkP& tip, const std::string& lg) { vh::S().transitions++; std::string d = state(tip, lg); if (!d.empty()) vh::fail("valid-not-accepted:" + m.name, id + " " + d); else ses.settle(tip); };
	// decoding a block sorts it, so an unsorted one is handed over as an object
	auto give = [&](const FullBlock& b) -> Res { if (m.name.find("unsorted") == std::string::npos && m.name != "outputs-swap2") return addBlock(n, b); try { return fromStatus(n.chain->AddBlock(b)); } catch (BadDataException&) { return BAN; } catch (std::exception&) { return EXC; } };
	auto put = [&](const char* w, int r) { log += vh::cat(w, "=", resName(r), " "); vh::outcome(m.name + w + resName(r)); };
	if (ctx == 'N' || ctx == 'H') {
		BlkP good = rec(honest(T, px + "N", honestTx("N"), o1)), bad = m.make(T, m.name[0] == 'b' && m.name.compare(0, 4, "body") == 0 ? px + "N" : px + "X", m.name.compare(0, 4, "body") == 0 ? honestTx("N") : honestTx("X"), o1);
		if (m.valid) { rec(bad); for (auto& o : bad->full->GetOutputs()) ses.all.insert(ref::bytes(o.GetCommitment())); }
		if (ctx == 'H') put("header", addHeader(n, bad->header()));
		put("bad", give(*bad->full)); orphans(n);
		if (m.valid) { accepted(bad, log); }
		else {
			refused(bad, T, log);
			if (restart) { n.restart(); refused(bad, T, log + "restart"); }
			put("good", addBlock(n, *good->full)); orphans(n); accepted(good, log);
		}
	} else if (ctx == 'F' || ctx == 'O') {
		contend();
		F1 = rec(mine(T, px + "F1", { spend({ pl[0], pl[3] }, { { px + "f1", 0 } }, &fo) }, o1));
		BlkP good = rec(honest(F1, px + "N", honestTx("N"), o1)), bad = m.make(F1, m.name.compare(0, 4, "body") == 0 ? px + "N" : px + "X", m.name.compare(0, 4, "body") == 0 ? honestTx("N") : honestTx("X"), o1);
		if (m.valid) rec(bad);
		if (ctx == 'F') { put("F1", addBlock(n, *F1->full)); refused(bad, A1, log); put("bad", give(*bad->full)); }
		else { put("bad", give(*bad->full)); refused(bad, A1, log); put("hF1", addHeader(n, F1->header())); put("hbad", addHeader(n, bad->header())); put("bad", give(*bad->full)); put("F1", addBlock(n, *F1->full)); }
		orphans(n);
		if (m.valid) accepted(bad, log);
		else {
			refused(bad, A1, log);
			if (restart) { n.restart(); refused(bad, A1, log + "restart"); }
			put("hs", addHeaders(n, { F1->header(), good->header() })); put("F1", addBlock(n, *F1->full)); put("good", addBlock(n, *good->full)); orphans(n); accepted(good, log);
		}
	} else { // M: the broken block is the first of the fork, its child makes the fork the heaviest
		contend();
		BlkP good = rec(honest(T, px + "N", honestTx("N"), o1)), bad = m.make(T, m.name.compare(0, 4, "body") == 0 ? px + "N" : px + "X", m.name.compare(0, 4, "body") == 0 ? honestTx("N") : honestTx("X"), o1);
		BlkP F2 = mine(bad, px + "X2", { spend({ pl[4] }, { { px + "x2", 0 } }) }, o3), G2 = rec(mine(good, px + "N2", { spend({ pl[4] }, { { px + "n2", 0 } }) }, o3));
		put("hbad", addHeader(n, bad->header())); put("h2", addHeader(n, F2->header()));
		put("b2", addBlock(n, *F2->full)); refused(bad, A1, log);
		put("bad", give(*bad->full)); orphans(n); put("b2", addBlock(n, *F2->full)); orphans(n);
		refused(bad, A1, log);
		if (restart) { n.restart(); refused(bad, A1, log + "restart"); }
		put("hs", addHeaders(n, { good->header(), G2->header() })); put("good", addBlock(n, *good->full)); put("G2", addBlock(n, *G2->full)); orphans(n); accepted(G2, log);
	}
	vh::S().traces++;
	// every case starts from a clean node
	if (vh::S().violations != v0 || ses.tip == T) ses.used = ses.maxUse;
	if (m.name.compare(0, 6, "weight") == 0) ses.used = ses.maxUse;
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	auto cat = catalogue();
	for (auto& m : cat) for (char c : std::string("NHFOM")) {
		if (!m.ctxs.empty() && m.ctxs.find(c) == std::string::npos) continue;
		if (c == 'M' && m.valid) continue;
		for (int r = 0; r < (vh::thorough() ? 2 : 1); r++) {
			std::string id = m.name + "|" + c + (r ? "|restart" : "");
			if (!vh::begin(id)) continue;
			run(id, m, c, r);
		}
	}
	ses.node.reset(); vh::fini(); _exit(0);
}
