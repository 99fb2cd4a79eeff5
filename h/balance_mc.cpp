// C22: every sequence of wallet and chain operations up to a depth, on two real wallets.
#include "wal.h"
using namespace wal; using wal::fail;
static World W;
static int serial = 0;
// ---------- what the wallets ought to show ----------
struct Side { // one wallet's part in one transfer
	int user = 0, slate = -1; bool send = false; uint32_t txId = 0;
	std::vector<B> in, out;
	enum { OPEN, CANCELLED, DONE } st = OPEN;
	bool finalized = false;
};
struct Xfer { Slate s, r; bool received = false, finalized = false; int sendSide = -1; uint64_t amount = 0; TransactionPtr tx; };
static std::map<B, std::pair<int, uint64_t>> own; // commitment -> owner, amount
static std::vector<B> order;
static std::vector<Side> sides;
static std::vector<Xfer> xfers;
static std::set<B> inReplaced; // mining rewards in blocks that replaced others
static const Blk& tip() { return *W.node->tip; }
static bool live(const B& c) { return tip().utxo.count(c) > 0; }
static void addOwn(const Commitment& c, int u, uint64_t v) { B b = ref::bytes(c); if (own.emplace(b, std::make_pair(u, v)).second) order.push_back(b); }
static bool txOnChain(const TransactionPtr& t)
{
	if (!t) return false;
	for (const Blk* p = &tip(); p; p = p->parent.get()) for (auto& k : p->full->GetKernels()) if (k.GetCommitment() == t->GetKernels().front().GetCommitment()) return true;
	return false;
}
static bool onChain(const Side& s)
{
	for (auto& o : s.out) if (live(o)) return true;
	return s.send && txOnChain(xfers[s.slate].tx);
}
// what wallet u learns when it looks at the chain
static void look(int u) { for (auto& s : sides) if (s.user == u && s.st == Side::OPEN && onChain(s)) s.st = Side::DONE; }
struct Bal { uint64_t spendable = 0, immature = 0, locked = 0, waiting = 0, maybe = 0; };
static Bal expected(int u, bool searched = false)
{
	Bal b; std::set<B> reserved;
	for (auto& s : sides) {
		if (s.user != u) continue;
		if (s.st == Side::OPEN) { for (auto& i : s.in) reserved.insert(i); for (auto& o : s.out) if (!live(o)) b.waiting += own[o].second; }
		else if (s.st == Side::DONE) for (auto& o : s.out) if (!live(o)) b.maybe += own[o].second;
	}
	uint64_t h = tip().height();
	auto r = W.handle[u].Read(); auto db = r->GetDatabase().Read();
	std::set<B> stored; for (auto& o : db->GetOutputs(r->GetMasterSeed())) stored.insert(ref::bytes(o.GetCommitment()));
	for (auto& o : own) {
		if (o.second.first != u) continue;
		auto it = tip().utxo.find(o.first); if (it == tip().utxo.end()) continue;
		// a finding on its own: a mining reward in a block that replaced one the wallet had already looked through
		if (searched && it->second.f == EOutputFeatures::COINBASE_OUTPUT && !stored.count(o.first) && inReplaced.count(o.first)) { known("missed-replaced-leaf", vh::cat("wallet ", W.users[u].name, " does not know its mining reward at leaf ", it->second.leaf, " of a block that replaced one it had looked through")); continue; }
		if (reserved.count(o.first)) b.locked += o.second.second;
		else if (it->second.f == EOutputFeatures::COINBASE_OUTPUT ? it->second.height + 25 < h : it->second.height + 2 <= h) b.spendable += o.second.second;
		else b.immature += o.second.second;
	}
	return b;
}
static void observe()
{
	for (int u = 0; u < 2; u++) {
		look(u);
		auto w = W.wallet(u); auto r = w.Read();
		auto g = r->GetBalance(); Bal e = expected(u, true);
		auto show = [](uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return vh::cat("spendable ", a, ", immature ", b, ", locked ", c, ", awaiting ", d); };
		std::string t = vh::cat("wallet ", W.users[u].name, " shows ", show(g.GetSpendable(), g.GetImmature(), g.GetLocked(), g.GetUnconfirmed()), " but the chain and its open transactions give ", show(e.spendable, e.immature, e.locked, e.waiting));
		if (g.GetLocked() != e.locked) fail("locked", t);
		else if (g.GetSpendable() != e.spendable || g.GetImmature() != e.immature) fail(g.GetSpendable() + g.GetImmature() != e.spendable + e.immature ? "spendable" : "maturity", t);
		else if (g.GetUnconfirmed() < e.waiting || g.GetUnconfirmed() > e.waiting + e.maybe) fail("awaiting", t);
		if (g.GetBlockHeight() != tip().height()) fail("height", vh::cat("the wallet stands at height ", g.GetBlockHeight(), " of ", tip().height()));
		// history entries agree with what happened
		auto txs = r->GetDatabase().Read()->GetTransactions(r->GetMasterSeed());
		for (auto& s : sides) {
			if (s.user != u) continue;
			for (auto& x : txs) {
				if (x.GetId() != s.txId) continue;
				auto ty = x.GetType();
				bool ok = s.st == Side::DONE ? ty == (s.send ? EWalletTxType::SENT : EWalletTxType::RECEIVED)
					: s.st == Side::CANCELLED ? ty == (s.send ? EWalletTxType::SENT_CANCELED : EWalletTxType::RECEIVED_CANCELED)
					: s.send ? ty == (s.finalized ? EWalletTxType::SENDING_FINALIZED : EWalletTxType::SENDING_STARTED) : ty == EWalletTxType::RECEIVING_IN_PROGRESS;
				if (!ok) fail("history", vh::cat("transfer ", s.slate, " of wallet ", W.users[u].name, " is listed as ", WalletTxType::ToString(ty), " but is ", s.st == Side::DONE ? "confirmed" : s.st == Side::CANCELLED ? "cancelled" : s.finalized ? "finalized" : "open"));
			}
		}
	}
}
// ---------- operations ----------
static uint32_t lastTx(int u, const uuids::uuid& id, bool send)
{
	auto r = W.handle[u].Read(); uint32_t best = UINT32_MAX;
	for (auto& x : r->GetDatabase().Read()->GetTransactions(r->GetMasterSeed()))
		if (x.GetSlateId().has_value() && x.GetSlateId().value() == id && (x.GetAmountDebited() > 0) == send) best = x.GetId();
	return best;
}
static uint64_t mostLeaves = 0;
static void mineOwn(int u, const std::string& n) { mostLeaves = std::max(mostLeaves, tip().outs.leaves); W.node->mine(n, true, [&](uint64_t fees) { auto r = W.coinbase(u, fees); addOwn(r.GetOutput().GetCommitment(), u, Consensus::REWARD + fees); return r; }); if (tip().utxo.at(order.back()).leaf < mostLeaves) inReplaced.insert(order.back()); }
static void doSend(uint64_t amount, bool all, int outputs)
{
	look(0);
	W.wallet(0); Bal e = expected(0, true);
	// what can be spent now, oldest rule: mature and not reserved
	uint64_t have = e.spendable;
	try {
		Slate s = W.mgr->Send(SendCriteria(W.users[0].token(), all ? std::nullopt : std::make_optional(amount), 500000, (uint8_t)outputs, strat(ESelectionStrategy::SMALLEST), std::nullopt, std::nullopt));
		Xfer x; x.s = s; x.amount = s.amount; x.sendSide = (int)sides.size();
		Side d; d.user = 0; d.slate = (int)xfers.size(); d.send = true;
		uint64_t in = 0, reservedBefore = 0;
		std::set<B> reserved; for (auto& o : sides) if (o.user == 0 && o.st == Side::OPEN) for (auto& i : o.in) reserved.insert(i);
		auto r = W.handle[0].Read();
		auto ctx = r->GetSlateContext(s.GetId());
		for (auto& i : ctx.GetInputs()) {
			B c = ref::bytes(i.GetCommitment()); d.in.push_back(c); in += i.GetAmount();
			if (reserved.count(c)) fail("reserved-twice", "an output already committed to an open transaction was chosen again");
			if (!live(c) || !own.count(c)) fail("not-mine", "an output that is not on the chain was chosen");
		}
		(void)reservedBefore;
		uint64_t change = 0;
		for (auto& o : ctx.GetOutputs()) { B c = ref::bytes(o.GetCommitment()); d.out.push_back(c); change += o.GetAmount(); addOwn(o.GetCommitment(), 0, o.GetAmount()); }
		if (in != s.amount + s.fee.GetFee() + change) fail("value", vh::cat("inputs ", in, " != amount ", s.amount, " + fee ", s.fee.GetFee(), " + change ", change));
		d.txId = lastTx(0, s.GetId(), true);
		sides.push_back(d); xfers.push_back(x);
	} catch (std::exception& ex) {
		if (!all && have >= amount + 100000000ull) fail("send-refused", vh::cat("sending ", amount, " failed although ", have, " is spendable: ", ex.what()));
	}
}
static void doReceive(int i, int u)
{
	Xfer& x = xfers[i]; bool already = false;
	for (auto& s : sides) if (s.user == u && s.slate == i && !s.send && s.st != Side::CANCELLED) already = true;
	try {
		Slate r = W.mgr->Receive(ReceiveCriteria(SessionToken(W.users[u].token()), std::nullopt, Slate(x.s), std::nullopt));
		if (already) fail("received-twice", "a slate that was received already was received again");
		x.r = r; x.received = true;
		Side d; d.user = u; d.slate = i;
		std::set<B> theirs; for (auto& o : x.s.GetOutputs()) theirs.insert(ref::bytes(o.GetCommitment()));
		for (auto& o : r.GetOutputs()) { if (theirs.count(ref::bytes(o.GetCommitment()))) continue; addOwn(o.GetCommitment(), u, x.amount); if (own[ref::bytes(o.GetCommitment())].first == u) d.out.push_back(ref::bytes(o.GetCommitment())); }
		d.txId = lastTx(u, r.GetId(), false);
		sides.push_back(d);
	} catch (std::exception& e) { if (!already && !(sides[x.sendSide].user == u && (sides[x.sendSide].st != Side::OPEN || x.finalized))) fail("receive-refused", vh::cat("receiving an open transfer failed: ", e.what())); }
}
static void doFinalize(int i)
{
	Xfer& x = xfers[i]; Side& d = sides[x.sendSide];
	bool ok = d.st == Side::OPEN && !d.finalized;
	try {
		Slate f = W.mgr->Finalize(FinalizeCriteria(W.users[0].token(), std::nullopt, Slate(x.r), PostMethodDTO(EPostMethod::FLUFF, std::nullopt)), nullptr);
		if (d.st == Side::CANCELLED) fail("finalize-cancelled", "a cancelled transfer was finalized");
		if (!ok) { fail("finalize-twice", "a transfer was finalized twice"); return; }
		d.finalized = true; x.finalized = true;
		auto p = W.handle[0].Read()->GetTransactionById(d.txId);
		if (!p || !p->GetTransaction().has_value()) { fail("finalize-lost", "the finalized transaction is not stored"); return; }
		x.tx = std::make_shared<Transaction>(p->GetTransaction().value());
		W.node->learn(x.tx);
	} catch (std::exception& e) { if (ok) fail("finalize-refused", vh::cat("finalizing an open, answered transfer failed: ", e.what())); }
}
static void doCancel(int k)
{
	int u = sides[k].user;
	auto w = W.wallet(u); look(u);
	bool ok = sides[k].st == Side::OPEN, done = sides[k].st == Side::DONE;
	try {
		w.Write()->CancelTx(sides[k].txId);
		if (done) { fail("cancelled-confirmed", "a confirmed transaction was cancelled"); return; }
		sides[k].st = Side::CANCELLED;
	} catch (std::exception& e) { if (ok) fail("cancel-refused", vh::cat("cancelling an open transaction failed: ", e.what())); }
}
static const uint64_t G = 1000000000ull;
static int maxX = 2;
static bool enabled(const std::string& op)
{
	char a = op[0]; size_t i = op.size() > 1 && isdigit(op[1]) ? op[1] - '0' : 0;
	if (a == 's') return (int)xfers.size() < maxX;
	if (a == 'r' || a == 'q') return i < xfers.size();
	if (a == 'f') return i < xfers.size() && xfers[i].received;
	if (a == 'c') return i < sides.size();
	return true;
}
static void apply(const std::string& op)
{
	char a = op[0]; int i = op.size() > 1 && isdigit(op[1]) ? op[1] - '0' : 0;
	std::string n = vh::cat("x", serial++);
	if (op == "s20") doSend(20 * G, false, 1);
	else if (op == "s70") doSend(70 * G, false, 2);
	else if (op == "sAll") doSend(0, true, 0);
	else if (a == 'r') doReceive(i, 1);
	else if (a == 'q') doReceive(i, 0);
	else if (a == 'f') doFinalize(i);
	else if (a == 'c') doCancel(i);
	else if (op == "m") W.node->mine(n);
	else if (op == "M") mineOwn(0, n);
	else if (op == "e") W.node->mine(n, false);
	else if (a == 'g') { // the last i blocks are replaced by i+1
		mostLeaves = std::max(mostLeaves, tip().outs.leaves); W.node->drop(i); bool mineRest = op.find('m') != std::string::npos;
		for (int k = 0; k <= i; k++) { if (op.find('M') != std::string::npos && k == (i > 1 ? i : 0)) { mineOwn(0, vh::cat(n, "_", k)); } else W.node->mine(vh::cat(n, "_", k), mineRest && k == i); }
	}
	else if (a == 'R') { W.wallet(i); look(i); }
}
static std::string stateName()
{
	std::string s = vh::cat(tip().height(), "|", mostLeaves, "|");
	for (size_t k = 0; k < order.size(); k++) { auto it = tip().utxo.find(order[k]); if (it != tip().utxo.end()) s += vh::cat(k, "@", it->second.height, ":", it->second.leaf, ","); }
	for (const Blk* p = &tip(); p && p->height() > 28; p = p->parent.get()) { s += vh::cat("b", p->outs.leaves, "t"); for (size_t k = 0; k < xfers.size(); k++) if (xfers[k].tx) for (auto& q : p->full->GetKernels()) if (q.GetCommitment() == xfers[k].tx->GetKernels().front().GetCommitment()) s += vh::cat(k, ","); for (size_t k = 0; k < order.size(); k++) for (auto& o : p->full->GetOutputs()) if (ref::bytes(o.GetCommitment()) == order[k]) s += vh::cat("o", k, ","); }
	s += "|p"; for (auto& p : W.node->pool) for (size_t k = 0; k < xfers.size(); k++) if (xfers[k].tx && clash(*p, *xfers[k].tx)) s += vh::cat(k, ",");
	for (auto& d : sides) s += vh::cat("|", d.user, d.slate, d.send, (int)d.st, d.finalized);
	for (auto& x : xfers) { s += vh::cat("|", x.received, x.finalized, x.amount); if (x.received) for (auto& o : x.r.GetOutputs()) for (size_t k = 0; k < order.size(); k++) if (ref::bytes(o.GetCommitment()) == order[k]) s += vh::cat("o", k); }
	for (int u = 0; u < 2; u++) { // the stored state, as it is
		auto r = W.handle[u].Read(); auto db = r->GetDatabase().Read();
		s += vh::cat("|W", db->GetRefreshBlockHeight(), ",", db->GetRestoreLeafIndex());
		std::map<size_t, std::string> os;
		for (auto& o : db->GetOutputs(r->GetMasterSeed())) { size_t k = 0; while (k < order.size() && order[k] != ref::bytes(o.GetCommitment())) k++; os[k] = vh::cat((int)o.GetStatus(), "h", o.GetBlockHeight().value_or(0), "t", o.GetWalletTxId().value_or(99)); }
		for (auto& o : os) s += vh::cat(";", o.first, ":", o.second);
		for (auto& t : db->GetTransactions(r->GetMasterSeed())) s += vh::cat("/", t.GetId(), "y", (int)t.GetType());
	}
	return s;
}
static void setup()
{
	Shared::get(); std::string dir = vh::freshDir("w"); useDir(dir); ch::ctx()->GetConfig(); const_cast<Config&>(ch::ctx()->GetConfig()).SetMinConfirmations(2);
	W.node = std::make_shared<MemNode>(); W.node->add(genesis());
	W.mgr = WalletAPI::CreateWalletManager(ch::ctx()->GetConfig(), W.node);
	W.create("alice"); W.create("bob");
	for (int i = 0; i < 29; i++) { if (i == 0 || i == 1 || i == 3) mineOwn(0, vh::cat("i", i)); else W.node->mine(vh::cat("i", i)); }
	for (int u = 0; u < 2; u++) W.wallet(u);
}
static const std::vector<std::string> OPS = { "s20", "sAll", "s70", "r0", "q0", "f0", "r1", "f1", "c0", "c1", "m", "M", "e", "g1", "g2", "g3", "g1M", "g1m", "g2M", "g3m", "R0", "R1" };
// all continuations of a history
static void from(const std::string& prefix, int depth, int mx, std::vector<std::string> extra = {}, const std::vector<std::string>& base = OPS)
{
	inCopy([&] {
		Explorer e; e.ops = base; for (auto& x : extra) e.ops.push_back(x); e.depth = depth; e.enabled = enabled; e.apply = apply; e.observe = observe; e.canon = stateName;
		maxX = mx; std::stringstream ss(prefix); std::string op;
		while (std::getline(ss, op, ',')) { if (!enabled(op)) return; vh::setCurrent(prefix); apply(op); }
		e.run(prefix.empty() ? "" : prefix + ",");
	});
}
VH_MAIN(
	bool t = vh::thorough(); setup(); inCopy(observe);
	if (vh::S().replay) { maxX = 3; Explorer e; e.enabled = enabled; e.apply = apply; e.observe = observe; e.replay(vh::S().only); vh::fini(); fflush(stdout); _exit(0); }
	int d = t ? 5 : 3;
	if (t) from("", 6, 2); else from("", 4, 2, {}, { "s20", "sAll", "r0", "q0", "f0", "c0", "c1", "m", "M", "e", "g2", "g1m", "R0" });
	from("s20,r0,f0,m", d, 2);
	from("s20,r0,f0,m,R0,R1,e,e", d, 2);
	from("s20,r0,f0,m,R0,e,e,sAll,r1", d, 2, { "c2", "c3" });
	from("s20,q0,f0", d, 2);
	from("s70,r0,s20,r1", d, 2, { "c2", "c3" });
	Explorer::fold();
)
