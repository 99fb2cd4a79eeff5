// C21: every small set of coins, amount, fee rate, number of change outputs and strategy, sent by a real wallet.
#include "wal.h"
#include <API/Wallet/Owner/Models/EstimateFeeCriteria.h>
using namespace wal; using wal::fail;
typedef unsigned __int128 U;
static World W;
struct Coin { B c; uint64_t v; Commitment commit; };
static std::vector<Coin> coins; static bool full = true;
static U feeOf(uint64_t base, uint64_t in, uint64_t changes) { return (U)base * (in + 21 * (1 + changes) + 3); }
static std::string dump(int u)
{
	auto r = W.handle[u].Read(); auto db = r->GetDatabase().Read(); std::set<std::string> l;
	for (auto& o : db->GetOutputs(r->GetMasterSeed())) l.insert(vh::cat("o", o.GetCommitment().ToHex(), (int)o.GetStatus(), "h", o.GetBlockHeight().value_or(0), "t", o.GetWalletTxId().value_or(99999)));
	for (auto& t : db->GetTransactions(r->GetMasterSeed())) l.insert(vh::cat("t", t.GetId(), "y", (int)t.GetType()));
	std::string s; for (auto& x : l) s += x + "\n"; return s;
}
struct Try { bool all = false; uint64_t amount = 0, base = 500000; int changes = 1; ESelectionStrategy st = ESelectionStrategy::SMALLEST; unsigned mask = 0; };
static std::string nameOf(const Try& t)
{
	std::string s = "coins"; for (auto& c : coins) s += vh::cat(" ", c.v);
	s += t.all ? std::string("; everything") : vh::cat("; amount ", t.amount);
	return s + vh::cat("; rate ", t.base, "; change ", t.changes, "; strategy ", (int)t.st, t.st == ESelectionStrategy::CUSTOM ? vh::cat(" of ", t.mask) : std::string());
}
// what the strategy has to choose: number of coins, or -1 if the coins do not reach
static bool expected(const Try& t, std::vector<uint64_t>& amounts)
{
	std::vector<uint64_t> v; for (size_t i = 0; i < coins.size(); i++) if (t.st != ESelectionStrategy::CUSTOM || t.all || (t.mask >> i & 1)) v.push_back(coins[i].v);
	std::sort(v.begin(), v.end());
	uint64_t changes = t.all ? 0 : t.changes; U sum = 0; amounts.clear();
	if (t.all) { for (auto x : v) sum += x; amounts = v; return sum > feeOf(t.base, v.size(), 0); }
	if (t.st == ESelectionStrategy::ALL || t.st == ESelectionStrategy::CUSTOM) { for (auto x : v) sum += x; amounts = v; return sum >= (U)t.amount + feeOf(t.base, v.size(), changes); }
	if (t.st == ESelectionStrategy::FEWEST_INPUTS) std::reverse(v.begin(), v.end());
	for (size_t k = 1; k <= v.size(); k++) { sum += v[k - 1]; amounts.push_back(v[k - 1]); if (sum >= (U)t.amount + feeOf(t.base, k, changes)) { std::sort(amounts.begin(), amounts.end()); return true; } }
	return false;
}
static SelectionStrategyDTO strategyOf(const Try& t) { std::set<Commitment> in; for (size_t i = 0; i < coins.size(); i++) if (t.mask >> i & 1) { in.insert(coins[i].commit); } return strat(t.st, in); }
static void attempt(const Try& t)
{
	std::vector<uint64_t> want; bool can = expected(t, want);
	U sum = 0; for (auto x : want) sum += x;
	uint64_t changes = t.all ? 0 : t.changes;
	U fee = !t.all && changes == 0 ? (can ? sum - t.amount : 0) : feeOf(t.base, want.size(), changes);
	bool fits40 = fee < ((U)1 << 40); // the kernel has 40 bits for the fee
	std::string before = dump(0);
	auto opt = t.all ? std::nullopt : std::make_optional(t.amount);
	std::optional<uint64_t> est; std::set<B> estIn;
	try {
		auto e = W.handle[0].Read()->EstimateFee(EstimateFeeCriteria(W.users[0].token(), opt, t.base, (uint8_t)t.changes, strategyOf(t)));
		est = e.GetFee(); for (auto& i : e.GetInputs()) estIn.insert(ref::bytes(i.GetCommitment()));
	} catch (std::exception&) {}
	if (dump(0) != before) fail("estimate-changes", vh::cat(nameOf(t), ": the estimate changed the wallet"));
	if (t.changes > 100 && !vh::thorough()) { // encoding that many outputs takes minutes
		if (est.has_value() != (can && fits40) || (est.has_value() && est.value() != (uint64_t)fee)) fail("estimate", vh::cat(nameOf(t), ": estimated as ", est.value_or(0), " instead of ", (uint64_t)fee));
		return;
	}
	Slate s;
	try { s = W.mgr->Send(SendCriteria(W.users[0].token(), opt, t.base, (uint8_t)t.changes, strategyOf(t), std::nullopt, std::nullopt)); }
	catch (std::exception& e) {
		if (can && fits40) fail("refused", vh::cat(nameOf(t), ": refused though the coins cover it: ", e.what()));
		if (dump(0) != before) fail("refused-changes", vh::cat(nameOf(t), ": the refused send changed the wallet"));
		vh::count("refused", 1); return;
	}
	std::string d; std::set<B> distinct, own; std::vector<uint64_t> got;
	{
	auto r = W.handle[0].Read(); auto ctx = r->GetSlateContext(s.GetId());
	U in = 0, chg = 0; for (auto& c : coins) own.insert(c.c);
	for (auto& i : ctx.GetInputs()) { in += i.GetAmount(); got.push_back(i.GetAmount()); distinct.insert(ref::bytes(i.GetCommitment())); if (!own.count(ref::bytes(i.GetCommitment()))) fail("foreign", vh::cat(nameOf(t), ": an input is not a spendable coin")); }
	for (auto& o : ctx.GetOutputs()) chg += o.GetAmount();
	std::sort(got.begin(), got.end());
	d = vh::cat(nameOf(t), ": amount ", s.amount, " fee ", s.fee.GetFee(), " inputs ", (uint64_t)in, " change ", (uint64_t)chg);
	if (distinct.size() != got.size()) fail("duplicate", vh::cat(d, ": a coin was chosen twice"));
	if (in != (U)s.amount + s.fee.GetFee() + chg) { fail("unbalanced", d); return; }
	if (s.fee.GetFee() >> 40) { fail("fee-width", d); return; }
	if (!can) { fail("not-covered", vh::cat(d, ": accepted though the coins do not cover amount and fee")); return; }
	if (!t.all && s.amount != t.amount) fail("amount", d);
	if (ctx.GetOutputs().size() != changes) fail("change-count", vh::cat(d, ": ", ctx.GetOutputs().size(), " change outputs"));
	if ((U)s.fee.GetFee() != fee) fail("fee", vh::cat(d, ": the fee for the size is ", (uint64_t)fee));
	if (got != want) fail("strategy", vh::cat(d, ": not the coins of the strategy"));
	if (est.has_value()) { if (est.value() != s.fee.GetFee()) fail("estimate", vh::cat(d, ": was estimated as ", est.value())); if (estIn.size() != distinct.size()) fail("estimate-inputs", d); }
	else fail("estimate-refused", vh::cat(d, ": but the estimate was refused"));
	Shared::get().nontrivial++;
	// the chosen coins are reserved, nothing else is
	for (auto& o : r->GetDatabase().Read()->GetOutputs(r->GetMasterSeed())) {
		B c = ref::bytes(o.GetCommitment()); if (!own.count(c)) continue;
		if ((o.GetStatus() == EOutputStatus::LOCKED) != (distinct.count(c) > 0)) fail("reserved", vh::cat(d, ": the wrong coins are reserved"));
	}
	}
	if (!full || (changes > (vh::thorough() ? 4 : 3) && !(vh::thorough() && changes == 255))) return;
	// the transaction made of it is valid and pays what its size requires
	try {
		Slate a = W.mgr->Receive(ReceiveCriteria(SessionToken(W.users[1].token()), std::nullopt, Slate(s), std::nullopt));
		Slate f = W.mgr->Finalize(FinalizeCriteria(W.users[0].token(), std::nullopt, Slate(a), std::nullopt), nullptr);
		for (auto& x : W.handle[0].Read()->GetDatabase().Read()->GetTransactions(W.handle[0].Read()->GetMasterSeed())) {
			if (x.GetType() != EWalletTxType::SENDING_FINALIZED) continue;
			auto tx = x.GetTransaction().value();
			TransactionValidator().Validate(tx, W.node->tip->height() + 1);
			if (tx.GetInputs().size() != got.size() || tx.GetOutputs().size() != 1 + changes || tx.GetKernels().size() != 1 || tx.CalcFee() != s.fee.GetFee()) fail("final", vh::cat(d, ": the final transaction differs from the plan"));
			if (t.base == 500000 && !tx.FeeMeetsMinimum(W.node->tip->height() + 1)) fail("final-fee", vh::cat(d, ": the final transaction pays less than the minimum fee"));
		}
		vh::count("finalized", 1);
	} catch (std::exception& e) { fail("final-invalid", vh::cat(d, ": ", e.what())); }
}
static void coinBlock(const std::vector<uint64_t>& amounts)
{
	std::vector<BuildCoinbaseResponse> rs; for (auto a : amounts) rs.push_back(W.coinbase(0, a - Consensus::REWARD));
	BlkOpt o; o.noCoinbase = true; o.body = [rs](auto&, auto& out, auto& ker) { for (auto& r : rs) { out.push_back(r.GetOutput()); ker.push_back(r.GetKernel()); } };
	for (size_t i = 0; i < rs.size(); i++) coins.push_back({ ref::bytes(rs[i].GetOutput().GetCommitment()), amounts[i], rs[i].GetOutput().GetCommitment() });
	W.node->add(ch::mine(W.node->tip, "coins", {}, o));
}
VH_MAIN(
	bool T = vh::thorough();
	Shared::get(); std::string dir = vh::freshDir("w"); useDir(dir); const_cast<Config&>(ch::ctx()->GetConfig()).SetMinConfirmations(2);
	W.node = std::make_shared<MemNode>(); W.node->add(genesis());
	W.mgr = WalletAPI::CreateWalletManager(ch::ctx()->GetConfig(), W.node); W.create("alice"); W.create("bob");
	const uint64_t F = 500000;
	std::vector<uint64_t> alpha = { 1, F - 1, F, F * 25, F * 46, F * 46 + 1, 60000000000ull, (1ull << 40) + 5, 1ull << 62 };
	std::vector<std::vector<uint64_t>> sets = { {} };
	for (size_t a = 0; a < alpha.size(); a++) for (size_t b = a; b <= alpha.size(); b++) for (size_t c = b; c <= alpha.size(); c++) {
		std::vector<uint64_t> s = { alpha[a] }; if (b < alpha.size()) s.push_back(alpha[b]); if (c < alpha.size()) s.push_back(alpha[c]);
		if (std::accumulate(s.begin(), s.end(), (U)0) < ((U)1 << 64)) sets.push_back(s);
	}
	for (auto& s : std::vector<std::vector<uint64_t>>{ { 1, 1, 1, 1, F * 50 }, { F * 10, F * 10, F * 10, F * 10, F * 10 }, { F * 2, F * 40, F * 45, F * 47, 60000000000ull }, { 1, F, F, 60000000000ull, 60000000000ull, 60000000000ull } }) sets.push_back(s);
	int done = 0;
	for (size_t si = 0; si < sets.size(); si++) {
		if (vh::outOfTime()) break;
		if (!vh::S().replay && (int)(si % vh::S().nshards) != vh::S().shard) continue;
		auto& set = sets[si];
		inCopy([&] {
			coinBlock(set); for (int i = 0; i < 27; i++) W.node->mine(vh::cat("e", i), false);
			W.wallet(0);
			std::vector<Try> tries;
			// amounts around every sum the strategies reach, and around the largest number
			std::set<uint64_t> amounts;
			U total = 0; for (auto x : set) total += x;
			for (unsigned m = 1; m < (1u << set.size()); m++) { U s = 0; int k = 0; for (size_t i = 0; i < set.size(); i++) if (m >> i & 1) { s += set[i]; k++; } for (int ch = 0; ch <= 2; ch++) { U f = feeOf(F, k, ch); for (int d = -1; d <= 1; d++) if (s + d > f) amounts.insert((uint64_t)(s + d - f)); } }
			amounts.insert(1);
			std::set<uint64_t> edge = { 1, 1ull << 63, UINT64_MAX, UINT64_MAX - F * 46, UINT64_MAX - F * 46 + 1, UINT64_MAX - F * 25 + 1, (uint64_t)total, (uint64_t)total + 1 };
			std::vector<ESelectionStrategy> sts = { ESelectionStrategy::SMALLEST, ESelectionStrategy::FEWEST_INPUTS, ESelectionStrategy::ALL };
			for (auto base : std::vector<uint64_t>{ F, (uint64_t)1, (uint64_t)0, F * 2, 1ull << 34, 1ull << 58, 1ull << 63, UINT64_MAX, UINT64_MAX / 46 + 1, UINT64_MAX / 25 + 1 }) { Try t; t.all = true; t.base = base; tries.push_back(t); for (auto a : std::vector<uint64_t>{ 1, 30000000000ull, (uint64_t)total / 2 }) for (int ch : { 0, 1, 3 }) for (auto st : sts) { if (a == 0) continue; Try x; x.base = base; x.amount = a; x.changes = ch; x.st = st; if (set.size() <= 1 || T) tries.push_back(x); } }
			for (auto a : amounts) for (int ch : { 1, 2 }) for (auto st : sts) { if (!T && ch == 2 && (set.size() > 2 || st == ESelectionStrategy::ALL)) continue; Try t; t.amount = a; t.changes = ch; t.st = st; tries.push_back(t); }
			for (auto a : edge) for (auto st : sts) { if (a == 0) continue; Try t; t.amount = a; t.st = st; tries.push_back(t); }
			for (auto a : amounts) { Try t; t.amount = a; t.changes = 0; tries.push_back(t); }
			if (set.size() >= 2) for (unsigned m = 0; m < (1u << set.size()); m++) { U s = 0; int k = 0; for (size_t i = 0; i < set.size(); i++) if (m >> i & 1) { s += set[i]; k++; } for (int d = -1; d <= 1; d++) { Try t; t.st = ESelectionStrategy::CUSTOM; t.mask = m; t.amount = s + d > feeOf(F, k, 1) ? (uint64_t)(s + d - feeOf(F, k, 1)) : 1; tries.push_back(t); } }
			for (int ch : { 4, 127, 254, 255 }) for (auto st : sts) { Try t; t.amount = 1000; t.changes = ch; t.st = st; if (total >= 60000000000ull && (set == std::vector<uint64_t>{ 60000000000ull } || T)) tries.push_back(t); }
			full = T || set.size() <= 2 || vh::S().replay;
			for (auto& t : tries) {
				if (vh::outOfTime()) { Shared::get().capped = 1; return; }
				std::string n = vh::cat(si, "|", nameOf(t)); if (vh::S().replay && n != vh::S().only) continue;
				Shared::get().evals++; Shared::get().transitions++;
				inCopy([&] { vh::setCurrent(n); attempt(t); });
			}
			Shared::get().states++;
		});
		done++;
	}
	Explorer::fold(); vh::count("coin sets", done); vh::count("sent", Shared::get().nontrivial);
)
