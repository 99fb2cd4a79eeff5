// C23: every alteration of every field of a slate between the steps of an exchange, alone and in pairs.
#include "wal.h"
using namespace wal; using wal::fail;
static World W;
static Slate sA, sB, rA, rB; // the two open exchanges: both sent by alice, B also answered by bob
struct Terms { uint64_t amount = 0, fee = 0; std::map<B, EOutputFeatures> in, change; bool proof = false; ed25519_public_key_t from, to; };
static std::map<std::string, Terms> terms;
static ed25519_public_key_t bobKey, aliceKey, malloryKey;
typedef std::function<void(Slate&)> Alter;
static std::vector<std::pair<std::string, Alter>> alterations(const Slate& base, const Slate& other)
{
	std::vector<std::pair<std::string, Alter>> v; auto add = [&](const std::string& n, Alter a) { v.push_back({ n, a }); };
	add("none", [](Slate&) {});
	for (uint64_t a : std::vector<uint64_t>{ base.amount + 1, base.amount - 1, base.amount + 1000000000, 0, UINT64_MAX }) add(vh::cat("amount=", a), [a](Slate& s) { s.amount = a; });
	for (uint64_t a : std::vector<uint64_t>{ base.fee.GetFee() + 1, base.fee.GetFee() - 1, 0, (1ull << 40) - 1 }) add(vh::cat("fee=", a), [a](Slate& s) { s.fee = Fee(0, a); });
	add("shift=1", [](Slate& s) { s.fee = Fee(1, s.fee.GetFee()); });
	for (auto k : { EKernelFeatures::COINBASE_KERNEL, EKernelFeatures::HEIGHT_LOCKED, EKernelFeatures::NO_RECENT_DUPLICATE }) for (int lock : { -1, 0, 1, 100000 })
		add(vh::cat("kernel=", (int)k, "/", lock), [k, lock](Slate& s) { s.kernelFeatures = k; if (lock >= 0) { SlateFeatureArgs a; a.lockHeightOpt = lock; s.featureArgsOpt = a; } });
	add("lock=7", [](Slate& s) { SlateFeatureArgs a; a.lockHeightOpt = 7; s.featureArgsOpt = a; });
	add("offset=0", [](Slate& s) { s.offset = BlindingFactor{}; });
	add("offset+", [](Slate& s) { s.offset = Crypto::AddBlindingFactors({ s.offset, BlindingFactor(blind("q").GetBytes()) }, {}); });
	add("offset=other", [other](Slate& s) { s.offset = other.offset; });
	add("id=other", [other](Slate& s) { s.slateId = other.slateId; });
	add("id=new", [](Slate& s) { s.slateId = Slate().slateId; });
	for (int st : { 0, 1, 2, 3, 4, 5 }) add(vh::cat("stage=", st), [st](Slate& s) { s.stage = SlateStage((ESlateStage)st); });
	for (int x : { 0, 3, 5 }) add(vh::cat("version=", x), [x](Slate& s) { s.version = (uint16_t)x; });
	add("block=1", [](Slate& s) { s.blockVersion = 1; });
	add("ttl=1", [](Slate& s) { s.ttl = 1; });
	for (int x : { 0, 1, 3 }) add(vh::cat("parts=", x), [x](Slate& s) { s.numParticipants = (uint8_t)x; });
	// signatures
	add("sigs none", [](Slate& s) { s.sigs.clear(); });
	add("sigs reversed", [](Slate& s) { std::reverse(s.sigs.begin(), s.sigs.end()); });
	add("sigs doubled", [](Slate& s) { if (!s.sigs.empty()) s.sigs.push_back(s.sigs[0]); });
	add("sigs + other", [other](Slate& s) { s.sigs.push_back(other.sigs[0]); });
	for (size_t i = 0; i < base.sigs.size(); i++) {
		add(vh::cat("sig", i, " dropped"), [i](Slate& s) { if (i < s.sigs.size()) s.sigs.erase(s.sigs.begin() + i); });
		add(vh::cat("sig", i, " = other"), [i, other](Slate& s) { if (i < s.sigs.size()) s.sigs[i] = other.sigs[0]; });
		add(vh::cat("excess", i, " = other"), [i, other](Slate& s) { if (i < s.sigs.size()) s.sigs[i].excess = other.sigs[0].excess; });
		add(vh::cat("nonce", i, " = other"), [i, other](Slate& s) { if (i < s.sigs.size()) s.sigs[i].nonce = other.sigs[0].nonce; });
		add(vh::cat("excess", i, " <-> nonce"), [i](Slate& s) { if (i < s.sigs.size()) std::swap(s.sigs[i].excess, s.sigs[i].nonce); });
		add(vh::cat("partial", i, " none"), [i](Slate& s) { if (i < s.sigs.size()) s.sigs[i].partialOpt = std::nullopt; });
		add(vh::cat("partial", i, " = other"), [i](Slate& s) { if (i < s.sigs.size()) s.sigs[i].partialOpt = rB.sigs[0].partialOpt; });
	}
	add("sender added", [](Slate& s) { s.sigs.push_back(sA.sigs[0]); });
	// commitments
	add("coms none", [](Slate& s) { s.commitments.clear(); });
	add("coms reversed", [](Slate& s) { std::reverse(s.commitments.begin(), s.commitments.end()); });
	add("coms + other", [other](Slate& s) { for (auto& c : other.commitments) s.commitments.push_back(c); });
	add("coms = other", [other](Slate& s) { s.commitments = other.commitments; });
	for (size_t i = 0; i < base.commitments.size(); i++) {
		add(vh::cat("com", i, " dropped"), [i](Slate& s) { if (i < s.commitments.size()) s.commitments.erase(s.commitments.begin() + i); });
		add(vh::cat("com", i, " doubled"), [i](Slate& s) { if (i < s.commitments.size()) s.commitments.push_back(s.commitments[i]); });
		add(vh::cat("com", i, " features"), [i](Slate& s) { if (i < s.commitments.size()) s.commitments[i].features = s.commitments[i].features == EOutputFeatures::DEFAULT ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT; });
		add(vh::cat("com", i, " proof flipped"), [i, other](Slate& s) { if (i < s.commitments.size()) { auto& c = s.commitments[i]; if (c.proofOpt.has_value()) c.proofOpt = std::nullopt; else for (auto& x : other.commitments) if (x.proofOpt.has_value()) c.proofOpt = x.proofOpt; } });
		add(vh::cat("com", i, " other proof"), [i, other](Slate& s) { if (i < s.commitments.size() && s.commitments[i].proofOpt.has_value()) for (auto& x : other.commitments) if (x.proofOpt.has_value()) s.commitments[i].proofOpt = x.proofOpt; });
		add(vh::cat("com", i, " = other"), [i, other](Slate& s) { if (i < s.commitments.size()) for (auto& x : other.commitments) if (x.proofOpt.has_value() == s.commitments[i].proofOpt.has_value()) s.commitments[i] = x; });
	}
	// payment proof
	auto with = [](Slate& s, ed25519_public_key_t a, ed25519_public_key_t b, bool keep) { auto old = s.proofOpt; s.proofOpt = SlatePaymentProof::Create(a, b); if (keep && old.has_value() && old->GetReceiverSignature().has_value()) { auto g = old->GetReceiverSignature().value(); s.proofOpt->AddSignature(std::move(g)); } };
	add("proof none", [](Slate& s) { s.proofOpt = std::nullopt; });
	for (bool keep : { false, true }) {
		add(vh::cat("proof alice-bob ", keep), [with, keep](Slate& s) { with(s, aliceKey, bobKey, keep); });
		add(vh::cat("proof bob-alice ", keep), [with, keep](Slate& s) { with(s, bobKey, aliceKey, keep); });
		add(vh::cat("proof mallory-bob ", keep), [with, keep](Slate& s) { with(s, malloryKey, bobKey, keep); });
		add(vh::cat("proof alice-mallory ", keep), [with, keep](Slate& s) { with(s, aliceKey, malloryKey, keep); });
	}
	add("proof = other", [](Slate& s) { s.proofOpt = rB.proofOpt; });
	add("proof bit", [](Slate& s) { if (s.proofOpt.has_value() && s.proofOpt->GetReceiverSignature().has_value()) { auto g = s.proofOpt->GetReceiverSignature().value(); g.bytes[3] ^= 1; s.proofOpt->AddSignature(std::move(g)); } });
	return v;
}
static std::vector<uint8_t> proofMessage(uint64_t amount, const Commitment& excess, const ed25519_public_key_t& from)
{
	std::vector<uint8_t> m; for (int i = 7; i >= 0; i--) m.push_back((uint8_t)(amount >> (8 * i)));
	for (auto b : ref::bytes(excess)) m.push_back((uint8_t)b);
	for (auto b : from.bytes.GetData()) m.push_back(b);
	return m;
}
static uint64_t total(int u) { auto b = W.wallet(u).Read()->GetBalance(); return b.GetSpendable() + b.GetImmature() + b.GetLocked() + b.GetUnconfirmed(); }
static Terms termsOf(const Slate& s, bool proof)
{
	Terms t; t.amount = s.amount; t.fee = s.fee.GetFee(); t.proof = proof; t.from = aliceKey; t.to = bobKey;
	auto c = W.handle[0].Read()->GetSlateContext(s.GetId());
	for (auto& i : c.GetInputs()) t.in[ref::bytes(i.GetCommitment())] = i.GetFeatures();
	for (auto& o : c.GetOutputs()) t.change[ref::bytes(o.GetCommitment())] = o.GetFeatures();
	return t;
}
// bob receives; true if he did
static bool receive(const Slate& in, Slate& out, bool honest, const std::string& n)
{
	std::string before = W.dump(1);
	try { out = W.mgr->Receive(ReceiveCriteria(SessionToken(W.users[1].token()), std::nullopt, Slate(in), std::nullopt)); }
	catch (std::exception& e) {
		if (honest) fail("receive-refused", vh::cat(n, ": ", e.what()));
		if (W.dump(1) != before) fail("receive-changes", vh::cat(n, ": refused, but the wallet changed"));
		return false;
	}
	// what bob believes to receive is what the slate says, and his output is worth that
	auto r = W.handle[1].Read(); auto db = r->GetDatabase().Read();
	uint64_t credited = 0, worth = 0; uint32_t id = 0; int n1 = 0, n2 = 0;
	for (auto& t : db->GetTransactions(r->GetMasterSeed())) if (t.GetSlateId() == std::make_optional(out.GetId()) && t.GetType() == EWalletTxType::RECEIVING_IN_PROGRESS) { n1++; credited = t.GetAmountCredited(); id = t.GetId(); }
	for (auto& o : db->GetOutputs(r->GetMasterSeed())) if (o.GetWalletTxId() == std::make_optional(id)) { n2++; worth += o.GetAmount(); }
	if (n1 != 1 || n2 != 1 || credited != in.amount || worth != in.amount) fail("received-amount", vh::cat(n, ": slate of ", in.amount, ", credited ", credited, ", output worth ", worth, " (", n1, " entries, ", n2, " outputs)"));
	if (in.proofOpt.has_value()) {
		if (!(in.proofOpt->GetReceiverAddress() == bobKey)) fail("proof-foreign", vh::cat(n, ": bob answered a payment proof for another receiver"));
		else {
			Slate both = in; both.sigs.push_back(out.sigs.back());
			auto& p = out.proofOpt;
			if (!p.has_value() || !p->GetReceiverSignature().has_value() || !ED25519::VerifySignature(bobKey, p->GetReceiverSignature().value(), proofMessage(in.amount, Crypto::ToCommitment(both.CalculateTotalExcess()), in.proofOpt->GetSenderAddress()))) fail("proof-missing", vh::cat(n, ": bob's answer has no valid payment proof"));
		}
	}
	return true;
}
static void finalize(const Slate& r, bool honest, const std::string& n)
{
	std::string before = W.dump(0);
	W.wallet(0); W.wallet(1); uint64_t a0 = total(0), b0 = total(1); (void)b0;
	Slate f;
	try { f = W.mgr->Finalize(FinalizeCriteria(W.users[0].token(), std::nullopt, Slate(r), std::nullopt), nullptr); }
	catch (std::exception& e) {
		if (honest) fail("finalize-refused", vh::cat(n, ": ", e.what()));
		if (W.dump(0) != before) fail("finalize-changes", vh::cat(n, ": refused, but the wallet changed"));
		Shared::get().refused++; return;
	}
	Shared::get().nontrivial++;
	std::optional<Transaction> tx; std::string id; int found = 0;
	{
		auto w = W.handle[0].Read();
		for (auto& t : w->GetDatabase().Read()->GetTransactions(w->GetMasterSeed())) if (t.GetType() == EWalletTxType::SENDING_FINALIZED) { found++; tx = t.GetTransaction(); id = uuids::to_string(t.GetSlateId().value()); }
	}
	if (found != 1 || !tx.has_value() || !terms.count(id)) { fail("finalized-lost", vh::cat(n, ": ", found, " finalized transactions")); return; }
	const Terms& t = terms[id];
	try { TransactionValidator().Validate(*tx, W.node->tip->height() + 1); } catch (std::exception& e) { fail("invalid", vh::cat(n, ": the final transaction is invalid: ", e.what())); }
	auto& k = tx->GetKernels();
	if (k.size() != 1 || k[0].GetFeatures() != EKernelFeatures::DEFAULT_KERNEL || k[0].GetFee() != t.fee || k[0].GetFeeShift() != 0 || k[0].GetLockHeight() != 0) fail("terms", vh::cat(n, ": the kernel differs from the agreement"));
	std::map<B, EOutputFeatures> in, out; for (auto& i : tx->GetInputs()) in[ref::bytes(i.GetCommitment())] = i.GetFeatures(); for (auto& o : tx->GetOutputs()) out[ref::bytes(o.GetCommitment())] = o.GetFeatures();
	for (auto& i : t.in) { auto it = in.find(i.first); if (it == in.end()) fail("terms", vh::cat(n, ": an agreed input is missing")); else if (it->second != i.second) fail("input-features", vh::cat(n, ": an input has the wrong kind")); }
	for (auto& o : t.change) { auto it = out.find(o.first); if (it == out.end()) fail("terms", vh::cat(n, ": the change is missing")); else if (it->second != o.second) fail("change-features", vh::cat(n, ": the change has the wrong kind")); }
	if (tx->GetInputs().size() != t.in.size() || tx->GetOutputs().size() != t.change.size() + 1) fail("terms", vh::cat(n, ": other inputs or outputs than agreed"));
	if (t.proof) {
		auto p = W.handle[0].Read()->GetSlate(uuids::uuid::from_string(id).value(), ESlateStage::STANDARD_FINALIZED).proofOpt;
		if (!p.has_value() || !(p->GetReceiverAddress() == t.to) || !(p->GetSenderAddress() == t.from) || !p->GetReceiverSignature().has_value() || !ED25519::VerifySignature(t.to, p->GetReceiverSignature().value(), proofMessage(t.amount, k[0].GetCommitment(), t.from)))
			fail("no-proof", vh::cat(n, ": finalized without the receiver's payment proof"));
	}
	auto ptr = std::make_shared<Transaction>(*tx);
	W.node->learn(ptr);
	if (!W.node->PostTransaction(ptr, EPoolType::MEMPOOL)) { fail("not-accepted", vh::cat(n, ": the final transaction does not fit the chain")); return; }
	for (auto& i : tx->GetInputs()) if (W.node->tip->utxo.at(ref::bytes(i.GetCommitment())).f != i.GetFeatures()) fail("input-features", vh::cat(n, ": an input has another kind than the output it spends"));
	W.node->mine("final"); W.node->mine("final2", false);
	uint64_t a1 = total(0);
	// awaited change of the transfer was counted before
	if (a1 != a0 - t.amount - t.fee - [&] { uint64_t s = 0; (void)s; uint64_t c = 0; auto w = W.handle[0].Read(); for (auto& o : w->GetSlateContext(uuids::uuid::from_string(id).value()).GetOutputs()) c += o.GetAmount(); return c; }()) fail("balance", vh::cat(n, ": alice had ", a0, " and has ", a1, " after sending ", t.amount, " and ", t.fee));
}
static void history(bool proof, bool pairs)
{
	auto to = proof ? std::make_optional(W.handle[1].Read()->GetTorAddress().value().ToString()) : std::nullopt;
	sA = W.mgr->Send(SendCriteria(W.users[0].token(), 20000000000ull, 500000, 1, strat(ESelectionStrategy::SMALLEST), to, std::nullopt));
	sB = W.mgr->Send(SendCriteria(W.users[0].token(), 10000000000ull, 500000, 1, strat(ESelectionStrategy::SMALLEST), to, std::nullopt));
	rB = W.mgr->Receive(ReceiveCriteria(SessionToken(W.users[1].token()), std::nullopt, Slate(sB), std::nullopt));
	terms[uuids::to_string(sA.GetId())] = termsOf(sA, proof); terms[uuids::to_string(sB.GetId())] = termsOf(sB, proof);
	if (proof && !sA.proofOpt.has_value()) fail("proof-setup", "the slate asks for no payment proof");
	auto as = alterations(sA, sB); size_t idx = 0;
	for (auto& a : as) {
		std::string n1 = vh::cat(proof ? "proof" : "plain", "|", a.first);
		if (vh::S().replay && vh::S().only.compare(0, n1.size() + 1, n1 + "|") != 0) continue;
		inCopy([&] {
			Slate s = sA; a.second(s);
			vh::setCurrent(n1 + "|none");
			if (vh::S().shard == 0) { Shared::get().evals++; Shared::get().transitions++; }
			bool ok = receive(s, rA, a.first == "none", n1);
			if (!ok) { rA = rB; rA.slateId = sA.slateId; } // an answer nobody gave
			Shared::get().states++;
			auto bs = alterations(rA, rB); size_t j = 0;
			bs.push_back({ "the sent slate", [](Slate& x) { x = sA; } }); bs.push_back({ "the altered slate", [&s](Slate& x) { x = s; } });
			bs.push_back({ "undone", [](Slate& x) { x.amount = sA.amount; x.fee = sA.fee; x.kernelFeatures = sA.kernelFeatures; x.featureArgsOpt = sA.featureArgsOpt; x.slateId = sA.slateId; x.ttl = sA.ttl; if (x.proofOpt.has_value() && sA.proofOpt.has_value()) { auto g = x.proofOpt->GetReceiverSignature(); x.proofOpt = sA.proofOpt; if (g.has_value()) { auto y = *g; x.proofOpt->AddSignature(std::move(y)); } } } });
			for (auto& b : bs) {
				j++;
				if (!pairs && a.first != "none" && b.first != "none" && b.first != "undone") continue;
				std::string n = n1 + "|" + b.first;
				if (vh::S().replay ? n != vh::S().only : (int)((idx * 3 + j) % vh::S().nshards) != vh::S().shard) continue;
				if (vh::outOfTime()) { Shared::get().capped = 1; return; }
				Shared::get().evals++; Shared::get().transitions++;
				inCopy([&] {
					vh::setCurrent(n); Slate r = rA; b.second(r);
					finalize(r, a.first == "none" && b.first == "none", n);
				});
			}
		});
		idx++;
	}
}
VH_MAIN(
	Shared::get(); std::string dir = vh::freshDir("w"); useDir(dir); const_cast<Config&>(ch::ctx()->GetConfig()).SetMinConfirmations(2);
	W.node = std::make_shared<MemNode>(); W.node->add(genesis()); W.tor = std::make_shared<MemTor>();
	W.mgr = WalletAPI::CreateWalletManager(ch::ctx()->GetConfig(), W.node); W.create("alice"); W.create("bob"); W.create("mallory");
	aliceKey = W.handle[0].Read()->GetTorAddress().value().GetPublicKey(); bobKey = W.handle[1].Read()->GetTorAddress().value().GetPublicKey(); malloryKey = W.handle[2].Read()->GetTorAddress().value().GetPublicKey();
	for (int i = 0; i < 30; i++) { std::string n = vh::cat("i", i); if (i < 3) W.node->mine(n, true, [&](uint64_t f) { return W.coinbase(0, f); }); else W.node->mine(n); }
	for (int u = 0; u < 2; u++) W.wallet(u);
	for (bool proof : { false, true }) inCopy([&] { history(proof, true); });
	Explorer::fold(); vh::count("finalized", Shared::get().nontrivial); vh::count("refused", Shared::get().refused);
)
