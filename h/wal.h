// Real wallets over a chain held in memory (h/chain.h), and exhaustive exploration of operation trees by forking.
// SQLite databases live in memory (link with --wrap=sqlite3_open), so a forked child owns a copy of every wallet.
#pragma once
#include "tree.h"
#include "txs.h"
#include <sys/wait.h>
#include <signal.h>
#include <Wallet/WalletManager.h>
#include <Wallet/NodeClient.h>
#include <Net/Tor/TorProcess.h>
#include <Net/Tor/TorAddressParser.h>
#include <Crypto/ED25519.h>
#include <Wallet/Wallet.h>
#include <Wallet/WalletDB/WalletDB.h>
#include <Core/Validation/TransactionValidator.h>
#include <Core/Models/DTOs/BlockWithOutputs.h>
struct sqlite3;
extern "C" int __real_sqlite3_open(const char*, sqlite3**);
namespace wal { inline bool& memoryDb() { static bool b = true; return b; } }
extern "C" inline __attribute__((used)) int __wrap_sqlite3_open(const char* p, sqlite3** d)
{
	if (!wal::memoryDb()) return __real_sqlite3_open(p, d);
	FILE* f = fopen(p, "a"); if (f) fclose(f); // the code looks for the file
	return __real_sqlite3_open(":memory:", d);
}
namespace wal {
using namespace ch;
// ---------- the node a wallet talks to ----------
struct MemNode : public INodeClient {
	BlkP tip;
	std::vector<TransactionPtr> pool;
	std::map<B, TransactionOutput>* known = new std::map<B, TransactionOutput>();
	mutable uint64_t batchCap = 1000000;
	void add(const BlkP& b) { tip = b; for (auto& o : b->full->GetOutputs()) known->emplace(ref::bytes(o.GetCommitment()), o); }
	uint64_t GetChainHeight() const override { return tip->height(); }
	BlockHeaderPtr GetTipHeader() const override { return tip->header(); }
	BlockHeaderPtr GetBlockHeader(const uint64_t h) const override { for (const Blk* p = tip.get(); p; p = p->parent.get()) if (p->height() == h) return p->header(); return nullptr; }
	std::map<Commitment, OutputLocation> GetOutputsByCommitment(const std::vector<Commitment>& cs) const override
	{
		std::map<Commitment, OutputLocation> r;
		for (auto& c : cs) { auto it = tip->utxo.find(ref::bytes(c)); if (it != tip->utxo.end()) r.insert({ c, OutputLocation(LeafIndex::At(it->second.leaf), it->second.height) }); }
		return r;
	}
	OutputDTO dto(const B& c, const Utxo& u) const { auto& o = known->at(c); return OutputDTO(false, OutputIdentifier(o.GetFeatures(), Commitment(o.GetCommitment())), OutputLocation(LeafIndex::At(u.leaf), u.height), o.GetRangeProof()); }
	std::vector<BlockWithOutputs> GetBlockOutputs(const uint64_t, const uint64_t) const override { throw std::runtime_error("GetBlockOutputs is not used by wallets"); }
	std::unique_ptr<OutputRange> GetOutputsByLeafIndex(const uint64_t start, const uint64_t max) const override
	{
		std::map<uint64_t, OutputDTO> byLeaf;
		for (auto& u : tip->utxo) if (u.second.leaf >= start) byLeaf.insert({ u.second.leaf, dto(u.first, u.second) });
		std::vector<OutputDTO> v;
		for (auto& x : byLeaf) { if (v.size() >= std::min(max, batchCap)) break; v.push_back(x.second); }
		uint64_t last = v.empty() ? 0 : v.back().GetLeafIndex().Get();
		return std::make_unique<OutputRange>(tip->outs.leaves ? tip->outs.leaves - 1 : 0, last, std::move(v));
	}
	bool PostTransaction(TransactionPtr t, const EPoolType) override
	{
		if (!fits(*t, tip)) return false;
		for (auto& p : pool) if (clash(*p, *t)) return false;
		learn(t); pool.push_back(t); return true;
	}
	// ---- the chain moves ----
	void mine(const std::string& name, bool withPool = true, const std::function<BuildCoinbaseResponse(uint64_t)>& own = nullptr)
	{
		std::vector<TransactionPtr> txs; BlkOpt o;
		if (withPool) {
			BlkP t = tip; std::set<B> used;
			for (auto& p : pool) if (fits(*p, tip)) { bool ok = true; for (auto& q : txs) if (clash(*p, *q)) ok = false; if (ok) txs.push_back(p); }
		}
		uint64_t fees = 0; for (auto& t : txs) fees += t->CalcFee();
		if (own) { auto r = own(fees); o.noCoinbase = true; o.body = [r](auto&, auto& out, auto& ker) { out.push_back(r.GetOutput()); ker.push_back(r.GetKernel()); }; }
		add(ch::mine(tip, name, txs, o));
		prune();
	}
	void prune() { std::vector<TransactionPtr> k; for (auto& p : pool) if (fits(*p, tip)) k.push_back(p); pool = k; }
	// drop k blocks; their transactions wait in the pool again
	void drop(int k)
	{
		std::vector<TransactionPtr> back;
		for (int i = 0; i < k; i++) {
			for (auto& kk : tip->full->GetKernels()) { auto it = txs.find(ref::bytes(kk.GetCommitment())); if (it != txs.end()) back.push_back(it->second); }
			tip = tip->parent;
		}
		for (auto& p : pool) { bool c = false; for (auto& b : back) if (clash(*b, *p)) c = true; if (!c) back.push_back(p); }
		pool = back;
	}
	std::map<B, TransactionPtr> txs; // every finalized transaction, by kernel
	void learn(const TransactionPtr& t) { for (auto& k : t->GetKernels()) txs[ref::bytes(k.GetCommitment())] = t; }
};
// ---------- wallets ----------
struct User {
	std::string name, password; std::optional<SessionToken> tok; SecureString words;
	const SessionToken& token() const { return *tok; }
};
struct MemTor : public ITorProcess {
	TorAddress AddListener(const ed25519_secret_key_t& k, const uint16_t) override { return TorAddressParser::FromPubKey(ED25519::CalculatePubKey(k)); }
	bool RemoveListener(const TorAddress&) override { return true; }
	std::shared_ptr<ITorConnection> Connect(const TorAddress&) override { return nullptr; }
	bool RetryInit() override { return true; }
};
struct World {
	ITorProcess::Ptr tor;
	std::shared_ptr<MemNode> node; IWalletManagerPtr mgr;
	std::vector<User> users;
	std::vector<Locked<Wallet>> handle; // does not refresh
	Locked<Wallet> wallet(int u) { return mgr->GetWallet(users[u].token()); } // refreshes
	User& create(const std::string& n, int numWords = 24)
	{
		User u; u.name = n; u.password = "pw-" + n;
		auto r = mgr->InitializeNewWallet(CreateWalletCriteria(GrinStr(n), SecureString(u.password), numWords), tor);
		u.tok = r.GetToken(); u.words = r.GetSeed(); users.push_back(u); handle.push_back(mgr->GetWallet(r.GetToken())); return users.back();
	}
	// everything stored about outputs and transactions
	std::string dump(int u)
	{
		auto r = handle[u].Read(); auto db = r->GetDatabase().Read(); std::set<std::string> l;
		for (auto& o : db->GetOutputs(r->GetMasterSeed())) l.insert(vh::cat("o", o.GetCommitment().ToHex(), (int)o.GetStatus(), "h", o.GetBlockHeight().value_or(0), "t", o.GetWalletTxId().value_or(99999), "v", o.GetAmount()));
		for (auto& t : db->GetTransactions(r->GetMasterSeed())) l.insert(vh::cat("t", t.GetId(), "y", (int)t.GetType(), "x", t.GetTransaction().has_value() ? t.GetTransaction().value().GetHash().ToHex() : std::string("-")));
		std::string s; for (auto& x : l) s += x + "\n"; return s;
	}
	BuildCoinbaseResponse coinbase(int u, uint64_t fees) { return handle[u].Write()->BuildCoinbase(BuildCoinbaseCriteria(users[u].token(), fees, std::nullopt)); }
};
inline SelectionStrategyDTO strat(ESelectionStrategy s, std::set<Commitment> in = {}) { return SelectionStrategyDTO(s, std::move(in)); }

// ---------- exploration by forking ----------
struct Shared {
	std::atomic<uint64_t> evals, states, transitions, violations, nontrivial, hits, capped, refused;
	std::atomic<int> keys; std::atomic<uint64_t> key[64];
	static const size_t N = 1u << 22; std::atomic<uint64_t> seen[N];
	static Shared& get() { static Shared* s = [] { void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return (Shared*)p; }(); return *s; }
	// true: this state was explored already with at least this much depth to go (6 low bits hold the depth)
	bool visit(uint64_t h, int left)
	{
		h &= ~63ull; if (!h) h = 64;
		for (size_t i = (h >> 6) % N, k = 0; k < 1024; k++, i = (i + 1) % N) {
			uint64_t v = seen[i].load();
			if (v == 0) { if (seen[i].compare_exchange_strong(v, h | (uint64_t)left)) return false; }
			if ((v & ~63ull) == h) { if ((int)(v & 63) >= left) { hits++; return true; } seen[i] = h | (uint64_t)left; return false; }
		}
		return false;
	}
};
inline void fail(const std::string& key, const std::string& desc)
{
	auto& s = Shared::get(); s.violations++;
	uint64_t h = std::hash<std::string>()(key) | 1;
	for (int i = 0; i < 64; i++) { uint64_t v = s.key[i].load(); if (v == h) { vh::S().violations++; return; } if (v == 0 && s.key[i].compare_exchange_strong(v, h)) break; }
	vh::fail(key, desc);
}
// reported once; exploration goes on
inline void known(const std::string& key, const std::string& desc)
{
	auto& s = Shared::get(); uint64_t h = std::hash<std::string>()(key) | 1;
	for (int i = 0; i < 64; i++) { uint64_t v = s.key[i].load(); if (v == h) return; if (v == 0 && s.key[i].compare_exchange_strong(v, h)) break; }
	vh::fail(key, desc);
}
// runs f in a copy of this process; false if it died
inline bool inCopy(const std::function<void()>& f)
{
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) {
		alarm(300);
		try { f(); } catch (std::exception& e) { fail("exception", vh::cat("unexpected exception: ", e.what())); }
		fflush(stdout); _exit(0);
	}
	unsigned armed = alarm(0); int st = 0; waitpid(p, &st, 0); if (armed) alarm(300);
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fail("crash", vh::cat("the process ended with signal ", WIFSIGNALED(st) ? WTERMSIG(st) : -1)); return false; }
	return true;
}
inline uint64_t hash64(const std::string& s) { B b = ref::b2b(s); uint64_t x; memcpy(&x, b.data(), 8); return x; }
struct Explorer {
	int depth = 4;
	std::vector<std::string> ops;
	std::function<bool(const std::string&)> enabled;      // in the current state
	std::function<void(const std::string&)> apply;        // does the step and checks its result
	std::function<void()> observe;                        // checks the state; runs in a copy
	std::function<std::string()> canon;                   // the state, up to names
	bool stop() { if (vh::outOfTime()) Shared::get().capped = 1; return vh::outOfTime() || Shared::get().violations > 200; }
	void step(const std::string& path, const std::string& op, int left, const std::function<void(int)>& rec)
	{
		inCopy([&] {
			auto& s = Shared::get();
			vh::setCurrent(path); s.evals++; s.transitions++;
			auto v0 = s.violations.load();
			apply(op);
			inCopy(observe);
			if (s.violations.load() != v0) return; // do not go on from a wrong state
			if (!s.visit(hash64(canon()), left)) { s.states++; if (left > 0) rec(left); }
		});
	}
	void go(const std::string& path, int left)
	{
		for (auto& op : ops) {
			if (stop()) return;
			if (!enabled(op)) continue;
			std::string p = path.empty() ? op : path + "," + op;
			step(p, op, left - 1, [&](int l) { go(p, l); });
		}
	}
	// prefix shards: the first two operations
	void run(const std::string& prefix = "")
	{
		int i = 0;
		for (auto& a : ops) {
			if (!enabled(a)) continue;
			inCopy([&] {
				std::string pa = prefix + a; vh::setCurrent(pa);
				apply(a); auto& s = Shared::get(); auto v0 = s.violations.load();
				s.evals++; s.transitions++; inCopy(observe); if (s.violations.load() != v0) return;
				s.states++;
				int j = 0;
				for (auto& b : ops) {
					if (stop()) return;
					if (!enabled(b)) continue;
					if (((i * 7 + j++) % vh::S().nshards) != vh::S().shard) continue;
					std::string p = pa + "," + b;
					step(p, b, depth - 2, [&](int l) { go(p, l); });
				}
			});
			i++;
		}
	}
	void replay(const std::string& path)
	{
		std::stringstream ss(path); std::string op, p;
		vh::setCurrent(path);
		while (std::getline(ss, op, ',')) {
			p += (p.empty() ? "" : ",") + op;
			auto v0 = Shared::get().violations.load();
			vh::S().evals++;
			if (!enabled(op)) break;
			apply(op); inCopy(observe);
			if (Shared::get().violations.load() != v0) break;
		}
		fold();
	}
	static void fold()
	{
		auto& s = Shared::get(); auto& v = vh::S();
		v.evals += s.evals; v.states += s.states; v.transitions += s.transitions; v.nontrivial += s.nontrivial; v.violations += (int)s.violations.load(); if (s.capped) v.capped = true;
		vh::count("merged states", s.hits); vh::count("operations", s.transitions);
	}
};
}
