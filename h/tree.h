// A growing chain on a real node, on top of whose tip small block trees are explored.
#pragma once
#include "chain.h"
namespace ch {
inline std::map<B, Out>& registry() { static std::map<B, Out> m; return m; }
inline Out reg(const Out& o) { registry()[ref::bytes(o.c())] = o; return o; }
inline Fee fee(uint64_t f, uint8_t shift = 0) { return Fee(shift, f); }
const uint64_t FEE = 1000000;
// a transaction spending ins into the named outputs, the last one taking what is left
inline TransactionPtr spend(const std::vector<Out>& ins, const std::vector<std::pair<std::string, uint64_t>>& outs, std::vector<Out>* made = nullptr, const std::string& offset = "", uint64_t f = FEE)
{
	TxSpec s; s.in = ins; s.fee = fee(f); s.offset = offset;
	uint64_t tot = 0; for (auto& i : ins) tot += i.v;
	tot -= f;
	for (size_t i = 0; i < outs.size(); i++) {
		uint64_t v = i + 1 == outs.size() ? tot : outs[i].second; tot -= v;
		s.out.push_back(reg(mkOut(outs[i].first, v)));
	}
	if (made) *made = s.out;
	return mkTx(s);
}
struct Session {
	std::string dir;
	std::unique_ptr<Node> node;
	BlkP tip;
	int serial = 0, used = 0, maxUse = 12;
	std::vector<Out> plain;      // fresh plain outputs on the tip
	std::set<B> all;             // every commitment ever created on this node
	std::map<B, BlkP> byHash;
	void remember(const BlkP& b) { byHash[ref::bytes(b->hash())] = b; for (auto& o : b->full->GetOutputs()) all.insert(ref::bytes(o.GetCommitment())); }
	BlkP extend(const std::string& nm, const std::vector<TransactionPtr>& txs, uint64_t add = 1)
	{
		BlkOpt o; o.addDiff = add;
		BlkP b = mine(tip, nm, txs, o); reg(b->coinbase); remember(b);
		Res r = addBlock(*node, *b->full);
		if (r != OK) { vh::fail("base-block-refused", vh::cat("a valid block on the tip was refused (", resName(r), ") at height ", b->height())); }
		tip = b; return b;
	}
	std::vector<Out> matureCoinbases() const
	{
		std::vector<std::pair<uint64_t, Out>> v;
		for (auto& u : tip->utxo) if (u.second.f == EOutputFeatures::COINBASE_OUTPUT && u.second.height + 25 <= tip->height() + 1 && u.second.height > 0) { auto it = registry().find(u.first); if (it != registry().end()) v.push_back({ u.second.height, it->second }); }
		std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
		std::vector<Out> r; for (auto& x : v) r.push_back(x.second); return r;
	}
	void fresh()
	{
		node.reset(); if (!dir.empty()) vh::rmtree(dir);
		dir = vh::freshDir(vh::cat("n", serial)); node.reset(new Node(dir));
		all.clear(); byHash.clear(); used = 0; tip = genesis(); remember(tip);
		for (int i = 0; i < 27; i++) extend(vh::cat("s", serial, "b", i), {});
		serial++;
	}
	// a clean tip with 8 fresh plain outputs of 7 grin each
	void begin(bool forceFresh = false)
	{
		if (!node || forceFresh || used >= maxUse) fresh();
		used++;
		auto cb = matureCoinbases();
		std::string p = vh::cat("s", serial, "u", used, ".");
		std::vector<std::pair<std::string, uint64_t>> outs; for (int i = 0; i < 8; i++) outs.push_back({ p + "P" + std::to_string(i), 7000000000ull });
		plain.clear();
		auto tx = spend({ cb.at(0) }, outs, &plain);
		extend(p + "refill", { tx });
	}
	std::string prefix() const { return vh::cat("s", serial, "u", used, "."); }
	// next case starts from this block
	void settle(const BlkP& t) { tip = t; }
};

// ---------- trees ----------
struct TreeSpec { std::vector<int> par; std::vector<int> add; char scheme; std::string str() const { std::string s; for (size_t i = 0; i < par.size(); i++) s += vh::cat(i ? "," : "", par[i], "+", add[i]); return s + ":" + scheme; } };
inline std::string canon(const TreeSpec& t, int root)
{
	std::vector<std::string> k;
	for (size_t i = 0; i < t.par.size(); i++) if (t.par[i] == root) k.push_back(vh::cat(t.add[i]) + canon(t, (int)i));
	std::sort(k.begin(), k.end());
	std::string s = "("; for (auto& x : k) s += x; return s + ")";
}
// all trees of n blocks (parents -1 = the tip), up to relabelling, with difficulties from adds
inline std::vector<TreeSpec> allTrees(int n, const std::vector<int>& adds, char scheme)
{
	std::vector<TreeSpec> out; std::set<std::string> seen;
	std::vector<int> par(n, -1), ad(n, 0);
	std::function<void(int)> rec = [&](int i) {
		if (i == n) { TreeSpec t; t.par = par; t.scheme = scheme; for (int a : ad) t.add.push_back(a); if (seen.insert(canon(t, -1)).second) out.push_back(t); return; }
		for (int p = -1; p < i; p++) for (int a : adds) { par[i] = p; ad[i] = a; rec(i + 1); }
	};
	rec(0);
	return out;
}
inline std::vector<BlkP> buildTree(Session& s, const TreeSpec& t)
{
	std::vector<BlkP> b(t.par.size());
	std::vector<std::vector<Out>> made(t.par.size());
	std::vector<int> depth(t.par.size());
	std::vector<Out> shared(t.par.size());
	for (size_t i = 0; i < t.par.size(); i++) {
		int p = t.par[i]; BlkP pb = p < 0 ? s.tip : b[p];
		int d = depth[i] = p < 0 ? 0 : depth[p] + 1;
		std::vector<TransactionPtr> txs;
		std::string nm = s.prefix() + "t" + std::to_string(i);
		std::string sh = s.prefix() + "S" + std::to_string(d); // same commitment on every branch
		if (t.scheme == 's') {
			// every block at one depth spends the same output and makes one output that is the same on all branches
			std::vector<std::pair<std::string, uint64_t>> o = { { sh, 3000000000ull } };
			if (i & 1) o.push_back({ nm + "x", 100000000ull });
			o.push_back({ nm + "q", 0 });
			txs.push_back(spend({ s.plain[d] }, o, &made[i], i % 3 ? nm : ""));
		} else if (t.scheme == 'k') {
			// spends what its parent made; block at depth 1 makes again, at another place, the output its parent spent
			if (d == 0) txs.push_back(spend({ s.plain[0], s.plain[1] }, { { nm + "q", 2000000000ull }, { nm + "r", 0 } }, &made[i]));
			else {
				std::vector<std::pair<std::string, uint64_t>> o;
				if (d == 1) {
					// value of P0 (7 grin) again, from P2
					TxSpec x; x.in = { s.plain[2], s.plain[3] }; x.fee = fee(FEE);
					Out again = s.plain[0]; Out rest = reg(mkOut(nm + "z", 7000000000ull - FEE));
					if (i & 1) x.out = { again, rest }; else { x.out = { again, rest }; x.offset = nm; }
					txs.push_back(mkTx(x));
				}
				if (d == 2) txs.push_back(spend({ s.plain[0] }, { { nm + "y", 0 } })); // spends the re-created one
				std::vector<Out> m; txs.push_back(spend({ made[p].back() }, { { nm + "q", 100000000ull }, { nm + "r", 0 } }, &made[i], nm));
			}
		} else if (t.scheme == 'u') {
			// uneven: even blocks spend two base outputs and make one, odd blocks only mint
			if (!(i & 1)) txs.push_back(spend({ s.plain[d], s.plain[d + 4 < 8 ? d + 4 : 7] }, { { nm + "q", 0 } }, &made[i]));
		}
		BlkOpt o; o.addDiff = t.add[i];
		b[i] = mine(pb, nm, txs, o); reg(b[i]->coinbase); s.remember(b[i]);
	}
	return b;
}
}
