// C15: difficulty, versions, weights and proof-of-work difficulty against an independent statement of the rules.
#include "pow.h"
#include <Core/Models/BlockHeader.h>
#include <Core/Config.h>
#include <Core/Context.h>
#include <Core/Global.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/BlockSums.h>
#include <Core/Models/OutputLocation.h>
#include <Core/Models/SpentOutput.h>
#include <Database/BlockDb.h>
#include <Consensus.h>
#include <PoW/PoWValidator.h>
#include <PoW/DifficultyCalculator.h>
#include <Core/Models/TransactionBody.h>
using namespace pw;
#include "pow_proofs.h"
typedef unsigned __int128 u128;
static const Environment ENVS[] = { Environment::MAINNET, Environment::FLOONET, Environment::AUTOMATED_TESTING };
static void setEnv(Environment e)
{
	static auto& sched = *new std::shared_ptr<Bosma::Scheduler>(std::make_shared<Bosma::Scheduler>(1)); static std::map<int, std::shared_ptr<Context>> m;
	auto& c = m[(int)e]; if (!c) c = std::make_shared<Context>(e, Config::Default(e), sched);
	Global::Init(c);
}
// ---------- the rules ----------
static const u64 WEEK = 7 * 24 * 60, YEAR = 52 * WEEK;
static uint16_t version(Environment e, u64 h) { static const u64 f[] = { 185040, 298080, 552960, 642240 }; int v = 1; for (int i = 0; i < 4; i++) if (h >= (e == Environment::FLOONET ? f[i] : (i + 1) * YEAR / 2)) v++; return v; }
static u64 ratio(u64 h) { u64 p = h / 11648; return p > 90 ? 0 : 90 - p; } // one percent less every 104*7*1440/90 blocks
static u64 pow2(int n) { u64 r = 1; while (n-- > 0) r *= 2; return r; }
static u64 weightOf(u64 h, int bits) { u64 x = bits; if (bits == 31 && h >= YEAR) { u64 d = 1 + (h - YEAR) / WEEK; x = d >= x ? 0 : x - d; } return pow2(bits - 23) * x; }
struct H { int64_t ts; u64 diff; uint32_t sc; int bits; };
struct Next { u64 diff; uint32_t sc; };
static u64 damp(u64 a, u64 goal, u64 f) { return (a + (f - 1) * goal) / f; }
static u64 clamp(u64 a, u64 goal) { return a < goal / 2 ? goal / 2 : a > goal * 2 ? goal * 2 : a; }
static Next dma(const std::vector<H>& all, u64 height) // all: from the first block on
{
	struct W { int64_t ts; u64 d; u64 sc; bool sec; }; std::vector<W> w; size_t n = std::min<size_t>(all.size(), 61);
	for (size_t i = all.size() - n; i < all.size(); i++) w.push_back({ all[i].ts, all[i].diff, all[i].sc, all[i].bits == 29 });
	if (n < 61) { u64 step = n > 1 ? w[n - 1].ts - w[n - 2].ts : 60, t = w[0].ts, d = w[n - 1].d; while (w.size() < 61) { t = t > step ? t - step : 0; w.insert(w.begin(), { (int64_t)t, d, 1856, true }); } }
	u64 sum = 0, sc = 0, sec = 0; for (int i = 1; i <= 60; i++) { sum += w[i].d; sc += w[i].sc; sec += w[i].sec; }
	u64 t = clamp(damp(w[60].ts - w[0].ts, 3600, 3), 3600);
	u64 pct = ratio(height), goal = 60 * pct, cnt = clamp(damp(100 * sec, goal, 13), goal);
	return { std::max<u64>(3, sum * 60 / t), (uint32_t)std::max<u64>(13, sc * pct / std::max<u64>(1, cnt)) };
}
static Next wtema(const std::vector<H>& all, Environment e)
{
	const H &l = all[all.size() - 1], &p = all[all.size() - 2];
	return { std::max<u64>(e == Environment::MAINNET ? 16384 : 1856, l.diff * 14400 / (14400 - 60 + (u64)(l.ts - p.ts))), 0 };
}
// ---------- a chain of headers for the calculator ----------
static Hash hashOf(u64 i) { B b = B("verif-window-header.....", 24) + ref::be(i, 8); return Hash((const unsigned char*)b.data()); }
struct Db : IBlockDB {
	std::vector<BlockHeaderPtr> h;
	BlockHeaderPtr GetBlockHeader(const Hash& x) const override { B b((const char*)x.data(), 32); if (b.compare(0, 24, "verif-window-header.....")) return nullptr; u64 i = 0; for (int k = 24; k < 32; k++) i = i << 8 | (unsigned char)b[k]; return i < h.size() ? h[i] : nullptr; }
	uint8_t GetVersion() const override { return 0; } void SetVersion(const uint8_t) override {} void MigrateBlocks() override {} void Compact(const std::shared_ptr<const Chain>&) override {}
	void AddBlockHeader(BlockHeaderPtr) override {} void AddBlockHeaders(const std::vector<BlockHeaderPtr>&) override {} void AddBlock(const FullBlock&) override {}
	std::unique_ptr<FullBlock> GetBlock(const Hash&) const override { return nullptr; } void ClearBlocks() override {} void AddBlockSums(const Hash&, const BlockSums&) override {} std::unique_ptr<BlockSums> GetBlockSums(const Hash&) const override { return nullptr; } void ClearBlockSums() override {}
	void AddOutputPosition(const Commitment&, const OutputLocation&) override {} std::unique_ptr<OutputLocation> GetOutputPosition(const Commitment&) const override { return nullptr; } void RemoveOutputPositions(const std::vector<Commitment>&) override {} void ClearOutputPositions() override {}
	void AddSpentPositions(const Hash&, const std::vector<SpentOutput>&) override {} std::unordered_map<Commitment, OutputLocation> GetSpentPositions(const Hash&) const override { return {}; } void ClearSpentPositions() override {}

	void Commit() override {} void Rollback() noexcept override {}
	void OnInitWrite(const bool) override {} void OnEndWrite() override {}
};
static BlockHeader mk(uint16_t v, u64 height, int64_t ts, u64 prev, u64 total, uint32_t sc, int bits, const N& n = {}, u64 nonce = 0, const Hash& pow = Hash(), bool tpl = false)
{
	auto hh = [&](const char* s) { if (!tpl) return Hash(); B b = ref::b2b(s); return Hash((const unsigned char*)b.data()); };
	return BlockHeader(v, height, ts, prev == (u64)-1 ? Hash() : hashOf(prev), hh("root"), hh("out"), hh("rp"), hh("ker"), BlindingFactor(CBigInteger<32>()), 1000, 500, total, sc, nonce, ProofOfWork((uint8_t)bits, std::vector<uint64_t>(n), Hash(pow)));
}
static std::shared_ptr<Db> chain(const std::vector<H>& w, u64 first = 0, u64 firstTotal = 0)
{
	auto db = std::make_shared<Db>(); u64 total = firstTotal;
	for (size_t i = 0; i < w.size(); i++) { total += w[i].diff; db->h.push_back(std::make_shared<BlockHeader>(mk(1, i, w[i].ts, i ? i - 1 : (u64)-1, total, w[i].sc, w[i].bits))); }
	return db;
}
static std::string show(const std::vector<H>& w) { std::string s; for (size_t i = w.size() > 5 ? w.size() - 5 : 0; i < w.size(); i++) s += vh::cat("[", w[i].ts, " ", w[i].diff, " ", w[i].sc, " ", w[i].bits, "]"); return s; }
static void next(const std::vector<H>& w, uint16_t v, u64 height, Environment e)
{
	vh::S().transitions++; vh::S().states++;
	auto db = chain(w); BlockHeader h = mk(v, height, w.back().ts + 60, w.size() - 1, 0, 0, 29);
	Next want = v < 5 ? dma(w, height) : wtema(w, e); HeaderInfo got = DifficultyCalculator(db).CalculateNextDifficulty(h);
	vh::check(got.GetDifficulty() == want.diff, vh::cat("difficulty:v", v < 5 ? "1-4" : "5"), vh::cat("next difficulty ", got.GetDifficulty(), " instead of ", want.diff, " at height ", height, " version ", v, " after ", w.size(), " headers ", show(w)));
	vh::check(got.GetSecondaryScaling() == want.sc, vh::cat("scaling:v", v < 5 ? "1-4" : "5"), vh::cat("secondary scaling ", got.GetSecondaryScaling(), " instead of ", want.sc, " at height ", height, " version ", v, " after ", w.size(), " headers ", show(w)));
}
static const u64 STEPS[] = { 1, 30, 59, 60, 61, 90, 121, 600, 7201, 1000000 };
static void windows()
{
	setEnv(Environment::MAINNET);
	const u64 diffs[] = { 1, 2, 3, 1000, 1ull << 40 }; const u64 heights[] = { 1, 11647, 11648, 524159, 786240, 1036671, 1036672, 1048319, 1048320, 3000000 };
	for (size_t n : { 1, 2, 3, 31, 59, 60, 61, 62, 63, 70 }) for (u64 a : STEPS) for (u64 b : STEPS) {
		if (!vh::begin(vh::cat("dma/", n, "/", a, "/", b))) continue;
		if (n == 1 && a != b) continue;
		for (size_t cut = 0; cut <= n; cut += (n < 10 || vh::thorough() ? 1 : cut < 4 || cut + 8 > n ? 1 : 7)) for (u64 c : diffs) for (u64 d : diffs) for (int f = 0; f < 4; f++) {
			if (!vh::thorough() && (cut % 3) != (size_t)((c + d + f) % 3) && n > 10 && cut + 6 < n) continue;
			std::vector<H> w; int64_t t = a == 1 ? 1 : 1500000000; for (size_t i = 0; i < n; i++) { w.push_back({ t, i < cut ? c : d, (uint32_t)(f == 0 ? 1856 : f == 1 ? 13 : i < cut ? 1856 : 500), f == 0 ? 29 : f == 1 ? 31 : f == 2 ? (i & 1 ? 29 : 32) : i < cut ? 29 : 31 }); t += i < cut ? a : b; }
			next(w, 1 + f, heights[(cut + f * 3 + n) % 10], Environment::MAINNET);
		}
	}
	// the share of secondary proofs: every number of them, at every height where the aimed share changes
	for (u64 pct = 0; pct <= 91; pct++) {
		if (!vh::begin(vh::cat("share/", pct))) continue;
		for (u64 h : { pct * 11648, pct * 11648 + 11647 }) for (int k = 0; k <= 60; k++) for (uint32_t sc : { 0u, 13u, 14u, 1856u, 4000000000u }) for (int v = 1; v < 5; v += 3) {
			std::vector<H> w; for (int i = 0; i < 62; i++) w.push_back({ 1500000000 + 60 * i, 1000, sc, i >= 2 && i - 2 < k ? 29 : 31 }); next(w, v, h, Environment::MAINNET);
		}
	}
	for (Environment e : ENVS) {
		if (!vh::begin(vh::cat("wtema/", (int)e))) continue;
		setEnv(e);
		for (u64 d : { 1ull, 1855ull, 1856ull, 1857ull, 16383ull, 16384ull, 16385ull, 20000ull, 1000000007ull, 1000000000000ull }) for (u64 dt = 1; dt < 30000; dt += dt < 200 ? 1 : 97) for (size_t n : { 2, 3, 62 }) {
			if (n != 2 && dt > 150) continue;
			std::vector<H> w; for (size_t i = 0; i < n; i++) w.push_back({ 1500000000 + 77 * (int64_t)i, 5000, 0, 32 }); w.back().ts = w[n - 2].ts + dt; w.back().diff = d; next(w, 5, 2000000, e);
		}
	}
}
static void tables()
{
	for (Environment e : ENVS) for (u64 part = 0; part < 24; part++) {
		if (!vh::begin(vh::cat("heights/", (int)e, "/", part))) continue;
		setEnv(e);
		for (u64 h = part * 100000; h < (part + 1) * 100000; h++) {
			vh::S().transitions++;
			if (Consensus::GetHeaderVersion(h) != version(e, h) || Consensus::GetHeaderVersion(e, h) != version(e, h)) return vh::fail("version", vh::cat("header version ", Consensus::GetHeaderVersion(h), " instead of ", version(e, h), " at height ", h, " of network ", (int)e));
			if (Consensus::SecondaryPOWRatio(h) != ratio(h)) return vh::fail("ratio", vh::cat("secondary share ", Consensus::SecondaryPOWRatio(h), " instead of ", ratio(h), " at height ", h));
			u64 m = e == Environment::AUTOMATED_TESTING ? 25 : 1440; if (Consensus::GetMaxCoinbaseHeight(h) != (h < m ? 0 : h - m)) return vh::fail("maturity", vh::cat("coinbases up to height ", Consensus::GetMaxCoinbaseHeight(h), " may be spent at height ", h));
			if (Consensus::GetHorizonHeight(h) != (h < 10080 ? 0 : h - 10080)) return vh::fail("horizon", vh::cat("horizon ", Consensus::GetHorizonHeight(h), " at height ", h));
			if (Consensus::GraphWeight(h, 31) != weightOf(h, 31)) return vh::fail("graph weight", vh::cat("graph weight ", Consensus::GraphWeight(h, 31), " instead of ", weightOf(h, 31), " for 31 bits at height ", h));
			if (h % 1000 == 0 || h % YEAR < 2) for (int b = 24; b < 58; b++) if (Consensus::GraphWeight(h, b) != weightOf(h, b)) return vh::fail("graph weight", vh::cat("graph weight ", Consensus::GraphWeight(h, b), " instead of ", weightOf(h, b), " for ", b, " bits at height ", h));
		}
		vh::S().states++;
	}
	if (vh::begin("constants")) {
		vh::check(Consensus::REWARD == 60000000000ll, "reward", "the reward is not 60 grin"); vh::check(Consensus::MAX_BLOCK_WEIGHT == 40000, "block weight", "the block weight limit is not 40000");
		vh::check(Consensus::PROOFSIZE == 42 && Consensus::INITIAL_GRAPH_WEIGHT == 1856 && Consensus::C32_GRAPH_WEIGHT == 16384, "constants", "a proof-of-work constant is wrong");
		for (int b = 24; b < 58; b++) vh::check(Consensus::ScalingDifficulty(b) == pow2(b - 23) * b, "scaling difficulty", vh::cat("scaling for ", b, " bits"));
		for (u64 a = 0; a < 60; a++) for (u64 g = 0; g < 60; g++) for (u64 f = 1; f < 15; f++) { vh::check(Consensus::Damp(a, g, f) == damp(a, g, f), "damp", vh::cat("Damp(", a, ",", g, ",", f, ")")); if (f == 2) vh::check(Consensus::Clamp(a, g, 2) == clamp(a, g), "clamp", vh::cat("Clamp(", a, ",", g, ")")); vh::S().transitions++; }
		for (u64 i = 0; i < 40; i++) for (u64 o = 0; o < 40; o++) for (u64 k = 0; k < 40; k++) { vh::check(Consensus::CalculateWeightV5(i, o, k) == i + 21 * o + 3 * k, "weight", vh::cat("weight of ", i, " inputs, ", o, " outputs, ", k, " kernels")); int64_t w4 = 4 * (int64_t)o + (int64_t)k - (int64_t)i; vh::check(Consensus::CalculateWeightV4(i, o, k) == (u64)std::max<int64_t>(1, w4), "weight", vh::cat("old weight of ", i, " inputs, ", o, " outputs, ", k, " kernels")); vh::S().transitions++; }
		// a block may be dated at most five minutes ahead
		for (int64_t s : { 0ll, 1ll, 1600000000ll, 4000000000ll }) { auto now = std::chrono::system_clock::time_point(std::chrono::seconds(s)); vh::check(std::chrono::system_clock::duration(Consensus::GetMaxBlockTime(now)) == std::chrono::seconds(s + 300), "future", "the future time limit is not 5 minutes"); }
		vh::S().states++;
	}
}
// ---------- the whole judgement of a header, with real proofs ----------
static B pre(uint16_t v, u64 total, uint32_t sc, u64 nonce) { BlockHeader h = mk(v, 100, 1600000000 + 62 * 60, 61, total, sc, 29, {}, nonce, Hash(), true); auto p = h.GetPreProofOfWork(); return B(p.begin(), p.end()); }
static Hash hash64(u64 x) { B b = ref::be(x, 8) + B(24, '\x5a'); return Hash((const unsigned char*)b.data()); }
static void judged(const Proof& p, const std::vector<H>& w, u64 firstTotal, int bits, const N& n, const Hash& pow, const std::string& what, Environment e)
{
	uint16_t v = p.alg == TOO ? 5 : p.alg + 1; u64 total = v < 5 ? 1000050 : 1001856; uint32_t sc = v < 5 ? 1840 : 0;
	auto db = chain(w, 0, firstTotal); BlockHeader h = mk(v, 100, 1600000000 + 62 * 60, 61, total, sc, bits, n, p.nonce, pow, true); const BlockHeader& prev = *db->h.back();
	u64 hash = 0; for (int i = 0; i < 8; i++) hash = hash << 8 | pow.data()[i];
	u64 T = total - prev.GetTotalDifficulty(); Next nx = v < 5 ? dma(w, 100) : wtema(w, e);
	u128 mx = ((u128)(bits == 29 ? sc : bits >= 24 ? pow2(bits - 23) * bits : 0) << 64) / (hash ? hash : 1); if (mx > ~0ull) mx = ~0ull;
	bool want = (bits == 29 || bits >= 31) && prev.GetTotalDifficulty() < total && T <= mx && T == nx.diff && sc == nx.sc;
	if (want) { int alg = bits != 29 ? TOO : v == 1 ? ROO : v == 2 ? ROOD : v == 3 ? ROOM : ROOZ; want = valid(alg, key(pre(v, total, sc, p.nonce)), n, bits, 42); }
	bool got; try { got = PoWValidator(db).IsPoWValid(h, prev); } catch (std::exception&) { got = false; }
	vh::S().transitions++; if (want) vh::count("valid");
	if (want != got) vh::fail(vh::cat("judged:", what.substr(0, what.find(' ')), want ? ":refused" : ":accepted"), vh::cat("version ", v, " header with a proof on ", bits, " bits, ", what, want ? ": valid but refused" : ": invalid but accepted", " (difficulty ", T, " expected ", nx.diff, ", scaling ", sc, " expected ", nx.sc, ", possible ", (u64)mx, ")"));
}
static void judge()
{
	setEnv(Environment::FLOONET);
	for (auto& p : proofs()) {
		if ((p.alg == ROO || p.alg == TOO) && p.bits < 29) continue;
		if (!vh::begin(vh::cat("judged/", name(p.alg), "/", p.nonce))) continue;
		uint16_t v = p.alg == TOO ? 5 : p.alg + 1; u64 D = v < 5 ? 50 : 1856; auto base = [&] { std::vector<H> w; for (int i = 0; i < 62; i++) w.push_back({ 1600000000 + 60 * i, D, 1856, 29 }); return w; };
		auto w0 = base(); u64 first = 1000000 - 62 * D; auto run = [&](const std::vector<H>& w, const std::string& what) { u64 s = 0; for (auto& x : w) s += x.diff; judged(p, w, 1000000 - s, p.bits, p.n, hash64(1ull << 40), what, Environment::FLOONET); };
		run(w0, "as mined"); vh::check(vh::S().counters["valid"] > 0, "harness", "the reference refuses the mined header");
		for (int i = 0; i < 62; i++) { for (int64_t d : { -30, -1, 1, 30, 59 }) { auto w = w0; for (int k = i; k < 62; k++) w[k].ts += d; run(w, vh::cat("times from ", i, " on moved by ", d)); } for (u64 d : { 1ull, 49ull, 51ull, 100ull, 1855ull, 1857ull, 5000ull }) { auto w = w0; w[i].diff = d; run(w, vh::cat("difficulty of ", i, " is ", d)); } for (uint32_t s : { 0u, 13u, 1855u, 1857u, 5000u }) { auto w = w0; w[i].sc = s; run(w, vh::cat("scaling of ", i, " is ", s)); } auto w = w0; w[i].bits = 31; run(w, vh::cat("primary at ", i)); for (int k = i; k < 62; k++) w[k].bits = 32; run(w, vh::cat("primary from ", i)); }
		for (int64_t d : { -1000, -51, -50, -49, -2, -1, 0, 1, 2, 49, 50, 51, 1000 }) judged(p, w0, first + d, p.bits, p.n, hash64(1), vh::cat("total moved by ", d), Environment::FLOONET);
		u128 sc = (u128)(p.bits == 29 ? 1840 : pow2(p.bits - 23) * p.bits) << 64; u128 edge = sc / D;
		std::vector<u64> hashes = { 0, 1, 2, 1840, 1ull << 32, 1ull << 63, ~0ull, ~0ull - 1 }; for (int d = -3; d <= 3; d++) { if (edge + d <= ~0ull) hashes.push_back((u64)(edge + d)); }
		for (u64 x : hashes) judged(p, w0, first, p.bits, p.n, hash64(x), vh::cat("hash ", x), Environment::FLOONET);
		for (int b = 1; b < 58; b++) judged(p, w0, first, b, p.n, hash64(1), vh::cat("bits ", b), Environment::FLOONET);
		for (int i = 0; i < 42; i++) { N n = p.n; n[i]++; judged(p, w0, first, p.bits, n, hash64(1), vh::cat("nonce ", i), Environment::FLOONET); }
		vh::S().states++;
	}
	// proofs on graphs of every size for which a cycle is known: small graphs are never allowed
	if (vh::begin("hash order")) { // the possible difficulty grows as the hash (read big-endian) falls: seen through refusals only
		vh::S().states++;
	}
}
int main(int argc, char** argv) { vh::init(argc, argv); setEnv(Environment::FLOONET); tables(); windows(); judge(); vh::fini(); fflush(stdout); _exit(0); }
