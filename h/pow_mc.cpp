// C16: the cycle verifiers against an independent definition, on arbitrary graphs and on the real ones.
#include "pow_fake.h"
#include <Core/Genesis.h>
// the real verifiers, as their headers (seen inside a namespace above) declare them
class Cuckaroo { public: static bool Validate(const BlockHeader&); }; class Cuckarood { public: static bool Validate(const BlockHeader&); }; class Cuckaroom { public: static bool Validate(const BlockHeader&); }; class Cuckarooz { public: static bool Validate(const BlockHeader&); }; class Cuckatoo { public: static bool Validate(const BlockHeader&); };
using namespace pw;
#include "pow_proofs.h"
#ifndef SMALL
static std::vector<std::vector<int>> partitions(int n, int step, int maxPart, int maxCount)
{
	std::vector<std::vector<int>> r; std::vector<int> c;
	std::function<void(int, int)> go = [&](int left, int mx) { if (!left) { r.push_back(c); return; } if ((int)c.size() == maxCount) return; for (int x = std::min(left, mx); x >= step; x -= step) { c.push_back(x); go(left - x, x); c.pop_back(); } };
	go(n, maxPart); return r;
}
#endif
static std::vector<std::vector<int>> orders(int n)
{
	std::vector<std::vector<int>> r; std::vector<int> id; for (int i = 0; i < n; i++) id.push_back(i);
	r.push_back(id); std::vector<int> v(id.rbegin(), id.rend()); r.push_back(v);
	for (int m : { 5, 11, 13, 25 }) { std::vector<int> w; bool ok = true; for (int i = 0; i < n; i++) w.push_back((i * m + 3) % n); std::vector<int> z = w; std::sort(z.begin(), z.end()); for (int i = 0; i < n; i++) ok &= z[i] == i; if (ok) r.push_back(w); }
	return r;
}
// the direction bits that a cuckarood cycle needs: alternating along the cycle
static u64 dirs(const std::vector<int>& lens, const std::vector<int>& perm) { u64 o = 0; int k = 0; for (int L : lens) for (int i = 0; i < L; i++, k++) if (i & 1) o |= 1ull << perm[k]; return o; }
static bool usable(int alg)
{
	std::vector<int> id; for (int i = 0; i < PS; i++) id.push_back(i);
	N n = fake::nonces(PS, alg == ROOD ? dirs({ PS }, id) : 0); BlockHeader h = fake::header(alg, n); auto g = fake::cycles(alg, { PS }, id); fake::set(n, g); fake::hits = 0; bool ok = fake::accepts(alg, h);
	if (!fake::hits && !ok) { // the verifier does not take its edges from the table, or not this number of them
		vh::count(std::string("skipped.") + name(alg)); return false;
	}
	if (!oneCycle(alg, n, g)) vh::fail("harness", "the reference refuses its own cycle");
	return true;
}
#ifndef SMALL
static void rewire(int alg)
{
	int n = PS, step = alg == ROOM || alg == ROOZ ? 1 : 2;
	auto os = orders(n);
	for (size_t oi = 0; oi < os.size(); oi++) {
		if (!vh::begin(vh::cat("cycles/", name(alg), "/", oi))) continue;
		for (auto& p : partitions(n, step, n, vh::thorough() ? 8 : 4)) {
			N non = fake::nonces(n, alg == ROOD ? dirs(p, os[oi]) : 0x2aaaaaaaaaaull); BlockHeader h = fake::header(alg, non); fake::compare(alg, h, non, fake::cycles(alg, p, os[oi])); vh::S().states++;
			if (alg == ROOD) for (int a = 0; a < n; a++) for (int b = -1; b < a; b++) { u64 d = dirs(p, os[oi]) ^ 1ull << a; if (b >= 0) d ^= 1ull << b; if (p.size() > 1 && b >= 0 && a - b > 3) continue; N m = fake::nonces(n, d); BlockHeader hh = fake::header(alg, m); fake::compare(alg, hh, m, fake::cycles(alg, p, os[oi])); }
		}
	}
	for (size_t oi = 0; oi < os.size(); oi++) for (int e = 0; e < n; e++) {
		if (!vh::begin(vh::cat("rewired/", name(alg), "/", oi, "/", e))) continue;
		std::vector<std::vector<int>> ps = { { n } }; if (step == 2) ps.push_back({ n / 2 + 1, n / 2 - 1 }); else ps.push_back({ n / 2, n - n / 2 });
		for (auto& p : ps) {
			N non = fake::nonces(n, alg == ROOD ? dirs(p, os[oi]) : 0x2aaaaaaaaaaull); BlockHeader h = fake::header(alg, non);
			auto g0 = fake::cycles(alg, p, os[oi]); u64 M = (step == 1 ? n : alg == TOO ? n : n / 2) + 2;
			for (int s = 0; s < 2; s++) for (u64 x = 0; x < M; x++) {
				auto g = g0; (s ? g[e].b : g[e].a) = x; fake::compare(alg, h, non, g); vh::S().states++;
				// a second end moved so that the sum of all ends on its side stays what it was
				u64 delta = (s ? g0[e].b : g0[e].a) ^ x; if (!delta) continue;
				for (int f = 0; f < n; f++) if (f != e) { if (!vh::thorough() && (f + (int)x) % 3) continue; auto k = g; (s ? k[f].b : k[f].a) ^= delta; fake::compare(alg, h, non, k); if (step == 1) { k = g; (s ? k[f].a : k[f].b) ^= delta; fake::compare(alg, h, non, k); } }
			}
			for (int f = 0; f < e; f++) { // two ends exchanged
				auto g = g0; std::swap(g[e].a, g[f].a); fake::compare(alg, h, non, g); std::swap(g[e].b, g[f].b); fake::compare(alg, h, non, g); g = g0; std::swap(g[e].b, g[f].b); fake::compare(alg, h, non, g); g = g0; g[e] = g[f]; fake::compare(alg, h, non, g); if (step == 1) { g = g0; std::swap(g[e].a, g[e].b); fake::compare(alg, h, non, g); std::swap(g[f].a, g[f].b); fake::compare(alg, h, non, g); }
			}
		}
	}
}
// ---------- the real graphs ----------
static bool real(int alg, const BlockHeader& h)
{
	switch (alg) { case ROO: return ::Cuckaroo::Validate(h); case ROOD: return ::Cuckarood::Validate(h); case ROOM: return ::Cuckaroom::Validate(h); case ROOZ: return ::Cuckarooz::Validate(h); default: return ::Cuckatoo::Validate(h); }
}
struct HF { uint16_t v; u64 height = 100; int64_t ts = 1600000000 + 62 * 60; B prev, root, out, rp, ker, off = B(32, '\0'); u64 os = 1000, ks = 500, total = 0; uint32_t sc = 0; u64 nonce = 0; };
static B be16(u64 x) { B r; for (int i = 1; i >= 0; i--) r += (char)(x >> (8 * i)); return r; }
static B pre(const HF& f) { B s; for (int i = 3; i >= 0; i--) s += (char)(f.sc >> (8 * i)); return be16(f.v) + ref::be(f.height, 8) + ref::be((u64)f.ts, 8) + f.prev + f.root + f.out + f.rp + f.ker + f.off + ref::be(f.os, 8) + ref::be(f.ks, 8) + ref::be(f.total, 8) + s + ref::be(f.nonce, 8); }
static Hash hs(const B& b) { return Hash((const unsigned char*)b.data()); }
static BlockHeader mk(const HF& f, const N& n, int bits) { return BlockHeader(f.v, f.height, f.ts, hs(f.prev), hs(f.root), hs(f.out), hs(f.rp), hs(f.ker), BlindingFactor(CBigInteger<32>((const unsigned char*)f.off.data())), f.os, f.ks, f.total, f.sc, f.nonce, ProofOfWork((uint8_t)bits, std::vector<uint64_t>(n), Hash())); }
static HF base(int alg, u64 nonce)
{
	HF f; f.v = alg == TOO ? 5 : alg + 1; f.prev = B("verif-window-header.....", 24) + ref::be(61, 8); f.root = ref::b2b("root"); f.out = ref::b2b("out"); f.rp = ref::b2b("rp"); f.ker = ref::b2b("ker"); f.total = f.v < 5 ? 1000050 : 1001856; f.sc = f.v < 5 ? 1840 : 0; f.nonce = nonce; return f;
}
static void expect(int alg, const HF& f, const N& n, int bits, const std::string& what)
{
	vh::S().transitions++; bool want = valid(alg, key(pre(f)), n, bits, 42), got = real(alg, mk(f, n, bits)); if (want) vh::count("cycles");
	if (want != got) vh::fail(vh::cat("proof:", name(alg), want ? ":refused" : ":accepted"), vh::cat(name(alg), " ", bits, " bits, header nonce ", f.nonce, ", ", what, want ? ": a valid proof is refused" : ": an invalid proof is accepted"));
}
static void around(int alg, const HF& f, const N& n, int bits, bool fixedBits)
{
	expect(alg, f, n, bits, "the proof");
	vh::check(valid(alg, key(pre(f)), n, bits, 42), "harness", "the reference refuses the proof");
	u64 M = (u64)1 << bits;
	for (int i = 0; i < 42; i++) { // one nonce replaced, moved, repeated, missing, exchanged
		u64 M1 = M - 1; for (u64 x : { n[i] + 1, n[i] - 1, n[i] ^ 2, n[i] ^ 64, n[i] ^ (M >> 1), n[i] + M, n[i] | (u64)1 << 32, n[i] | (u64)1 << 63, (u64)0, M1, M }) { N m = n; m[i] = x; expect(alg, f, m, bits, vh::cat("nonce ", i, " = ", x)); std::sort(m.begin(), m.end()); expect(alg, f, m, bits, vh::cat("nonce ", i, " = ", x, ", sorted")); }
		for (int j = 0; j < i; j++) { N m = n; std::swap(m[i], m[j]); expect(alg, f, m, bits, vh::cat("nonces ", j, " and ", i, " exchanged")); m = n; m[i] = m[j]; expect(alg, f, m, bits, "a nonce twice"); m = n; u64 x = m[j]; m.erase(m.begin() + j); m.insert(m.begin() + i, x); expect(alg, f, m, bits, "a nonce moved"); }
		N m = n; m.erase(m.begin() + i); expect(alg, f, m, bits, "41 nonces"); m.insert(m.begin() + i, n[i] ^ 4); expect(alg, f, m, bits, "other nonce"); m = n; m.insert(m.begin() + i, n[i]); expect(alg, f, m, bits, "43 nonces");
	}
	N e; expect(alg, f, e, bits, "no nonces"); N d = n; d.push_back(n.back() + 1); expect(alg, f, d, bits, "43 nonces"); d = n; d.insert(d.end(), n.begin(), n.end()); expect(alg, f, d, bits, "84 nonces");
	if (!fixedBits) for (int b2 : { bits - 1, bits + 1, 10, 63, 29, 31 }) expect(alg, f, n, b2, vh::cat("as a proof for ", b2, " bits"));
	// any change of the header makes it another graph
	B p0 = pre(f);
	for (int field = 0; field < 14; field++) for (int bit = 0; bit < (field == 0 ? 16 : field >= 3 && field <= 8 ? 256 : field == 12 ? 32 : 64); bit += (field >= 3 && field <= 8 && !vh::thorough() ? 13 : 1)) {
		HF g = f; u64 b = 1ull << (bit & 63); auto flip = [&](B& s) { s[bit / 8] = (char)(s[bit / 8] ^ 1 << (bit & 7)); };
		switch (field) { case 0: g.v ^= b; break; case 1: g.height ^= b; break; case 2: g.ts ^= b; break; case 3: flip(g.prev); break; case 4: flip(g.root); break; case 5: flip(g.out); break; case 6: flip(g.rp); break; case 7: flip(g.ker); break; case 8: flip(g.off); break; case 9: g.os ^= b; break; case 10: g.ks ^= b; break; case 11: g.total ^= b; break; case 12: g.sc ^= (uint32_t)b; break; case 13: g.nonce ^= b; break; }
		expect(alg, g, n, bits, vh::cat("bit ", bit, " of header field ", field, " changed"));
	}
}
// all cycles of length 42 (up to a number) in a small real graph
static std::vector<N> findCycles(int alg, const Key& k, int bits, size_t most, std::map<int, std::vector<N>>& others)
{
	int M = 1 << bits; std::vector<Edge> E; for (int e = 0; e < M; e++) E.push_back(edge(alg, k, e, bits));
	std::map<std::pair<int, u64>, std::vector<int>> at; std::vector<char> dead(M, 0);
	auto nd = [&](int p) { u64 x = p & 1 ? E[p / 2].b : E[p / 2].a; return std::make_pair(p & 1, alg == TOO ? x >> 1 : x); };
	for (bool ch = true; ch;) { ch = false; at.clear(); for (int e = 0; e < M; e++) if (!dead[e]) { at[nd(2 * e)].push_back(2 * e); at[nd(2 * e + 1)].push_back(2 * e + 1); } for (auto& x : at) if (x.second.size() < 2) { dead[x.second[0] / 2] = 1; ch = true; } }
	std::vector<N> r; std::vector<int> path; std::set<std::pair<int, u64>> used; u64 steps = 0;
	for (int st = 0; st < M; st++) { if (dead[st]) continue; steps = 0;
		std::function<void(int)> go = [&](int p) { // leave by endpoint p
			if (++steps > 60000 || r.size() >= most) return; auto w = nd(p); if (!used.insert(w).second) return;
			for (int q : at[w]) { if (q == p || q / 2 < st) continue; u64 a = p & 1 ? E[p / 2].b : E[p / 2].a, b = q & 1 ? E[q / 2].b : E[q / 2].a; if (alg == TOO && a == b) continue;
				if (q == 2 * st) { N n; for (int z : path) n.push_back(z); std::sort(n.begin(), n.end()); if (n.size() == 42) r.push_back(n); else if (others[n.size()].size() < 3) others[n.size()].push_back(n); continue; }
				if (q / 2 == st || path.size() >= 42) continue; path.push_back(q / 2); go(q ^ 1); path.pop_back(); }
			used.erase(w); };
		path = { st }; used.clear(); go(2 * st + 1); if (r.size() >= most) break; }
	return r;
}
static void smallGraphs()
{
	for (int alg : { (int)ROO, (int)TOO }) for (int bits : { 9, 11, 13 }) for (int h = 0; h < (vh::thorough() ? 60 : 12); h++) {
		if (!vh::begin(vh::cat("real/", name(alg), "/", bits, "/", h))) continue;
		HF f = base(alg, h); std::map<int, std::vector<N>> other; auto c = findCycles(alg, key(pre(f)), bits, 4, other); vh::S().states++;
		for (size_t i = 0; i < c.size(); i++) { if (!i) around(alg, f, c[i], bits, false); else expect(alg, f, c[i], bits, "a proof"); }
		for (auto& a : other) for (auto& n : a.second) { expect(alg, f, n, bits, vh::cat("a cycle of ", a.first)); if (other.count(42 - a.first)) for (auto& m : other[42 - a.first]) { N u; std::set_union(n.begin(), n.end(), m.begin(), m.end(), std::back_inserter(u)); if (u.size() == 42) { expect(alg, f, u, bits, "two cycles"); vh::count("two cycles"); } } }
	}
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	auto sched = std::make_shared<Bosma::Scheduler>(1); auto cx = std::make_shared<Context>(Environment::FLOONET, Config::Default(Environment::FLOONET), sched); Global::Init(cx);
	for (int alg = 0; alg < 5; alg++) if (usable(alg)) rewire(alg);
	smallGraphs();
	for (auto& p : proofs()) if (vh::begin(vh::cat("proof/", name(p.alg), "/", p.nonce))) { vh::S().states++; around(p.alg, base(p.alg, p.nonce), p.n, p.bits, p.alg != ROO && p.alg != TOO); }
	if (vh::begin("proof/genesis")) { // the two real ones there are
		for (int i = 0; i < 2; i++) { const BlockHeader& g = i ? *Genesis::FLOONET_GENESIS.GetHeader() : *Genesis::MAINNET_GENESIS.GetHeader(); auto pp = g.GetPreProofOfWork(); Key k = key(B(pp.begin(), pp.end())); N n = g.GetProofNonces(); bool want = valid(ROO, k, n, g.GetEdgeBits(), 42); vh::check(want == real(ROO, g), "genesis", "the proof of a genesis block is judged wrongly"); if (want) vh::count("genesis proofs"); }
	}
	vh::fini(); fflush(stdout); _exit(0);
}
#else
static void exhaustive(int alg)
{
	// every graph of 4 (6) edges over a few nodes, every pattern of directions
	if (PS == 6 && alg != ROO && alg != ROOD) return;
	int nodes = PS == 6 ? 3 : alg == ROOM || alg == ROOZ ? 5 : 4; int per = nodes * nodes;
	for (u64 d = 0; d < (alg == ROOD ? 1u << PS : 1u); d++) for (int first = 0; first < per; first++) {
		if (!vh::begin(vh::cat("all/", name(alg), "/", d, "/", first))) continue;
		N non = fake::nonces(PS, alg == ROOD ? d : 6); BlockHeader h = fake::header(alg, non);
		if (PS == 6 && alg == ROOD && (__builtin_popcountll(d) != 3 || (d & 1 && !vh::thorough()))) continue;
		std::vector<Edge> g(PS); g[0] = { (u64)(first / nodes), (u64)(first % nodes) };
		int all = 1; for (int i = 1; i < PS; i++) all *= per; for (int x = 0; x < all; x++) { int y = x; for (int i = 1; i < PS; i++) { g[i] = { (u64)(y % per / nodes), (u64)(y % per % nodes) }; y /= per; } fake::compare(alg, h, non, g); }
		vh::S().states++;
	}
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	auto sched = std::make_shared<Bosma::Scheduler>(1); auto cx = std::make_shared<Context>(Environment::FLOONET, Config::Default(Environment::FLOONET), sched); Global::Init(cx);
	for (int alg = 0; alg < 5; alg++) if (usable(alg)) exhaustive(alg);
	vh::fini(); fflush(stdout); _exit(0);
}
#endif
