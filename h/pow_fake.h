// The real verifiers compiled over an arbitrary graph: the edge generator (siphash) is replaced by a table.
#pragma once
#include "pow.h"
#include <Core/Models/BlockHeader.h>
#include <Core/Models/FullBlock.h>
#include <Core/Config.h>
#include <Core/Context.h>
#include <Core/Global.h>
#include <Database/BlockDb.h>
#include <Common/Logger.h>
#include <Crypto/Hasher.h>
#include <PoW/Common.h>
#include <cstring>
#ifdef PS
#undef PROOFSIZE
#define PROOFSIZE PS
#else
#define PS 42
#endif
namespace fake {
static uint64_t A[8192], Bv[8192]; static bool blocks = true, suffix = true; static uint64_t hits = 0;
static uint64_t E(uint64_t e) { e &= 4095; return A[e] | Bv[e] << 32; }
template <int rot = 21> struct state {
	uint64_t x = 0; template <class K> state(const K&) {}
	void hash24(uint64_t n) { hits++; if (!blocks) x = n & 1 ? Bv[(n / 2) & 4095] : A[(n / 2) & 4095]; else if ((n & 63) == 63) x = E(n); else x = E(n) ^ E(suffix ? n + 1 : n | 63); }
	uint64_t xor_lanes() { return x; }
};
template <int rot = 21> static uint64_t block(siphash_keys&, const word_t e, uint64_t* buf) { hits++; return buf[e & 63] = E(e); }
}
#define siphash_state fake::state
#define sipblock fake::block
namespace fakeimpl {
#include <PoW/Cuckaroo.cpp>
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include <PoW/Cuckarood.cpp>
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include <PoW/Cuckaroom.cpp>
#undef EDGEBITS
#undef NEDGES
#undef EDGEMASK
#undef NNODES
#undef NODEMASK
#include <PoW/Cuckarooz.cpp>
#include <PoW/Cuckatoo.cpp>
}
#undef siphash_state
#undef sipblock
namespace fake {
inline BlockHeader header(int alg, const pw::N& n, int bits = 29)
{
	return BlockHeader((uint16_t)(alg == pw::TOO ? 5 : alg + 1), 100, 1600000000, Hash(), Hash(), Hash(), Hash(), Hash(), BlindingFactor(), 10, 10, 1000, 10, 7, ProofOfWork((uint8_t)bits, std::vector<uint64_t>(n), Hash()));
}
inline bool accepts(int alg, const BlockHeader& h)
{
	blocks = alg != pw::TOO; suffix = alg == pw::ROOM || alg == pw::ROOZ;
	switch (alg) { case pw::ROO: return fakeimpl::Cuckaroo::Validate(h); case pw::ROOD: return fakeimpl::Cuckarood::Validate(h); case pw::ROOM: return fakeimpl::Cuckaroom::Validate(h); case pw::ROOZ: return fakeimpl::Cuckarooz::Validate(h); default: return fakeimpl::Cuckatoo::Validate(h); }
}
// nonces of a proof with the given directions (parity), increasing
inline pw::N nonces(int n, uint64_t odd) { pw::N r; for (int i = 0; i < n; i++) r.push_back(32 + 34 * i + ((odd >> i) & 1)); return r; }
inline void set(const pw::N& nonce, const std::vector<pw::Edge>& g) { for (size_t i = 0; i < g.size(); i++) { A[nonce[i]] = g[i].a; Bv[nonce[i]] = g[i].b; } }
inline std::string show(const std::vector<pw::Edge>& g) { std::string s; for (auto& e : g) s += vh::cat("(", e.a, ",", e.b, ")"); return s; }
inline void compare(int alg, const BlockHeader& h, const pw::N& nonce, const std::vector<pw::Edge>& g)
{
	set(nonce, g); vh::S().transitions++;
	bool want = pw::oneCycle(alg, nonce, g), got = accepts(alg, h); if (want) vh::count("cycles");
	if (want != got) vh::fail(vh::cat("graph:", pw::name(alg), want ? ":refused" : ":accepted"), vh::cat(pw::name(alg), want ? " refuses a cycle: " : " accepts what is not a cycle: ", show(g), " nonces ", nonce[0], "..", nonce.back()));
}
// edges of a cycle (or of several cycles with the given lengths), visited in the order of `perm`
inline std::vector<pw::Edge> cycles(int alg, const std::vector<int>& lens, const std::vector<int>& perm)
{
	std::vector<pw::Edge> g; uint64_t base = 0;
	std::vector<pw::Edge> seq;
	for (int L : lens) {
		for (int i = 0; i < L; i++) {
			uint64_t x = base + i, y = base + (i + 1) % L; // nodes of the cycle, in order
			if (alg == pw::ROOM || alg == pw::ROOZ) seq.push_back({ x, y });
			else { // side 0 = even positions, side 1 = odd positions
				uint64_t u = i % 2 ? y : x, v = i % 2 ? x : y; u = base / 2 + (u - base) / 2; v = base / 2 + (v - base) / 2;
				if (alg == pw::TOO) { // the two ends that meet in a node have its two partition bits
					bool even = i % 2 == 0; seq.push_back({ 2 * u + (even ? 1 : 0), 2 * v + (even ? 0 : 1) });
				} else seq.push_back({ u, v });
			}
		}
		base += L;
	}
	g.resize(seq.size()); for (size_t i = 0; i < seq.size(); i++) g[perm[i]] = seq[i];
	return g;
}
}
