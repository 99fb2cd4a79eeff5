// Independent definition of the five cycle graphs and of what a valid proof is.
#pragma once
#include "vh.h"
#include "ref.h"
#include <algorithm>
namespace pw {
using ref::B; typedef uint64_t u64; typedef std::vector<u64> N;
enum Alg { ROO, ROOD, ROOM, ROOZ, TOO };
inline const char* name(int a) { static const char* n[] = { "Cuckaroo", "Cuckarood", "Cuckaroom", "Cuckarooz", "Cuckatoo" }; return n[a]; }
struct Key { u64 k[4]; };
inline Key key(const B& pre) { B h = ref::b2b(pre); Key r; for (int i = 0; i < 4; i++) { r.k[i] = 0; for (int j = 7; j >= 0; j--) r.k[i] = r.k[i] << 8 | (unsigned char)h[i * 8 + j]; } return r; }
struct Sip {
	u64 v[4]; int e; Sip(const Key& k, int e) : v{ k.k[0], k.k[1], k.k[2], k.k[3] }, e(e) {}
	static u64 r(u64 x, int n) { return x << n | x >> (64 - n); }
	void round() { v[0] += v[1]; v[1] = r(v[1], 13) ^ v[0]; v[0] = r(v[0], 32); v[2] += v[3]; v[3] = r(v[3], 16) ^ v[2]; v[0] += v[3]; v[3] = r(v[3], e) ^ v[0]; v[2] += v[1]; v[1] = r(v[1], 17) ^ v[2]; v[2] = r(v[2], 32); }
	u64 hash(u64 n) { v[3] ^= n; round(); round(); v[0] ^= n; v[2] ^= 0xff; for (int i = 0; i < 4; i++) round(); return v[0] ^ v[1] ^ v[2] ^ v[3]; }
};
struct Edge { u64 a, b; };
inline Edge edge(int alg, const Key& k, u64 e, int bits)
{
	u64 m = (1ull << (alg == ROOD ? bits - 1 : alg == ROOZ ? bits + 1 : bits)) - 1;
	if (alg == TOO) { Sip s(k, 21), t(k, 21); return { s.hash(2 * e) & m, t.hash(2 * e + 1) & m }; }
	Sip s(k, alg == ROOD ? 25 : 21); u64 h[64]; for (int i = 0; i < 64; i++) h[i] = s.hash((e & ~63ull) + i);
	u64 r = h[e & 63];
	if (alg == ROO || alg == ROOD) { if ((e & 63) != 63) r ^= h[63]; } else for (int i = (e & 63) + 1; i < 64; i++) r ^= h[i];
	return { r & m, r >> 32 & m };
}
// do the edges (nonce, endpoints) form one simple cycle through all of them?
inline bool oneCycle(int alg, const N& nonce, const std::vector<Edge>& E)
{
	int n = (int)E.size(); std::map<std::pair<int, u64>, std::vector<int>> at; // node -> endpoints 2*edge+side
	std::vector<std::vector<int>> adj(2 * n);
	if (alg == ROOM) { // directed: every edge starts where exactly one ends
		std::vector<int> next(n, -1); std::map<u64, int> from, to;
		for (int i = 0; i < n; i++) { if (!from.insert({ E[i].a, i }).second || !to.insert({ E[i].b, i }).second) return false; }
		int i = 0, c = 0; do { auto it = from.find(E[i].b); if (it == from.end()) return false; i = it->second; c++; } while (i && c <= n);
		return c == n;
	}
	int odd = 0;
	for (int i = 0; i < n; i++) { odd += nonce[i] & 1; for (int s = 0; s < 2; s++) { u64 x = s ? E[i].b : E[i].a; at[{ alg == ROOZ ? 0 : s, alg == TOO ? x >> 1 : x }].push_back(2 * i + s); } }
	if (alg == ROOD && odd * 2 != n) return false;
	std::vector<int> mate(2 * n);
	for (auto& x : at) {
		if (x.second.size() != 2) return false; // a node of the cycle touches exactly two of its edges
		int p = x.second[0], q = x.second[1]; mate[p] = q; mate[q] = p;
		if (alg == TOO) { u64 u = p & 1 ? E[p / 2].b : E[p / 2].a, v = q & 1 ? E[q / 2].b : E[q / 2].a; if (u == v) return false; }
		if (alg == ROOD && (nonce[p / 2] & 1) == (nonce[q / 2] & 1)) return false;
	}
	int i = 0, c = 0; do { i = mate[i] ^ 1; c++; } while (i && c <= 2 * n); // leave edge 0 by its first endpoint, come back to it
	return c == n;
}
inline bool valid(int alg, const Key& k, const N& nonce, int bits, int size)
{
	if ((int)nonce.size() != size) return false;
	std::vector<Edge> E; for (size_t i = 0; i < nonce.size(); i++) { if (nonce[i] >> bits || (i && nonce[i] <= nonce[i - 1])) return false; E.push_back(edge(alg, k, nonce[i], bits)); }
	return oneCycle(alg, nonce, E);
}
}
