// Independent reference definitions (no code of the repository): blake2b MMR over leaves, big-endian writer.
#pragma once
#include <sodium.h>
#include <string>
#include <vector>
#include <array>
#include <cstdint>
#include <cstring>

namespace ref {
typedef std::string B; // bytes
inline B b2b(const B& s) { unsigned char o[32]; crypto_generichash_blake2b(o, 32, (const unsigned char*)s.data(), s.size(), nullptr, 0); return B((char*)o, 32); }
inline B be(uint64_t v, int n) { B o(n, 0); for (int i = 0; i < n; i++) o[n - 1 - i] = (char)(v >> (8 * i)); return o; }
template <class C> B bytes(const C& c) { return B((const char*)c.data(), c.size()); }

// explicitly built mountain range: every node with its height and position, in insertion (post) order
struct Mmr {
	std::vector<B> h;         // hash of every node
	std::vector<int> ht;      // height of every node
	std::vector<size_t> peaks;
	uint64_t leaves = 0;
	static B leafHash(uint64_t pos, const B& data) { return b2b(be(pos, 8) + data); }
	static B parentHash(uint64_t pos, const B& l, const B& r) { return b2b(be(pos, 8) + l + r); }
	void append(const B& data)
	{
		h.push_back(leafHash(h.size(), data)); ht.push_back(0); peaks.push_back(h.size() - 1); leaves++;
		while (peaks.size() >= 2 && ht[peaks[peaks.size() - 1]] == ht[peaks[peaks.size() - 2]]) {
			size_t r = peaks.back(); peaks.pop_back(); size_t l = peaks.back(); peaks.pop_back();
			h.push_back(parentHash(h.size(), h[l], h[r])); ht.push_back(ht[l] + 1); peaks.push_back(h.size() - 1);
		}
	}
	uint64_t size() const { return h.size(); }
	B root() const
	{
		if (peaks.empty()) return B(32, 0);
		B a = h[peaks.back()];
		for (size_t i = peaks.size() - 1; i-- > 0;) a = parentHash(h.size(), h[peaks[i]], a);
		return a;
	}
};
inline uint64_t mmrSize(uint64_t leaves) { uint64_t s = 0, k = 0; for (uint64_t i = 0; i < leaves; i++) { s++; uint64_t n = i + 1; while (!(n & 1)) { s++; n >>= 1; } } (void)k; return s; }
}
