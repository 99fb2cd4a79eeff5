// Exponent model of secp256k1-zkp (mimblewimble fork). See secp256k1-zkp/secp256k1.h.
//  - point P = discrete log p in [0,n); G = 1; H = fixed constant; J and friends = hash of their bytes
//  - x(P) := min(p, n-p) as 32 big-endian bytes; the "sign"/"quad" bit is p > (n-1)/2
//  - infinity (p = 0) cannot be serialized, as in the real library
//  - bulletproofs are ideal: 675 bytes which carry a MAC over the commitment they prove
#include <secp256k1-zkp/secp256k1.h>
#include <sodium.h>
#include <cstring>
#include <cstdlib>
#include <map>
#include <array>
#include <mutex>
#include <string>

typedef unsigned __int128 u128;
namespace {
struct S { uint64_t d[4]; }; // little-endian limbs
const S N = {{0xBFD25E8CD0364141ULL, 0xBAAEDCE6AF48A03BULL, 0xFFFFFFFFFFFFFFFEULL, 0xFFFFFFFFFFFFFFFFULL}};
const S HALF = {{0xDFE92F46681B20A0ULL, 0x5D576E7357A4501DULL, 0xFFFFFFFFFFFFFFFFULL, 0x7FFFFFFFFFFFFFFFULL}};
const S ZERO = {{0,0,0,0}};
const S ONE = {{1,0,0,0}};
int cmp(const S& a, const S& b) { for (int i = 3; i >= 0; i--) { if (a.d[i] != b.d[i]) return a.d[i] < b.d[i] ? -1 : 1; } return 0; }
bool isZero(const S& a) { return !(a.d[0] | a.d[1] | a.d[2] | a.d[3]); }
uint64_t addRaw(S& r, const S& a, const S& b) { u128 c = 0; for (int i = 0; i < 4; i++) { c += (u128)a.d[i] + b.d[i]; r.d[i] = (uint64_t)c; c >>= 64; } return (uint64_t)c; }
void subRaw(S& r, const S& a, const S& b) { uint64_t br = 0; for (int i = 0; i < 4; i++) { u128 t = (u128)a.d[i] - b.d[i] - br; r.d[i] = (uint64_t)t; br = (t >> 64) ? 1 : 0; } }
S add(const S& a, const S& b) { S r; uint64_t c = addRaw(r, a, b); if (c || cmp(r, N) >= 0) subRaw(r, r, N); return r; }
S neg(const S& a) { if (isZero(a)) return a; S r; subRaw(r, N, a); return r; }
// product mod n, using 2^256 = C (mod n)
const uint64_t C0 = 0x402DA1732FC9BEBFULL, C1 = 0x4551231950B75FC4ULL, C2 = 1;
S mul(const S& a, const S& b)
{
	uint64_t t[12] = {0};
	for (int i = 0; i < 4; i++) { u128 c = 0; for (int j = 0; j < 4; j++) { c += (u128)a.d[i] * b.d[j] + t[i + j]; t[i + j] = (uint64_t)c; c >>= 64; } t[i + 4] = (uint64_t)c; }
	const uint64_t C[3] = {C0, C1, C2};
	int hi = 8;
	for (int round = 0; round < 4; round++)
	{
		uint64_t h[8]; int hn = hi - 4; bool any = false;
		for (int i = 0; i < hn; i++) { h[i] = t[4 + i]; if (h[i]) any = true; }
		if (!any) break;
		uint64_t r[12] = {0};
		for (int i = 0; i < 4; i++) r[i] = t[i];
		for (int i = 0; i < hn; i++) { u128 c = 0; int j; for (j = 0; j < 3; j++) { c += (u128)h[i] * C[j] + r[i + j]; r[i + j] = (uint64_t)c; c >>= 64; } for (; c && i + j < 12; j++) { c += r[i + j]; r[i + j] = (uint64_t)c; c >>= 64; } }
		memcpy(t, r, sizeof(t));
		hi = 8;
	}
	S r; for (int i = 0; i < 4; i++) r.d[i] = t[i];
	while (cmp(r, N) >= 0) subRaw(r, r, N);
	return r;
}
void put(unsigned char* o, const S& a) { for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) o[31 - (i * 8 + j)] = (unsigned char)(a.d[i] >> (8 * j)); }
S getRaw(const unsigned char* p) { S r; for (int i = 0; i < 4; i++) { r.d[i] = 0; for (int j = 0; j < 8; j++) r.d[i] |= (uint64_t)p[31 - (i * 8 + j)] << (8 * j); } return r; }
bool get(const unsigned char* p, S& r) { r = getRaw(p); return cmp(r, N) < 0; }
S reduce(const unsigned char* p) { S r = getRaw(p); if (cmp(r, N) >= 0) subRaw(r, r, N); return r; }
bool hiBit(const S& a) { return cmp(a, HALF) > 0; }
S xOf(const S& a) { return hiBit(a) ? neg(a) : a; }

struct Sha { crypto_hash_sha256_state st; Sha() { crypto_hash_sha256_init(&st); } Sha& operator()(const void* p, size_t n) { crypto_hash_sha256_update(&st, (const unsigned char*)p, n); return *this; } void fin(unsigned char* o) { crypto_hash_sha256_final(&st, o); } S scalar() { unsigned char o[32]; fin(o); return reduce(o); } };

S hLog() { static const S h = Sha()("secp-model-H", 12).scalar(); return h; }
S genLog(const secp256k1_generator* g) { if (memcmp(g, &secp256k1_generator_const_g, 64) == 0) return ONE; if (memcmp(g, &secp256k1_generator_const_h, 64) == 0) return hLog(); return Sha()("gen", 3)(g->data, 64).scalar(); }
S u64s(uint64_t v) { return S{{v, 0, 0, 0}}; }

// internal representation of a point inside the 64-byte opaque structs: "PT" marker + scalar at [32..64)
void setPt(unsigned char* d, const S& s) { memset(d, 0, 32); memcpy(d, "PTmodel", 7); put(d + 32, s); }
S ptOf(const unsigned char* d) { if (memcmp(d, "PTmodel", 7) == 0) return reduce(d + 32); return Sha()("pt", 2)(d, 64).scalar(); }

typedef std::array<unsigned char, 33> E33;
std::map<E33, S>& aliasFwd() { static std::map<E33, S> m; return m; }
// signatures and proofs made by others (genesis) which are taken as good for one point
std::map<std::string, S>& given() { static std::map<std::string, S> m; return m; }
bool isGiven(const unsigned char* d, size_t n, const S& s) { if (given().empty()) return false; auto it = given().find(std::string((const char*)d, n)); return it != given().end() && cmp(it->second, s) == 0; }
std::map<std::string, E33>& aliasRev() { static std::map<std::string, E33> m; return m; }

bool parse33(const unsigned char* in, unsigned char base, S& out)
{
	if (base == 8 && !aliasFwd().empty()) { E33 e; memcpy(e.data(), in, 33); auto it = aliasFwd().find(e); if (it != aliasFwd().end()) { out = it->second; return true; } }
	if (in[0] != base && in[0] != base + 1) return false;
	S x = getRaw(in + 1);
	if (isZero(x) || cmp(x, HALF) > 0) return false;
	out = (in[0] & 1) == (base & 1) ? x : neg(x);
	return true;
}
bool ser33(unsigned char* o, unsigned char base, const S& s)
{
	if (isZero(s)) return false;
	if (base == 8 && !aliasRev().empty()) { unsigned char b[32]; put(b, s); auto it = aliasRev().find(std::string((char*)b, 32)); if (it != aliasRev().end()) { memcpy(o, it->second.data(), 33); return true; } }
	o[0] = base + (hiBit(s) ? 1 : 0);
	put(o + 1, xOf(s));
	return true;
}
void rev32(unsigned char* o, const unsigned char* i) { for (int k = 0; k < 32; k++) o[k] = i[31 - k]; }
}

struct secp256k1_context_struct { uint64_t stamp; };
struct secp256k1_scratch_space_struct { int x; };
struct secp256k1_bulletproof_generators { size_t n; };

// every use reads the context, randomization writes it: a missing lock in the caller is a data race that
// thread sanitizer can see
static void use(const secp256k1_context* c) { volatile uint64_t v = c->stamp; (void)v; }

extern "C" {
const secp256k1_generator secp256k1_generator_const_g = {{'G'}};
const secp256k1_generator secp256k1_generator_const_h = {{'H'}};

secp256k1_context* secp256k1_context_create(unsigned int) { return new secp256k1_context_struct{1}; }
void secp256k1_context_destroy(secp256k1_context* c) { delete c; }
int secp256k1_context_randomize(secp256k1_context* c, const unsigned char* seed) { c->stamp = c->stamp * 31 + seed[0]; return 1; }
secp256k1_scratch_space* secp256k1_scratch_space_create(const secp256k1_context*, size_t) { return new secp256k1_scratch_space_struct{0}; }
void secp256k1_scratch_space_destroy(secp256k1_scratch_space* s) { delete s; }

int secp256k1_ec_pubkey_parse(const secp256k1_context* c, secp256k1_pubkey* o, const unsigned char* in, size_t len)
{ use(c); S s; if (len != 33 || !parse33(in, 2, s)) { memset(o, 0, sizeof(*o)); return 0; } setPt(o->data, s); return 1; }
int secp256k1_ec_pubkey_serialize(const secp256k1_context* c, unsigned char* o, size_t* len, const secp256k1_pubkey* p, unsigned int)
{ use(c); if (*len < 33) return 0; *len = 33; return ser33(o, 2, ptOf(p->data)) ? 1 : 0; }
int secp256k1_ec_pubkey_create(const secp256k1_context* c, secp256k1_pubkey* o, const unsigned char* sk)
{ use(c); S s; if (!get(sk, s) || isZero(s)) return 0; setPt(o->data, s); return 1; }
int secp256k1_ec_pubkey_combine(const secp256k1_context* c, secp256k1_pubkey* o, const secp256k1_pubkey* const* in, size_t n)
{ use(c); if (n == 0) return 0; S s = ZERO; for (size_t i = 0; i < n; i++) s = add(s, ptOf(in[i]->data)); if (isZero(s)) return 0; setPt(o->data, s); return 1; }
int secp256k1_ec_seckey_verify(const secp256k1_context* c, const unsigned char* sk) { use(c); S s; return get(sk, s) && !isZero(s); }
int secp256k1_ec_privkey_tweak_add(const secp256k1_context* c, unsigned char* sk, const unsigned char* t)
{ use(c); S a, b; if (!get(t, b)) return 0; get(sk, a); a = add(a, b); if (isZero(a)) return 0; put(sk, a); return 1; }
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context* c, secp256k1_ecdsa_signature* o, const unsigned char* in)
{ use(c); S r, s; if (!get(in, r) || !get(in + 32, s)) return 0; rev32(o->data, in); rev32(o->data + 32, in + 32); return 1; }
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context* c, unsigned char* o, const secp256k1_ecdsa_signature* s)
{ use(c); unsigned char t[64]; rev32(t, s->data); rev32(t + 32, s->data + 32); memcpy(o, t, 64); return 1; }

int secp256k1_pedersen_commitment_parse(const secp256k1_context* c, secp256k1_pedersen_commitment* o, const unsigned char* in)
{ use(c); S s; if (!parse33(in, 8, s)) return 0; setPt(o->data, s); return 1; }
int secp256k1_pedersen_commitment_serialize(const secp256k1_context* c, unsigned char* o, const secp256k1_pedersen_commitment* p) { use(c); return ser33(o, 8, ptOf(p->data)) ? 1 : 0; }
int secp256k1_pedersen_commitment_to_pubkey(const secp256k1_context* c, secp256k1_pubkey* o, const secp256k1_pedersen_commitment* p) { use(c); setPt(o->data, ptOf(p->data)); return 1; }
int secp256k1_pubkey_to_pedersen_commitment(const secp256k1_context* c, secp256k1_pedersen_commitment* o, const secp256k1_pubkey* p) { use(c); setPt(o->data, ptOf(p->data)); return 1; }
int secp256k1_pedersen_commit(const secp256k1_context* c, secp256k1_pedersen_commitment* o, const unsigned char* blind, uint64_t value, const secp256k1_generator* vg, const secp256k1_generator* bg)
{ use(c); S b; if (!get(blind, b)) return 0; S s = add(mul(b, genLog(bg)), mul(u64s(value), genLog(vg))); if (isZero(s)) return 0; setPt(o->data, s); return 1; }
int secp256k1_pedersen_commit_sum(const secp256k1_context* c, secp256k1_pedersen_commitment* o, const secp256k1_pedersen_commitment* const* pos, size_t np, const secp256k1_pedersen_commitment* const* ngs, size_t nn)
{ use(c); S s = ZERO; for (size_t i = 0; i < np; i++) s = add(s, ptOf(pos[i]->data)); for (size_t i = 0; i < nn; i++) s = add(s, neg(ptOf(ngs[i]->data))); if (isZero(s)) return 0; setPt(o->data, s); return 1; }
int secp256k1_pedersen_blind_sum(const secp256k1_context* c, unsigned char* o, const unsigned char* const* bl, size_t n, size_t np)
{ use(c); S s = ZERO; for (size_t i = 0; i < n; i++) { S b; if (!get(bl[i], b)) return 0; s = add(s, i < np ? b : neg(b)); } put(o, s); return 1; }
int secp256k1_blind_switch(const secp256k1_context* c, unsigned char* o, const unsigned char* blind, uint64_t value, const secp256k1_generator* vg, const secp256k1_generator* bg, const secp256k1_pubkey* j)
{
	secp256k1_pedersen_commitment pc; if (!secp256k1_pedersen_commit(c, &pc, blind, value, vg, bg)) return 0;
	S b; get(blind, b);
	unsigned char e1[33], e2[33] = {0}; if (!ser33(e1, 8, ptOf(pc.data))) return 0;
	ser33(e2, 2, mul(b, ptOf(j->data)));
	S t = Sha()(e1, 33)(e2, 33).scalar();
	put(o, add(b, t)); return 1;
}

int secp256k1_aggsig_export_secnonce_single(const secp256k1_context* c, unsigned char* o, const unsigned char* seed)
{ use(c); S s = Sha()("secnonce", 8)(seed, 32).scalar(); if (isZero(s)) s = ONE; put(o, s); return 1; }

static S challenge(const S& Re, const secp256k1_pubkey* pk, const unsigned char* msg)
{
	unsigned char x[32]; put(x, xOf(Re));
	Sha h; h("e", 1)(x, 32);
	if (pk) { unsigned char p[33] = {0}; ser33(p, 2, ptOf(pk->data)); h(p, 33); }
	h(msg, 32);
	return h.scalar();
}
int secp256k1_aggsig_sign_single(const secp256k1_context* c, unsigned char* sig, const unsigned char* msg, const unsigned char* sk, const unsigned char* sn, const unsigned char*, const secp256k1_pubkey* pnE, const secp256k1_pubkey* pnT, const secp256k1_pubkey* pkE, const unsigned char* seed)
{
	use(c);
	S k, d; if (!get(sk, d) || isZero(d)) return 0;
	if (sn) { if (!get(sn, k) || isZero(k)) return 0; }
	else { k = Sha()("nonce", 5)(seed, 32)(msg, 32)(sk, 32).scalar(); }
	S R = k;
	bool flip = pnT ? hiBit(ptOf(pnT->data)) : hiBit(R);
	if (flip) k = neg(k);
	S Re = pnE ? ptOf(pnE->data) : R;
	S e = challenge(Re, pkE, msg);
	put(sig, xOf(R));
	put(sig + 32, add(k, mul(e, d)));
	return 1;
}
int secp256k1_aggsig_verify_single(const secp256k1_context* c, const unsigned char* sig, const unsigned char* msg, const secp256k1_pubkey* pn, const secp256k1_pubkey* pk, const secp256k1_pubkey* pkT, const secp256k1_pubkey*, int partial)
{
	use(c);
	if (!pn && isGiven(sig, 64, ptOf(pk->data))) return 1;
	S s; if (!get(sig + 32, s)) return 0;
	S rx = getRaw(sig); if (isZero(rx) || cmp(rx, HALF) > 0) return 0;
	S Re = pn ? ptOf(pn->data) : rx;
	S e = challenge(Re, pkT, msg);
	S R = add(s, neg(mul(e, ptOf(pk->data))));
	if (isZero(R)) return 0;
	if (cmp(xOf(R), rx) != 0) return 0;
	if (!partial && hiBit(R)) return 0;
	return 1;
}
int secp256k1_aggsig_add_signatures_single(const secp256k1_context* c, unsigned char* o, const unsigned char** sigs, size_t n, const secp256k1_pubkey* pn)
{ use(c); S s = ZERO; for (size_t i = 0; i < n; i++) { S t; if (!get(sigs[i] + 32, t)) return 0; s = add(s, t); } put(o, xOf(ptOf(pn->data))); put(o + 32, s); return 1; }
int secp256k1_schnorrsig_parse(const secp256k1_context* c, secp256k1_schnorrsig* o, const unsigned char* in) { use(c); memcpy(o->data, in, 64); return 1; }
int secp256k1_schnorrsig_serialize(const secp256k1_context* c, unsigned char* o, const secp256k1_schnorrsig* s) { use(c); memcpy(o, s->data, 64); return 1; }
int secp256k1_schnorrsig_verify_batch(const secp256k1_context* c, secp256k1_scratch_space*, const secp256k1_schnorrsig* const* sigs, const unsigned char* const* msgs, const secp256k1_pubkey* const* pks, size_t n)
{ for (size_t i = 0; i < n; i++) if (!secp256k1_aggsig_verify_single(c, sigs[i]->data, msgs[i], nullptr, pks[i], pks[i], nullptr, 0)) return 0; return 1; }

secp256k1_bulletproof_generators* secp256k1_bulletproof_generators_create(const secp256k1_context*, const secp256k1_generator*, size_t n) { return new secp256k1_bulletproof_generators{n}; }
void secp256k1_bulletproof_generators_destroy(const secp256k1_context*, secp256k1_bulletproof_generators* g) { delete g; }

// proof layout (675 bytes): [0,32) tag of the commitment log, [32,60) value||message encrypted under the rewind
// nonce, [60,92) its MAC, [92,124) blind encrypted under the rewind nonce, [124,643) deterministic filler,
// [643,675) checksum over everything before it
static const size_t PL = 675;
static void tagOf(unsigned char* o, const S& p) { unsigned char b[32]; put(b, p); Sha()("bp-tag", 6)(b, 32).fin(o); }
static void sumOf(unsigned char* o, const unsigned char* pr) { Sha()("bp-sum", 6)(pr, PL - 32).fin(o); }
int secp256k1_bulletproof_rangeproof_prove(const secp256k1_context* c, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, unsigned char* pr, size_t* plen, unsigned char*, secp256k1_pubkey*, secp256k1_pubkey*, const uint64_t* value, const uint64_t*, const unsigned char* const* blind, const secp256k1_pedersen_commitment* const*, size_t n, const secp256k1_generator* vg, size_t, const unsigned char* nonce, const unsigned char* priv, const unsigned char*, size_t, const unsigned char* msg)
{
	use(c);
	S b; if (n != 1 || *plen < PL || !get(blind[0], b) || isZero(b)) return 0;
	S p = add(b, mul(u64s(*value), genLog(vg)));
	tagOf(pr, p);
	unsigned char pt[28]; for (int i = 0; i < 8; i++) pt[i] = (unsigned char)(*value >> (8 * (7 - i)));
	if (msg) memcpy(pt + 8, msg, 20); else memset(pt + 8, 0, 20);
	unsigned char ks[32]; Sha()("bp-k1", 5)(nonce, 32)(pr, 32).fin(ks);
	for (int i = 0; i < 28; i++) pr[32 + i] = pt[i] ^ ks[i];
	Sha()("bp-mac", 6)(nonce, 32)(pr, 60).fin(pr + 60);
	Sha()("bp-k2", 5)(nonce, 32)(pr, 32).fin(ks);
	for (int i = 0; i < 32; i++) pr[92 + i] = blind[0][i] ^ ks[i];
	unsigned char f[32]; Sha()("bp-fill", 7)(priv ? priv : nonce, 32)(pr, 124).fin(f);
	for (size_t i = 124; i < PL - 32; i++) pr[i] = f[i % 32] ^ (unsigned char)i;
	sumOf(pr + PL - 32, pr);
	*plen = PL;
	return 1;
}
static bool bpOk(const unsigned char* pr, size_t plen, const S& p)
{
	if (isGiven(pr, plen, p)) return true;
	if (plen != PL) return false;
	unsigned char t[32]; tagOf(t, p); if (memcmp(t, pr, 32)) return false;
	sumOf(t, pr); return memcmp(t, pr + PL - 32, 32) == 0;
}
int secp256k1_bulletproof_rangeproof_verify_multi(const secp256k1_context* c, secp256k1_scratch_space*, const secp256k1_bulletproof_generators*, const unsigned char* const* pr, size_t np, size_t plen, const uint64_t* const*, const secp256k1_pedersen_commitment* const* cm, size_t nc, size_t nbits, const secp256k1_generator*, const unsigned char* const*, size_t*)
{
	use(c); (void)nbits;
	if (nc != 1) return 0;
	// commits is an array of per-proof commitment arrays in the real API; the caller passes one commitment per proof
	for (size_t i = 0; i < np; i++) if (!bpOk(pr[i], plen, ptOf(cm[i]->data))) return 0;
	return 1;
}
int secp256k1_bulletproof_rangeproof_rewind(const secp256k1_context* c, uint64_t* value, unsigned char* blind, const unsigned char* pr, size_t plen, uint64_t, const secp256k1_pedersen_commitment* cm, const secp256k1_generator* vg, const unsigned char* nonce, const unsigned char*, size_t, unsigned char* msg)
{
	use(c);
	if (plen != PL) return 0;
	unsigned char mac[32]; Sha()("bp-mac", 6)(nonce, 32)(pr, 60).fin(mac);
	if (memcmp(mac, pr + 60, 32)) return 0;
	unsigned char ks[32], pt[28]; Sha()("bp-k1", 5)(nonce, 32)(pr, 32).fin(ks);
	for (int i = 0; i < 28; i++) pt[i] = pr[32 + i] ^ ks[i];
	unsigned char bl[32]; Sha()("bp-k2", 5)(nonce, 32)(pr, 32).fin(ks);
	for (int i = 0; i < 32; i++) bl[i] = pr[92 + i] ^ ks[i];
	uint64_t v = 0; for (int i = 0; i < 8; i++) v = (v << 8) | pt[i];
	S b; if (!get(bl, b)) return 0;
	S p = add(b, mul(u64s(v), genLog(vg)));
	if (cmp(p, ptOf(cm->data)) != 0) return 0;
	*value = v; memcpy(blind, bl, 32); if (msg) memcpy(msg, pt + 8, 20);
	return 1;
}

void secp_model_alias_commitment(const unsigned char* e, const unsigned char* l)
{ E33 k; memcpy(k.data(), e, 33); S s = reduce(l); aliasFwd()[k] = s; unsigned char b[32]; put(b, s); aliasRev()[std::string((char*)b, 32)] = k; }
void secp_model_given(const unsigned char* d, size_t n, const unsigned char* l) { given()[std::string((const char*)d, n)] = reduce(l); }
void secp_model_commit_log(unsigned char* o, const unsigned char* b, uint64_t v) { put(o, add(reduce(b), mul(u64s(v), hLog()))); }
int secp_model_log_of(const unsigned char* e, unsigned char* o) { S s; if (!parse33(e, 8, s)) { memset(o, 0, 32); return 0; } put(o, s); return 1; }
void secp_model_add(unsigned char* o, const unsigned char* a, const unsigned char* b, int nb) { S x = reduce(a), y = reduce(b); put(o, add(x, nb ? neg(y) : y)); }
}
