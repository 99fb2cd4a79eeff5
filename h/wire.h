// Catalogue of encodable objects: for each type, a space of values, their encodings written from the protocol definition
// (not by the code base), and the decode/encode functions of the code base.
#pragma once
#include "chain.h"
#include <BlockChain/ICoinView.h>
#include <Core/Models/CompactBlock.h>
#include <Core/Models/SpentOutput.h>
#include <Core/Models/ShortId.h>
#include <P2P/Peer.h>
#include <P2P/Messages/HandMessage.h>
#include <P2P/Messages/ShakeMessage.h>
#include <P2P/Messages/PingMessage.h>
#include <P2P/Messages/PongMessage.h>
#include <P2P/Messages/ErrorMessage.h>
#include <P2P/Messages/BanReasonMessage.h>
#include <P2P/Messages/GetPeerAddressesMessage.h>
#include <P2P/Messages/PeerAddressesMessage.h>
#include <P2P/Messages/GetHeadersMessage.h>
#include <P2P/Messages/HeaderMessage.h>
#include <P2P/Messages/HeadersMessage.h>
#include <P2P/Messages/GetBlockMessage.h>
#include <P2P/Messages/BlockMessage.h>
#include <P2P/Messages/GetCompactBlockMessage.h>
#include <P2P/Messages/CompactBlockMessage.h>
#include <P2P/Messages/TransactionMessage.h>
#include <P2P/Messages/StemTransactionMessage.h>
#include <P2P/Messages/GetTransactionMessage.h>
#include <P2P/Messages/TransactionKernelMessage.h>
#include <P2P/Messages/TxHashSetRequestMessage.h>
#include <P2P/Messages/TxHashSetArchiveMessage.h>
#include <P2P/Messages/SegmentRequestMessage.h>
#include <P2P/Messages/SegmentResponseMessage.h>
#include <P2P/Messages/MessageHeader.h>

namespace wire {
using ref::B;
using EV = EProtocolVersion;
inline std::vector<EV> versions() { return { EV::V1, EV::V2, EV::V3, EV::V1000 }; }
inline B be(uint64_t v, int n) { B r(n, '\0'); for (int i = 0; i < n; i++) r[n - 1 - i] = (char)(v >> (8 * i)); return r; }
inline B fill(const std::string& s, size_t n) { B r; for (int i = 0; r.size() < n; i++) r += ref::b2b(s + std::to_string(i)); r.resize(n); return r; }
template <size_t N> CBigInteger<N> big(const B& b) { return CBigInteger<N>((const unsigned char*)b.data()); }
inline Hash hsh(const std::string& s) { return big<32>(fill(s, 32)); }
inline B com(const std::string& s) { B r = fill(s, 33); r[0] = 8 + (r[0] & 1); return r; }
inline std::vector<uint8_t> vec(const B& b) { return std::vector<uint8_t>(b.begin(), b.end()); }
inline B str(const std::vector<uint8_t>& v) { return B(v.begin(), v.end()); }
template <class T> B hexOf(const T& x) { return x.ToHex(); }

// the type of the output an input spends, as the chain would tell a node that gets an input without features
struct View : ICoinView {
	EOutputFeatures GetOutputType(const Commitment& c) const override { return (c.data()[32] & 1) ? EOutputFeatures::COINBASE_OUTPUT : EOutputFeatures::DEFAULT; }
};
struct Sample {
	std::string type, name; EV ver = EV::V1; B bytes; bool ordered = true; // ordered: element order matters
	std::string sig;  // every observable field of the value encoded
	std::function<B(const B& in, size_t& rest, std::string& sig)> codec; // decode, then encode again
	std::function<B()> encode; // encode the original value
};
inline std::vector<Sample>& all() { static std::vector<Sample> v; return v; }

template <class T, class S> void add(const std::string& type, const std::string& name, EV v, const T& obj, const B& bytes, S sig, bool ordered = true)
{
	Sample s; s.type = type; s.name = name; s.ver = v; s.bytes = bytes; s.ordered = ordered; s.sig = sig(obj);
	s.codec = [v, sig](const B& in, size_t& rest, std::string& sg) { ByteBuffer b(vec(in), v); T o = T::Deserialize(b); rest = b.GetRemainingSize(); sg = sig(o); Serializer x(v); o.Serialize(x); return str(x.GetBytes()); };
	s.encode = [v, obj] { Serializer x(v); obj.Serialize(x); return str(x.GetBytes()); };
	all().push_back(s);
}
// a message: the body is what follows the 11-byte header
template <class T, class S> void msg(const std::string& type, int code, const std::string& name, EV v, const T& obj, const B& body, S sig, bool ordered = true)
{
	Sample s; s.type = type; s.name = name; s.ver = v; s.bytes = body; s.ordered = ordered; s.sig = sig(obj);
	s.codec = [v, sig](const B& in, size_t& rest, std::string& sg) { ByteBuffer b(vec(in), v); T o = T::Deserialize(b); rest = b.GetRemainingSize(); sg = sig(o); return str(o.Serialize(v)).substr(11); };
	s.encode = [v, obj, code, body, type] {
		B r = str(obj.Serialize(v)); auto& m = Global::GetConfig().GetMagicBytes();
		if (r.size() < 11 || (uint8_t)r[0] != m[0] || (uint8_t)r[1] != m[1] || (uint8_t)r[2] != code || r.substr(3, 8) != be(r.size() - 11, 8)) vh::fail("header:" + type, "the header of a message does not describe it: " + vh::hexv(r).substr(0, 30));
		ByteBuffer hb(vec(r), v);
		try { MessageHeader h = MessageHeader::Deserialize(hb); if (h.GetMessageType() != code || h.GetLength() != r.size() - 11) vh::fail("header-read:" + type, "the header of a message is not read back"); }
		catch (std::exception& e) { if (code != 0) vh::fail("header-refused:" + type, "the header of a message the node sends is refused: " + std::string(e.what())); }
		return r.size() < 11 ? r : r.substr(11); };
	all().push_back(s);
}

// ---------- elements, with their reference encodings ----------
struct K { int f; uint64_t fee, shift, lock; B com, sig;
	TransactionKernel obj() const { return TransactionKernel((EKernelFeatures)f, Fee((uint8_t)shift, fee), lock, Commitment(big<33>(com)), Signature(big<64>(sig))); }
	B feeb() const { return be(0, 2) + be(shift, 1) + be(fee, 5); }
	B v1() const { return be(f, 1) + feeb() + be(lock, 8) + com + sig; }
	B enc(EV v) const { if (v == EV::V1) return v1(); return be(f, 1) + (f == 1 ? "" : feeb()) + (f == 2 ? be(lock, 8) : f == 3 ? be(lock, 2) : "") + com + sig; }
	B hash() const { return ref::b2b(v1()); } };
struct I { int f; B com; TransactionInput obj() const { return TransactionInput((EOutputFeatures)f, Commitment(big<33>(com))); } B enc(EV v) const { return (v < EV::V3 ? be(f, 1) : B()) + com; } B hash() const { return ref::b2b(com); } };
struct O { int f; B com, proof; TransactionOutput obj() const { return TransactionOutput((EOutputFeatures)f, Commitment(big<33>(com)), RangeProof(vec(proof))); } B enc(EV) const { return be(f, 1) + com + be(proof.size(), 8) + proof; } B hash() const { return ref::b2b(be(f, 1) + com); } };
inline K mk(int i) { return { i % 3, i % 3 == 1 ? 0 : 1000000ull + i, (uint64_t)(i % 3 == 1 ? 0 : i % 16), i % 3 == 2 ? 77ull + i : 0, com("k" + std::to_string(i)), fill("s" + std::to_string(i), 64) }; }
inline I mi(int i) { B c = com("i" + std::to_string(i)); return { c[32] & 1, c }; }
inline O mo(int i) { return { i & 1, com("o" + std::to_string(i)), fill("p" + std::to_string(i), i == 2 ? 10 : 675) }; }
struct Body { std::vector<I> in; std::vector<O> out; std::vector<K> ker;
	Body(int a, int b, int c) { for (int i = 0; i < a; i++) in.push_back(mi(i)); for (int i = 0; i < b; i++) out.push_back(mo(i)); for (int i = 0; i < c; i++) ker.push_back(mk(i)); auto s = [](auto& v) { std::sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.hash() < y.hash(); }); }; s(in); s(out); s(ker); }
	TransactionBody obj() const { std::vector<TransactionInput> a; std::vector<TransactionOutput> b; std::vector<TransactionKernel> c; for (auto& x : in) a.push_back(x.obj()); for (auto& x : out) b.push_back(x.obj()); for (auto& x : ker) c.push_back(x.obj()); return TransactionBody(std::move(a), std::move(b), std::move(c)); }
	B enc(EV v) const { B r = be(in.size(), 8) + be(out.size(), 8) + be(ker.size(), 8); for (auto& x : in) r += x.enc(v); for (auto& x : out) r += x.enc(v); for (auto& x : ker) r += x.enc(v); return r; } };
struct H { uint64_t ver = 3, height = 100; int64_t time = 1600000000; std::vector<B> h; uint64_t osz = 10, ksz = 20, diff = 1000, nonce = 5; uint32_t scale = 7; int edge = 31; std::vector<uint64_t> cyc;
	H() { for (int i = 0; i < 6; i++) h.push_back(fill("h" + std::to_string(i), 32)); for (int i = 0; i < 42; i++) cyc.push_back((uint64_t)i * 0x2040811ull + 1); }
	B pack() const { std::vector<int> bits; for (auto c : cyc) for (int i = 0; i < edge; i++) bits.push_back(c >> i & 1); B r((bits.size() + 7) / 8, '\0'); for (size_t i = 0; i < bits.size(); i++) if (bits[i]) r[i / 8] = (char)(r[i / 8] | 1 << (i % 8)); return r; }
	B enc() const { B r = be(ver, 2) + be(height, 8) + be((uint64_t)time, 8); for (auto& x : h) r += x; return r + be(osz, 8) + be(ksz, 8) + be(diff, 8) + be(scale, 4) + be(nonce, 8) + be(edge, 1) + pack(); }
	B hash() const { return ref::b2b(pack()); }
	std::shared_ptr<const BlockHeader> ptr() const { return std::make_shared<const BlockHeader>(obj()); }
	BlockHeader obj() const { auto c = cyc; return BlockHeader((uint16_t)ver, height, time, big<32>(h[0]), big<32>(h[1]), big<32>(h[2]), big<32>(h[3]), big<32>(h[4]), BlindingFactor(big<32>(h[5])), osz, ksz, diff, scale, nonce, ProofOfWork((uint8_t)edge, std::move(c))); } };

// ---------- observable fields ----------
inline std::string sg(const TransactionKernel& k) { return vh::cat((int)k.GetFeatures(), ",", k.GetFee(), ",", (int)k.GetFeeShift(), ",", k.GetLockHeight(), ",", k.GetExcessCommitment().ToHex(), ",", k.GetExcessSignature().GetSignatureBytes().ToHex(), ",", k.GetHash().ToHex()); }
inline std::string sg(const TransactionInput& k) { return vh::cat((int)k.GetFeatures(), ",", k.GetCommitment().ToHex(), ",", k.GetHash().ToHex()); }
inline std::string sg(const TransactionOutput& k) { return vh::cat((int)k.GetFeatures(), ",", k.GetCommitment().ToHex(), ",", k.GetRangeProof().ToHex(), ",", k.GetHash().ToHex()); }
inline std::string sg(const TransactionBody& b) { std::string r; for (auto& x : b.GetInputs()) r += sg(x) + ";"; r += "|"; for (auto& x : b.GetOutputs()) r += sg(x) + ";"; r += "|"; for (auto& x : b.GetKernels()) r += sg(x) + ";"; return r; }
inline std::string sg(const Transaction& t) { return t.GetOffset().ToHex() + "/" + sg(t.GetBody()) + "/" + t.GetHash().ToHex(); }
inline std::string sg(const BlockHeader& h) { std::string r = vh::cat(h.GetVersion(), ",", h.GetHeight(), ",", h.GetTimestamp(), ",", h.GetPreviousHash().ToHex(), ",", h.GetPreviousRoot().ToHex(), ",", h.GetOutputRoot().ToHex(), ",", h.GetRangeProofRoot().ToHex(), ",", h.GetKernelRoot().ToHex(), ",", h.GetTotalKernelOffset().ToHex(), ",", h.GetOutputMMRSize(), ",", h.GetKernelMMRSize(), ",", h.GetTotalDifficulty(), ",", h.GetScalingDifficulty(), ",", h.GetNonce(), ",", (int)h.GetProofOfWork().GetEdgeBits(), ",", h.GetHash().ToHex()); for (auto n : h.GetProofOfWork().GetProofNonces()) r += vh::cat(",", n); return r; }
inline std::string sg(const FullBlock& b) { return sg(*b.GetHeader()) + "/" + sg(b.GetTransactionBody()) + "/" + b.GetHash().ToHex(); }
inline std::string sg(const CompactBlock& b) { std::string r = sg(*b.GetHeader()) + vh::cat("/", b.GetNonce(), "/"); for (auto& x : b.GetOutputs()) r += sg(x) + ";"; r += "|"; for (auto& x : b.GetKernels()) r += sg(x) + ";"; r += "|"; for (auto& x : b.GetShortIds()) r += x.GetId().ToHex() + ";"; return r; }
inline std::string sg(const SocketAddress& a) { return a.GetIPAddress().Format() + "#" + std::to_string(a.GetPortNumber()); }
inline std::string vn(EV v) { return "v" + std::to_string((int)v); }

struct Addr { bool v6; B ip; int port; B enc() const { return be(v6, 1) + ip + be(port, 2); } SocketAddress obj() const { if (!v6) { std::array<uint8_t, 4> a; std::copy(ip.begin(), ip.end(), a.begin()); return SocketAddress(IPAddress::CreateV4(a), (uint16_t)port); } std::array<uint8_t, 16> a; std::copy(ip.begin(), ip.end(), a.begin()); return SocketAddress(IPAddress::CreateV6(a), (uint16_t)port); } };
inline std::vector<Addr> addrs() { return { { false, B("\x7f\0\0\x01", 4), 3414 }, { false, B("\xff\xff\xff\xff", 4), 65535 }, { false, B("\0\0\0\0", 4), 0 }, { false, B("\xc0\xa8\x01\x02", 4), 0x1234 }, { true, fill("ip6", 16), 80 }, { true, B(15, '\0') + "\x01", 0xabcd } }; }
inline std::vector<uint64_t> u64s() { return { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x0102030405060708ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull }; }

// full: every value; otherwise one or two per type (for the mutation sweeps)
inline void build(bool full)
{
	Global::SetCoinView(std::make_shared<View>());
	auto un = u64s();
	for (EV v : versions()) {
		std::string p = vn(v) + "/";
		// kernels
		{ int n = 0; for (int f = 0; f < 4; f++) for (uint64_t fee : { 0ull, 1ull, 0xffffffffull, 0x100000000ull, 0x0102030405ull, 0xffffffffffull }) for (uint64_t shift : { 0, 1, 15 }) for (uint64_t lock : { 0ull, 1ull, 255ull, 256ull, 10080ull, 65535ull, 0x0102030405060708ull, ~0ull }) {
			if (f == 1 && (fee || shift)) continue; if (f < 2 && lock) continue; if (f == 3 && (lock == 0 || lock > 10080)) continue;
			if (!full && !(fee == 0x0102030405ull || f == 1) && !(f >= 2 && lock == 256)) continue; if (!full && (shift != 1 && f != 1)) continue; if (!full && lock != 0 && lock != 256) continue;
			K k{ f, fee, shift, lock, com(vh::cat("k", n)), fill(vh::cat("s", n), 64) }; n++;
			add("Kernel", vh::cat(p, "f", f, "/fee", fee, "/s", shift, "/l", lock), v, k.obj(), k.enc(v), [](const TransactionKernel& x) { return sg(x); });
			if (vh::hexv(k.hash()) != k.obj().GetHash().ToHex()) vh::fail("hash:Kernel", "the hash of a kernel is not that of its fixed form");
		} }
		for (int i = 0; i < (full ? 12 : 2); i++) { I x = mi(i); add("Input", vh::cat(p, i), v, x.obj(), x.enc(v), [](const TransactionInput& y) { return sg(y); }); }
		for (int f = 0; f < 2; f++) for (int n : { 675, 0, 1, 674 }) { if (!full && (n != 675)) continue; O x{ f, com(vh::cat("o", f, n)), fill("p", n) }; add("Output", vh::cat(p, f, "/", n), v, x.obj(), x.enc(v), [](const TransactionOutput& y) { return sg(y); });
			OutputIdentifier id((EOutputFeatures)f, Commitment(big<33>(x.com))); add("OutputIdentifier", vh::cat(p, f, "/", n), v, id, be(f, 1) + x.com, [](const OutputIdentifier& y) { return vh::cat((int)y.GetFeatures(), y.GetCommitment().ToHex()); }); }
		// bodies, transactions, blocks
		for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) {
			if (!full && !(a == 2 && b == 1 && c == 2) && !(a == 0 && b == 0 && c == 1)) continue;
			Body bd(a, b, c); std::string nm = vh::cat(p, a, b, c); B off = fill("off", 32); H h;
			add("TransactionBody", nm, v, bd.obj(), bd.enc(v), [](const TransactionBody& y) { return sg(y); }, false);
			Transaction tx(BlindingFactor(big<32>(off)), bd.obj());
			add("Transaction", nm, v, tx, off + bd.enc(v), [](const Transaction& y) { return sg(y); }, false);
			FullBlock fb(h.ptr(), bd.obj());
			add("FullBlock", nm, v, fb, h.enc() + bd.enc(v), [](const FullBlock& y) { return sg(y); }, false);
			std::vector<TransactionOutput> os; std::vector<TransactionKernel> ks; std::vector<ShortId> ids; B e = h.enc() + be(0x1122334455667788ull, 8) + be(b, 8) + be(c, 8) + be(a, 8);
			for (auto& x : bd.out) { os.push_back(x.obj()); e += x.enc(v); } for (auto& x : bd.ker) { ks.push_back(x.obj()); e += x.enc(v); } for (int i = 0; i < a; i++) { B q = fill(vh::cat("id", i), 6); ids.push_back(ShortId(big<6>(q))); e += q; }
			CompactBlock cb(h.ptr(), 0x1122334455667788ull, std::move(os), std::move(ks), std::move(ids));
			add("CompactBlock", nm, v, cb, e, [](const CompactBlock& y) { return sg(y); });
			auto ptx = std::make_shared<Transaction>(tx);
			msg("TransactionMessage", 15, nm, v, TransactionMessage(ptx), off + bd.enc(v), [](const TransactionMessage& m) { return sg(*m.GetTransaction()); }, false);
			msg("StemTransactionMessage", 14, nm, v, StemTransactionMessage(ptx), off + bd.enc(v), [](const StemTransactionMessage& m) { return sg(*m.GetTransaction()); }, false);
			{ FullBlock f2 = fb; msg("BlockMessage", 11, nm, v, BlockMessage(std::move(f2)), h.enc() + bd.enc(v), [](const BlockMessage& m) { return sg(m.GetBlock()); }, false); }
			msg("CompactBlockMessage", 13, nm, v, CompactBlockMessage(cb), e, [](const CompactBlockMessage& m) { return sg(m.GetCompactBlock()); });
		}
		// headers: every field at every boundary
		std::vector<std::pair<std::string, H>> hs; hs.push_back({ "base", H() });
		if (full) {
			for (auto u : un) { H h; h.ver = u & 0xffff; hs.push_back({ vh::cat("ver", u), h }); h = H(); h.height = u; hs.push_back({ vh::cat("height", u), h }); h = H(); h.time = (int64_t)u; hs.push_back({ vh::cat("time", u), h }); h = H(); h.osz = u; hs.push_back({ vh::cat("osz", u), h }); h = H(); h.ksz = u; hs.push_back({ vh::cat("ksz", u), h }); h = H(); h.diff = u; hs.push_back({ vh::cat("diff", u), h }); h = H(); h.nonce = u; hs.push_back({ vh::cat("nonce", u), h }); h = H(); h.scale = (uint32_t)u; hs.push_back({ vh::cat("scale", u), h }); }
			for (int e = 1; e < 64; e++) for (int pat = 0; pat < 4; pat++) { H h; h.edge = e; uint64_t m = (1ull << e) - 1; for (int i = 0; i < 42; i++) h.cyc[i] = (pat == 0 ? 0 : pat == 1 ? ~0ull : pat == 2 ? i * 0x9e3779b97f4a7c15ull : i) & m; hs.push_back({ vh::cat("edge", e, "/", pat), h }); }
		} else { H h; h.edge = 29; for (auto& c : h.cyc) c &= (1 << 29) - 1; hs.push_back({ "edge29", h }); }
		for (auto& [n, h] : hs) {
			add("BlockHeader", p + n, v, h.obj(), h.enc(), [](const BlockHeader& y) { return sg(y); });
			if (vh::hexv(h.hash()) != h.obj().GetHash().ToHex()) vh::fail("hash:BlockHeader", "the hash of a header is not that of its proof of work");
			msg("HeaderMessage", 8, p + n, v, HeaderMessage(h.ptr()), h.enc(), [](const HeaderMessage& m) { return sg(*m.GetHeader()); });
		}
		for (int n : { 0, 1, 2, 3, 512 }) { if (!full && n != 2) continue; std::vector<BlockHeaderPtr> l; B e = be(n, 2); for (int i = 0; i < n; i++) { H h; h.height = i; h.edge = 19; for (auto& c : h.cyc) c &= 0x7ffff; l.push_back(h.ptr()); e += h.enc(); } msg("HeadersMessage", 9, vh::cat(p, n), v, HeadersMessage(std::move(l)), e, [](const HeadersMessage& m) { std::string r; for (auto& h : m.GetHeaders()) r += sg(*h) + ";"; return r; }); }
		// simple messages
		auto us = full ? un : std::vector<uint64_t>{ 0x0102030405060708ull };
		for (auto u : us) {
			msg("PingMessage", 3, vh::cat(p, u), v, PingMessage(u, u ^ 5), be(u, 8) + be(u ^ 5, 8), [](const PingMessage& m) { return vh::cat(m.GetTotalDifficulty(), ",", m.GetHeight()); });
			msg("PongMessage", 4, vh::cat(p, u), v, PongMessage(u, u ^ 5), be(u, 8) + be(u ^ 5, 8), [](const PongMessage& m) { return vh::cat(m.GetTotalDifficulty(), ",", m.GetHeight()); });
			msg("BanReasonMessage", 18, vh::cat(p, u), v, BanReasonMessage((uint32_t)u), be((uint32_t)u, 4), [](const BanReasonMessage& m) { return vh::cat(m.GetBanReason()); });
			msg("GetPeerAddressesMessage", 5, vh::cat(p, u), v, GetPeerAddressesMessage(Capabilities((uint32_t)u)), be((uint32_t)u, 4), [](const GetPeerAddressesMessage& m) { return vh::cat((uint32_t)m.GetCapabilities().GetCapability()); });
			Hash h = hsh(vh::cat(u)); B hb = fill(vh::cat(u), 32);
			msg("TxHashSetRequestMessage", 16, vh::cat(p, u), v, TxHashSetRequestMessage(Hash(h), u), hb + be(u, 8), [](const TxHashSetRequestMessage& m) { return m.GetBlockHash().ToHex(); });
			msg("TxHashSetArchiveMessage", 17, vh::cat(p, u), v, TxHashSetArchiveMessage(h, u, u ^ 9), hb + be(u, 8) + be(u ^ 9, 8), [](const TxHashSetArchiveMessage& m) { return vh::cat(m.GetBlockHash().ToHex(), m.GetBlockHeight(), ",", m.GetZippedSize()); });
			msg("GetBlockMessage", 10, vh::cat(p, u), v, GetBlockMessage(h), hb, [](const GetBlockMessage& m) { return m.GetHash().ToHex(); });
			msg("GetCompactBlockMessage", 12, vh::cat(p, u), v, GetCompactBlockMessage(h), hb, [](const GetCompactBlockMessage& m) { return m.GetHash().ToHex(); });
			msg("GetTransactionMessage", 19, vh::cat(p, u), v, GetTransactionMessage(h), hb, [](const GetTransactionMessage& m) { return m.GetKernelHash().ToHex(); });
			msg("TransactionKernelMessage", 20, vh::cat(p, u), v, TransactionKernelMessage(h), hb, [](const TransactionKernelMessage& m) { return m.GetKernelHash().ToHex(); });
			for (int ht : { 0, 9, 63, 255 }) { if (!full && ht != 9) continue; SegmentIdentifier id((uint8_t)ht, u); auto si = [](const SegmentIdentifier& s) { return vh::cat((int)s.GetHeight(), ",", s.GetIndex()); };
				msg("GetOutputBitmapSegmentMessage", 21, vh::cat(p, u, "/", ht), v, GetOutputBitmapSegmentMessage(h, id), hb + be(ht, 1) + be(u, 8), [si](const GetOutputBitmapSegmentMessage& m) { return m.GetBlockHash().ToHex() + si(m.GetIdentifier()); });
				msg("GetOutputSegmentMessage", 23, vh::cat(p, u, "/", ht), v, GetOutputSegmentMessage(h, id), hb + be(ht, 1) + be(u, 8), [si](const GetOutputSegmentMessage& m) { return m.GetBlockHash().ToHex() + si(m.GetIdentifier()); });
				msg("GetRangeProofSegmentMessage", 25, vh::cat(p, u, "/", ht), v, GetRangeProofSegmentMessage(h, id), hb + be(ht, 1) + be(u, 8), [si](const GetRangeProofSegmentMessage& m) { return m.GetBlockHash().ToHex() + si(m.GetIdentifier()); });
				msg("GetKernelSegmentMessage", 27, vh::cat(p, u, "/", ht), v, GetKernelSegmentMessage(h, id), hb + be(ht, 1) + be(u, 8), [si](const GetKernelSegmentMessage& m) { return m.GetBlockHash().ToHex() + si(m.GetIdentifier()); }); }
		}
		for (int n : { 0, 1, 2, 20 }) { if (!full && n != 2) continue; std::vector<Hash> l; B e = be(n, 1); for (int i = 0; i < n; i++) { l.push_back(hsh(vh::cat(i))); e += fill(vh::cat(i), 32); } msg("GetHeadersMessage", 7, vh::cat(p, n), v, GetHeadersMessage(std::move(l)), e, [](const GetHeadersMessage& m) { std::string r; for (auto& h : m.GetHashes()) r += h.ToHex(); return r; }); }
		auto as = addrs();
		for (int n : { 0, 1, 2, 6, 256 }) { if (!full && n != 6) continue; std::vector<SocketAddress> l; B e = be(n, 4); for (int i = 0; i < n; i++) { l.push_back(as[i % 6].obj()); e += as[i % 6].enc(); } msg("PeerAddressesMessage", 6, vh::cat(p, n), v, PeerAddressesMessage(std::move(l)), e, [](const PeerAddressesMessage& m) { std::string r; for (auto& a : m.GetPeerAddresses()) r += sg(a) + ";"; return r; }); }
		for (size_t i = 0; i < as.size(); i++) for (size_t j = 0; j < as.size(); j++) for (std::string ua : { std::string(), std::string("MW/Grin++ 1.0"), std::string("\0\xff\n", 3), std::string(200, 'x') }) {
			if (!full && !(ua.size() == 13 && i == 0 && j == 4)) continue; std::string nm = vh::cat(p, i, j, "/", ua.size()); uint32_t ver = 1000 + i; uint32_t caps = 0x01020304u * (j + 1); uint64_t no = 0x1112131415161718ull, td = 0x2122232425262728ull; Hash h = hsh("g"); B hb = fill("g", 32);
			msg("HandMessage", 1, nm, v, HandMessage(ver, Capabilities(caps), no, Hash(h), td, as[i].obj(), as[j].obj(), ua), be(ver, 4) + be(caps, 4) + be(no, 8) + be(td, 8) + as[i].enc() + as[j].enc() + be(ua.size(), 8) + ua + hb, [](const HandMessage& m) { return vh::cat(m.GetVersion(), ",", (uint32_t)m.GetCapabilities().GetCapability(), ",", m.GetNonce(), ",", m.GetTotalDifficulty(), ",", sg(m.GetSenderAddress()), ",", sg(m.GetReceiverAddress()), ",", m.GetUserAgent(), ",", m.GetHash().ToHex()); });
			msg("ShakeMessage", 2, nm, v, ShakeMessage(ver, Capabilities(caps), Hash(h), td, ua), be(ver, 4) + be(caps, 4) + be(td, 8) + be(ua.size(), 8) + ua + hb, [](const ShakeMessage& m) { return vh::cat(m.GetVersion(), ",", (uint32_t)m.GetCapabilities().GetCapability(), ",", m.GetTotalDifficulty(), ",", m.GetUserAgent(), ",", m.GetHash().ToHex()); });
		}
		for (std::string t : { std::string(), std::string("bad block"), std::string("\0\xff", 2) }) { if (!full && t.size() != 9) continue; Sample s; auto sig = [](const ErrorMessage& m) { return vh::cat(m.GetErrorCode(), m.GetErrorMessage()); }; msg("ErrorMessage", 0, vh::cat(p, t.size()), v, ErrorMessage(0x01020304, *new std::string(t)), be(0x01020304, 4) + be(t.size(), 8) + t, sig); }
		// segments
		for (int nh : { 0, 1, 2 }) for (int nl : { 0, 1, 2 }) for (int np : { 0, 1, 2 }) {
			if (!full && !(nh == 2 && nl == 1 && np == 1)) continue; std::string nm = vh::cat(p, nh, nl, np); B hd = fill("b", 32), e = be(9, 1) + be(77, 8) + be(nh, 8); Hash bh = big<32>(hd); std::vector<uint64_t> hp, lp; std::vector<Hash> hh, ph;
			for (int i = 0; i < nh; i++) { hp.push_back(u64s()[i + 8]); e += be(hp[i], 8); } for (int i = 0; i < nh; i++) { hh.push_back(hsh(vh::cat("x", i))); e += fill(vh::cat("x", i), 32); } e += be(nl, 8); for (int i = 0; i < nl; i++) { lp.push_back(i + 3); e += be(i + 3, 8); }
			B pe = be(np, 8); for (int i = 0; i < np; i++) { ph.push_back(hsh(vh::cat("y", i))); pe += fill(vh::cat("y", i), 32); }
			std::vector<TransactionKernel> kl; std::vector<RangeProof> rl; std::vector<OutputIdentifier> ol; B ke, re, oe; for (int i = 0; i < nl; i++) { kl.push_back(mk(i).obj()); ke += mk(i).enc(v); B pr = fill("pr", 675); rl.push_back(RangeProof(vec(pr))); re += be(675, 8) + pr; ol.push_back(OutputIdentifier((EOutputFeatures)(i & 1), Commitment(big<33>(com("c"))))); oe += be(i & 1, 1) + com("c"); }
			auto ss = [](const auto& s) { std::string r = vh::cat((int)s.GetHeight(), ",", s.GetIndex()); for (auto x : s.GetHashPositions()) r += vh::cat(",", x); for (auto& x : s.GetHashes()) r += x.ToHex(); for (auto x : s.GetLeafPositions()) r += vh::cat(",", x); for (auto& x : s.GetProof().GetHashes()) r += "/" + x.ToHex(); return r; };
			msg("KernelSegmentMessage", 28, nm, v, KernelSegmentMessage(bh, Segment<PIBD_KERNEL_DATA_SIZE, TransactionKernel>(SegmentIdentifier(9, 77), hp, hh, lp, kl, SegmentProof(ph))), hd + e + ke + pe, [ss](const KernelSegmentMessage& m) { std::string r = m.GetBlockHash().ToHex() + ss(m.GetSegment()); for (auto& x : m.GetSegment().GetLeaves()) r += sg(x); return r; });
			msg("RangeProofSegmentMessage", 26, nm, v, RangeProofSegmentMessage(bh, Segment<PIBD_RANGE_PROOF_DATA_SIZE, RangeProof>(SegmentIdentifier(9, 77), hp, hh, lp, rl, SegmentProof(ph))), hd + e + re + pe, [ss](const RangeProofSegmentMessage& m) { std::string r = m.GetBlockHash().ToHex() + ss(m.GetSegment()); for (auto& x : m.GetSegment().GetLeaves()) r += x.ToHex(); return r; });
			msg("OutputSegmentMessage", 24, nm, v, OutputSegmentMessage(bh, Segment<PIBD_OUTPUT_DATA_SIZE, OutputIdentifier>(SegmentIdentifier(9, 77), hp, hh, lp, ol, SegmentProof(ph)), hsh("r")), hd + e + oe + pe + fill("r", 32), [ss](const OutputSegmentMessage& m) { std::string r = m.GetBlockHash().ToHex() + ss(m.GetSegment()) + m.GetOutputBitmapRoot().ToHex(); for (auto& x : m.GetSegment().GetLeaves()) r += vh::cat((int)x.GetFeatures(), x.GetCommitment().ToHex()); return r; });
			std::vector<BitmapSegmentBlock> bl; B ble; for (int i = 0; i < nl; i++) { int mode = (nh + i) % 3; if (mode == 0) { B raw = fill("raw", 128 * (i + 1)); bl.push_back(BitmapSegmentBlock((uint8_t)(i + 1), BitmapSegmentBlock::ESerializationMode::Raw, {}, vec(raw))); ble += be(i + 1, 1) + be(0, 1) + raw; } else { bl.push_back(BitmapSegmentBlock(64, (BitmapSegmentBlock::ESerializationMode)mode, { 1, 0x0203, 65535 }, {})); ble += be(64, 1) + be(mode, 1) + be(3, 2) + be(1, 2) + be(0x203, 2) + be(65535, 2); } }
			msg("OutputBitmapSegmentMessage", 22, nm, v, OutputBitmapSegmentMessage(bh, BitmapSegment(SegmentIdentifier(9, 77), bl, SegmentProof(ph)), hsh("r")), hd + be(9, 1) + be(77, 8) + be(nl, 2) + ble + pe + fill("r", 32), [](const OutputBitmapSegmentMessage& m) { std::string r = m.GetBlockHash().ToHex() + vh::cat((int)m.GetSegment().GetIdentifier().GetHeight(), ",", m.GetSegment().GetIdentifier().GetIndex()) + m.GetOutputRoot().ToHex(); for (auto& b : m.GetSegment().GetBlocks()) { r += vh::cat("/", (int)b.GetChunkCount(), ",", (int)b.GetMode()); for (auto x : b.GetPositions()) r += vh::cat(",", x); r += vh::hexv(b.GetBitmapBytes()); } for (auto& x : m.GetSegment().GetProof().GetHashes()) r += "/" + x.ToHex(); return r; });
		}
	}
	// stored records (not versioned)
	EV v = EV::V1;
	for (int i = 0; i < (full ? 8 : 1); i++) { B a = com(vh::cat("a", i)), b = com(vh::cat("b", i)); add("BlockSums", vh::cat(i), v, BlockSums(Commitment(big<33>(a)), Commitment(big<33>(b))), a + b, [](const BlockSums& s) { return s.GetOutputSum().ToHex() + s.GetKernelSum().ToHex(); }); }
	for (uint64_t leaf : { 0ull, 1ull, 2ull, 3ull, 5ull, 6ull, 1000ull, 0xffffffull, 0x100000000ull, 0x1ffffffffffffull }) for (uint64_t h : un) {
		if (!full && !(leaf == 5 && h == 0x100)) continue; uint64_t pos = 2 * leaf - __builtin_popcountll(leaf); OutputLocation l(LeafIndex::At(leaf), h);
		add("OutputLocation", vh::cat(leaf, "/", h), v, l, be(pos, 8) + be(h, 8), [](const OutputLocation& x) { return vh::cat(x.GetPosition(), ",", x.GetLeafIndex().Get(), ",", x.GetBlockHeight()); });
	}
	for (int n : { 0, 1, 3, 300 }) { if (!full && n != 3) continue; std::vector<SpentOutput> l; B e = be(0, 1) + be(n, 2); for (int i = 0; i < n; i++) { B c = com(vh::cat("z", i)); l.push_back(SpentOutput(Commitment(big<33>(c)), OutputLocation(LeafIndex::At(i), i * 1000))); e += c + be(2 * i - __builtin_popcount(i), 8) + be(i * 1000, 8); } add("SpentOutputs", vh::cat(n), v, SpentOutputs(l), e, [](const SpentOutputs& s) { std::string r; for (auto& x : s.GetSpentOutputs()) r += x.GetCommitment().ToHex() + vh::cat(",", x.GetLocation().GetPosition(), ",", x.GetLocation().GetBlockHeight()); return r; }); }
}
}
