// Builds valid (or deliberately broken) blocks over any tree, and opens real nodes on scratch directories.
#pragma once
#include "vh.h"
#include "ref.h"
#include <Core/Global.h>
#include <Core/Config.h>
#include <Core/Context.h>
#include <Core/Models/FullBlock.h>
#include <Core/Models/BlockHeader.h>
#include <Core/Models/Transaction.h>
#include <Core/Models/BlockSums.h>
#include <Core/Models/OutputLocation.h>
#include <Core/Models/DTOs/OutputRange.h>
#include <Core/Exceptions/BadDataException.h>
#include <Core/Serialization/ByteBuffer.h>
#include <BlockChain/BlockChain.h>
#include <BlockChain/Chain.h>
#include <Database/Database.h>
#include <Database/BlockDb.h>
#include <PMMR/TxHashSetManager.h>
#include <PMMR/TxHashSet.h>
#include <PMMR/HeaderMMR.h>
#include <TxPool/TransactionPool.h>
#include <Crypto/Crypto.h>
#include <Crypto/Hasher.h>
#include <Crypto/Models/ProofMessage.h>
#include <Consensus.h>

extern "C" void secp_model_alias_commitment(const unsigned char* e33, const unsigned char* log32);
extern "C" void secp_model_given(const unsigned char* d, size_t n, const unsigned char* log32);
extern "C" void secp_model_commit_log(unsigned char* o, const unsigned char* b, uint64_t v);
extern "C" int secp_model_log_of(const unsigned char* e, unsigned char* o);
extern "C" void secp_model_add(unsigned char* o, const unsigned char* a, const unsigned char* b, int nb);

namespace ch {
using ref::B;

// ---------- environment ----------
inline std::shared_ptr<Context>& ctx() { static std::shared_ptr<Context> c; return c; }
// make the genesis block balance under the crypto model: commitment(genesis output) := excess + reward*H
inline void fixGenesis()
{
	const FullBlock& g = Global::GetGenesisBlock();
	unsigned char zero[32] = {0}, rH[32], ex[32], sum[32];
	secp_model_commit_log(rH, zero, Consensus::REWARD);
	{ B k = ref::b2b("genesis kernel"); memcpy(ex, k.data(), 32); ex[0] &= 0x3f; }
	secp_model_alias_commitment(g.GetKernels().front().GetCommitment().data(), ex);
	secp_model_add(sum, rH, ex, 0);
	secp_model_alias_commitment(g.GetOutputs().front().GetCommitment().data(), sum);
	auto sig = g.GetKernels().front().GetExcessSignature().GetSignatureBytes(); secp_model_given(sig.data(), 64, ex);
	auto pr = g.GetOutputs().front().GetRangeProof().GetProofBytes(); secp_model_given(pr.data(), pr.size(), sum);
}
// (re)point the process at a data directory
inline const Config& useDir(const std::string& dir)
{
	setenv("HOME", dir.c_str(), 1);
	static auto& sched = *new std::shared_ptr<Bosma::Scheduler>(std::make_shared<Bosma::Scheduler>(1)); // never destroyed: a forked child does not have its threads
	ctx() = std::make_shared<Context>(Environment::AUTOMATED_TESTING, Config::Default(Environment::AUTOMATED_TESTING), sched);
	Global::Init(ctx());
	static bool once = false;
	if (!once) { once = true; fixGenesis(); }
	return ctx()->GetConfig();
}

// ---------- transactions ----------
inline BlindingFactor blind(const std::string& seed) { B h = ref::b2b("blind:" + seed); h[0] &= 0x7f; h[31] |= 1; return BlindingFactor(CBigInteger<32>((const unsigned char*)h.data())); }
struct Out { uint64_t v = 0; BlindingFactor b = BlindingFactor(CBigInteger<32>()); EOutputFeatures f = EOutputFeatures::DEFAULT; std::shared_ptr<TransactionOutput> o; const Commitment& c() const { return o->GetCommitment(); } };
inline Out mkOut(const std::string& seed, uint64_t v, EOutputFeatures f = EOutputFeatures::DEFAULT)
{
	Out r; r.v = v; r.f = f; r.b = blind(seed);
	Commitment c = Crypto::CommitBlinded(v, r.b);
	SecretKey k(BlindingFactor(r.b).ToSecretKey()), n(blind("n" + seed).ToSecretKey());
	RangeProof p = Crypto::GenerateRangeProof(v, k, n, n, ProofMessage());
	r.o = std::make_shared<TransactionOutput>(f, std::move(c), std::move(p));
	return r;
}
inline TransactionKernel mkKernel(EKernelFeatures f, const Fee& fee, uint64_t lock, const BlindingFactor& excess, bool transparentMinus = false, uint64_t reward = 0)
{
	Commitment c = Crypto::CommitBlinded(0, excess);
	auto sig = Crypto::BuildCoinbaseSignature(BlindingFactor(excess).ToSecretKey(), c, TransactionKernel::GetSignatureMessage(f, fee, lock));
	return TransactionKernel(f, fee, lock, std::move(c), Signature(*sig));
}
struct TxSpec { std::vector<Out> in, out; Fee fee; EKernelFeatures kf = EKernelFeatures::DEFAULT_KERNEL; uint64_t lock = 0; std::string offset; };
inline BlindingFactor zeroBlind() { return BlindingFactor(CBigInteger<32>()); }
inline TransactionInput toInput(const Out& o) { return TransactionInput(o.f, Commitment(o.c())); }
inline TransactionPtr mkTx(const TxSpec& s)
{
	BlindingFactor off = s.offset.empty() ? zeroBlind() : blind("off" + s.offset);
	std::vector<BlindingFactor> pos, neg;
	for (auto& o : s.out) pos.push_back(o.b);
	for (auto& i : s.in) neg.push_back(i.b);
	if (!s.offset.empty()) neg.push_back(off);
	BlindingFactor ex = Crypto::AddBlindingFactors(pos, neg);
	std::vector<TransactionInput> in; std::vector<TransactionOutput> out;
	for (auto& i : s.in) in.push_back(toInput(i));
	for (auto& o : s.out) out.push_back(*o.o);
	return std::make_shared<Transaction>(std::move(off), TransactionBody(std::move(in), std::move(out), { mkKernel(s.kf, s.fee, s.lock, ex) }));
}

// ---------- blocks ----------
struct Utxo { uint64_t leaf, height; EOutputFeatures f; };
struct Blk;
typedef std::shared_ptr<Blk> BlkP;
struct Blk {
	std::string name;
	BlkP parent;
	std::shared_ptr<FullBlock> full;
	ref::Mmr outs, proofs, kernels, headers; // state after this block; headers: 0..this
	std::map<B, Utxo> utxo;                  // by commitment bytes
	Out coinbase;
	uint64_t height() const { return full->GetHeight(); }
	const Hash& hash() const { return full->GetHash(); }
	uint64_t diff() const { return full->GetTotalDifficulty(); }
	BlockHeaderPtr header() const { return full->GetHeader(); }
};
inline B leafOut(const TransactionOutput& o) { return B(1, (char)o.GetFeatures()) + ref::bytes(o.GetCommitment()); }
inline B leafProof(const RangeProof& p) { return ref::be(p.GetProofBytes().size(), 8) + ref::bytes(p.GetProofBytes()); }
inline B leafKernel(const TransactionKernel& k)
{
	B s(1, (char)k.GetFeatures());
	uint64_t fee = k.GetFee();
	s += ref::be(0, 2) + ref::be(k.GetFeeShift(), 1) + ref::be(fee >> 32, 1) + ref::be(fee & 0xffffffff, 4) + ref::be(k.GetLockHeight(), 8);
	return s + ref::bytes(k.GetExcessCommitment()) + ref::bytes(k.GetExcessSignature().GetSignatureBytes());
}
inline B leafHeader(const BlockHeader& h)
{
	const auto& pn = h.GetProofNonces(); int eb = h.GetEdgeBits();
	B bits((eb * pn.size() + 7) / 8, 0);
	for (size_t n = 0; n < pn.size(); n++) for (int b = 0; b < eb; b++) if (pn[n] >> b & 1) bits[(n * eb + b) / 8] |= (char)(1 << ((n * eb + b) % 8));
	return bits;
}
inline Hash toHash(const B& b) { return Hash((const unsigned char*)b.data()); }
inline void applyRef(Blk& x)
{
	for (auto& i : x.full->GetInputs()) x.utxo.erase(ref::bytes(i.GetCommitment()));
	for (auto& o : x.full->GetOutputs()) {
		x.utxo[ref::bytes(o.GetCommitment())] = { x.outs.leaves, x.full->GetHeight(), o.GetFeatures() };
		x.outs.append(leafOut(o)); x.proofs.append(leafProof(o.GetRangeProof()));
	}
	for (auto& k : x.full->GetKernels()) x.kernels.append(leafKernel(k));
	x.headers.append(leafHeader(*x.full->GetHeader()));
}
inline BlkP genesis()
{
	auto g = std::make_shared<Blk>(); g->name = "G"; g->full = std::make_shared<FullBlock>(Global::GetGenesisBlock()); applyRef(*g); return g;
}
// header fields a test may override before the block is put together
struct Hdr {
	uint16_t version; uint64_t height; int64_t ts; Hash prev, prevRoot, outRoot, proofRoot, kernRoot; BlindingFactor offset = zeroBlind();
	uint64_t outSize, kernSize, diff; uint32_t scaling; uint64_t nonce; uint8_t edgeBits; std::vector<uint64_t> pn;
	BlockHeaderPtr make() const
	{
		return std::make_shared<BlockHeader>(version, height, ts, Hash(prev), Hash(prevRoot), Hash(outRoot), Hash(proofRoot), Hash(kernRoot), BlindingFactor(offset), outSize, kernSize, diff, scaling, nonce, ProofOfWork(edgeBits, std::vector<uint64_t>(pn)));
	}
};
struct BlkOpt {
	uint64_t addDiff = 1;
	int64_t rewardDelta = 0;                              // coinbase amount off by this
	bool noCoinbase = false;
	std::function<void(Hdr&)> hdr;                        // last change of the header
	std::function<void(std::vector<TransactionInput>&, std::vector<TransactionOutput>&, std::vector<TransactionKernel>&)> body; // before sorting and before roots
	std::function<void(std::vector<TransactionInput>&, std::vector<TransactionOutput>&, std::vector<TransactionKernel>&)> bodyAfterSort; // after roots were computed? no: before roots, order kept
};
inline std::vector<uint64_t> nonces(const std::string& seed, int edgeBits)
{
	std::vector<uint64_t> v; B h = ref::b2b("pow:" + seed);
	uint64_t x = 0; memcpy(&x, h.data(), 8);
	uint64_t step = (1ull << edgeBits) / 64, cur = x % step;
	for (int i = 0; i < (int)Consensus::PROOFSIZE; i++) { v.push_back(cur & ((1ull << edgeBits) - 1)); cur += 1 + ((unsigned char)h[i % 32] * 977ull + i) % step; }
	return v;
}
inline BlkP mine(const BlkP& parent, const std::string& name, const std::vector<TransactionPtr>& txs = {}, const BlkOpt& opt = {})
{
	auto b = std::make_shared<Blk>();
	b->name = name; b->parent = parent;
	b->outs = parent->outs; b->proofs = parent->proofs; b->kernels = parent->kernels; b->headers = parent->headers; b->utxo = parent->utxo;
	std::vector<TransactionInput> in; std::vector<TransactionOutput> out; std::vector<TransactionKernel> ker;
	uint64_t fees = 0; std::vector<BlindingFactor> offs; offs.push_back(parent->full->GetHeader()->GetOffset());
	for (auto& t : txs) {
		in.insert(in.end(), t->GetInputs().begin(), t->GetInputs().end());
		out.insert(out.end(), t->GetOutputs().begin(), t->GetOutputs().end());
		ker.insert(ker.end(), t->GetKernels().begin(), t->GetKernels().end());
		for (auto& k : t->GetKernels()) fees += k.GetFee();
		offs.push_back(t->GetOffset());
	}
	// cut-through
	for (size_t i = 0; i < in.size();) {
		size_t j = 0; for (; j < out.size(); j++) if (out[j].GetCommitment() == in[i].GetCommitment()) break;
		if (j < out.size()) { out.erase(out.begin() + j); in.erase(in.begin() + i); } else i++;
	}
	if (!opt.noCoinbase) {
		b->coinbase = mkOut("cb" + name, Consensus::REWARD + fees + opt.rewardDelta, EOutputFeatures::COINBASE_OUTPUT);
		out.push_back(*b->coinbase.o);
		ker.push_back(mkKernel(EKernelFeatures::COINBASE_KERNEL, Fee(), 0, b->coinbase.b));
	}
	if (opt.body) opt.body(in, out, ker);
	// canonical order (by hash)
	auto byHash = [](const auto& x, const auto& y) { return ref::bytes(x.GetHash()) < ref::bytes(y.GetHash()); };
	std::sort(in.begin(), in.end(), byHash); std::sort(out.begin(), out.end(), byHash); std::sort(ker.begin(), ker.end(), byHash);
	if (opt.bodyAfterSort) opt.bodyAfterSort(in, out, ker);
	for (auto& i : in) b->utxo.erase(ref::bytes(i.GetCommitment()));
	auto ph = parent->full->GetHeader();
	Hdr h;
	h.version = (uint16_t)1; h.height = ph->GetHeight() + 1; h.ts = ph->GetTimestamp() + 60; h.prev = ph->GetHash();
	h.prevRoot = toHash(parent->headers.root());
	for (auto& o : out) {
		b->utxo[ref::bytes(o.GetCommitment())] = { b->outs.leaves, h.height, o.GetFeatures() };
		b->outs.append(leafOut(o)); b->proofs.append(leafProof(o.GetRangeProof()));
	}
	for (auto& k : ker) b->kernels.append(leafKernel(k));
	h.outRoot = toHash(b->outs.root()); h.proofRoot = toHash(b->proofs.root()); h.kernRoot = toHash(b->kernels.root());
	h.offset = Crypto::AddBlindingFactors(offs, {});
	h.outSize = b->outs.size(); h.kernSize = b->kernels.size();
	h.diff = ph->GetTotalDifficulty() + opt.addDiff; h.scaling = 10; h.nonce = 7; h.edgeBits = 29; h.pn = nonces(name, 29);
	if (opt.hdr) opt.hdr(h);
	b->full = std::make_shared<FullBlock>(h.make(), TransactionBody::NoSort(in, out, ker));
	b->headers.append(leafHeader(*b->full->GetHeader()));
	return b;
}
// a copy as it would arrive from the network (no validation marks carried over)
inline FullBlock wire(const FullBlock& b) { Serializer s(EProtocolVersion::V2); b.Serialize(s); ByteBuffer bb(s.GetBytes(), EProtocolVersion::V2); return FullBlock::Deserialize(bb); }

// ---------- node ----------
struct Node {
	std::string dir;
	IDatabasePtr db;
	std::shared_ptr<Locked<TxHashSetManager>> mgr;
	ITransactionPool::Ptr pool;
	std::shared_ptr<Locked<IHeaderMMR>> hmmr;
	IBlockChain::Ptr chain;
	explicit Node(const std::string& d) : dir(d) { open(); }
	~Node() { close(); }
	void open()
	{
		const Config& c = useDir(dir);
		db = DatabaseAPI::OpenDatabase(c);
		mgr = std::make_shared<Locked<TxHashSetManager>>(std::make_shared<TxHashSetManager>(c));
		pool = TxPoolAPI::CreateTransactionPool(c);
		hmmr = HeaderMMRAPI::OpenHeaderMMR(c);
		chain = BlockChainAPI::OpenBlockChain(c, db->GetBlockDB(), mgr, pool, hmmr);
	}
	void close() { chain.reset(); hmmr.reset(); pool.reset(); mgr.reset(); db.reset(); Global::SetCoinView(nullptr); }
	void restart() { close(); open(); }
};
enum Res { OK = 0, EXISTS, ORPHAN, INVALID, BAN, EXC, OTHER };
inline const char* resName(int r) { static const char* n[] = {"ok", "exists", "orphan", "invalid", "ban", "exc", "other"}; return n[r]; }
inline Res fromStatus(EBlockChainStatus s)
{
	switch (s) { case EBlockChainStatus::SUCCESS: return OK; case EBlockChainStatus::ALREADY_EXISTS: return EXISTS; case EBlockChainStatus::ORPHANED: return ORPHAN; case EBlockChainStatus::INVALID: return INVALID; default: return OTHER; }
}
inline Res addBlock(Node& n, const FullBlock& b) { try { return fromStatus(n.chain->AddBlock(wire(b))); } catch (BadDataException&) { return BAN; } catch (std::exception&) { return EXC; } }
inline Res addHeader(Node& n, const BlockHeaderPtr& h) { try { return fromStatus(n.chain->AddBlockHeader(h)); } catch (BadDataException&) { return BAN; } catch (std::exception&) { return EXC; } }
inline Res addHeaders(Node& n, const std::vector<BlockHeaderPtr>& h) { try { return fromStatus(n.chain->AddBlockHeaders(h)); } catch (BadDataException&) { return BAN; } catch (std::exception&) { return EXC; } }
inline void orphans(Node& n) { for (int i = 0; i < 64; i++) { bool r = false; try { r = n.chain->ProcessNextOrphanBlock(); } catch (std::exception&) {} if (!r) break; } }

inline void copyTree(const std::string& a, const std::string& b)
{
	mkdir(b.c_str(), 0777);
	DIR* d = opendir(a.c_str()); if (!d) return;
	while (dirent* e = readdir(d)) {
		std::string n = e->d_name; if (n == "." || n == "..") continue;
		std::string x = a + "/" + n, y = b + "/" + n; struct stat st; if (lstat(x.c_str(), &st) != 0) continue;
		if (S_ISDIR(st.st_mode)) copyTree(x, y);
		else if (S_ISREG(st.st_mode)) {
			int i = open(x.c_str(), O_RDONLY), o = open(y.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
			char buf[65536]; ssize_t k; while ((k = read(i, buf, sizeof(buf))) > 0) { ssize_t w = write(o, buf, k); (void)w; }
			::close(i); ::close(o);
		}
	}
	closedir(d);
}

// ---------- observation ----------
struct Tip { B hash; uint64_t height = 0, diff = 0; };
inline Tip tipOf(Node& n, EChainType t = EChainType::CONFIRMED)
{
	Tip x; auto h = n.chain->GetTipBlockHeader(t); if (h) { x.hash = ref::bytes(h->GetHash()); x.height = h->GetHeight(); x.diff = h->GetTotalDifficulty(); }
	return x;
}
// compares the complete observable state of the node with what the reference says about block b (its confirmed tip).
// all: every commitment that was ever created in the tree (to ask about spent ones).
inline std::string diffState(Node& n, const Blk& b, const std::vector<const Blk*>& chainUp, const std::set<B>& all, const std::vector<const Blk*>* whole = nullptr)
{
	auto tip = n.chain->GetTipBlockHeader(EChainType::CONFIRMED);
	if (!tip) return "no confirmed tip";
	if (tip->GetHash() != b.hash()) return "confirmed tip differs";
	if (n.chain->GetHeight(EChainType::CONFIRMED) != b.height()) return "height differs";
	// linked chain, by height
	for (auto* x : chainUp) {
		auto h = n.chain->GetBlockHeaderByHeight(x->height(), EChainType::CONFIRMED);
		if (!h || h->GetHash() != x->hash()) return vh::cat("confirmed chain differs at height ", x->height());
		if (x->height() > 0) {
			auto fb = n.chain->GetBlockByHeight(x->height());
			if (!fb || fb->GetHash() != x->hash()) return vh::cat("block body missing at height ", x->height());
			Serializer s1, s2; fb->Serialize(s1); x->full->Serialize(s2); if (s1.GetBytes() != s2.GetBytes()) return vh::cat("stored block differs at height ", x->height());
			if (!n.chain->HasBlock(x->height(), x->hash())) return "HasBlock false for a confirmed block";
		}
		auto hh = n.chain->GetBlockHeaderByHash(x->hash());
		if (!hh) return "header of a confirmed block not found by hash";
	}
	if (n.chain->GetBlockHeaderByHeight(b.height() + 1, EChainType::CONFIRMED)) return "confirmed chain is longer than its tip";
	// output set
	auto mr = n.mgr->Read();
	auto ths = mr->GetTxHashSet();
	if (!ths) return "no output set";
	if (ths->GetFlushedBlockHeader()->GetHash() != b.hash()) return "output set stands at another block";
	auto dbr = n.db->GetBlockDB()->Read();
	std::map<B, uint64_t> got;
	auto range = ths->GetOutputsByLeafIndex(dbr.GetShared(), 0, 100000);
	for (auto& o : range.GetOutputs()) {
		B c = ref::bytes(o.GetIdentifier().GetCommitment());
		if (got.count(c)) return "commitment twice in the unspent set";
		got[c] = o.GetLeafIndex().Get();
		auto it = b.utxo.find(c);
		if (it == b.utxo.end()) return "an output that is spent or unknown is reported unspent " + vh::hexv(c);
		if (it->second.leaf != o.GetLeafIndex().Get()) return vh::cat("unspent output at leaf ", o.GetLeafIndex().Get(), " but belongs at ", it->second.leaf);
		if (it->second.height != o.GetLocation().GetBlockHeight()) return "wrong height of an unspent output";
		if (it->second.f != o.GetIdentifier().GetFeatures()) return "wrong features of an unspent output";
		if (ref::Mmr::leafHash(ref::mmrSize(it->second.leaf), leafProof(o.GetRangeProof())) != b.proofs.h[ref::mmrSize(it->second.leaf)]) return "wrong range proof of an unspent output";
	}
	for (auto& u : b.utxo) if (!got.count(u.first)) return "an unspent output is missing " + vh::hexv(u.first);
	for (auto& c : all) {
		std::vector<unsigned char> v(c.begin(), c.end());
		Commitment cm{CBigInteger<33>(v)};
		auto p = dbr->GetOutputPosition(cm);
		auto it = b.utxo.find(c);
		if (it == b.utxo.end()) { if (p != nullptr) return "a spent or unknown output still has a position"; }
		else if (p == nullptr) return "an unspent output has no position";
		else if (p->GetLeafIndex().Get() != it->second.leaf || p->GetBlockHeight() != it->second.height) return "an unspent output has a wrong position";
	}
	// roots: the last hashes plus the root the set computes for its own size
	if (!ths->ValidateRoots(*b.header())) return "roots of the output set do not match the tip header";
	{
		auto k = ths->GetLastKernelHashes(100000); auto o = ths->GetLastOutputHashes(100000); auto p = ths->GetLastRangeProofHashes(100000);
		auto leavesOf = [](const ref::Mmr& m) { std::vector<B> v; for (size_t i = 0; i < m.h.size(); i++) if (m.ht[i] == 0) v.push_back(m.h[i]); return v; };
		auto toV = [](const std::vector<Hash>& h) { std::vector<B> v; for (auto& x : h) v.push_back(ref::bytes(x)); return v; };
		auto cmp = [&](std::vector<B> got2, std::vector<B> exp) { if (got2 == exp) return true; std::reverse(exp.begin(), exp.end()); return got2 == exp; };
		if (!cmp(toV(k), leavesOf(b.kernels))) return vh::cat("kernel leaves differ: ", k.size(), " vs ", b.kernels.leaves);
		(void)o; (void)p;
	}
	auto sums = dbr->GetBlockSums(b.hash());
	if (!sums) return "no block sums at the tip";
	// sums: output sum and kernel sum over the chain, in the exponent model
	{
		unsigned char os[32] = {0}, ks[32] = {0}, t[32], g[32];
		for (auto& u : b.utxo) { if (!secp_model_log_of((const unsigned char*)u.first.data(), t)) return "bad commitment"; secp_model_add(os, os, t, 0); }
		for (auto* x : (whole ? *whole : chainUp)) for (auto& kk : x->full->GetKernels()) { secp_model_log_of(kk.GetCommitment().data(), t); secp_model_add(ks, ks, t, 0); }
		unsigned char zero[32] = {0};
		for (uint64_t i = 0; i <= b.height(); i++) { secp_model_commit_log(t, zero, Consensus::REWARD); secp_model_add(os, os, t, 1); }
		secp_model_log_of(sums->GetOutputSum().data(), g); if (memcmp(g, os, 32) != 0) return "output sum at the tip is wrong";
		secp_model_log_of(sums->GetKernelSum().data(), g); if (memcmp(g, ks, 32) != 0) return "kernel sum at the tip is wrong";
	}
	return "";
}
inline std::vector<const Blk*> chainOf(const Blk& b) { std::vector<const Blk*> v; for (const Blk* p = &b; p; p = p->parent.get()) v.push_back(p); std::reverse(v.begin(), v.end()); return v; }
inline std::string diffHeaderState(Node& n, const std::map<B, BlkP>& byHash)
{
	// the candidate chain is linked, and its header MMR root is the plain one
	auto t = n.chain->GetTipBlockHeader(EChainType::CANDIDATE);
	if (!t) return "no candidate tip";
	auto it = byHash.find(ref::bytes(t->GetHash()));
	if (it == byHash.end()) return "";
	for (const Blk* p = it->second.get(); p; p = p->parent.get()) {
		auto h = n.chain->GetBlockHeaderByHeight(p->height(), EChainType::CANDIDATE);
		if (!h || h->GetHash() != p->hash()) return vh::cat("candidate chain is not linked at height ", p->height());
	}
	if (n.chain->GetBlockHeaderByHeight(t->GetHeight() + 1, EChainType::CANDIDATE)) return "candidate chain longer than its tip";
	B r = ref::bytes(n.hmmr->Read()->Root(t->GetHeight()));
	if (r != it->second->headers.root()) return "header MMR root does not match the candidate chain";
	return "";
}
}
