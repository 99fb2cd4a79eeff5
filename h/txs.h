// Transactions for the pool harnesses.
#pragma once
#include "tree.h"
namespace ch {
static const uint64_t F = 100000000;
inline TransactionPtr wireTx(const TransactionPtr& t)
{
	Serializer s(EProtocolVersion::V2); t->Serialize(s); ByteBuffer b(s.GetBytes(), EProtocolVersion::V2);
	return std::make_shared<Transaction>(Transaction::Deserialize(b));
}
inline TransactionPtr build(const BlindingFactor& off, std::vector<TransactionInput> in, std::vector<TransactionOutput> out, std::vector<TransactionKernel> k)
{
	auto by = [](const auto& x, const auto& y) { return ref::bytes(x.GetHash()) < ref::bytes(y.GetHash()); };
	std::sort(in.begin(), in.end(), by); std::sort(out.begin(), out.end(), by); std::sort(k.begin(), k.end(), by);
	return std::make_shared<Transaction>(BlindingFactor(off), TransactionBody::NoSort(std::move(in), std::move(out), std::move(k)));
}
inline TransactionPtr merge(const TransactionPtr& a, const TransactionPtr& b)
{
	std::vector<TransactionInput> in = a->GetInputs(); std::vector<TransactionOutput> out = a->GetOutputs(); std::vector<TransactionKernel> k = a->GetKernels();
	in.insert(in.end(), b->GetInputs().begin(), b->GetInputs().end()); out.insert(out.end(), b->GetOutputs().begin(), b->GetOutputs().end()); k.insert(k.end(), b->GetKernels().begin(), b->GetKernels().end());
	return build(Crypto::AddBlindingFactors({ a->GetOffset(), b->GetOffset() }, {}), in, out, k);
}
inline TransactionPtr sp(const std::vector<Out>& in, const std::vector<std::pair<std::string, uint64_t>>& o, std::vector<Out>* made = nullptr, const std::string& off = "", uint64_t f = F) { return spend(in, o, made, off, f); }
inline std::set<B> insOf(const Transaction& t) { std::set<B> r; for (auto& i : t.GetInputs()) r.insert(ref::bytes(i.GetCommitment())); return r; }
inline std::set<B> outsOf(const Transaction& t) { std::set<B> r; for (auto& i : t.GetOutputs()) r.insert(ref::bytes(i.GetCommitment())); return r; }
inline std::set<B> kersOf(const Transaction& t) { std::set<B> r; for (auto& i : t.GetKernels()) r.insert(ref::bytes(i.GetHash())); return r; }
template <class S> bool meet(const S& a, const S& b) { for (auto& x : a) if (b.count(x)) return true; return false; }
inline bool clash(const Transaction& a, const Transaction& b) { return meet(insOf(a), insOf(b)) || meet(outsOf(a), outsOf(b)) || meet(kersOf(a), kersOf(b)); }
inline bool fits(const Transaction& t, const BlkP& b) { for (auto& i : insOf(t)) if (!b->utxo.count(i)) return false; for (auto& o : outsOf(t)) if (b->utxo.count(o)) return false; return true; }
}
