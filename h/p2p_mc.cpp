// C20: what a node answers to its peers.  Every sequence of messages up to a depth, over a small tree of blocks (valid,
// invalid, forked, out of order), sent over real sockets through the real connection, message processor and pipelines;
// replies, broadcasts, bans and disconnections are compared with what the protocol prescribes.
#include "p2p.h"
#include "P2P/Seed/Seeder.h"
#include <fcntl.h>
#include "txs.h"
using namespace ch; using namespace pp;
static Session ses; static std::unique_ptr<Stack>& st() { static auto& s = *new std::unique_ptr<Stack>(); return s; }
static std::vector<BlockHeaderPtr> mainHdr; // the headers of the settled chain, by height
static std::vector<BlkP> mainTail;
static std::set<std::string> knownIps;
static void grow() { while (mainHdr.size() <= ses.tip->height()) { const Blk* p = ses.tip.get(); while (p->height() > mainHdr.size()) p = p->parent.get(); mainHdr.push_back(p->header()); } }
struct World {
	BlkP T, a, b, f, x, xc, y; TransactionPtr ta, tv, ti, td; std::vector<TransactionPtr> marks; std::string px;
	// what the node must have by now
	std::set<B> stored, headers, orph; std::vector<std::string> pool; std::set<B> poolK; uint64_t tipDiff;
	std::unique_ptr<Far> A, O;
};
static bool has(const std::set<B>& s, const BlkP& b) { return s.count(ref::bytes(b->hash())) > 0; }
static Msg M(const IMessage& m, EProtocolVersion v) { return unpack(pack(m, v)); }
struct Exp { std::vector<Msg> reply, cast; bool ban = false, close = false; bool compact = false; Hash compactOf; bool any = false; };
struct Op { std::string n; std::function<void(World&, Far&)> send; std::function<Exp(World&, Far&)> exp; };
static std::vector<Op> ops;
static std::vector<BlkP> tree(World& w) { std::vector<BlkP> r; for (auto& b : { w.a, w.b, w.f, w.x, w.xc, w.y }) if (b) r.push_back(b); return r; }
static BlkP pick(World& w, const std::string& n) { return n == "T" ? w.T : n == "a" ? w.a : n == "b" ? w.b : n == "f" ? w.f : n == "x" ? w.x : n == "xc" ? w.xc : w.y; }
static bool validHdr(World& w, const BlkP& b) { return b != w.y; }
static bool validBlk(World& w, const BlkP& b) { return b != w.y && b != w.x; }
static bool parentIn(World& w, const std::set<B>& s, const BlkP& b) { return b->parent == w.T || has(s, b->parent); }
static bool onBest(World& w, const BlkP& b);
// stored blocks follow from those delivered: an orphan on the best header chain is taken as soon as its ancestors are there
static void flush(World& w) { bool ch = true; while (ch) { ch = false; for (auto& b : tree(w)) if (has(w.orph, b) && parentIn(w, w.stored, b) && onBest(w, b)) { if (!validBlk(w, b)) { w.orph.erase(ref::bytes(b->hash())); continue; } w.orph.erase(ref::bytes(b->hash())); w.stored.insert(ref::bytes(b->hash())); w.headers.insert(ref::bytes(b->hash())); if (b->diff() > w.tipDiff) w.tipDiff = b->diff(); ch = true; } } }
static Hash unknownHash(int i = 0) { return toHash(ref::b2b(vh::cat("no such block ", i))); }
static std::vector<BlockHeaderPtr> chainTo(World& w, const BlockHeaderPtr& tip)
{
	std::vector<BlockHeaderPtr> v(mainHdr.begin(), mainHdr.begin() + w.T->height() + 1);
	for (auto& b : tree(w)) if (b->hash() == tip->GetHash()) { std::vector<const Blk*> up; for (const Blk* p = b.get(); p != w.T.get(); p = p->parent.get()) up.push_back(p); std::reverse(up.begin(), up.end()); for (auto* p : up) v.push_back(p->header()); }
	return v;
}
static bool onBest(World& w, const BlkP& b) { auto ch = chainTo(w, st()->node().chain->GetTipBlockHeader(EChainType::CANDIDATE)); return b->height() < ch.size() && ch[b->height()]->GetHash() == b->hash(); }
static void mkOps()
{
	auto add = [&](const std::string& n, std::function<void(World&, Far&)> s, std::function<Exp(World&, Far&)> e) { ops.push_back({ n, s, e }); };
	auto none = [](World&, Far&) { return Exp(); };
	for (std::string n : { "a", "b", "f", "x", "xc" }) add("block " + n, [n](World& w, Far& f) { f.send(BlockMessage(FullBlock(*pick(w, n)->full))); }, [n](World& w, Far& f) {
		Exp e; auto b = pick(w, n); if (has(w.stored, b)) return e;
		if (!validBlk(w, b)) { if (parentIn(w, w.stored, b)) { e.ban = true; w.headers.insert(ref::bytes(b->hash())); } return e; }
		if (parentIn(w, w.stored, b)) {
			// stored; announced to the others
			e.cast.push_back(M(HeaderMessage(b->header()), w.O->ver)); w.orph.erase(ref::bytes(b->hash())); w.stored.insert(ref::bytes(b->hash())); w.headers.insert(ref::bytes(b->hash()));
			if (b->diff() <= w.tipDiff) e.any = true; // less work: kept, but whether that is announced is not prescribed
			else w.tipDiff = b->diff();
			return e;
		}
		if (parentIn(w, w.headers, b)) w.headers.insert(ref::bytes(b->hash()));
		if (!has(w.orph, b)) { if (b->diff() > w.tipDiff) e.reply.push_back(M(GetCompactBlockMessage(Hash(b->full->GetPreviousHash())), f.ver)); w.orph.insert(ref::bytes(b->hash())); }
		return e;
	});
	for (std::string n : { "a", "b", "f", "y" }) add("header " + n, [n](World& w, Far& f) { f.send(HeaderMessage(pick(w, n)->header())); }, [n](World& w, Far& f) {
		Exp e; auto b = pick(w, n); if (w.A->conn && st()->sync->GetStatus() != ESyncStatus::NOT_SYNCING) return e;
		if (!validHdr(w, b)) { if (parentIn(w, w.headers, b)) e.ban = true; return e; }
		bool hadBlock = false; auto c = st()->node().chain->GetBlockHeaderByHeight(b->height(), EChainType::CONFIRMED); hadBlock = c && c->GetHash() == b->hash();
		if (parentIn(w, w.headers, b)) w.headers.insert(ref::bytes(b->hash()));
		if (!hadBlock) { e.reply.push_back(M(GetCompactBlockMessage(Hash(b->hash())), f.ver)); if (has(w.stored, b)) e.any = true; }
		return e;
	});
	for (std::string l : { "ab", "f", "b", "y", "ay" }) add("headers " + l, [l](World& w, Far& f) { std::vector<BlockHeaderPtr> v; for (char c : l) v.push_back(pick(w, std::string(1, c))->header()); f.send(HeadersMessage(std::move(v))); }, [l](World& w, Far&) {
		Exp e; bool link = true; { auto b0 = pick(w, std::string(1, l[0])); if (b0->parent != w.T && !onBest(w, b0->parent)) { e.any = true; return e; } } for (char c : l) { auto b = pick(w, std::string(1, c)); if (!parentIn(w, w.headers, b)) { link = false; break; } if (!validHdr(w, b)) { if (b->height() > 0) e.ban = true; break; } w.headers.insert(ref::bytes(b->hash())); }
		if (!link) e.any = true; // headers without a known parent: refused one way or another
		return e;
	});
	struct L { std::string n; std::vector<std::string> h; };
	for (L l : std::vector<L>{ { "T", { "T" } }, { "a", { "a" } }, { "b,a,T", { "b", "a", "T" } }, { "f,T", { "f", "T" } }, { "f", { "f" } }, { "?", { "?" } }, { "?,x,T-3", { "?", "x", "T-3" } }, { "", {} }, { "genesis", { "G" } }, { "T-3,T", { "T-3", "T" } } }) {
		add("getheaders " + l.n, [l](World& w, Far& f) { std::vector<Hash> v; for (auto& n : l.h) v.push_back(n == "?" ? unknownHash() : n == "G" ? mainHdr[0]->GetHash() : n == "T-3" ? mainHdr[w.T->height() - 3]->GetHash() : pick(w, n)->hash()); f.send(GetHeadersMessage(std::move(v))); }, [l](World& w, Far& f) {
			auto tip = st()->node().chain->GetTipBlockHeader(EChainType::CANDIDATE); auto ch = chainTo(w, tip); Exp e; std::vector<BlockHeaderPtr> v;
			for (auto& n : l.h) {
				if (n == "?") continue;
				uint64_t h = n == "G" ? 0 : n == "T-3" ? w.T->height() - 3 : pick(w, n)->height(); Hash want = n == "G" ? mainHdr[0]->GetHash() : n == "T-3" ? mainHdr[h]->GetHash() : pick(w, n)->hash();
				if (h < ch.size() && ch[h]->GetHash() == want) { for (uint64_t i = h + 1; i < ch.size() && v.size() < 512; i++) v.push_back(ch[i]); break; }
			}
			e.reply.push_back(M(HeadersMessage(std::move(v)), f.ver)); return e;
		});
	}
	for (std::string n : { "T", "a", "f", "x", "?" }) {
		add("getblock " + n, [n](World& w, Far& f) { f.send(GetBlockMessage(n == "?" ? unknownHash(1) : Hash(pick(w, n)->hash()))); }, [n](World& w, Far& f) { Exp e; if (n != "?" && (n == "T" || has(w.stored, pick(w, n)))) e.reply.push_back(M(BlockMessage(FullBlock(*pick(w, n)->full)), f.ver)); return e; });
		add("getcompact " + n, [n](World& w, Far& f) { f.send(GetCompactBlockMessage(n == "?" ? unknownHash(1) : Hash(pick(w, n)->hash()))); }, [n](World& w, Far&) { Exp e; if (n != "?" && (n == "T" || has(w.stored, pick(w, n)))) { e.compact = true; e.compactOf = pick(w, n)->hash(); } return e; });
	}
	add("ping", [](World&, Far& f) { f.send(PingMessage(123, 45)); }, [](World&, Far& f) { Exp e; auto t = st()->node().chain->GetTipBlockHeader(EChainType::CONFIRMED); e.reply.push_back(M(PongMessage(t->GetTotalDifficulty(), t->GetHeight()), f.ver)); return e; });
	add("error", [](World&, Far& f) { f.raw(frame(MessageTypes::Error, {})); }, [](World&, Far&) { Exp e; e.close = true; return e; });
	add("pong", [](World&, Far& f) { f.send(PongMessage(9, 9)); }, none);
	for (int ty : { (int)MessageTypes::GetHeaders, (int)MessageTypes::GetBlock, (int)MessageTypes::Header, (int)MessageTypes::Block, (int)MessageTypes::TransactionMsg, (int)MessageTypes::PeerAddrs, (int)MessageTypes::CompactBlockMsg, (int)MessageTypes::TransactionKernelMsg })
		add(vh::cat("cut short ", ty), [ty](World&, Far& f) { f.raw(frame(ty, { 1 })); }, [ty](World&, Far&) { Exp e; e.close = true; if (ty == MessageTypes::TransactionMsg || ty == MessageTypes::TransactionKernelMsg) if (st()->sync->GetStatus() != ESyncStatus::NOT_SYNCING) e.any = true, e.close = false; return e; });
	add("bad magic", [](World&, Far& f) { Bytes b = frame(MessageTypes::Ping, Bytes(16, 0)); b[0] ^= 1; f.raw(b); }, [](World&, Far&) { Exp e; e.close = true; return e; });
	add("too long", [](World&, Far& f) { Bytes b = frame(MessageTypes::Ping, {}); b[3] = 0x7f; f.raw(b); }, [](World&, Far&) { Exp e; e.close = true; return e; });
	add("unknown type", [](World&, Far& f) { f.raw(frame(77, Bytes(0))); }, [](World&, Far&) { Exp e; e.any = true; return e; });
	add("pibd", [](World&, Far& f) { f.raw(frame(MessageTypes::GetOutputSegment, Bytes(41, 0))); }, [](World&, Far&) { Exp e; e.any = true; return e; });
	// transactions; the effect is awaited through a marker transaction, since they are processed in order by another thread
	struct T { std::string n; int ty; bool ok; };
	for (T t : std::vector<T>{ { "tv", MessageTypes::TransactionMsg, true }, { "ti", MessageTypes::TransactionMsg, false }, { "td", MessageTypes::TransactionMsg, false }, { "tv", MessageTypes::StemTransaction, true }, { "ti", MessageTypes::StemTransaction, false } })
		add(std::string(t.ty == MessageTypes::StemTransaction ? "stem " : "tx ") + t.n, [t](World& w, Far& f) { auto x = t.n == "tv" ? w.tv : t.n == "ti" ? w.ti : w.td; if (t.ty == MessageTypes::StemTransaction) f.send(StemTransactionMessage(x)); else f.send(TransactionMessage(x)); }, [t](World& w, Far&) {
			Exp e; auto x = t.n == "tv" ? w.tv : t.n == "ti" ? w.ti : w.td; if (st()->sync->GetStatus() != ESyncStatus::NOT_SYNCING) return e;
			B k = ref::bytes(x->GetKernels()[0].GetHash()); bool tvIn = w.poolK.count(ref::bytes(w.tv->GetKernels()[0].GetHash())) > 0; (void)tvIn;
			if (t.n == "ti") e.ban = true;
			else if (t.ty == MessageTypes::TransactionMsg) { bool free = !w.poolK.count(ref::bytes(w.tv->GetKernels()[0].GetHash())) && !w.poolK.count(ref::bytes(w.td->GetKernels()[0].GetHash())); if (free) { w.poolK.insert(k); e.cast.push_back(M(TransactionKernelMessage(Hash(x->GetKernels()[0].GetHash())), w.O->ver)); } }
			return e;
		});
	add("gettx tv", [](World& w, Far& f) { f.send(GetTransactionMessage(Hash(w.tv->GetKernels()[0].GetHash()))); }, [](World& w, Far& f) { Exp e; if (w.poolK.count(ref::bytes(w.tv->GetKernels()[0].GetHash()))) e.reply.push_back(M(TransactionMessage(w.tv), f.ver)); return e; });
	add("gettx ?", [](World&, Far& f) { f.send(GetTransactionMessage(unknownHash(3))); }, none);
	add("kernel tv", [](World& w, Far& f) { f.send(TransactionKernelMessage(Hash(w.tv->GetKernels()[0].GetHash()))); }, [](World& w, Far& f) { Exp e; if (st()->sync->GetStatus() != ESyncStatus::NOT_SYNCING) return e; Hash k = w.tv->GetKernels()[0].GetHash(); if (!w.poolK.count(ref::bytes(k))) e.reply.push_back(M(GetTransactionMessage(std::move(k)), f.ver)); return e; });
	add("peers", [](World&, Far& f) { f.send(PeerAddressesMessage({ SocketAddress("9.9.9.1", 3414), SocketAddress("9.9.9.2", 3414) })); knownIps.insert("9.9.9.1"); knownIps.insert("9.9.9.2"); }, none);
}
static std::string list(const std::vector<Msg>& v) { std::string s; for (auto& m : v) s += " " + m.str(); return s.empty() ? " nothing" : s; }
static World newWorld(uint32_t ver, const std::string& names)
{
	auto need = [&](const char* k) { return names.find(k) != std::string::npos; };
	World w; ses.byHash.clear(); ses.all.clear();
	ses.begin(); grow(); ses.tip->parent.reset(); w.T = ses.tip; w.px = ses.prefix(); w.tipDiff = w.T->diff(); auto& P = ses.plain;
	if (!st()) { st().reset(new Stack(&ses)); }
	// what the sequence does not mention is not made
	bool tx = need("tx ") || need("stem ") || need("kernel"), fork = need(" f"), bad = need(" x") || need("?,x");
	w.tv = sp({ P[1] }, { { w.px + "tv", 0 } });
	if (tx) {
		w.td = sp({ P[1] }, { { w.px + "td", 0 } }); for (int i = 0; i < 2; i++) w.marks.push_back(sp({ P[4 + i] }, { { vh::cat(w.px, "tm", i), 0 } }));
		TxSpec x; x.in = { P[3] }; x.fee = fee(F); x.out = { reg(mkOut(w.px + "ti", P[3].v)) }; w.ti = mkTx(x); // creates value
	}
	w.ta = sp({ P[0] }, { { w.px + "ta", 0 } });
	BlkOpt o; w.a = mine(w.T, w.px + "a", { w.ta }, o); w.b = mine(w.a, w.px + "b", {}, o);
	if (fork) { o.addDiff = 3; w.f = mine(w.T, w.px + "f", {}, o); o.addDiff = 1; }
	if (bad) { BlkOpt q; q.rewardDelta = 1; w.x = mine(w.T, w.px + "x", {}, q); w.xc = mine(w.x, w.px + "xc", {}, BlkOpt()); }
	if (need("y")) { BlkOpt q; q.hdr = [](Hdr& h) { h.ts -= 600; }; w.y = mine(w.T, w.px + "y", {}, q); }
	for (auto& b : tree(w)) { ses.remember(b); if (b->coinbase.o) reg(b->coinbase); }
	w.A = st()->peer(ver); w.O = st()->peer(2); return w;
}
// everything the far side got up to a fence
static bool fence(Far& f, std::vector<Msg>& got, uint64_t salt)
{
	f.send(PingMessage(1000 + salt, 3)); Msg m;
	while (f.wait(m)) { if (m.type == MessageTypes::Pong) return true; got.push_back(m); if (got.size() > 50) break; }
	return false;
}
static void settle(World& w)
{
	orphans(st()->node());
	w.A.reset(); w.O.reset(); st()->run(6); for (int i = 0; i < 6; i++) st()->cm->PruneConnections(false);
	st()->sync->UpdateStatus(ESyncStatus::NOT_SYNCING);
	auto t = st()->node().chain->GetTipBlockHeader(EChainType::CONFIRMED);
	auto it = ses.byHash.find(ref::bytes(t->GetHash())); if (t->GetHash() == w.T->hash()) ses.settle(w.T); else if (it != ses.byHash.end()) ses.settle(it->second); else { vh::fail("tip", "the tip of the chain is a block nobody sent"); vh::fini(); _exit(0); }
	// the header chain may stand on a header whose block is invalid or unknown: end with more work than anything in this case
	ses.extend(w.px + "z", {}, 20); mainHdr.resize(w.T->height() + 1);
}
static void seq(const std::string& name, const std::vector<int>& s, uint32_t ver, ESyncStatus mode)
{
	if (!vh::begin(name)) return;
	watchdog(100);
	std::string names = " "; for (int i : s) names += ops[i].n + " ; ";
	World w = newWorld(ver, names); if (!w.A || !w.O) return;
	st()->sync->UpdateStatus(mode);
	std::string hist; bool stop = false;
	for (size_t i = 0; i < s.size() && !stop; i++) {
		Op& op = ops[s[i]]; hist += (i ? ", " : "") + op.n; Far& A = *w.A;
		B tip0 = ref::bytes(st()->node().chain->GetTipBlockHeader(EChainType::CONFIRMED)->GetHash());
		flush(w);
		bool tx = op.n.compare(0, 3, "tx ") == 0 || op.n.compare(0, 5, "stem ") == 0;
		Exp e; bool isPing = op.n == "ping";
		bool early = op.n.compare(0, 3, "get") == 0 || op.n.compare(0, 6, "header") == 0 || isPing || op.n.compare(0, 6, "kernel") == 0;
		if (early) e = op.exp(w, A); // answered from the state before
		op.send(w, A);
		if (!early) e = op.exp(w, A);
		std::vector<Msg> got, cast; Msg m;
		bool alive; if (isPing) { alive = A.wait(m); if (alive) got.push_back(m); alive = alive && fence(A, got, i); } else alive = fence(A, got, i);
		vh::S().transitions++;
		auto bad = [&](const std::string& k, const std::string& d) { vh::fail(k, vh::cat("after [", hist, "] version ", ver, ": ", d)); };
		if (tx && mode == ESyncStatus::NOT_SYNCING) {
			// the marker comes from the observer and is announced to A alone; when A has it, the transaction before it is done
			if (w.marks.size()) { auto mt = w.marks.back(); w.marks.pop_back(); w.O->send(TransactionMessage(mt)); Msg mk = M(TransactionKernelMessage(Hash(mt->GetKernels()[0].GetHash())), A.ver); bool seen = false; Msg g;
				if (alive) { auto t0 = std::chrono::steady_clock::now(); while (!seen && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60) && A.wait(g)) { if (g == mk) seen = true; else got.push_back(g); } }
				if (alive && !seen && !e.ban) bad("tx-stuck", "a valid transaction sent after this one was not processed"); }
			else st()->spin([&] { return !e.ban || A.peer->IsBanned(); }, 20000);
			if (e.ban) st()->spin([&] { return A.peer->IsBanned(); }, 20000);
		}
		if (mode == ESyncStatus::SYNCING_BLOCKS && op.n.compare(0, 5, "block") == 0) { auto want = [&] { for (auto& b : tree(w)) if (has(w.stored, b) && !st()->node().chain->GetBlockByHash(b->hash())) return false; return !e.ban || A.peer->IsBanned(); }; st()->spin([&] { orphans(st()->node()); return want(); }, 20000); e.cast.clear(); e.reply.clear(); }
		orphans(st()->node()); flush(w);
		if (!fence(*w.O, cast, i)) bad("observer-lost", "another peer lost its connection");
		if (A.peer->IsBanned() != e.ban && !e.any) bad(e.ban ? "not-banned" : "banned", vh::cat("the sender was ", e.ban ? "not banned for invalid data" : "banned for valid data", " (", op.n, ")"));
		if (e.ban || A.peer->IsBanned()) {
			// from the next round of the seeder on the connection must be gone
			st()->cm->PruneConnections(true); st()->cm->PruneConnections(true);
			if (!st()->spin([&] { A.pull(); return A.eof; }, 8000)) bad("ban-still-served", "the connection of a banned peer was not closed");
			stop = true;
		} else if (e.close) {
			if (!st()->spin([&] { A.pull(); return A.eof; }, 8000)) bad("malformed-kept", "a peer that sent a malformed message is still connected");
			stop = true;
		} else if (!alive) { if (!e.any) bad("closed", "the connection was closed"); stop = true; }
		else if (e.compact) {
			bool ok = false; if (got.size() == 1 && got[0].type == MessageTypes::CompactBlockMsg) { ByteBuffer bb(got[0].body, A.ver); try { CompactBlock c = CompactBlockMessage::Deserialize(bb).GetCompactBlock(); ok = c.GetHash() == e.compactOf; } catch (std::exception&) {} }
			if (!ok) bad("reply", "expected the compact block asked for, got" + list(got));
		} else if (!e.any && got != e.reply) bad("reply", vh::cat("expected", list(e.reply), ", got", list(got)));
		std::vector<Msg> c2; for (auto& m2 : cast) if (!(m2.type == MessageTypes::TransactionKernelMsg && mode == ESyncStatus::NOT_SYNCING && tx && e.cast.empty() && false)) c2.push_back(m2);
		if (!e.any && c2 != e.cast) bad("broadcast", vh::cat("expected the other peer to be told", list(e.cast), ", it was told", list(cast)));
		// no message changes the chain except a valid block
		B tip1 = ref::bytes(st()->node().chain->GetTipBlockHeader(EChainType::CONFIRMED)->GetHash());
		uint64_t d1 = st()->node().chain->GetTotalDifficulty(EChainType::CONFIRMED);
		if (op.n.compare(0, 5, "block") != 0 && tip1 != tip0 && w.orph.empty()) bad("chain-changed", "the chain changed without a block");
		if (d1 != w.tipDiff) bad("tip", vh::cat("confirmed difficulty ", d1, ", expected ", w.tipDiff));
		vh::outcome(vh::cat(op.n, "|", list(got), "|", list(cast), e.ban, e.close, (int)mode)); if (!got.empty() || !cast.empty() || e.ban) vh::S().nontrivial++;
	}
	vh::S().traces++; vh::S().states++;
	settle(w); alarm(0);
}
// ---------- handshakes ----------
static bool added(const std::unique_ptr<Far>& f) { return st()->cm->GetConnection(f->conn->GetId()) != nullptr; }
static uint64_t selfNonce = 0;
static void tidy() { st()->run(6); st()->cm->PruneConnections(false); st()->run(2); }
static void world() { if (!st()) { ses.begin(); grow(); ses.tip->parent.reset(); st().reset(new Stack(&ses)); } }
static Bytes shakeBytes(uint32_t version, const Hash& gen, uint32_t caps, const std::string& ua) { return pack(ShakeMessage(version, Capabilities(caps), Hash(gen), 5, ua), EProtocolVersion::V1); }
// the node calls the far side
static std::unique_ptr<Far> outbound(Bytes reply, bool closeAfter)
{
	auto f = std::make_unique<Far>(); f->st = st().get(); std::string a = st()->nextIp();
	int lfd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in sa{}; sa.sin_family = AF_INET; inet_pton(AF_INET, a.c_str(), &sa.sin_addr); socklen_t l = sizeof(sa);
	if (::bind(lfd, (sockaddr*)&sa, l) || ::listen(lfd, 4) || getsockname(lfd, (sockaddr*)&sa, &l)) throw std::runtime_error("listen");
	f->ip = IPAddress::Parse(a); f->peer = st()->pm->Write()->GetPeer(f->ip);
	SocketPtr so(new Socket(SocketAddress(f->ip, ntohs(sa.sin_port)), st()->io, std::make_shared<asio::ip::tcp::socket>(*st()->io)));
	f->conn = std::make_shared<Connection>(so, st()->id++, *st()->cm, ConnectedPeer(f->peer, EDirection::OUTBOUND, ntohs(sa.sin_port)), st()->sync, st()->mp);
	so.reset(); f->conn->Connect(); fcntl(lfd, F_SETFL, O_NONBLOCK);
	st()->spin([&] { f->fd = ::accept(lfd, nullptr, nullptr); return f->fd >= 0; }); ::close(lfd);
	if (f->fd < 0) { vh::fail("outbound", "no connection was made to the peer"); return f; }
	linger lg{ 1, 0 }; setsockopt(f->fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
	Msg m; if (!f->wait(m) || m.type != MessageTypes::Hand) { vh::fail("outbound", "expected a Hand, got " + m.str()); return f; }
	ByteBuffer b(m.body); HandMessage h = HandMessage::Deserialize(b); if (!selfNonce) selfNonce = h.GetNonce();
	if (h.GetVersion() != P2P::PROTOCOL_VERSION || h.GetHash() != Global::GetGenesisHash() || h.GetNonce() != selfNonce || h.GetUserAgent() != P2P::USER_AGENT) vh::fail("outbound", "the Hand does not say who the node is");
	f->raw(reply); if (closeAfter) f->close();
	return f;
}
static void handshakes()
{
	world(); Hash good = Global::GetGenesisHash(), wrong = good; { auto v = wrong.GetData(); v[5] ^= 1; wrong = Hash(v.data()); }
	for (uint32_t ver : { 1u, 2u, 3u, 1000u, 4294967295u }) for (int gen : { 0, 1 }) for (int kind = 0; kind < 6; kind++) for (uint32_t caps : { 0u, 6u, 7u }) {
		std::string n = vh::cat("called: version ", ver, gen ? " other genesis" : "", " kind ", kind, " caps ", caps); if (caps != 6 && (gen || kind)) continue; if (kind == 5 && (gen || ver != 2)) continue; if (!vh::begin(n)) continue;
		watchdog(100); world();
		Bytes sh = shakeBytes(ver, gen ? wrong : good, caps, "far agent"); bool cl = false;
		// 0 Shake, 1 Hand, 2 Ping, 3 wrong magic, 4 cut and closed, 5 closed at once
		if (kind == 1) sh = pack(st()->hand(ver), EProtocolVersion::V1); if (kind == 2) sh = pack(PingMessage(1, 1), EProtocolVersion::V1); if (kind == 3) sh[1] ^= 4; if (kind == 4) { sh.resize(sh.size() - 6); cl = true; } if (kind == 5) { sh.clear(); cl = true; }
		auto f = outbound(sh, cl); if (!f->conn) continue; bool want = kind == 0 && !gen; Msg m;
		if (want) {
			if (!st()->spin([&] { return added(f); })) vh::fail("handshake", n + ": not connected after a proper handshake");
			else {
				uint32_t v = std::min(ver, (uint32_t)P2P::PROTOCOL_VERSION);
				if (!f->wait(m) || m.type != MessageTypes::GetPeerAddrs) vh::fail("handshake", n + ": no GetPeerAddrs after the handshake but " + m.str());
				if (f->peer->GetVersion() != v || f->peer->GetUserAgent() != "far agent" || f->peer->GetCapabilities().GetCapability() != (Capabilities::ECapability)caps) vh::fail("handshake", n + ": what the peer said about itself was not recorded");
				if (f->conn->GetProtocolVersion() != ProtocolVersion::ToEnum(v)) vh::fail("handshake", n + ": the wrong protocol version is used");
			}
		} else {
			auto conn = f->conn; std::weak_ptr<Connection> w = conn; uint64_t id = conn->GetId(); conn.reset(); f->conn.reset();
			// the attempt is over when nobody holds the connection any more
			if (!st()->spin([&] { return w.expired(); })) vh::fail("handshake", n + ": the attempt does not end");
			if (st()->cm->GetConnection(id) != nullptr) vh::fail("handshake", n + ": connected in spite of an improper handshake");
			if (!cl && !st()->spin([&] { f->pull(); return f->eof; }, 8000)) vh::fail("handshake", n + ": the connection was not closed");
		}
		vh::S().states++; vh::S().transitions++; vh::S().traces++; vh::outcome(vh::cat("called", kind, gen, want)); f.reset(); tidy(); alarm(0);
	}
	for (uint32_t ver : { 1u, 2u, 3u, 1000u, 4294967295u }) for (int gen : { 0, 1 }) for (int kind = 0; kind < 7; kind++) for (int self : { 0, 1 }) {
		std::string n = vh::cat("calling: version ", ver, gen ? " other genesis" : "", " kind ", kind, self ? " self" : ""); if (kind && self) continue; if (kind == 5 && (gen || ver != 2)) continue; if (!vh::begin(n)) continue;
		watchdog(100); world();
		if (self && !selfNonce) { auto f = outbound({}, true); f.reset(); tidy(); }
		// 0 Hand, 1 Shake, 2 Ping, 3 wrong magic, 4 cut and closed, 5 closed at once, 6 Hand from an address already connected
		std::unique_ptr<Far> first; std::string addr = st()->nextIp();
		auto open = [&] { auto f = st()->accept(EDirection::INBOUND, addr); return f; };
		if (kind == 6) { first = open(); first->raw(pack(st()->hand(2), EProtocolVersion::V1)); first->conn->Connect(); Msg m; first->wait(m); if (!st()->spin([&] { return added(first); })) vh::fail("handshake", n + ": no first connection"); }
		Bytes hb = pack(st()->hand(ver, self ? selfNonce : 78, gen ? wrong : good), EProtocolVersion::V1); bool cl = false;
		if (kind == 1) hb = shakeBytes(ver, good, 6, "x"); if (kind == 2) hb = pack(PingMessage(1, 1), EProtocolVersion::V1); if (kind == 3) hb[0] ^= 4; if (kind == 4) { hb.resize(hb.size() - 6); cl = true; } if (kind == 5) { hb.clear(); cl = true; }
		auto f = open(); f->raw(hb); if (cl) { st()->run(2); f->close(); } uint64_t id = f->conn->GetId(); std::weak_ptr<Connection> w = f->conn; f->conn->Connect(); Msg m;
		bool want = kind == 0 && !gen && !self; uint32_t v = std::min(ver, (uint32_t)P2P::PROTOCOL_VERSION);
		if (want) {
			if (!f->wait(m) || m.type != MessageTypes::Shake) vh::fail("handshake", n + ": no Shake but " + m.str());
			else {
				ByteBuffer b(m.body); ShakeMessage s = ShakeMessage::Deserialize(b);
				if (s.GetVersion() != v || s.GetHash() != good || s.GetUserAgent() != P2P::USER_AGENT) vh::fail("handshake", n + ": the Shake is not the node's");
				if (!st()->spin([&] { return added(f); })) vh::fail("handshake", n + ": not connected after a proper handshake");
				if (f->peer->GetVersion() != v || f->conn->GetProtocolVersion() != ProtocolVersion::ToEnum(v) || f->peer->GetUserAgent() != "far") vh::fail("handshake", n + ": what the peer said about itself was not recorded");
			}
		} else {
			f->conn.reset(); if (!st()->spin([&] { return w.expired(); })) vh::fail("handshake", n + ": the attempt does not end");
			if (st()->cm->GetConnection(id) != nullptr) vh::fail("handshake", n + ": connected in spite of an improper handshake");
			if (!cl) { bool closed = st()->spin([&] { f->pull(); return f->eof; }, 8000); if (f->next(m)) vh::fail("handshake", n + ": answered with " + m.str()); else if (!closed) vh::fail("handshake", n + ": the connection was not closed"); }
			if (kind == 6 && (!first->conn->IsConnectionActive() || !added(first))) vh::fail("handshake", n + ": the first connection was lost");
		}
		vh::S().states++; vh::S().transitions++; vh::S().traces++; vh::outcome(vh::cat("calling", kind, gen, self, want)); f.reset(); first.reset(); tidy(); alarm(0);
	}
}
// ---------- the state of the chain for a new peer ----------
static void snapshots()
{
	struct K { std::string n; int back; }; // how far below the tip; -1: unknown block
	for (K k : std::vector<K>{ { "tip", 0 }, { "tip-1", 1 }, { "tip-5", 5 }, { "unknown", -1 } }) for (uint32_t ver : { 1u, 2u, 3u }) {
		std::string n = vh::cat("state of ", k.n, " version ", ver); if (!vh::begin(n)) continue;
		watchdog(100); world(); auto A = st()->peer(ver); if (!A) continue;
		auto req = [&](int back) { uint64_t h = st()->node().chain->GetHeight(EChainType::CONFIRMED); Hash hash = back < 0 ? unknownHash(9) : st()->node().chain->GetBlockHeaderByHeight(h - back, EChainType::CONFIRMED)->GetHash(); A->send(TxHashSetRequestMessage(Hash(hash), h - std::max(back, 0))); return hash; };
		Hash hash = req(k.back); Msg m;
		if (k.back >= 0) {
			if (!A->wait(m) || m.type != MessageTypes::TxHashSetArchive) vh::fail("snapshot", n + ": no archive but " + m.str());
			else {
				ByteBuffer b(m.body, A->ver); auto ar = TxHashSetArchiveMessage::Deserialize(b); uint64_t sz = ar.GetZippedSize();
				if (ar.GetBlockHash() != hash) vh::fail("snapshot", n + ": the archive of another block");
				if (!st()->spin([&] { A->pull(); return A->in.size() >= sz || A->eof; }, 10000)) vh::fail("snapshot", vh::cat(n, ": ", A->in.size(), " of ", sz, " bytes arrived"));
				else {
					Bytes z(A->in.begin(), A->in.begin() + sz); A->in.erase(A->in.begin(), A->in.begin() + sz);
					// a whole zip: its directory ends exactly at the end of the file
					auto le = [&](size_t o, int c) { uint64_t v = 0; for (int i = c - 1; i >= 0; i--) v = v << 8 | z[o + i]; return v; };
					bool ok = sz > 22 && le(sz - 22, 4) == 0x06054b50 && le(0, 4) == 0x04034b50; if (ok) ok = le(sz - 22 + 16, 4) + le(sz - 22 + 12, 4) == sz - 22;
					if (!ok) vh::fail("snapshot", n + ": the archive is not a complete zip file");
				}
			}
		}
		std::vector<Msg> got; if (!vh::S().violations && (!st()->spin([&] { A->send(PingMessage(1, 1)); st()->run(2); A->pull(); return A->in.size() > 0 || A->eof; }, 8000) || A->eof)) vh::fail("snapshot-mute", n + ": the node does not answer this peer any more");
		// asking again within two hours is abuse
		req(0); if (!st()->spin([&] { return A->peer->IsBanned(); }, 8000)) vh::fail("not-banned", n + ": a second request within two hours was not punished");
		vh::S().states++; vh::S().transitions += 2; vh::S().traces++; vh::outcome(n); A.reset(); tidy(); alarm(0);
	}
}
// ---------- which connections go ----------
static void prunes()
{
	int N = vh::thorough() ? 6 : 4;
	for (int k = 1; k <= N; k++) for (int bad = 0; bad < 1 << k; bad++) for (int how : { 0, 1 }) {
		std::string n = vh::cat("prune ", k, " of which ", bad, how ? " vanished" : " banned"); if (how && !bad) continue; if (!vh::begin(n)) continue;
		watchdog(100); world(); std::vector<std::unique_ptr<Far>> p; for (int i = 0; i < k; i++) p.push_back(st()->peer());
		if (std::find(p.begin(), p.end(), nullptr) != p.end()) return;
		for (int i = 0; i < k; i++) if (bad >> i & 1) { if (how) { p[i]->close(); } else p[i]->conn->BanPeer(EBanReason::ManualBan); }
		if (how) st()->spin([&] { for (int i = 0; i < k; i++) if ((bad >> i & 1) && p[i]->conn->GetSocket()->IsOpen()) return false; return true; }, 8000);
		st()->cm->PruneConnections(true); st()->run(6);
		for (int i = 0; i < k; i++) {
			bool gone = !added(p[i]), b = bad >> i & 1; if (!how) st()->spin([&] { p[i]->pull(); return p[i]->eof || !b; }, 3000);
			if (gone != b) vh::fail("prune", vh::cat(n, ": connection ", i, b ? " is still kept" : " was dropped")); if (!how && p[i]->eof != b) vh::fail("prune", vh::cat(n, ": connection ", i, b ? " is still open" : " was closed"));
		}
		if (st()->cm->GetNumInbound() != (size_t)(k - __builtin_popcount(bad)) || st()->cm->GetNumOutbound() != 0) vh::fail("prune-count", vh::cat(n, ": ", st()->cm->GetNumInbound(), " inbound connections are counted"));
		vh::S().states++; vh::S().transitions++; vh::S().traces++; vh::outcome(n); p.clear(); tidy(); alarm(0);
	}
}
// ---------- who is let in ----------
static std::atomic<int> vanish{ 0 };
static void listening()
{
	if (!vh::begin("listening")) return;
	watchdog(300); world(); Global::GetConfig().SetMinPeers(0); Global::GetConfig().SetMaxPeers(3);
	std::unordered_set<IPAddress> blocked; for (int i = 2; i < 250; i++) blocked.insert(IPAddress::Parse(vh::cat("127.201.0.", i))); Global::GetConfig().UpdateBlockedPeers(blocked);
	auto& cm = *new ConnectionManagerPtr(ConnectionManager::Create()); auto pm = PeerManager::Create(ctx(), std::make_shared<Locked<IPeerDB>>(std::make_shared<MemPeerDB>()));
	static std::unique_ptr<Seeder> sd; sd = Seeder::Create(*cm, *pm, st()->node().chain, st()->pipe, st()->sync);
	int serial = 2; uint16_t port = Global::GetConfig().GetP2PPort();
	auto dial = [&](const std::string& a) {
		auto f = std::make_unique<Far>(); f->st = st().get(); f->fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in x{}; x.sin_family = AF_INET; inet_pton(AF_INET, a.c_str(), &x.sin_addr);
		if (::bind(f->fd, (sockaddr*)&x, sizeof(x))) throw std::runtime_error("bind"); f->ip = IPAddress::Parse(a);
		linger lg{ 1, 0 }; setsockopt(f->fd, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
		sockaddr_in b{}; b.sin_family = AF_INET; b.sin_addr.s_addr = htonl(INADDR_LOOPBACK); b.sin_port = htons(port);
		for (int i = 0; i < 200; i++) { if (::connect(f->fd, (sockaddr*)&b, sizeof(b)) == 0) return f; usleep(10000); }
		f->close(); return f;
	};
	{ auto f = dial("127.200.0.2"); if (f->fd < 0) { vh::count("listener unavailable"); return; } } // the port may be taken by something else
	auto settle = [&](const std::string& n) { auto t0 = std::chrono::steady_clock::now(); if (!st()->spin([&] { return cm->GetNumberOfActiveConnections() == 0; }, 20000)) vh::fail("listen-kept", vh::cat("after [", n, "] and all peers leaving ", cm->GetNumberOfActiveConnections(), " connections are still kept")); if (getenv("DBG")) fprintf(stderr, "%s %dms\n", n.c_str(), (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count()); };
	const char* names[] = { "good", "blocked", "banned", "vanishing", "mute" }; const int K = 5; int depth = vh::thorough() ? 4 : 3; std::vector<int> s;
	std::function<bool()> rec = [&]() -> bool {
		if (!s.empty()) {
			std::vector<std::unique_ptr<Far>> open; std::string n; int good = 0;
			for (int o : s) {
				n += vh::cat(n.empty() ? "" : ", ", names[o]); std::string a = vh::cat("127.", o == 1 ? 201 : 202 + o, ".", o == 1 ? 0 : serial / 250 % 250, ".", 2 + serial % 248); serial++;
				if (o == 2) pm->Write()->GetPeer(IPAddress::Parse(a))->Ban(EBanReason::ManualBan);
				if (o == 3) { vanish = 1; auto f = dial(a); f->close(); st()->spin([&] { return vanish == 0; }, 8000); vanish = 0; continue; }
				auto f = dial(a); Msg m;
				if (o == 4) { open.push_back(std::move(f)); continue; } // says nothing
				f->raw(pack(st()->hand(2, 100 + serial), EProtocolVersion::V1));
				bool got = f->wait(m, 12000) && m.type == MessageTypes::Shake, full = good >= 3;
				if (o == 0 && !full && !got) { vh::fail("listen-refused", vh::cat("after [", n, "] a peer was not let in")); return false; }
				if (o == 0 && !full) { good++; if (!st()->spin([&] { return (int)cm->GetNumberOfActiveConnections() == good; }, 8000)) { vh::fail("listen-refused", vh::cat("after [", n, "] the connection is not kept")); return false; } }
				if (o != 0 || full) { if (got) vh::fail("listen-let-in", vh::cat("after [", n, "] ", full ? "one peer too many" : names[o], " was let in")); else if (!f->eof) vh::fail("listen-let-in", vh::cat("after [", n, "] the connection was not closed")); }
				open.push_back(std::move(f));
			}
			vh::S().states++; vh::S().transitions += s.size(); vh::S().traces++; vh::outcome("listen " + n); open.clear(); settle(n); alarm(300);
		}
		if ((int)s.size() >= depth || vh::S().violations) return !vh::S().violations;
		for (int o = 0; o < K; o++) { s.push_back(o); bool ok = rec(); s.pop_back(); if (!ok) return false; }
		return true;
	};
	rec();
	// one more than the most connections
	s = { 0, 0, 0, 0, 1, 2, 3 }; if (!vh::S().violations) { depth = 0; rec(); }
	alarm(0);
}
// asio takes new connections with this; a vanishing peer is gone by the time its connection is looked at
extern "C" int accept(int fd, sockaddr* a, socklen_t* l)
{
	int r = ::accept4(fd, a, l, 0);
	if (r >= 0 && vanish) { char c; for (int i = 0; i < 4000 && ::recv(r, &c, 1, MSG_PEEK | MSG_DONTWAIT) < 0 && errno == EAGAIN; i++) usleep(500); vanish = 0; }
	return r;
}
static void run()
{
	listening(); handshakes(); snapshots(); prunes();
	mkOps(); int n = (int)ops.size();
	for (int i = 0; i < n; i++) for (uint32_t ver : { 1u, 2u, 3u, 1000u }) seq(vh::cat("v", ver, ": ", ops[i].n), { i }, ver, ESyncStatus::NOT_SYNCING);
	for (int i = 0; i < n; i++) for (auto m : { ESyncStatus::SYNCING_HEADERS, ESyncStatus::SYNCING_BLOCKS }) seq(vh::cat("syncing ", (int)m, ": ", ops[i].n), { i }, 2, m);
	std::vector<int> core; for (int i = 0; i < n; i++) { auto& s = ops[i].n; if (s.compare(0, 5, "block") == 0 || s.compare(0, 7, "header ") == 0 || s.compare(0, 8, "headers ") == 0) core.push_back(i); }
	auto starts = [&](int i, std::initializer_list<const char*> l) { for (auto p : l) if (ops[i].n.compare(0, strlen(p), p) == 0) return true; return false; };
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (vh::thorough() || starts(i, { "block", "header", "tx", "stem", "error", "peers" }) || i == j) seq(vh::cat(ops[i].n, "; ", ops[j].n), { i, j }, 2, ESyncStatus::NOT_SYNCING);
	for (int i : core) for (int j : core) for (int k = 0; k < n; k++) if (vh::thorough() || (i != j && (ops[k].n == "getheaders b,a,T" || ops[k].n == "getheaders f" || ops[k].n == "getblock a" || ops[k].n == "block a"))) seq(vh::cat(ops[i].n, "; ", ops[j].n, "; ", ops[k].n), { i, j, k }, 2, ESyncStatus::NOT_SYNCING);
}
VH_MAIN({ ses.maxUse = 1 << 30; run(); })
