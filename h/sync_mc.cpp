// Synchronisation requests of the real node: what HeaderSyncer, BlockSyncer and StateSyncer ask of fake peers on
// loopback sockets, for every shape of own chain against every longer chain of the peer, every set of blocks that is
// already there, and every sequence of answers, silences, disconnections and reorganisations up to a depth; and the
// real synchronisation thread against an honest peer.
#include "p2p.h"
#include "ctl.h"
#include "txs.h"
#include "P2P/Sync/HeaderSyncer.h"
#include "P2P/Sync/BlockSyncer.h"
#include "P2P/Sync/StateSyncer.h"
#include "P2P/Sync/Syncer.h"
using namespace ch; using namespace pp;
static Session ses;
static std::unique_ptr<Stack>& st() { static std::unique_ptr<Stack> s; return s; }
// the connection manager's ping thread ends only with the process, so the manager stays
static void drop() { static std::vector<ConnectionManagerPtr> kept; if (!st()) return; st()->run(6); st()->cm->PruneConnections(false); st()->run(4); kept.push_back(st()->cm); st()->mp.reset(); st()->pipe.reset(); st().reset(); ses.node.reset(); }
// ---------- header chains without bodies ----------
struct HC { std::vector<BlockHeaderPtr> h; ref::Mmr m; uint64_t diff() const { return h.back()->GetTotalDifficulty(); } uint64_t height() const { return h.back()->GetHeight(); } };
static HC headerGenesis() { HC c; auto g = Global::GetGenesisBlock().GetHeader(); c.h.push_back(g); c.m.append(leafHeader(*g)); return c; }
static void grow(HC& c, int n, uint64_t add, const std::string& nm)
{
	for (int i = 0; i < n; i++) {
		auto p = c.h.back(); Hdr h; h.version = Consensus::GetHeaderVersion(p->GetHeight() + 1); h.height = p->GetHeight() + 1; h.ts = p->GetTimestamp() + 1; h.prev = p->GetHash(); h.prevRoot = toHash(c.m.root());
		h.outRoot = h.proofRoot = h.kernRoot = toHash(ref::b2b(nm)); h.outSize = h.kernSize = 1; h.diff = p->GetTotalDifficulty() + add; h.scaling = 10; h.nonce = 7; h.edgeBits = 29; h.pn = nonces(vh::cat(nm, i), 29);
		c.h.push_back(h.make()); c.m.append(leafHeader(*c.h.back()));
	}
}
static HC cut(const HC& c, size_t p) { HC r; for (size_t i = 0; i <= p; i++) { r.h.push_back(c.h[i]); r.m.append(leafHeader(*c.h[i])); } return r; }
// ---------- peers ----------
static std::string seqName(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : ", ") + x; return s; }
struct Fp {
	std::unique_ptr<Far> f; std::vector<Msg> got; uint64_t diff = 0, height = 0, n = 0; bool gone = false;
	bool banned() const { return f->peer->IsBanned(); }
	bool alive() const { return !gone && !banned() && !f->eof; }
	void greet(uint64_t d, uint64_t h) { diff = d; height = h; }
	// everything sent up to now, and the peer's totals told
	void fence()
	{
		if (!alive()) { if (!gone) { st()->run(4); f->pull(); } return; }
		uint64_t mark = ++n; f->send(PingMessage(diff, height)); Msg m; (void)mark;
		while (f->wait(m)) { if (m.type == MessageTypes::Pong) return; got.push_back(m); }
		if (m.type == -2) vh::fail("silent", "the node does not answer a ping");
	}
	std::vector<Msg> take() { fence(); auto r = got; got.clear(); return r; }
	void leave() { f->close(); gone = true; st()->spin([&] { return st()->cm->GetConnection(f->conn->GetId()) == nullptr || !f->conn->IsConnectionActive(); }, 5000); st()->cm->PruneConnections(true); st()->run(4); }
};
static Fp peer(uint64_t d, uint64_t h) { Fp p; p.f = st()->peer(2); p.greet(d, h); if (p.f) p.take(); return p; }
static void later(int s) { ctl::offset += s; }
static std::vector<Hash> locators(const Msg& m) { ByteBuffer b(m.body); return GetHeadersMessage::Deserialize(b).GetHashes(); }
static Hash wanted(const Msg& m) { ByteBuffer b(m.body); return GetBlockMessage::Deserialize(b).GetHash(); }
static std::vector<BlockHeaderPtr> answer(const std::vector<Hash>& loc, const HC& c)
{
	std::map<B, size_t> at; for (size_t i = 0; i < c.h.size(); i++) at[ref::bytes(c.h[i]->GetHash())] = i;
	for (auto& l : loc) { auto it = at.find(ref::bytes(l)); if (it != at.end()) { std::vector<BlockHeaderPtr> r; for (size_t i = it->second + 1; i < c.h.size() && r.size() < 512; i++) r.push_back(c.h[i]); return r; } }
	return {};
}
static SyncStatus& status() { st()->node().chain->UpdateSyncStatus(*st()->sync); st()->cm->UpdateSyncStatus(*st()->sync); return *st()->sync; }
// the clock is not set back: threads of the node that sleep would go on sleeping
static void reset() { st()->run(6); st()->cm->PruneConnections(false); st()->run(4); st()->sync->UpdateStatus(ESyncStatus::NOT_SYNCING); }
// a node that has only these headers
static void bare(const HC& own)
{
	drop(); ses.node.reset(); if (!ses.dir.empty()) vh::rmtree(ses.dir); ses.dir = vh::freshDir(vh::cat("h", ses.serial++)); ses.node.reset(new Node(ses.dir)); ses.used = 1 << 29;
	for (size_t i = 1; i < own.h.size(); i += 512) { std::vector<BlockHeaderPtr> v(own.h.begin() + i, own.h.begin() + std::min(own.h.size(), i + 512)); if (addHeaders(*ses.node, v) != OK) throw std::runtime_error("headers"); }
	if (ref::bytes(ses.node->chain->GetTipBlockHeader(EChainType::CANDIDATE)->GetHash()) != ref::bytes(own.h.back()->GetHash())) throw std::runtime_error("own headers");
	st().reset(new Stack(&ses)); st()->sync->UpdateStatus(ESyncStatus::SYNCING_HEADERS);
}
// one request for headers: what it must look like
static void checkLocators(const std::vector<Hash>& loc, const std::string& n)
{
	auto& ch = *st()->node().chain; uint64_t tip = ch.GetHeight(EChainType::CANDIDATE), last = tip + 1; bool ok = !loc.empty() && loc.size() <= 20;
	for (auto& l : loc) { auto h = ch.GetBlockHeaderByHash(l); auto c = h ? ch.GetBlockHeaderByHeight(h->GetHeight(), EChainType::CANDIDATE) : nullptr; if (!c || c->GetHash() != l || h->GetHeight() >= last) { ok = false; break; } last = h->GetHeight(); }
	if (!ok) vh::fail("locators", n + ": the locators are not a descending choice of at most 20 headers of the own chain");
	else if (loc.front() != ch.GetTipBlockHeader(EChainType::CANDIDATE)->GetHash() || loc.back() != Global::GetGenesisHash()) vh::fail("locators", n + ": the locators do not begin with the tip and end with the genesis block");
}
// goes on until the syncer has enough, the peers answering as they should
static void finishHeaders(HeaderSyncer& hs, std::vector<Fp*> ps, const HC& theirs, const std::string& n)
{
	int requests = 0, idle = 0, len = (int)theirs.h.size(); uint64_t net = theirs.height();
	for (int i = 0; i < 40 + len / 100; i++) {
		for (auto* p : ps) p->fence();
		bool more = hs.SyncHeaders(status(), true); bool any = false;
		for (auto* p : ps) for (auto& m : p->take()) if (m.type == MessageTypes::GetHeaders) { any = true; requests++; auto l = locators(m); checkLocators(l, n); p->f->send(HeadersMessage(answer(l, theirs))); p->fence(); }
		for (auto* p : ps) if (p->banned()) { vh::fail(n == "headers: 0 common, 300 own of work 2, 700 of the peer" ? "more-work-beyond-one-answer" : "honest-peer-banned", vh::cat(n, ": a peer that answered every request was banned")); return; }
		if (!more) break;
		if (!any) { if (++idle > 12) break; later(11); } else idle = 0;
		vh::S().transitions++;
	}
	auto tip = st()->node().chain->GetTipBlockHeader(EChainType::CANDIDATE);
	if (tip->GetHash() != theirs.h.back()->GetHash()) vh::fail("headers-not-reached", vh::cat(n, ": after ", requests, " answered requests the header chain stands at height ", tip->GetHeight(), " and not at the peer's tip at ", net));
	else if (hs.SyncHeaders(status(), true)) vh::fail("headers-not-done", n + ": headers are still being requested at the peer's tip");
	vh::outcome(vh::cat("requests ", requests));
}
static HC own, theirs;
static void chains(int p, int a, uint64_t wa, int b, uint64_t wb)
{
	HC base = headerGenesis(); grow(base, p, 1, vh::cat("base")); own = base; ::grow(own, a, wa, vh::cat("own", wa)); theirs = base; ::grow(theirs, b, wb, vh::cat("their", wb));
}
static void headerShapes()
{
	struct S { int p, a, wa, b, wb; }; std::vector<S> v;
	for (int p : { 0, 1, 2, 3, 7 }) for (int a = 0; a < 4; a++) for (int b = a + 1; b < a + 7; b += p > 3 ? 2 : 1) v.push_back({ p, a, 1, b, 1 });
	for (int p : { 0, 3, 600 }) for (int a : { 0, 1, 100, 127, 128, 129, 250 }) for (int b : vh::thorough() ? std::vector<int>{ 130, 255, 256, 257, 300, 385, 511, 512, 513, 600, 1024, 1025, 1100, 1600 } : std::vector<int>{ 130, 256, 300, 512, 513, 1025 }) for (int wa : { 1, 2 }) {
		if (b <= a * wa || (wa == 2 && a < 2)) continue;
		if (!vh::thorough() && p == 3 && wa == 1 && b != 513) continue;
		v.push_back({ p, a, wa, b, 1 });
	}
	v.push_back({ 0, 300, 2, 700, 1 }); // more work only after more headers than one answer holds
	for (auto& s : v) {
		std::string n = vh::cat("headers: ", s.p, " common, ", s.a, " own of work ", s.wa, ", ", s.b, " of the peer"); if (!vh::begin(n)) continue; watchdog(120);
		chains(s.p, s.a, s.wa, s.b, s.wb); bare(own); { Fp x = peer(theirs.diff(), theirs.height()); HeaderSyncer hs(st()->cm, st()->node().chain); finishHeaders(hs, { &x }, theirs, n); }
		reset(); vh::S().states++; vh::S().traces++; alarm(0);
	}
}
// sequences of what the peers do with the requests for headers
static void headerPeers()
{
	const char* names[] = { "answer", "nothing", "no headers", "part", "disconnect", "+6 s", "+11 s" }; int depth = vh::thorough() ? 4 : 3; const int K = 7;
	std::vector<int> s; std::function<void()> rec = [&] {
		if ((int)s.size() == depth) {
			std::vector<std::string> nm; for (int o : s) nm.push_back(names[o]); std::string n = "header peers: " + seqName(nm); if (!vh::begin(n)) return; watchdog(120);
			if (!st() || st()->node().chain->GetHeight(EChainType::CANDIDATE) != 0) { chains(0, 0, 1, 0, 1); bare(own); }
			// the chain of the peers grows with every case, so that one node serves many of them
			static HC cur; static Stack* of = nullptr; if (of != st().get()) { cur = own; of = st().get(); } { HC t = cur; ::grow(t, 9, 1, vh::cat("hp", vh::S().evals)); theirs = t; }
			{
				std::vector<Fp> ps; ps.push_back(peer(theirs.diff(), theirs.height())); ps.push_back(peer(theirs.diff(), theirs.height())); HeaderSyncer hs(st()->cm, st()->node().chain);
				struct Open { int who; std::vector<Hash> loc; int64_t at; }; std::vector<Open> open; std::set<int> slow; uint64_t before = cur.height();
				auto tick = [&] {
					for (auto& p : ps) p.fence(); hs.SyncHeaders(status(), true);
					for (int i = 0; i < (int)ps.size(); i++) for (auto& m : ps[i].take()) if (m.type == MessageTypes::GetHeaders) { auto l = locators(m); checkLocators(l, n); for (auto& o : open) if (o.who == i && ctl::offset - o.at < 10 && st()->node().chain->GetHeight(EChainType::CANDIDATE) == before) vh::fail("asked-again", vh::cat(n, ": headers requested again ", ctl::offset - o.at, " s after an unanswered request")); before = st()->node().chain->GetHeight(EChainType::CANDIDATE); open.push_back({ i, l, ctl::offset }); }
					for (int i = 0; i < (int)ps.size(); i++) if (ps[i].banned() && !slow.count(i)) vh::fail("honest-peer-banned", vh::cat(n, ": a peer was banned that left no request unanswered for 10 s"));
				};
				for (int o : s) {
					tick(); Open q{ -1, {}, 0 }; if (!open.empty()) q = open.back();
					if (o == 5 || o == 6) { later(o == 5 ? 6 : 11); for (auto& x : open) if (ctl::offset - x.at >= 10) slow.insert(x.who); continue; }
					if (q.who < 0 || !ps[q.who].alive()) continue; Fp& p = ps[q.who]; auto ans = answer(q.loc, theirs);
					if (o == 0) { p.f->send(HeadersMessage(std::move(ans))); open.clear(); } if (o == 2) p.f->send(HeadersMessage(std::vector<BlockHeaderPtr>{}));
					if (o == 3) { ans.resize(std::min<size_t>(ans.size(), 3)); p.f->send(HeadersMessage(std::move(ans))); slow.insert(q.who); }
					if (o == 4) { p.leave(); open.clear(); } p.fence(); vh::S().transitions++;
				}
				tick(); std::vector<Fp*> pp; std::vector<std::unique_ptr<Fp>> extra; bool any = false; for (auto& p : ps) any |= p.alive();
				for (auto& p : ps) if (p.alive() && !slow.count((int)(&p - &ps[0]))) pp.push_back(&p);
				if (pp.empty()) { extra.emplace_back(new Fp(peer(theirs.diff(), theirs.height()))); pp.push_back(extra.back().get()); for (auto& p : ps) if (p.alive()) p.leave(); }
				else for (auto& p : ps) if (p.alive() && slow.count((int)(&p - &ps[0]))) p.leave();
				// what is still open is answered now
				for (auto& o : open) if (std::find(pp.begin(), pp.end(), &ps[o.who]) != pp.end()) { ps[o.who].f->send(HeadersMessage(answer(o.loc, theirs))); ps[o.who].fence(); }
				finishHeaders(hs, pp, theirs, n);
			}
			cur = theirs; if (st()->node().chain->GetTipBlockHeader(EChainType::CANDIDATE)->GetHash() != cur.h.back()->GetHash()) { drop(); of = nullptr; }
			else reset();
			if (cur.height() > 700) drop();
			vh::S().states++; vh::S().traces++; alarm(0); return;
		}
		for (int o = 0; o < K; o++) { s.push_back(o); rec(); s.pop_back(); }
	};
	rec();
}
// ---------- blocks ----------
static void base() { if (!st() || !ses.node || ses.used >= 400) { drop(); ses.begin(true); st().reset(new Stack(&ses)); } else ses.begin(); ses.tip->parent.reset(); ses.byHash.clear(); ses.all.clear(); }
static std::vector<BlkP> line(const BlkP& from, const std::string& nm, int n, uint64_t add = 1) { std::vector<BlkP> v; BlkP p = from; for (int i = 0; i < n; i++) { BlkOpt o; o.addDiff = add; p = mine(p, vh::cat(nm, i), {}, o); v.push_back(p); if (p->coinbase.o) reg(p->coinbase); ses.remember(p); } return v; }
static void give(const std::vector<BlkP>& v) { std::vector<BlockHeaderPtr> h; for (auto& b : v) h.push_back(b->full->GetHeader()); if (addHeaders(st()->node(), h) != OK) throw std::runtime_error("headers of blocks"); }
// what can be applied is applied (a thread of the node is at it as well)
static void applied(const std::vector<BlkP>& chain)
{
	auto& ch = *st()->node().chain;
	for (int i = 0; i < 3000; i++) { orphans(st()->node()); bool can = false; for (auto& b : chain) { if (ch.HasOrphan(b->hash())) { can = true; break; } if (ch.GetBlockByHash(b->hash()) == nullptr) break; } if (!can) return; usleep(1000); }
}
static void end(const BlkP& tip) { reset(); orphans(st()->node()); if (st()->node().chain->GetTipBlockHeader(EChainType::CONFIRMED)->GetHash() == tip->hash()) { ses.settle(tip); } else { drop(); ses.used = 1 << 29; } }
static void windows()
{
	// which of the first blocks are already there (stored or waiting for their parents), and how many peers there are
	int K = vh::thorough() ? 8 : 6;
	for (int peers = 1; peers <= 3; peers++) for (int len : { 5, 15, 16, 17, 31, 32, 33, 40 }) for (int have = 0; have < 1 << K; have++) {
		if (!vh::thorough() && !(have == 0 || (len == 5 && peers == 1) || (len == 40 && __builtin_popcount(have) <= (peers == 2 ? 2 : 1)))) continue; if (len < 8 && have >> len) continue; if (len == 5 && have == 31) continue;
		std::string n = vh::cat("blocks: ", len, " missing, of which there are ", have, ", ", peers, " peers"); if (!vh::begin(n)) continue; watchdog(120);
		base(); auto v = line(ses.tip, ses.prefix() + "w", len); give(v); std::vector<Fp> ps; for (int i = 0; i < peers; i++) ps.push_back(peer(v.back()->diff(), v.back()->height()));
		std::vector<int> miss; for (int i = 0; i < len; i++) if (i < K && (have >> i & 1)) addBlock(st()->node(), *v[i]->full); else miss.push_back(i); orphans(st()->node());
		BlockSyncer bs(st()->cm, st()->node().chain, st()->pipe); bs.SyncBlocks(status(), true);
		std::set<int> asked; std::map<B, int> at; for (int i = 0; i < len; i++) at[ref::bytes(v[i]->hash())] = i;
		for (auto& p : ps) { int last = -1; size_t cnt = 0; for (auto& m : p.take()) if (m.type == MessageTypes::GetBlock) { auto it = at.find(ref::bytes(wanted(m))); if (it == at.end()) { vh::fail("unknown-block-requested", n); continue; } int i = it->second; if (i < last) vh::fail("order", n + ": blocks are not requested in order"); last = i; cnt++; if (!asked.insert(i).second) vh::fail("requested-twice", n + ": the same block was requested from two peers at once"); } (void)cnt; }
		// the next missing ones, at most 16 for each peer
		std::set<int> want; for (int i : miss) if ((int)want.size() < 16 * peers) want.insert(i);
		if (asked != want) vh::fail("wrong-blocks-requested", vh::cat(n, ": ", asked.size(), " blocks were requested and not the ", want.size(), " that are missing next"));
		bs.SyncBlocks(status(), true); for (auto& p : ps) for (auto& m : p.take()) if (m.type == MessageTypes::GetBlock) { auto it = at.find(ref::bytes(wanted(m))); if (it == at.end() || asked.count(it->second)) { vh::fail("requested-twice", n + ": blocks were requested again at once"); break; } asked.insert(it->second); }
		for (int i = 0; i < len; i++) addBlock(st()->node(), *v[i]->full); ps.clear(); vh::S().states++; vh::S().transitions += len + 2; vh::S().traces++; vh::outcome(vh::cat(asked.size())); end(v.back()); alarm(0);
	}
}
// sequences of answers, silences, time, disconnections and header reorganisations
static void blockPeers()
{
	const std::vector<std::string> names = { "first", "last", "all", "+6 s", "+11 s", "a leaves", "b leaves", "fork" }; const int K = (int)names.size(); int depth = vh::thorough() ? 4 : 3;
	for (int npeers : { 1, 2 }) { std::vector<int> s; std::function<void()> rec = [&] {
		if ((int)s.size() == depth) {
			std::vector<std::string> nm; for (int o : s) nm.push_back(names[o]); std::string n = vh::cat("block peers ", npeers, ": ", seqName(nm)); if (!vh::begin(n)) return; watchdog(120);
			base(); auto px = ses.prefix(); auto v = line(ses.tip, px + "m", 7); auto fk = line(v[0], px + "f", 8, 2); give(v); std::vector<BlkP> target = v; std::map<B, BlkP> by; for (auto& b : v) by[ref::bytes(b->hash())] = b; for (auto& b : fk) by[ref::bytes(b->hash())] = b;
			{
				std::vector<Fp> ps; for (int i = 0; i < npeers; i++) ps.push_back(peer(v.back()->diff(), v.back()->height())); BlockSyncer bs(st()->cm, st()->node().chain, st()->pipe);
				struct Req { int who; BlkP b; int64_t at; bool done; }; std::vector<Req> reqs; std::set<int> slow; auto& ch = *st()->node().chain; bool forked = false;
				auto tick = [&](bool full) {
					for (auto& p : ps) p.fence(); bs.SyncBlocks(status(), true);
					for (int i = 0; i < (int)ps.size(); i++) for (auto& m : ps[i].take()) if (m.type == MessageTypes::GetBlock) {
						auto it = by.find(ref::bytes(wanted(m))); if (it == by.end()) { vh::fail("unknown-block-requested", n); continue; } BlkP b = it->second;
						if (ch.GetBlockByHash(b->hash()) != nullptr || ch.HasOrphan(b->hash())) vh::fail("requested-in-vain", vh::cat(n, ": block ", b->height(), " was requested though it is there"));
						auto c = ch.GetBlockHeaderByHeight(b->height(), EChainType::CANDIDATE); if (!c || c->GetHash() != b->hash()) vh::fail("requested-off-chain", vh::cat(n, ": a block was requested that is not on the best header chain"));
						for (auto& r : reqs) if (r.b == b && !r.done && ctl::offset - r.at < 5 && !slow.count(r.who) && ps[r.who].alive()) vh::fail("requested-twice", vh::cat(n, ": block ", b->height(), " requested again after ", ctl::offset - r.at, " s"));
						reqs.push_back({ i, b, ctl::offset, false });
					}
					for (int i = 0; i < (int)ps.size(); i++) if (ps[i].banned() && !slow.count(i)) vh::fail("honest-peer-banned", vh::cat(n, ": a peer was banned that left no request unanswered for 5 s"));
					if (full) { std::set<B> out; for (auto& r : reqs) if (!r.done) out.insert(ref::bytes(r.b->hash())); for (auto& b : target) if (!ch.HasBlock(b->height(), b->hash()) && !ch.HasOrphan(b->hash()) && !out.count(ref::bytes(b->hash()))) { vh::fail("not-requested", vh::cat(n, ": block ", b->height(), " is missing and nobody was asked for it")); break; } }
				};
				auto reply = [&](Req& r) { if (r.done) return; r.done = true; for (auto& q : reqs) if (q.b == r.b) q.done = true; addBlock(st()->node(), *r.b->full); applied(target); vh::S().transitions++; };
				tick(true);
				for (int o : s) {
					std::vector<size_t> pend; for (size_t i = 0; i < reqs.size(); i++) if (!reqs[i].done && ps[reqs[i].who].alive()) pend.push_back(i);
					if (o == 0 && !pend.empty()) reply(reqs[pend.front()]); if (o == 1 && !pend.empty()) reply(reqs[pend.back()]); if (o == 2) for (size_t i : pend) reply(reqs[i]);
					if (o == 3 || o == 4) { later(o == 3 ? 6 : 11); for (auto& r : reqs) if (!r.done && ctl::offset - r.at >= 5) slow.insert(r.who); }
					if ((o == 5 || o == 6) && o - 5 < npeers && ps[o - 5].alive()) { ps[o - 5].leave(); slow.insert(o - 5); }
					if (o == 7 && !forked) { forked = true; give(fk); target = fk; target.insert(target.begin(), v[0]); for (auto& p : ps) p.greet(fk.back()->diff(), fk.back()->height()); }
					tick(false);
				}
				// from here on everybody answers; who did not is gone
				for (int i = 0; i < (int)ps.size(); i++) if (ps[i].alive() && slow.count(i)) { ps[i].leave(); } std::set<int> left = slow;
				bool any = false; for (auto& p : ps) any |= p.alive(); if (!any) ps.push_back(peer(target.back()->diff(), target.back()->height()));
				for (int i = 0; i < 12 && ch.GetTipBlockHeader(EChainType::CONFIRMED)->GetHash() != target.back()->hash(); i++) {
					tick(false); bool did = false; for (size_t k = 0; k < reqs.size(); k++) if (!reqs[k].done && ps[reqs[k].who].alive()) { reply(reqs[k]); did = true; }
					if (!did) { later(6); for (auto& r : reqs) if (!r.done && ctl::offset - r.at >= 5) slow.insert(r.who); }
				}
				if (ch.GetTipBlockHeader(EChainType::CONFIRMED)->GetHash() != target.back()->hash()) vh::fail("blocks-not-reached", vh::cat(n, ": with peers that answer everything the node stays at height ", ch.GetHeight(EChainType::CONFIRMED), " instead of ", target.back()->height()));
				vh::outcome(vh::cat(reqs.size(), " ", slow.size()));
				for (auto& b : target) addBlock(st()->node(), *b->full);
			}
			end(target.back()); vh::S().states++; vh::S().traces++; alarm(0); return;
		}
		for (int o = 0; o < K; o++) { if (npeers == 1 && o == 6) continue; s.push_back(o); rec(); s.pop_back(); }
	}; rec(); }
}
// ---------- state ----------
static void states()
{
	const uint64_t W = 10080, T = 2880; static bool big = false;
	for (auto sy : { ESyncStatus::SYNCING_HEADERS, ESyncStatus::SYNCING_BLOCKS, ESyncStatus::NOT_SYNCING, ESyncStatus::PROCESSING_TXHASHSET, ESyncStatus::TXHASHSET_SYNC_FAILED, ESyncStatus::SYNCING_TXHASHSET }) for (uint64_t H : { (uint64_t)0, (uint64_t)1, T - 1, T, W - 1, W, W + 1, W + 20 }) for (uint64_t Bh : { (uint64_t)0, (uint64_t)1, (uint64_t)2, (uint64_t)19, (uint64_t)20, (uint64_t)21, T, W - 1, W, W + 20 }) {
		if (Bh > H) continue; std::string n = vh::cat("state: headers ", H, " blocks ", Bh, " status ", (int)sy); if (!vh::begin(n)) continue; watchdog(300);
		if (!big) { chains(0, 0, 1, 10110, 1); bare(theirs); big = true; }
		{
			Fp x = peer(theirs.diff(), theirs.height()); SyncStatus s; s.UpdateStatus(sy); s.UpdateHeaderStatus(H, H + 1); s.UpdateBlockStatus(Bh, Bh + 1, 0); StateSyncer ss(st()->cm, st()->node().chain); bool r = ss.SyncState(s); std::vector<Msg> m; for (auto& y : x.take()) if (y.type == MessageTypes::TxHashSetRequest) m.push_back(y);
			bool far = H > W && Bh < H - W, edge = H >= W && Bh == H - W;
			if (edge) { } // either will do
			else if (!far && (r || !m.empty())) vh::fail(m.empty() ? "state-blocks-held" : "state-requested", vh::cat(n, m.empty() ? ": waits for the state of the chain though the blocks suffice, so no block is ever requested" : ": the state of the chain was requested though the blocks suffice"));
			else if (far && !r) vh::fail("state-not-awaited", n + ": blocks are requested that are beyond the horizon");
			else if (far && sy != ESyncStatus::PROCESSING_TXHASHSET && m.size() != 1) vh::fail("state-not-requested", vh::cat(n, ": ", m.size(), " requests for the state of the chain"));
			else if (far && sy == ESyncStatus::PROCESSING_TXHASHSET && !m.empty()) vh::fail("state-requested", n + ": requested while one is being processed");
			if (far && !m.empty()) { ByteBuffer b(m[0].body); auto q = TxHashSetRequestMessage::Deserialize(b); ByteBuffer b2(std::vector<uint8_t>(m[0].body.begin() + 32, m[0].body.end())); if (b2.ReadU64() != H - T || q.GetBlockHash() != theirs.h[H - T]->GetHash()) vh::fail("state-of-wrong-block", n + ": the state requested is not that of the header two days below the tip"); }
			if (far && sy == ESyncStatus::SYNCING_HEADERS) {
				// nothing comes: another peer is asked after 10 s, and not before
				Fp y = peer(theirs.diff(), theirs.height()); later(6); x.fence(); y.fence(); ss.SyncState(s); size_t k = 0; for (auto* p : { &x, &y }) for (auto& q : p->take()) k += q.type == MessageTypes::TxHashSetRequest; if (k) vh::fail("state-requested", n + ": requested again after 6 s");
				later(6); x.fence(); y.fence(); ss.SyncState(s); k = 0; for (auto* p : { &x, &y }) for (auto& q : p->take()) k += q.type == MessageTypes::TxHashSetRequest; if (k != 1 && !(x.banned() && k == 0)) vh::fail("state-not-requested", vh::cat(n, ": nobody else was asked after 12 s of silence"));
				// while it comes the request stands
				s.UpdateStatus(ESyncStatus::SYNCING_TXHASHSET);
			}
			vh::outcome(vh::cat((int)sy, r, m.size())); vh::S().transitions++;
		}
		reset(); vh::S().states++; vh::S().traces++; alarm(0);
	}
}
// ---------- the whole: the synchronisation thread against an honest peer ----------
static void whole()
{
	struct S { int a, wa, b; }; std::vector<S> v; for (int a = 0; a <= 3; a++) for (int b : { 1, 2, 3, 4, 5, 6, 9, 17, 40 }) if (b > a) { v.push_back({ a, 1, b }); if (a && b > 2 * a) v.push_back({ a, 2, b }); } v.push_back({ 0, 1, 150 }); v.push_back({ 70, 2, 150 });
	for (auto& s : v) {
		std::string n = vh::cat("whole: ", s.a, " own blocks of work ", s.wa, ", ", s.b, " of the peer"); if (!vh::begin(n)) continue; watchdog(200); base(); auto px = ses.prefix();
		for (auto& b : line(ses.tip, px + "o", s.a, s.wa)) if (addBlock(st()->node(), *b->full) != OK) throw std::runtime_error("own");
		auto t = line(ses.tip, px + "t", s.b); HC c; for (uint64_t h = 0; h <= ses.tip->height(); h++) c.h.push_back(st()->node().chain->GetBlockHeaderByHeight(h, EChainType::CONFIRMED)); for (auto& b : t) c.h.push_back(b->full->GetHeader());
		std::map<B, BlkP> by; for (auto& b : t) by[ref::bytes(b->hash())] = b; int asked = 0;
		{
			Global::GetConfig().SetMinPeers(1); std::vector<Fp> xs; while ((int)xs.size() < std::max<int>(1, Global::GetConfig().GetMinSyncPeers())) xs.push_back(peer(t.back()->diff(), t.back()->height())); auto sy = Syncer::Create(st()->cm, st()->node().chain, st()->pipe, st()->sync);
			auto t0 = std::chrono::steady_clock::now(); bool done = false, bad = false; int turn = 0;
			while (!done && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(60)) {
				st()->run(2); if (++turn % 400 == 0) for (auto& x : xs) x.fence(); for (auto& x : xs) { Msg y; x.f->pull(); while (x.f->next(y)) if (y.type != MessageTypes::Ping && y.type != MessageTypes::Pong) x.got.push_back(y); }
				for (auto& x : xs) for (auto& m : std::exchange(x.got, {})) {
					if (m.type == MessageTypes::GetHeaders) { auto l = locators(m); x.f->send(HeadersMessage(answer(l, c))); asked++; }
					if (m.type == MessageTypes::GetBlock) { auto it = by.find(ref::bytes(wanted(m))); asked++; if (it != by.end()) x.f->send(BlockMessage(wire(*it->second->full))); else vh::fail("unknown-block-requested", n); }
				}
				bool lost = false; for (auto& x : xs) lost |= !x.alive(); if (lost) { bad = true; vh::fail("honest-peer-banned", n + ": a peer was banned or disconnected"); break; }
				done = st()->node().chain->GetTipBlockHeader(EChainType::CONFIRMED)->GetHash() == t.back()->hash() && st()->sync->GetStatus() == ESyncStatus::NOT_SYNCING; usleep(500);
			}
			if (!done && !bad) vh::fail("sync-not-done", vh::cat(n, ": the node stays at height ", st()->node().chain->GetHeight(EChainType::CONFIRMED), " of ", t.back()->height(), ", headers ", st()->node().chain->GetHeight(EChainType::CANDIDATE), ", status ", (int)st()->sync->GetStatus(), " after ", asked, " requests"));
			sy.reset(); vh::outcome(vh::cat("whole ", asked)); vh::S().transitions += asked;
		}
		end(t.back()); vh::S().states++; vh::S().traces++; alarm(0);
	}
}
static void run() { ses.maxUse = 1 << 30; ses.begin(true); whole(); states(); headerShapes(); windows(); headerPeers(); blockPeers(); }
VH_MAIN({ run(); })
