// C19: bans, forgetting and choice of peers.  The real PeerManager (and in one part the real PeerDB) is driven through
// every sequence of operations up to a depth, each distinct state once, under a clock and random numbers of the explorer;
// after every step all its answers are compared with a plain table.
#include "vh.h"
#include "ctl.h"
#include <asio.hpp>
#include <Net/SocketAddress.h>
#include <P2P/Peer.h>
#include <Database/PeerDB.h>
#include <Core/Context.h>
#include <Crypto/CSPRNG.h>
#include <unordered_map>
#include <unordered_set>
#define private public
#include "P2P/Seed/PeerManager.h"
#undef private
#include "P2P/Seed/PeerManager.cpp"
#include "Database/PeerDBImpl.h"
static const int NP = 3;
static const int64_t BAN = 10800, RETRY = 300, WEEK = 7 * 86400;
static IPAddress addr(int i) { static const uint8_t o[4] = { 9, 200, 71, 4 }; return IPAddress::CreateV4({ o[i], 1, 2, (uint8_t)(3 + i) }); }
static int which(const IPAddress& a) { for (int i = 0; i <= NP; i++) if (a == addr(i)) return i; return -1; }
struct MemDB : public IPeerDB {
	std::map<IPAddress, std::vector<unsigned char>> m;
	std::vector<PeerPtr> LoadAllPeers() const override { std::vector<PeerPtr> r; for (auto& e : m) r.push_back(get(e.second)); return r; }
	static PeerPtr get(const std::vector<unsigned char>& v) { ByteBuffer b(std::vector<unsigned char>(v), EProtocolVersion::V2); return Peer::Deserialize(b); }
	std::optional<PeerPtr> GetPeer(const IPAddress& a, const std::optional<uint16_t>&) const override { auto i = m.find(a); if (i == m.end()) return std::nullopt; return std::make_optional(get(i->second)); }
	void SavePeers(const std::vector<PeerPtr>& v) override { for (auto& p : v) { Serializer s(EProtocolVersion::V2); p->Serialize(s); m[p->GetIPAddress()] = std::vector<unsigned char>(s.data(), s.data() + s.size()); } }
	void DeletePeers(const std::vector<PeerPtr>& v) override { for (auto& p : v) m.erase(p->GetIPAddress()); }
	void Commit() override {} void Rollback() noexcept override {}
};
struct MP { bool known = false, fast = false, conn = false, dirty = false; int64_t ban = 0, attempt = 0, contact = 0; };
static int64_t now() { return ctl::fixed; }
static std::shared_ptr<Context> ctx; static std::shared_ptr<PeerDB> realDB;
static std::vector<std::vector<unsigned>> seeds; // seeds[n][k]: a seed with which a number up to n comes out as k
static void findSeeds()
{
	ctl::fixedSeed = true; seeds.assign(NP + 2, {});
	for (int n = 1; n <= NP + 1; n++) { std::map<uint64_t, unsigned> f; for (unsigned s = 1; s < 2000 && (int)f.size() < n + 1; s++) { ctl::seed = s; f.emplace(CSPRNG::GenerateRandom(0, n), s); } for (auto& e : f) seeds[n].push_back(e.second); }
}
struct W
{
	std::shared_ptr<Locked<IPeerDB>> db; std::unique_ptr<PeerManager> pm; MP m[NP + 1]; std::string hist;
	W(bool real)
	{
		ctl::fixed = 1700000000;
		std::shared_ptr<IPeerDB> d;
		if (real) { auto all = realDB->LoadAllPeers(); realDB->DeletePeers(all); d = realDB; } else d = std::make_shared<MemDB>();
		db = std::make_shared<Locked<IPeerDB>>(d);
		pm.reset(new PeerManager(ctx, db));
	}
	bool banned(const MP& p) const { return p.ban > now() - BAN; }
	bool eligible(const MP& p) const { return p.known && !banned(p) && !p.conn && now() - p.attempt > RETRY; }
	int count() const { int c = 0; for (auto& p : m) c += p.known; return c; }
	void bad(const std::string& k, const std::string& d) { vh::fail(k, vh::cat("after", hist, ": ", d)); }
	static std::string nm(int i) { return std::string(1, (char)('A' + i)); }
	// forget: what may be dropped is only a peer not heard from for a week, and not while it is banned
	void manage()
	{
		PeerManager::Thread_ManagePeers(*pm);
		auto in = db->Read()->LoadAllPeers(); std::set<int> saved; for (auto& p : in) saved.insert(which(p->GetIPAddress()));
		for (int i = 0; i <= NP; i++) {
			bool have = pm->m_peersByAddress.count(addr(i)) > 0;
			if (m[i].known && !have) {
				bool old = m[i].contact > 0 && m[i].contact < now() - WEEK;
				if (banned(m[i])) bad("ban-forgotten", nm(i) + " is banned but its entry, with the ban, was dropped");
				else if (!old) bad("forgotten", nm(i) + " was dropped though it was not out of contact for a week");
				if (saved.count(i)) bad("forgotten-db", nm(i) + " was dropped but is still in the database");
				m[i] = MP();
			} else if (!m[i].known && have) bad("known", nm(i) + " appeared from nowhere");
			else if (have && m[i].dirty) {
				if (!saved.count(i)) bad("unsaved", nm(i) + " was changed but was not saved"); m[i].dirty = false;
			}
		}
		for (auto& p : in) { int i = which(p->GetIPAddress()); if (i < 0) { bad("db-unknown", p->GetIPAddress().Format() + " is in the database"); continue; } if (m[i].known && p->GetLastBanTime() != m[i].ban && !pm->m_peersByAddress.at(p->GetIPAddress()).m_peer->IsDirty()) bad("db-ban", vh::cat(nm(i), " has ban time ", p->GetLastBanTime(), " in the database, expected ", m[i].ban)); }
	}
	void choose(Capabilities::ECapability c, int k)
	{
		int n = count(); if (n > 0 && k < (int)seeds[n].size()) ctl::seed = seeds[n][k];
		PeerPtr p = pm->GetNewPeer(c);
		std::string el, elc; for (int i = 0; i <= NP; i++) if (eligible(m[i])) { el += nm(i); if ((uint32_t)c == 0 || m[i].fast) elc += nm(i); }
		if (!p) { if (!el.empty()) bad("none-chosen", vh::cat("asked for a new peer (start ", k, "), got none, though these can be used: ", el)); return; }
		int i = which(p->GetIPAddress());
		if (i < 0 || !m[i].known) { bad("chosen-unknown", "chose a peer that is not known"); return; }
		if (banned(m[i])) bad("chosen-banned", vh::cat("chose ", nm(i), " banned ", now() - m[i].ban, " s ago"));
		else if (!eligible(m[i])) bad("chosen", vh::cat("chose ", nm(i), m[i].conn ? " which is connected" : vh::cat(" tried ", now() - m[i].attempt, " s ago")));
		else if (!elc.empty() && elc.find(nm(i)) == std::string::npos) bad("chosen-capability", vh::cat("chose ", nm(i), " though these have the capability asked for: ", elc));
		m[i].attempt = now();
	}
	PeerPtr ptr(int i) { auto p = pm->GetPeer(addr(i)); if (!p || !(p->GetIPAddress() == addr(i))) bad("get", "GetPeer gave another peer than " + nm(i)); m[i].known = true; return p; }
	void check()
	{
		const PeerManager& c = *pm;
		int n = count(); std::set<std::string> all;
		for (auto& p : c.GetAllPeers()) all.insert(p->GetIPAddress().Format());
		std::set<std::string> want; for (int i = 0; i <= NP; i++) if (m[i].known && m[i].contact > 0) want.insert(addr(i).Format());
		if (all != want) bad("all", vh::cat("GetAllPeers gave ", all.size(), " peers, expected ", want.size()));
		for (int i = 0; i <= NP; i++) {
			auto p = c.GetPeer(addr(i)); vh::S().evals++;
			if (!m[i].known) { if (p && (*p)->IsBanned()) bad("banned", "unknown peer " + nm(i) + " reported banned"); continue; }
			if (!p) { bad("lost", nm(i) + " is not found"); continue; }
			if ((*p)->IsBanned() != banned(m[i])) bad("banned", vh::cat(nm(i), (*p)->IsBanned() ? " counts as banned" : " does not count as banned", ", last ban ", m[i].ban ? vh::cat(now() - m[i].ban, " s ago") : std::string("never or lifted")));
			if ((*p)->IsConnected() != m[i].conn) bad("connected", nm(i));
			if ((*p)->GetCapabilities().HasCapability(Capabilities::FAST_SYNC_NODE) != m[i].fast) bad("capability", nm(i));
			m[i].dirty = m[i].dirty || (*p)->IsDirty();
		}
		for (auto cap : { Capabilities::UNKNOWN, Capabilities::FAST_SYNC_NODE, Capabilities::FULL_HIST }) for (int max : { 1, 2, 256 }) {
			std::set<int> have; for (int i = 0; i <= NP; i++) if (m[i].known && (cap == Capabilities::UNKNOWN || m[i].fast)) have.insert(i);
			if (have.empty()) for (int i = 0; i <= NP; i++) if (m[i].known) have.insert(i);
			size_t need = std::min<size_t>(have.size(), (size_t)max);
			for (int k = 0; k <= (n ? n : 0); k++) {
				if (n > 0) ctl::seed = seeds[n][k];
				auto v = c.GetPeers(cap, (uint16_t)max); std::set<int> got; vh::S().evals++;
				for (auto& p : v) { int i = which(p->GetIPAddress()); got.insert(i); if (!have.count(i)) bad("list", vh::cat("GetPeers(", (int)cap, ",", max, ") gave ", i < 0 ? "an unknown peer" : nm(i), " which has not that capability")); }
				if (got.size() != v.size()) bad("list-twice", vh::cat("GetPeers(", (int)cap, ",", max, ") gave a peer twice"));
				if (v.size() != need) bad("list-size", vh::cat("GetPeers(", (int)cap, ",", max, ") start ", k, " gave ", v.size(), " peers of ", have.size()));
			}
		}
	}
	std::string key() const
	{
		std::string s; auto age = [&](int64_t t, int64_t cap) { return t == 0 ? std::string("-") : std::to_string(std::min(now() - t, cap)); };
		for (auto& p : m) s += vh::cat(p.known, p.fast, p.conn, p.dirty, ",", age(p.ban, BAN + 1), ",", age(p.attempt, RETRY + 1), ",", age(p.contact, WEEK + 1), ";");
		return s;
	}
};
struct Op { std::string n; std::function<bool(const W&)> en; std::function<void(W&)> f; };
static std::vector<Op> ops;
static void mkOps()
{
	auto add = [&](const std::string& n, std::function<void(W&)> f, std::function<bool(const W&)> e = nullptr) { ops.push_back({ n, e, f }); };
	for (int i = 0; i < NP; i++) {
		std::string s = W::nm(i); auto known = [i](const W& w) { return w.m[i].known; };
		add("hear" + s, [i](W& w) { auto p = w.ptr(i); p->UpdateLastContactTime(); w.m[i].contact = now(); });
		add("cap" + s, [i](W& w) { auto p = w.ptr(i); w.m[i].fast = !w.m[i].fast; p->UpdateCapabilities(Capabilities(w.m[i].fast ? Capabilities::ARCHIVE_NODE : Capabilities::PEER_LIST)); }, known);
		add("conn" + s, [i](W& w) { auto p = w.ptr(i); w.m[i].conn = !w.m[i].conn; p->SetConnected(w.m[i].conn); w.m[i].dirty = true; if (w.m[i].conn) { p->UpdateLastContactTime(); w.m[i].contact = now(); } }, known);
		add("ban" + s, [i](W& w) { bool k = w.m[i].known; w.pm->BanPeer(addr(i), EBanReason::ManualBan); w.m[i].known = true; w.m[i].ban = now(); w.m[i].dirty = true; if (!k) w.m[i].attempt = now(); });
		add("unban" + s, [i](W& w) { w.pm->UnbanPeer(addr(i)); w.m[i].ban = 0; w.m[i].dirty = true; }, [i](const W& w) { return w.m[i].known && w.m[i].ban > 0; });
	}
	add("freshABC", [](W& w) { w.pm->AddFreshPeers({ SocketAddress(addr(0), 3414), SocketAddress(addr(1), 1), SocketAddress(addr(2), 3414) }); for (int i = 0; i < NP; i++) w.m[i].known = true; });
	add("freshB", [](W& w) { w.pm->AddFreshPeers({ SocketAddress(addr(1), 3414), SocketAddress(addr(1), 3415) }); w.m[1].known = true; });
	for (int64_t d : { (int64_t)1, RETRY, BAN - 1, WEEK - 2 * 3600 }) add(vh::cat("+", d), [d](W&) { ctl::fixed += d; });
	add("manage", [](W& w) { w.manage(); });
	for (int k = 0; k <= NP + 1; k++) add(vh::cat("new@", k), [k](W& w) { w.choose(Capabilities::FAST_SYNC_NODE, k); }, [k](const W& w) { return k <= w.count(); });
	add("newany@1", [](W& w) { w.choose(Capabilities::UNKNOWN, 1); });
}
static void apply(W& w, int o) { w.hist += " " + ops[o].n; ops[o].f(w); vh::S().transitions++; }
static void explore(const std::string& name, std::vector<int> prefix, int depth, bool real)
{
	if (!vh::begin(name)) return;
	std::unordered_set<std::string> seen; std::vector<std::vector<int>> level = { prefix };
	for (size_t d = prefix.size(); d <= (size_t)depth && !level.empty(); d++) {
		std::vector<std::vector<int>> next;
		for (auto& path : level) {
			W w(real); bool ok = true;
			for (size_t j = 0; j < path.size(); j++) { if (ops[path[j]].en && !ops[path[j]].en(w)) { ok = false; break; } apply(w, path[j]); if (j + 1 == path.size()) w.check(); }
			if (!ok || vh::outOfTime()) continue;
			vh::S().traces++;
			if (!seen.insert(w.key()).second) continue;
			vh::S().states++; vh::outcome(w.key()); if (w.count() > 1) vh::S().nontrivial++;
			if (d < (size_t)depth) for (size_t o = 0; o < ops.size(); o++) if (!ops[o].en || ops[o].en(w)) { auto p = path; p.push_back((int)o); next.push_back(p); }
		}
		level = std::move(next);
	}
}
static void run()
{
	mkOps();
	auto idx = [&](const std::string& n) { for (size_t i = 0; i < ops.size(); i++) if (ops[i].n == n) return (int)i; abort(); };
	int T = vh::thorough() ? 1 : 0;
	for (size_t o = 0; o < ops.size(); o++) explore("from nothing, first " + ops[o].n, { (int)o }, 4 + T, false);
	// starts that the interesting histories need, from each of which every sequence is explored
	std::vector<std::vector<std::string>> pre = { { "freshABC" }, { "freshABC", "capA" }, { "freshABC", "capA", "capC" }, { "freshABC", "banA" }, { "freshABC", "capB", "banB" }, { "freshABC", "hearA", "+604799", "banA", "manage" }, { "freshABC", "banA", "banB", "manage" }, { "hearA", "connA", "banA" } };
	for (auto& p : pre) for (auto& s : p) if (s == "+604799") s = vh::cat("+", WEEK - 2 * 3600);
	for (auto& p : pre) for (size_t o = 0; o < ops.size(); o++) { std::vector<int> v; std::string n = "start"; for (auto& s : p) { v.push_back(idx(s)); n += " " + s; } v.push_back((int)o); explore(n + " then " + ops[o].n, v, (int)v.size() + 2 + T, false); }
	for (size_t o = 0; o < ops.size(); o++) explore("real database, first " + ops[o].n, { (int)o }, 3 + T, true);
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	{
		ConfigPtr cfg = Config::Default(Environment::AUTOMATED_TESTING); 
		ctx = std::make_shared<Context>(Environment::AUTOMATED_TESTING, cfg, std::make_shared<Bosma::Scheduler>(1)); Global::Init(ctx);
		realDB = PeerDB::OpenDB(*cfg);
		findSeeds(); run();
		}
	vh::fini(); _exit(0);
}
