// C09: snapshots of every block of a history, installed on every kind of receiver, and every single-record alteration of one.
#include "tree.h"
#include <minizip/zip.h>
#include <minizip/unzip.h>
#include <P2P/SyncStatus.h>
#include <Roaring.h>
#include <fstream>
using namespace ch;
typedef std::vector<std::pair<std::string, B>> Files;
static Files readZip(const std::string& p)
{
	Files f; unzFile z = unzOpen(p.c_str()); if (!z) return f;
	if (unzGoToFirstFile(z) == UNZ_OK) do {
		char n[512]; unz_file_info i; unzGetCurrentFileInfo(z, &i, n, 512, nullptr, 0, nullptr, 0);
		B b(i.uncompressed_size, 0); unzOpenCurrentFile(z); size_t o = 0; while (o < b.size()) { int k = unzReadCurrentFile(z, &b[o], (unsigned)(b.size() - o)); if (k <= 0) break; o += k; } unzCloseCurrentFile(z);
		f.push_back({ n, b });
	} while (unzGoToNextFile(z) == UNZ_OK);
	unzClose(z); return f;
}
static void writeZip(const std::string& p, const Files& f)
{
	unlink(p.c_str()); zipFile z = zipOpen(p.c_str(), APPEND_STATUS_CREATE);
	for (auto& x : f) { zip_fileinfo zi; memset(&zi, 0, sizeof zi); zipOpenNewFileInZip(z, x.first.c_str(), &zi, nullptr, 0, nullptr, 0, nullptr, 0, 0); zipWriteInFileInZip(z, x.second.data(), (unsigned)x.second.size()); zipCloseFileInZip(z); }
	zipClose(z, nullptr);
}
static void writeFile(const std::string& p, const B& b) { std::ofstream o(p, std::ios::binary | std::ios::trunc); o.write(b.data(), b.size()); }
static B readFile(const std::string& p) { std::ifstream i(p, std::ios::binary); return B((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
// ---- history ----
static std::vector<BlkP> A, F, G; // main chain (by height), a lighter fork from below, a heavier fork from above
static std::map<B, BlkP> by; static std::set<B> all;
static void remember(const BlkP& b) { by[ref::bytes(b->hash())] = b; if (b->coinbase.o) reg(b->coinbase); for (auto& o : b->full->GetOutputs()) all.insert(ref::bytes(o.GetCommitment())); }
static void history()
{
	A.push_back(genesis()); remember(A[0]);
	auto add = [&](std::vector<BlkP>& v, const BlkP& p, const std::string& n, std::vector<TransactionPtr> t, uint64_t d = 1) { BlkOpt o; o.addDiff = d; v.push_back(mine(p, n, t, o)); remember(v.back()); return v.back(); };
	for (int i = 0; i < 27; i++) add(A, A.back(), vh::cat("b", i), {});
	std::vector<std::pair<std::string, uint64_t>> o; for (int i = 0; i < 6; i++) o.push_back({ "P" + std::to_string(i), 7000000000ull });
	std::vector<Out> P, q, r, s, f; add(A, A.back(), "refill", { spend({ A[1]->coinbase }, o, &P) }, 2);
	BlkP t = A.back();
	add(A, A.back(), "a1", { spend({ P[0], P[1] }, { { "x", 3000000000ull }, { "y", 0 } }, &q) }, 2);
	add(A, A.back(), "a2", { spend({ q[0] }, { { "z", 0 } }, &r), spend({ P[2] }, { { "w1", 1000000000ull }, { "w2", 0 } }) }, 2);
	BlkP a2 = A.back();
	add(A, A.back(), "a3", { spend({ r[0], A[2]->coinbase }, { { "v", 0 } }, &s) }, 2);
	add(A, A.back(), "a4", { spend({ P[3] }, { { "sh", 5000000000ull }, { "sh2", 0 } }) }, 2);   // "sh" also exists on the fork F
	add(A, A.back(), "a5", { spend({ s[0] }, { { "u", 0 } }) }, 2);
	add(A, A.back(), "a6", { spend({ P[5], A[3]->coinbase }, { { "fh", 2000000000ull - FEE }, { "f6", 14000000000ull - 2 * FEE }, { "rest", 0 } }) }, 2); // "fh" and "f6" also exist on the fork F
	add(F, t, "f1", { spend({ P[3] }, { { "sh", 5000000000ull }, { "fh", 0 } }), spend({ P[4] }, { { "f5", 0 } }, &f) });
	add(F, F.back(), "f2", { spend({ f[0], P[0] }, { { "f6", 0 } }) });
	add(G, a2, "g3", { spend({ P[4] }, { { "g1", 0 } }) }); add(G, G.back(), "g4", {}); add(G, G.back(), "g5", {}, 9);
}
static SyncStatus& sst() { static SyncStatus s; return s; }
static std::vector<BlockHeaderPtr> headersOf(const BlkP& tip) { std::vector<BlockHeaderPtr> h; for (auto* b : chainOf(*tip)) if (b->height()) h.push_back(b->header()); return h; }
// bodies below the snapshot are not there: look at those above only
static std::string look(Node& n, const Blk& b, uint64_t bodiesFrom)
{
	auto c = chainOf(b); std::vector<const Blk*> up; for (auto* x : c) if (x->height() >= bodiesFrom || x->height() == 0) up.push_back(x);
	std::string d = diffState(n, b, up, all, &c); if (!d.empty()) return d;
	for (auto* x : c) { auto h = n.chain->GetBlockHeaderByHeight(x->height(), EChainType::CONFIRMED); if (!h || h->GetHash() != x->hash()) return vh::cat("confirmed chain differs at height ", x->height()); }
	return diffHeaderState(n, by);
}
static bool install(Node& n, const BlkP& b, const std::string& zip)
{
	std::string tmp = n.dir + ".zip"; writeFile(tmp, readFile(zip)); bool ok = false;
	try { ok = n.chain->ProcessTransactionHashSet(b->hash(), fs::path(tmp), sst()) == EBlockChainStatus::SUCCESS; } catch (std::exception& e) { vh::fail("throws", std::string("installing throws ") + e.what()); }
	unlink(tmp.c_str()); return ok;
}
struct Receiver { std::string name; std::vector<BlkP> blocks; };
static std::vector<Receiver> receivers()
{
	std::vector<Receiver> r; r.push_back({ "headers-only", {} });
	r.push_back({ "some-blocks", std::vector<BlkP>(A.begin() + 1, A.begin() + 6) });
	r.push_back({ "refilled", std::vector<BlkP>(A.begin() + 1, A.begin() + 29) });
	Receiver f{ "on-fork", std::vector<BlkP>(A.begin() + 1, A.begin() + 29) }; for (auto& b : F) f.blocks.push_back(b); r.push_back(f);
	return r;
}
static void prepare(const Receiver& r, const std::string& dir) { Node n(dir); for (auto& b : r.blocks) if (addBlock(n, *b->full) != OK) vh::fail("base", "cannot build the receiver " + r.name); addHeaders(n, headersOf(A.back())); n.close(); }
static std::string snapDir; static std::string zipAt(uint64_t h) { return snapDir + "/" + std::to_string(h) + ".zip"; }
static std::string takeSnapshot(Node& n, const BlkP& b, const std::string& to)
{
	try { fs::path p = n.chain->SnapshotTxHashSet(b->header()); B c = readFile(p.string()); unlink(p.string().c_str()); if (c.empty()) return "the snapshot is empty"; writeFile(to, c); } catch (std::exception& e) { return std::string("throws ") + e.what(); }
	return "";
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	setenv("TMPDIR", (vh::S().scratch + "/tmp").c_str(), 1); mkdir((vh::S().scratch + "/tmp").c_str(), 0777); mkdir((vh::S().scratch + "/tmp/Snapshots").c_str(), 0777);
	useDir(vh::freshDir("model")); history(); snapDir = vh::freshDir("snaps");
	const uint64_t top = A.back()->height(), low = vh::thorough() ? 1 : 26;
	bool T = vh::thorough();
	// ---- taking snapshots leaves the giver as it was ----
	std::string srcDir = vh::freshDir("src");
	{
		Node n(srcDir); for (size_t i = 1; i < A.size(); i++) { addBlock(n, *A[i]->full); if (A[i]->height() == 30) for (auto& b : F) addBlock(n, *b->full); }
		if (tipOf(n).hash != ref::bytes(A.back()->hash())) vh::fail("base", "the giver has no main chain");
		for (uint64_t h = low; h <= top; h++) {
			std::string e = takeSnapshot(n, A[h], zipAt(h));
			if (!e.empty()) vh::fail("snapshot-fails", vh::cat("no snapshot at height ", h, ": ", e));
			e = look(n, *A.back(), 1); if (!e.empty()) vh::fail("giver-changed", vh::cat("after the snapshot at height ", h, ": ", e));
			vh::S().transitions++;
		}
		n.restart(); std::string e = look(n, *A.back(), 1); if (!e.empty()) vh::fail("giver-changed", "after snapshots and a restart: " + e);
		n.close();
	}
	std::vector<Receiver> rs = receivers(); std::vector<std::string> rd;
	for (auto& r : rs) { rd.push_back(vh::freshDir("r-" + r.name)); prepare(r, rd.back()); }
	int seq = 0;
	// ---- install on every receiver, go on ----
	for (size_t ri = 0; ri < rs.size(); ri++) for (uint64_t h = low; h <= top; h++) for (int way = 0; way < 4; way++) {
		bool past = (ri == 3 ? 28 : rs[ri].blocks.size()) >= h; if (past && way) continue; // already at or past this block: nothing may change, or the state is that of the block
		// 0 next blocks, 1 restart then next blocks, 2 reorganisation above the snapshot, 3 snapshot of this node installed on a third
		if (way == 2 && h > 30) continue;
		std::string id = vh::cat("install|", rs[ri].name, "|", h, "|", way); if (!vh::begin(id)) continue;
		std::string d = vh::freshDir(vh::cat("i", seq++)); copyTree(rd[ri], d); std::string log = id + ": ";
		{
			Node n(d); bool ok = install(n, A[h], zipAt(h)); vh::S().traces++; vh::S().transitions++;
			if (past) { const BlkP& was = ok ? A[h] : ri == 3 ? F.back() : A[rs[ri].blocks.size()]; std::string e = look(n, *was, ok ? h + 1 : 1); if (!e.empty()) vh::fail("state-lost", log + (ok ? "installed below the tip: " : "refused: ") + e); }
			else if (!ok) vh::fail("good-refused", log + "a good snapshot was refused");
			else {
				uint64_t from = h + 1; auto chk = [&](const BlkP& b, const std::string& w) { std::string e = look(n, *b, from); if (!e.empty()) vh::fail("state:" + e.substr(0, 40), log + w + ": " + e); vh::S().states++; };
				chk(A[h], "installed");
				if (way == 1) { n.restart(); chk(A[h], "restarted"); }
				if (way == 3) {
					std::string z = snapDir + "/third.zip", e = takeSnapshot(n, A[h], z);
					if (!e.empty()) vh::fail("snapshot-fails", log + "the receiver cannot make a snapshot of it: " + e);
					else {
						n.close(); std::string d3 = vh::freshDir("third"); copyTree(rd[0], d3); Node m(d3); if (!install(m, A[h], z)) vh::fail("good-refused", log + "the snapshot made by the receiver was refused");
						else { e = look(m, *A[h], from); if (!e.empty()) vh::fail("state:" + e.substr(0, 40), log + "third node: " + e); }
						m.close(); vh::rmtree(d3); n.open();
					}
				}
				if (way == 2) { for (uint64_t k = h + 1; k <= 30; k++) addBlock(n, *A[k]->full); for (uint64_t k = 31; k <= 32; k++) { if (addBlock(n, *A[k]->full) != OK) vh::fail("next-refused", log + vh::cat("block ", k, " refused")); } for (auto& b : G) addBlock(n, *b->full); orphans(n); chk(G.back(), "reorganised"); n.restart(); chk(G.back(), "reorganised and restarted"); }
				else { for (uint64_t k = h + 1; k <= top; k++) { int r = addBlock(n, *A[k]->full); if (r != OK) { vh::fail("next-refused", log + vh::cat("block ", k, " refused: ", resName(r))); break; } chk(A[k], vh::cat("block ", k)); } n.restart(); chk(A.back(), "restarted at the end"); }
				vh::outcome(vh::cat(ri, ":", way));
			}
		}
		vh::rmtree(d);
	}
	// ---- alterations of a snapshot ----
	struct Alt { std::string name; std::function<bool(Files&)> f; bool spent = false; }; std::vector<Alt> alts;
	const uint64_t hs = top - 2; Files good = readZip(zipAt(hs));
	static const std::map<std::string, size_t> rec = { { "kernel/pmmr_data.bin", 114 }, { "kernel/pmmr_hash.bin", 32 }, { "output/pmmr_data.bin", 34 }, { "output/pmmr_hash.bin", 32 }, { "rangeproof/pmmr_data.bin", 683 }, { "rangeproof/pmmr_hash.bin", 32 } };
	auto entry = [](Files& f, const std::string& n) -> B& { for (auto& x : f) if (x.first == n) return x.second; static B none; none.clear(); return none; };
	for (auto& x : good) {
		std::string nm = x.first; auto it = rec.find(nm);
		if (it != rec.end()) {
			size_t R = it->second, N = x.second.size() / R;
			if (N == 0 || x.second.size() % R) { vh::fail("layout", nm + " is no sequence of records"); continue; }
			std::set<uint64_t> unspent; for (auto& u : A[hs]->utxo) unspent.insert(u.second.leaf);
			bool data = nm == "output/pmmr_data.bin" || nm == "rangeproof/pmmr_data.bin";
			for (size_t i = 0; i < N; i++) {
				size_t first = alts.size();
				std::vector<size_t> at = { 0, R - 1 }; if (T) { at.push_back(R / 2); at.push_back(1); at.push_back(9); }
				for (size_t k : at) for (int bit : { 0, 7 }) { if (R == 114 && k == 1) continue; /* unused bits of the fee */ if (!T && (bit == 7) != (k == 0 && R != 34 && R != 114)) continue; if (T && bit == 7 && R == 683) continue; alts.push_back({ vh::cat(nm, "[", i, "]^", k, ".", bit), [=](Files& f) { entry(f, nm)[i * R + k] ^= (char)(1 << bit); return true; } }); }
				if (i + 1 < N) alts.push_back({ vh::cat(nm, "[", i, "]<>", i + 1), [=](Files& f) { B& b = entry(f, nm); B u = b.substr(i * R, R), v = b.substr((i + 1) * R, R); if (u == v) return false; b.replace(i * R, R, v); b.replace((i + 1) * R, R, u); return true; } });
				if (T && i > 0) alts.push_back({ vh::cat(nm, "[", i, "]=0"), [=](Files& f) { B& b = entry(f, nm); B u = b.substr(0, R); if (u == b.substr(i * R, R)) return false; b.replace(i * R, R, u); return true; } });
				if (R == 34) alts.push_back({ vh::cat(nm, "[", i, "]features"), [=](Files& f) { entry(f, nm)[i * R] ^= 1; return true; } });
				if (data && !unspent.count(i)) for (size_t a = first; a < alts.size(); a++) alts[a].spent = alts[a].name.find("<>") == B::npos || !unspent.count(i + 1);
			}
			alts.push_back({ nm + " shorter", [=](Files& f) { B& b = entry(f, nm); b.resize(b.size() - R); return true; } });
			alts.push_back({ nm + " cut", [=](Files& f) { B& b = entry(f, nm); b.resize(b.size() - 1); return true; } });
			alts.push_back({ nm + " half", [=](Files& f) { B& b = entry(f, nm); b.resize(b.size() / 2 / R * R); return true; } });
			alts.push_back({ nm + " empty", [=](Files& f) { entry(f, nm).clear(); return true; } });
			if (N > 1) alts.push_back({ nm + " without first", [=](Files& f) { entry(f, nm).erase(0, R); return true; } });
		}
		bool used = it != rec.end() || nm.find("pmmr_leaf.bin.") != B::npos || nm.find("pmmr_prun.bin") != B::npos;
		if (used) alts.push_back({ nm + " missing", [=](Files& f) { for (size_t i = 0; i < f.size(); i++) if (f[i].first == nm) { f.erase(f.begin() + i); return true; } return false; } });
		if (nm.find("pmmr_leaf.bin.") != B::npos) {
			size_t leaves = A[hs]->outs.leaves;
			for (size_t i = 0; i < leaves; i++) alts.push_back({ vh::cat(nm, " leaf ", i), [=](Files& f) { B& b = entry(f, nm); Roaring r = Roaring::readSafe(b.data(), b.size()); uint32_t p = (uint32_t)ref::mmrSize(i) + 1; if (r.contains(p)) r.remove(p); else r.add(p); b.resize(r.getSizeInBytes()); r.write(&b[0]); return true; } });
			alts.push_back({ nm + " garbage", [=](Files& f) { entry(f, nm) = B(40, '\x5a'); return true; } });
		}
		if (nm.find("pmmr_prun.bin") != B::npos) {
			size_t n = A[hs]->outs.h.size();
			for (size_t p = 0; p < n; p++) alts.push_back({ vh::cat(nm, " root ", p), [=](Files& f) { Roaring r; r.add((uint32_t)p + 1); B& b = entry(f, nm); b.resize(r.getSizeInBytes()); r.write(&b[0]); return A[hs]->outs.ht[p] > 0; } });
		}
	}
	alts.push_back({ "zip cut", [](Files&) { return true; } });
	alts.push_back({ "zip empty", [](Files&) { return true; } });
	// belongs to another block: the file of one block renamed for another
	for (uint64_t h = low; h <= top; h++) if (h != hs) alts.push_back({ vh::cat("of block ", h), [=](Files& f) {
		f = readZip(zipAt(h)); std::string a = HASH::ShortHash(A[h]->hash()), b = HASH::ShortHash(A[hs]->hash()); for (auto& x : f) { size_t p = x.first.find(a); if (p != B::npos) x.first.replace(p, a.size(), b); } return true; } });
	// several per node; when one is not refused cleanly a new node is used
	std::unique_ptr<Node> n; std::string nd; size_t uses = 0; const Receiver& rr = rs[2];
	auto drop = [&] { n.reset(); if (!nd.empty()) vh::rmtree(nd); nd.clear(); uses = 0; };
	const size_t CH = 16;
	for (size_t i = 0; i < alts.size(); i += CH) {
		std::string cid = vh::cat("alter|", i);
		if (vh::S().replay) { bool hit = false; for (size_t j = i; j < std::min(i + CH, alts.size()); j++) if (vh::S().only == "alter|" + alts[j].name) hit = true; if (!hit) continue; } else if (!vh::begin(cid)) continue;
		for (size_t j = i; j < std::min(i + CH, alts.size()); j++) {
			std::string id = "alter|" + alts[j].name; if (vh::S().replay && !vh::begin(id)) continue;
			vh::setCurrent(id);
			Files f = good; if (!alts[j].f(f)) continue;
			if (!n) { nd = vh::freshDir(vh::cat("alt", seq++)); copyTree(rd[2], nd); n.reset(new Node(nd)); }
			std::string z = snapDir + "/alt.zip"; writeZip(z, f);
			if (alts[j].name == "zip cut") { B b = readFile(z); b.resize(b.size() / 2); writeFile(z, b); } else if (alts[j].name == "zip empty") writeFile(z, "");
			bool ok = install(*n, A[hs], z); vh::S().transitions++; vh::S().states++;
			if (ok) { // only where it makes no difference: the data of a spent output
				std::string e = look(*n, *A[hs], hs + 1); if (e.empty()) { for (uint64_t k = hs + 1; k <= top; k++) if (addBlock(*n, *A[k]->full) != OK) e = "the next block is refused"; n->restart(); if (e.empty()) e = look(*n, *A.back(), hs + 1); }
				bool spentData = alts[j].spent;
				if (!e.empty() || !spentData) vh::fail("altered-accepted:" + alts[j].name.substr(0, alts[j].name.find_first_of("[ ")), id + ": the altered snapshot was accepted; state afterwards: " + (e.empty() ? "as of the good one" : e)); else vh::count("spent data altered");
				drop(); continue; }
			std::string e; try { e = look(*n, *A[28], 1); } catch (std::exception& x) { e = std::string("reading throws ") + x.what(); }
			if (!e.empty()) { vh::fail("state-lost", id + ": the refused snapshot changed the state: " + e); drop(); continue; }
			uses++;
		}
		if (n) { // still usable: the good snapshot installs and the chain goes on
			vh::setCurrent(cid);
			if (i / CH % 2) { int r = addBlock(*n, *A[29]->full); if (r != OK) vh::fail("unusable", vh::cat(cid, ": after refused snapshots the next block gets ", resName(r))); else { std::string e = look(*n, *A[29], 1); if (!e.empty()) vh::fail("unusable", cid + ": after refused snapshots and a block: " + e); } n->restart(); }
			if (!install(*n, A[hs], zipAt(hs))) vh::fail("good-refused", cid + ": after refused snapshots the good one is refused");
			else { std::string e = look(*n, *A[hs], hs + 1); if (!e.empty()) vh::fail("state:" + e.substr(0, 40), cid + ": good snapshot after refused ones: " + e); for (uint64_t k = hs + 1; k <= top; k++) addBlock(*n, *A[k]->full); if (tipOf(*n).hash != ref::bytes(A.back()->hash())) vh::fail("next-refused", cid + ": cannot go on after refused snapshots and a good one"); }
			drop();
		}
	}
	drop(); vh::fini(); _exit(0);
}
