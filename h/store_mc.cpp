// C06: MMRs against an explicitly built mountain range. C07: file stores against in-memory lists. C08: position arithmetic.
// Every operation sequence up to a depth (from every base), every position up to a bound.
#define CRASHPOINT_DEFINE
#include "crashpoint.h"
#include "vh.h"
#include "ref.h"
#include <sys/wait.h>
#include <Core/Global.h>
#include <Core/Config.h>
#include <Core/Context.h>
#include <Core/File/DataFile.h>
#include <Core/File/BitmapFile.h>
#include <Core/File/AppendOnlyFile.h>
#include <Core/Models/OutputIdentifier.h>
#include <Core/Models/FullBlock.h>
#include <PMMR/OutputPMMR.h>
#include <PMMR/RangeProofPMMR.h>
#include <PMMR/KernelMMR.h>
#include <PMMR/HeaderMMRImpl.h>
#include <PMMR/Common/PruneList.h>
#include <PMMR/Common/MMRUtil.h>
#include <PMMR/Common/LeafSet.h>
#include <scheduler/Scheduler.h>

using ref::B; using std::string; using std::vector;
static void useDir(const string& d)
{
	setenv("HOME", d.c_str(), 1);
	static auto& s = *new std::shared_ptr<Bosma::Scheduler>(std::make_shared<Bosma::Scheduler>(1));
	static auto& c = *new std::shared_ptr<Context>(std::make_shared<Context>(Environment::AUTOMATED_TESTING, Config::Default(Environment::AUTOMATED_TESTING), s));
	Global::Init(c);
}
static void spit(const string& p, const B& b) { FILE* f = fopen(p.c_str(), "wb"); fwrite(b.data(), 1, b.size(), f); fclose(f); }
template <class F> static string guard(F f) { try { return f(); } catch (std::exception& e) { return vh::cat("exception: ", e.what()); } catch (...) { return "exception"; } }
template <class F> static bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
static Commitment cmt(int n) { B h = ref::b2b(vh::cat("c", n)); vector<unsigned char> v(33); v[0] = 8 + (n & 1); memcpy(&v[1], h.data(), 32); return Commitment(CBigInteger<33>(v)); }

// ---------------------------------------------------------------- C08
struct Tree { // explicitly built: parent, children, height, number of leaves before a node
	vector<long> parent, left, right; vector<int> h; vector<uint64_t> leavesBefore; vector<uint64_t> leafPos; vector<vector<uint64_t>> peaksAt; // by size; empty when incomplete
	explicit Tree(size_t n)
	{
		vector<long> pk;
		auto add = [&](int ht, long l, long r) { long p = h.size(); parent.push_back(-1); left.push_back(l); right.push_back(r); h.push_back(ht); leavesBefore.push_back(leafPos.size()); if (ht == 0) leafPos.push_back(p); if (l >= 0) { parent[l] = p; parent[r] = p; } return p; };
		peaksAt.resize(n + 80); peaksAt[0] = {};
		while (h.size() < n + 70) {
			pk.push_back(add(0, -1, -1));
			while (pk.size() >= 2 && h[pk.back()] == h[pk[pk.size() - 2]]) { long r = pk.back(); pk.pop_back(); long l = pk.back(); pk.pop_back(); pk.push_back(add(h[r] + 1, l, r)); }
			if (h.size() < peaksAt.size()) for (long p : pk) peaksAt[h.size()].push_back(p);
		}
	}
};
static void c08()
{
	const size_t N = vh::thorough() ? (1 << 20) : (1 << 16), CH = 4096;
	Tree t(N + N); // parents of nodes < N are < 2N unless a peak
	for (size_t base = 0; base < N; base += CH) {
		if (!vh::begin(vh::cat("positions|", base))) continue;
		for (size_t p = base; p < base + CH; p++) {
			vh::S().states++;
			auto bad = [&](const char* what) { vh::fail(vh::cat("index-", what), vh::cat(what, " wrong at position ", p)); };
			Index i = Index::At(p);
			if (i.GetPosition() != p || i.Get() != p) bad("position");
			if (i.GetHeight() != (uint64_t)t.h[p]) bad("height");
			if (i.IsLeaf() != (t.h[p] == 0)) bad("is-leaf");
			if (t.parent[p] >= 0) {
				if (i.GetParent() != Index((uint64_t)t.parent[p], t.h[t.parent[p]])) bad("parent");
				long sib = t.left[t.parent[p]] == (long)p ? t.right[t.parent[p]] : t.left[t.parent[p]];
				if (i.GetSibling() != Index((uint64_t)sib, t.h[sib])) bad("sibling");
			}
			if (t.h[p] > 0) {
				if (i.GetLeftChild() != Index((uint64_t)t.left[p], t.h[t.left[p]]) || i.left_child_pos() != (uint64_t)t.left[p]) bad("left-child");
				if (i.GetRightChild() != Index((uint64_t)t.right[p], t.h[t.right[p]]) || i.right_child_pos() != (uint64_t)t.right[p]) bad("right-child");
			} else {
				uint64_t l = t.leavesBefore[p];
				if (i.GetLeafIndex() != l) bad("leaf-index");
				LeafIndex li = LeafIndex::At(l);
				if (li.GetPosition() != p || li.Get() != l || li.GetIndex() != i) bad("leaf-position");
				if (LeafIndex::From(i) != li || LeafIndex::AtPos(p).Get() != l) bad("leaf-from");
				if (li.Next().GetPosition() != t.leafPos[l + 1] || (l > 0 && li.Prev().GetPosition() != t.leafPos[l - 1])) bad("leaf-next");
				LeafIndex c = li; ++c; if (c.Get() != l + 1 || c.GetPosition() != t.leafPos[l + 1]) bad("leaf-increment");
				if (l > 0) { LeafIndex e = li; --e; if (e.Get() != l - 1 || e.GetPosition() != t.leafPos[l - 1]) bad("leaf-decrement"); }
			}
			// a size, not a node: how many leaves lie below it
			if ((p == 0 || !t.peaksAt[p].empty()) && LeafIndex::AtPos(p).Get() != t.leavesBefore[p]) bad("leaves-below");
			Index n = i; ++n; if (n != Index(p + 1, t.h[p + 1]) || i.GetNext() != n || i + 3 != Index(p + 3, t.h[p + 3]) || (p >= 2 && i - 2 != Index(p - 2, t.h[p - 2]))) bad("step");
			if (!(i < n) || !(n > i) || !(i <= i) || !(i == p) || i < p || !(i <= p) || !(i >= p) || i != Index::At(p)) bad("order");
			if (MMRUtil::GetPeakIndices(p) != t.peaksAt[p]) bad("peaks");
		}
	}
	// far positions: the same facts by recursion on perfect trees of height k (size 2^(k+1)-1), for every path of turns from a peak
	for (int k = 1; k <= 40; k++) for (int peakCase = 0; peakCase < 3; peakCase++) {
		if (!vh::begin(vh::cat("far|", k, "|", peakCase))) continue;
		uint64_t off = peakCase == 0 ? 0 : peakCase == 1 ? ((1ull << 62) - 1) : ((1ull << 60) - 1) + 0; // a perfect tree of greater height lies before it
		if (peakCase == 2) off = (1ull << 50) - 1 + (1ull << 46) - 1;
		uint64_t leafOff = (off + (peakCase == 2 ? 2 : peakCase == 1 ? 1 : 0)) / 2;
		int depth = std::min(k, 11);
		for (uint32_t turns = 0; turns < (1u << depth); turns++) {
			uint64_t p = off + (1ull << (k + 1)) - 2, leavesBefore = leafOff; int h = k; // root position
			for (int d = 0; d < depth && h > 0; d++) {
				uint64_t l = p - (1ull << h), r = p - 1; bool goRight = turns >> d & 1;
				Index i = Index::At(p);
				vh::S().states++;
				auto bad = [&](const char* what) { vh::fail(vh::cat("index-far-", what), vh::cat(what, " wrong at position ", p)); };
				if (i.GetHeight() != (uint64_t)h) bad("height");
				if (i.GetLeftChild() != Index(l, h - 1)) bad("left-child");
				if (i.GetRightChild() != Index(r, h - 1)) bad("right-child");
				if (Index::At(l).GetParent() != i || Index::At(r).GetParent() != i) bad("parent");
				if (Index::At(l).GetSibling() != Index::At(r) || Index::At(r).GetSibling() != Index::At(l)) bad("sibling");
				if (goRight) leavesBefore += 1ull << (h - 1);
				p = goRight ? r : l; h--;
			}
			// descend to the leftmost leaf
			while (h > 0) { p -= 1ull << h; h--; }
			Index i = Index::At(p);
			if (!i.IsLeaf() || i.GetLeafIndex() != leavesBefore || LeafIndex::At(leavesBefore).GetPosition() != p) vh::fail("index-far-leaf", vh::cat("leaf ", leavesBefore, " at position ", p));
		}
		// sizes made of one, two and three peaks
		uint64_t a = (1ull << (k + 1)) - 1;
		auto cmp = [&](uint64_t size, vector<uint64_t> exp) { if (MMRUtil::GetPeakIndices(size) != exp) vh::fail("index-far-peaks", vh::cat("peaks of size ", size)); };
		cmp(a, { a - 1 });
		cmp(2 * a, {}); // two equal peaks without their parent: not a mountain range
		if (k >= 2) { uint64_t b = (1ull << k) - 1; cmp(a + b, { a - 1, a + b - 1 }); cmp(a + b + 1, { a - 1, a + b - 1, a + b }); cmp(a + 1, { a - 1, a }); cmp(a + 2, {}); }
	}
	// prune list: every set of pruned leaves of a mountain range of up to M leaves
	const int M = vh::thorough() ? 16 : 12;
	for (int blk = 0; blk < (1 << M); blk += 64) {
		if (!vh::begin(vh::cat("prune|", blk))) continue;
		string dir = vh::freshDir("p");
		Tree s(2 * M + 2);
		for (int set = blk; set < blk + 64; set++) {
			vh::S().states++;
			// pruned: a node all of whose leaves (existing in the range) are pruned; roots: pruned, parent not
			size_t size = ref::mmrSize(M);
			vector<char> pr(s.h.size(), 0);
			for (size_t p = 0; p < size; p++) pr[p] = s.h[p] == 0 ? (set >> s.leavesBefore[p] & 1) : (pr[s.left[p]] && pr[s.right[p]]);
			string path = dir + "/prun.bin"; unlink(path.c_str());
			auto list = PruneList::Load(path);
			for (size_t p = 0; p < size; p++) if (s.h[p] == 0 && pr[p]) list->Add(Index::At(p));
			for (int round = 0; round < 2; round++) {
				if (round == 0) { if (set == 0) continue; list->Flush(); } else { if (set == 0) continue; list = PruneList::Load(path); }
				uint64_t shift = 0, leafShift = 0;
				for (size_t p = 0; p < size; p++) {
					bool root = pr[p] && !(s.parent[p] >= 0 && s.parent[p] < (long)size && pr[s.parent[p]]);
					if (root) { shift += (2ull << s.h[p]) - 2; if (s.h[p] > 0) leafShift += 1ull << s.h[p]; }
					Index i = Index::At(p);
					auto bad = [&](const char* what) { vh::fail(vh::cat("prune-", what), vh::cat(what, " wrong at position ", p, " for pruned leaves ", std::hex, set, " of ", std::dec, M, round ? " after reload" : "")); };
					if (list->IsPruned(i) != (bool)pr[p]) bad("pruned");
					if (list->IsPrunedRoot(i) != root) bad("root");
					if (list->IsCompacted(i) != (pr[p] && !root)) bad("compacted");
					if (!list->IsCompacted(i) && list->GetShift(i) != shift) bad("shift");
					if (s.h[p] == 0 && !list->IsCompacted(i) && list->GetLeafShift(i) != leafShift) bad("leaf-shift");
				}
				if (list->GetTotalShift() != shift) vh::fail("prune-total", vh::cat("total shift wrong for pruned leaves ", set));
			}
		}
	}
}

// ---------------------------------------------------------------- C07
typedef DataFile<8> DF;
static vector<unsigned char> rec8(uint64_t n) { vector<unsigned char> v(8); for (int i = 0; i < 8; i++) v[i] = (unsigned char)((n * 0x9E3779B97F4A7C15ull + 77) >> (8 * i)); return v; }
static string diffData(DF& f, const vector<uint64_t>& m)
{
	if (f.GetSize() != m.size()) return vh::cat("size ", f.GetSize(), " instead of ", m.size());
	for (size_t i = 0; i < m.size(); i++) if (f.GetDataAt(i) != rec8(m[i])) return vh::cat("record ", i, " differs");
	for (size_t i = m.size(); i < m.size() + 3; i++) if (!throws([&] { f.GetDataAt(i); })) return vh::cat("reading record ", i, " of ", m.size(), " does not fail");
	return "";
}
// every sequence of operations up to a depth, printed as letters
template <class F> static void sequences(const string& alphabet, int depth, const string& prefix, F f)
{
	// one case per sequence of length depth-2 or less; the rest is enumerated inside the case
	std::function<void(string)> inner = [&](string s) { f(s); if ((int)s.size() < depth) for (char c : alphabet) inner(s + c); };
	std::function<void(string)> outer = [&](string s) {
		int cut = std::max(1, depth - 3);
		if ((int)s.size() == cut) { if (vh::begin(prefix + s)) inner(s); return; }
		if (!s.empty() && vh::begin(prefix + s)) f(s);
		for (char c : alphabet) outer(s + c);
	};
	if (vh::S().replay) { // a case is a prefix: run all that begins with it (as above)
		if (vh::S().only.compare(0, prefix.size(), prefix) != 0) return;
		string s = vh::S().only.substr(prefix.size()); for (char c : s) if (alphabet.find(c) == string::npos) return;
		if (vh::begin(vh::S().only)) { int cut = std::max(1, depth - 3); if ((int)s.size() == cut) inner(s); else f(s); }
		return;
	}
	outer("");
}
static void c07()
{
	string dir = vh::freshDir("f"); useDir(dir);
	// fixed records: a one record, t three, 0 rewind to none, h to half, l last away, s rewind to the committed size if shorter, c commit, b roll back, o reopen
	{
		string path = dir + "/data.bin";
		sequences("at0hlcbo", vh::thorough() ? 7 : 6, "data|", [&](const string& ops) {
			vh::S().states++;
			unlink(path.c_str());
			auto f = DF::Load(path); vector<uint64_t> cur, com; uint64_t serial = 1;
			string e = guard([&]() -> string {
				for (char c : ops) {
					vh::S().transitions++;
					switch (c) {
					case 'a': f->AddData(rec8(serial)); cur.push_back(serial++); break;
					case 't': for (int i = 0; i < 3; i++) { f->AddData(rec8(serial)); cur.push_back(serial++); } break;
					case '0': f->Rewind(0); cur.clear(); break;
					case 'h': f->Rewind(cur.size() / 2); cur.resize(cur.size() / 2); break;
					case 'l': { size_t n = cur.empty() ? 0 : cur.size() - 1; f->Rewind(n); cur.resize(n); break; }
					case 'c': f->Commit(); com = cur; break;
					case 'b': f->Rollback(); cur = com; break;
					case 'o': f.reset(); f = DF::Load(path); cur = com; break;
					}
				}
				if (!throws([&] { f->Rewind(cur.size() + 1); })) return "rewinding forward does not fail";
				return diffData(*f, cur);
			});
			if (!e.empty()) vh::fail("data-file", vh::cat("after ", ops, ": ", e));
		});
	}
	// bitmap
	{
		string path = dir + "/bm/leafset.bin"; mkdir((dir + "/bm").c_str(), 0777);
		static const int bits[] = { 0, 7, 9, 17 };
		// s t u v set, S T U V unset; w rewind to 8 re-adding {}, x to 8 re-adding {0,7}, y to 10 re-adding {9}, z to 0
		sequences("stuvSUwxyzcbo", vh::thorough() ? 6 : 5, "bits|", [&](const string& ops) {
			vh::S().states++;
			unlink(path.c_str()); unlink((dir + "/bm/version1").c_str());
			auto f = BitmapFile::Load(path); std::set<int> cur, com;
			string e = guard([&]() -> string {
				for (char c : ops) {
					vh::S().transitions++;
					size_t k;
					if ((k = string("stuv").find(c)) != string::npos) { f->Set(bits[k]); cur.insert(bits[k]); }
					else if ((k = string("STUV").find(c)) != string::npos) { f->Unset(bits[k]); cur.erase(bits[k]); }
					else if ((k = string("wxyz").find(c)) != string::npos) {
						static const int lim[] = { 8, 8, 10, 0 }; static const vector<uint64_t> add[] = { {}, { 0, 7 }, { 9 }, {} };
						f->Rewind(lim[k], add[k]); cur.insert(add[k].begin(), add[k].end()); cur.erase(cur.lower_bound(lim[k]), cur.end());
					}
					else if (c == 'c') { f->Commit(); com = cur; }
					else if (c == 'b') { f->Rollback(); cur = com; }
					else { f.reset(); f = BitmapFile::Load(path); cur = com; }
				}
				Roaring r = f->ToRoaring();
				for (int i = 0; i < 40; i++) {
					if (f->IsSet(i) != (cur.count(i) > 0)) return vh::cat("bit ", i, " is ", f->IsSet(i));
					if (r.contains(ref::mmrSize(i) + 1) != (cur.count(i) > 0)) return vh::cat("bit ", i, " wrong in the exported positions");
				}
				for (int b = 0; b < 6; b++) { int x = 0; for (int j = 0; j < 8; j++) if (cur.count(b * 8 + j)) x |= 0x80 >> j; if (f->GetByte(b) != x) return vh::cat("byte ", b); }
				if (r.cardinality() != cur.size()) return "number of exported positions";
				return "";
			});
			if (!e.empty()) vh::fail("bitmap-file", vh::cat("after ", ops, ": ", e));
		});
		// conversion of a bitmap of positions (old format) and creation from a set of positions: every set of up to three leaves
		for (int bytes = 1; bytes <= 9; bytes++) {
			int nl = 0; while (ref::mmrSize(nl) < (uint64_t)bytes * 8) nl++;
			for (int x = 0; x < nl; x++) {
				if (!vh::begin(vh::cat("convert|", bytes, "|", x))) continue;
				for (int y = x; y < nl; y++) for (int z = y; z < nl; z++) {
					vh::S().states++;
					std::set<int> set = { x, y, z };
					auto clean = [&]() { unlink(path.c_str()); unlink((dir + "/bm/version1").c_str()); };
					clean(); B b(bytes, 0); Roaring r; for (int l : set) { uint64_t p = ref::mmrSize(l); b[p / 8] |= (char)(0x80 >> (p % 8)); r.add(p + 1); }
					// positions of inner nodes may be marked too; they are no leaves
					for (int p = 0; p < bytes * 8; p++) { bool leaf = false; for (int l = 0; l < nl; l++) if (ref::mmrSize(l) == (uint64_t)p) leaf = true; if (!leaf) { b[p / 8] |= (char)(0x80 >> (p % 8)); r.add(p + 1); } }
					spit(path, b);
					auto cmp = [&](BitmapFile& f, const char* when) -> string { for (int l = 0; l < nl + 3; l++) if (f.IsSet(l) != (set.count(l) > 0)) return vh::cat("leaf ", l, " ", when); return ""; };
					string e = guard([&]() -> string {
						auto f = BitmapFile::Load(path); string q = cmp(*f, "after conversion"); if (!q.empty()) return q;
						f = BitmapFile::Load(path); q = cmp(*f, "after a second load"); if (!q.empty()) return q;
						f.reset(); clean(); f = BitmapFile::Create(path, r); q = cmp(*f, "of a created file"); if (!q.empty()) return q;
						f.reset(); f = BitmapFile::Load(path); return cmp(*f, "of a created and reopened file");
					});
					if (!e.empty()) vh::fail("bitmap-convert", vh::cat(bytes, " bytes, leaves ", x, ",", y, ",", z, ": ", e));
				}
			}
		}
	}
	// a process that dies anywhere inside a commit: whole records survive that both the old and the new content have, and only
	// records of the new (or old) content are read; the file can be used again
	{
		string path = dir + "/k/data.bin"; mkdir((dir + "/k").c_str(), 0777);
		for (int old = 0; old <= 4; old++) for (int keep = 0; keep <= old; keep++) for (int add = 0; add <= 3; add++) for (int torn = 0; torn < 2; torn++) for (int at = 0; at < 8; at++) {
			if (!vh::begin(vh::cat("crash|", old, "|", keep, "|", add, "|", torn, "|", at))) continue;
			vh::S().states++;
			unlink(path.c_str());
			pid_t pid = fork();
			if (pid == 0) {
				auto f = DF::Load(path); for (int i = 0; i < old; i++) f->AddData(rec8(i + 1)); f->Commit();
				if (keep < old) f->Rewind(keep);
				for (int i = 0; i < add; i++) f->AddData(rec8(100 + i));
				auto& s = cp::S(); s.root = dir; s.at = at; s.torn = torn; s.n = 0; s.armed = true;
				f->Commit(); _exit(0);
			}
			int st; waitpid(pid, &st, 0);
			bool died = WIFEXITED(st) && WEXITSTATUS(st) == 99;
			if (!died && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { vh::fail("commit-crash-child", vh::cat("commit ended with status ", st)); continue; }
			vector<uint64_t> oldv, newv; for (int i = 0; i < old; i++) oldv.push_back(i + 1);
			newv.assign(oldv.begin(), oldv.begin() + keep); for (int i = 0; i < add; i++) newv.push_back(100 + i);
			string e = guard([&]() -> string {
				auto f = DF::Load(path);
				uint64_t n = f->GetSize();
				vector<uint64_t> got;
				if (!died) { string x = diffData(*f, newv); if (!x.empty()) return x; got = newv; }
				else {
					if (n < (uint64_t)keep) return vh::cat("only ", n, " records left of the ", keep, " that both contents have");
					vector<uint64_t> a = n <= newv.size() ? vector<uint64_t>(newv.begin(), newv.begin() + n) : vector<uint64_t>{}, b = n <= oldv.size() ? vector<uint64_t>(oldv.begin(), oldv.begin() + n) : vector<uint64_t>{};
					bool okA = n <= newv.size() && diffData(*f, a).empty(), okB = n <= oldv.size() && diffData(*f, b).empty();
					if (!okA && !okB) return vh::cat(n, " records that are neither of the old nor of the new content");
					got = okA ? a : b;
				}
				f->AddData(rec8(500)); got.push_back(500); f->Commit(); f.reset(); f = DF::Load(path);
				string x = diffData(*f, got); return x.empty() ? "" : "after going on: " + x;
			});
			if (!e.empty()) vh::fail(torn ? "commit-torn" : "commit-crash", vh::cat("old ", old, " keep ", keep, " add ", add, " died at operation ", at, torn ? " (torn)" : "", ": ", e));
			vh::outcome(vh::cat(died));
		}
		// files that are replaced as a whole (prune list, leaf set snapshot): old or new content
		for (int which = 0; which < 2; which++) for (int torn = 0; torn < 2; torn++) for (int at = 0; at < 10; at++) {
			if (!vh::begin(vh::cat("replace|", which, "|", torn, "|", at))) continue;
			vh::S().states++;
			string d2 = vh::freshDir("r"); string p = d2 + "/prun.bin";
			Hash h = Hash::ValueOf(7);
			auto mk = [&](bool second) { auto l = PruneList::Load(p); if (!second) { l->Add(Index::At(0)); l->Add(Index::At(1)); } else { for (int i : { 3, 4, 7 }) l->Add(Index::At(i)); } l->Flush(); };
			auto snap = [&](bool second) { auto ls = LeafSet::Load(d2 + "/leaf.bin"); ls->Add(LeafIndex::At(second ? 5 : 3)); ls->Snapshot(h); };
			auto readAll = [&]() { string out; DIR* d = opendir(d2.c_str()); std::map<string, string> m; while (dirent* e = readdir(d)) { string n = e->d_name; if (n[0] == '.' || n == "version1" || n == "leaf.bin") continue; string b; FILE* f = fopen((d2 + "/" + n).c_str(), "rb"); char buf[4096]; size_t k; while (f && (k = fread(buf, 1, sizeof buf, f)) > 0) b.append(buf, k); if (f) fclose(f); m[n] = b; } closedir(d); return m; };
			if (which == 0) mk(false); else snap(false);
			auto before = readAll();
			// what the complete second write gives
			pid_t pid = fork(); if (pid == 0) { if (which == 0) mk(true); else snap(true); _exit(0); } int st; waitpid(pid, &st, 0);
			auto after = readAll();
			for (auto& f : after) if (before.count(f.first)) spit(d2 + "/" + f.first, before[f.first]); else unlink((d2 + "/" + f.first).c_str());
			pid = fork(); if (pid == 0) { auto& s = cp::S(); s.root = d2; s.at = at; s.torn = torn; s.n = 0; s.armed = true; if (which == 0) mk(true); else snap(true); _exit(0); } waitpid(pid, &st, 0);
			auto got = readAll();
			for (auto& f : before) { auto g = got.count(f.first) ? got[f.first] : "(missing)"; if (g != f.second && g != after[f.first]) vh::fail("replace-crash", vh::cat(f.first, " is neither old nor new after a crash at operation ", at)); }
			bool died = WIFEXITED(st) && WEXITSTATUS(st) == 99;
			if (!died) for (auto& f : after) if (got[f.first] != f.second) vh::fail("replace", "the file was not replaced");
		}
	}
}

// ---------------------------------------------------------------- C06
static B outLeaf(int s) { return B(1, 0) + ref::bytes(cmt(s)); }
static RangeProof proofOf(int s) { B h = ref::b2b(vh::cat("p", s)); vector<unsigned char> v(675); for (size_t i = 0; i < v.size(); i++) v[i] = (unsigned char)(h[i % 32] + i / 32); return RangeProof(std::move(v)); }
static B proofLeaf(int s) { auto p = proofOf(s); return ref::be(675, 8) + ref::bytes(p.GetProofBytes()); }
struct Model { // leaves by serial number, which are unspent; 0 is the genesis leaf
	vector<int> leaf; vector<char> live;
	void push(int s) { leaf.push_back(s); live.push_back(1); }
};
struct Adapter {
	virtual ~Adapter() {}
	virtual void open(const string& dir) = 0; virtual void close() = 0;
	virtual void append(int s) = 0; virtual void remove(int i) = 0; virtual void rewind(int n, const vector<uint64_t>& add) = 0;
	virtual void commit() = 0; virtual void rollback() = 0;
	virtual B leafBytes(int s) = 0;
	virtual string extra(const Model& m, const ref::Mmr& r) = 0; // adapter-specific comparisons
	virtual uint64_t size() = 0; virtual Hash root(uint64_t size) = 0;
	virtual std::unique_ptr<Hash> hashAt(uint64_t pos) = 0; virtual vector<Hash> last(uint64_t n) = 0;
	virtual bool compacted(uint64_t) { return false; }
	virtual bool prunes() { return false; } virtual bool hasGenesis() { return true; } virtual bool hashes() { return true; }
};
struct Tbl { B g; std::function<B(int)> f; };
template <class P, class T> struct PA : Adapter {
	std::shared_ptr<P> p; string sub; std::function<T(int)> mk; std::function<B(int)> lb;
	void open(const string& d) override { mkdir((d + "/" + sub).c_str(), 0777); p = P::Load(d); }
	void close() override { p.reset(); }
	void append(int s) override { p->Append(mk(s)); }
	void remove(int i) override { p->Remove(LeafIndex::At(i)); }
	void rewind(int n, const vector<uint64_t>& a) override { p->Rewind(n, a); }
	void commit() override { p->Commit(); } void rollback() override { p->Rollback(); }
	B leafBytes(int s) override { return lb(s); }
	uint64_t size() override { return p->GetSize(); } Hash root(uint64_t s) override { return p->Root(s); }
	std::unique_ptr<Hash> hashAt(uint64_t pos) override { return p->GetHashAt(Index::At(pos)); }
	vector<Hash> last(uint64_t n) override { return p->GetLastLeafHashes(n); }
	bool compacted(uint64_t pos) override { return p->IsCompacted(Index::At(pos)); }
	bool prunes() override { return true; }
	string extra(const Model& m, const ref::Mmr&) override
	{
		for (size_t i = 0; i < m.leaf.size() + 3; i++) {
			LeafIndex l = LeafIndex::At(i); bool live = i < m.leaf.size() && m.live[i];
			if (p->IsUnpruned(l) != live) return vh::cat("leaf ", i, live ? " is not reported unspent" : " is reported unspent");
			auto o = p->GetAt(l);
			if ((o != nullptr) != live) return vh::cat("leaf ", i, live ? " cannot be read" : " can be read although removed");
			if (o) { Serializer s; o->Serialize(s); if (ref::bytes(s.GetBytes()) != leafBytes(m.leaf[i])) return vh::cat("leaf ", i, " has other content"); }
		}
		// bitmap of unspent leaves, committed to by later headers
		ref::Mmr u; B bits(128, 0); for (size_t i = 0; i < m.leaf.size(); i++) if (m.live[i]) bits[i / 8] |= (char)(0x80 >> (i % 8));
		u.append(bits);
		if (ref::bytes(p->UBMTRoot(m.leaf.size())) != u.root()) return "root of the bitmap of unspent leaves differs";
		return "";
	}
};
struct KA : Adapter {
	std::shared_ptr<KernelMMR> p;
	static TransactionKernel mk(int s) { B h = ref::b2b(vh::cat("k", s)); vector<unsigned char> v(64); for (int i = 0; i < 64; i++) v[i] = (unsigned char)(h[i % 32] + i); return TransactionKernel(s % 3 == 1 ? EKernelFeatures::HEIGHT_LOCKED : EKernelFeatures::DEFAULT_KERNEL, Fee(0, 1000 + s), s % 3 == 1 ? s : 0, cmt(s), Signature(CBigInteger<64>(v))); }
	void open(const string& d) override { mkdir((d + "/kernel").c_str(), 0777); p = KernelMMR::Load(d); }
	void close() override { p.reset(); }
	void append(int s) override { p->ApplyKernel(mk(s)); }
	void remove(int) override {} void rewind(int n, const vector<uint64_t>&) override { p->Rewind(n); }
	void commit() override { p->Commit(); } void rollback() override { p->Rollback(); }
	static B ser(const TransactionKernel& k)
	{
		uint64_t fee = k.GetFee();
		return B(1, (char)k.GetFeatures()) + ref::be(0, 2) + ref::be(k.GetFeeShift(), 1) + ref::be(fee >> 32, 1) + ref::be(fee & 0xffffffff, 4) + ref::be(k.GetLockHeight(), 8) + ref::bytes(k.GetExcessCommitment()) + ref::bytes(k.GetExcessSignature().GetSignatureBytes());
	}
	B leafBytes(int s) override { return s == 0 ? ser(Global::GetGenesisBlock().GetKernels().front()) : ser(mk(s)); }
	uint64_t size() override { return p->GetSize(); } Hash root(uint64_t s) override { return p->Root(s); }
	std::unique_ptr<Hash> hashAt(uint64_t pos) override { return p->GetHashAt(Index::At(pos)); }
	vector<Hash> last(uint64_t n) override { return p->GetLastLeafHashes(n); }
	string extra(const Model& m, const ref::Mmr&) override
	{
		if (p->GetNumKernels() != m.leaf.size()) return "number of kernels";
		for (size_t i = 0; i < m.leaf.size(); i++) { auto k = p->GetKernelAt(LeafIndex::At(i)); if (!k || ser(*k) != leafBytes(m.leaf[i])) return vh::cat("kernel ", i, " differs"); }
		if (!throws([&] { auto k = p->GetKernelAt(LeafIndex::At(m.leaf.size())); if (!k) throw 1; })) return "a kernel beyond the end is read";
		return "";
	}
};
struct HA : Adapter {
	std::shared_ptr<Locked<IHeaderMMR>> lk; std::unique_ptr<Writer<IHeaderMMR>> w;
	static vector<uint64_t> nonces(int s) { vector<uint64_t> v; uint64_t x = 1 + s; for (int i = 0; i < 42; i++) { v.push_back(x); x += 1 + (s * 31 + i * 17) % 1000; } return v; }
	static BlockHeader mk(int s) { return BlockHeader(1, s, 1000 + s, Hash(ZERO_HASH), Hash(ZERO_HASH), Hash(ZERO_HASH), Hash(ZERO_HASH), Hash(ZERO_HASH), BlindingFactor(CBigInteger<32>()), 1, 1, 1 + s, 1, 1, ProofOfWork(29, nonces(s))); }
	string d;
	void open(const string& dir) override { d = dir; auto p = HeaderMMR::Load(fs::path(d + "/header_mmr.bin")); lk = std::make_shared<Locked<IHeaderMMR>>(std::static_pointer_cast<IHeaderMMR>(p)); }
	void batch() { if (!w) w.reset(new Writer<IHeaderMMR>(lk->BatchWrite())); }
	void close() override { w.reset(); lk.reset(); }
	void append(int s) override { batch(); (*w)->AddHeader(mk(s)); }
	void remove(int) override {} void rewind(int n, const vector<uint64_t>&) override { batch(); (*w)->Rewind(n); }
	void commit() override { if (w) { (*w)->Commit(); w.reset(); } } void rollback() override { if (w) { (*w)->Rollback(); w.reset(); } }
	B leafBytes(int s) override { auto pn = nonces(s); B bits((29 * 42 + 7) / 8, 0); for (int n = 0; n < 42; n++) for (int b = 0; b < 29; b++) if (pn[n] >> b & 1) bits[(n * 29 + b) / 8] |= (char)(1 << ((n * 29 + b) % 8)); return bits; }
	uint64_t size() override { return ~0ull; }
	Hash root(uint64_t) override { return ZERO_HASH; }
	std::unique_ptr<Hash> hashAt(uint64_t) override { return nullptr; } vector<Hash> last(uint64_t) override { return {}; }
	bool hasGenesis() override { return false; } bool hashes() override { return false; }
	string extra(const Model& m, const ref::Mmr&) override
	{
		ref::Mmr r;
		for (size_t i = 0; i < m.leaf.size(); i++) {
			r.append(leafBytes(m.leaf[i]));
			B got = ref::bytes(w ? (*w)->Root(i) : lk->Read()->Root(i));
			if (got != r.root()) return vh::cat("root over ", i + 1, " headers differs");
		}
		return "";
	}
};
static string diffMmr(Adapter& a, const Model& m)
{
	vh::S().traces++;
	ref::Mmr r; vector<ref::Mmr> hist; vector<B> leafHashes;
	for (int s : m.leaf) { leafHashes.push_back(ref::Mmr::leafHash(r.size(), a.leafBytes(s))); r.append(a.leafBytes(s)); hist.push_back(r); }
	if (a.hashes()) {
		if (a.size() != r.size()) return vh::cat("size ", a.size(), " instead of ", r.size());
		if (ref::bytes(a.root(a.size())) != r.root()) return "root differs";
		for (uint64_t p = 0; p < r.size(); p++) {
			auto h = a.hashAt(p);
			if (!h) { if (!a.compacted(p)) return vh::cat("no hash at ", p); }
			else if (ref::bytes(*h) != r.h[p]) return vh::cat("hash at ", p, " differs");
		}
		for (auto& o : hist) { bool c = false; for (auto p : o.peaks) if (a.compacted(p)) c = true; if (!c && ref::bytes(a.root(o.size())) != o.root()) return vh::cat("root of the first ", o.leaves, " leaves differs"); }
		for (size_t k : { (size_t)1, (size_t)2, m.leaf.size() + 5 }) {
			vector<B> want; for (size_t i = m.leaf.size(); i-- > 0 && want.size() < k;) if (!a.prunes() || m.live[i]) want.push_back(leafHashes[i]);
			auto got = a.last(k); if (got.size() != want.size()) return "number of last leaf hashes";
			for (size_t i = 0; i < got.size(); i++) if (ref::bytes(got[i]) != want[i]) return "last leaf hashes differ";
		}
	}
	return a.extra(m, r);
}
// files of a compacted range with n leaves whose pruned leaves are given, as another implementation's snapshot has them
static void writePruned(Adapter& a, const string& d, const string& sub, int n, uint32_t pruned, Model& m)
{
	Tree t(2 * n + 2); ref::Mmr r; m = Model();
	for (int i = 0; i < n; i++) { r.append(a.leafBytes(i)); m.push(i); if (pruned >> i & 1) m.live[i] = 0; }
	size_t size = r.size(); vector<char> pr(size, 0); Roaring roots; B hashes, data, bits(n / 8 + 1, 0);
	for (size_t p = 0; p < size; p++) pr[p] = t.h[p] == 0 ? (pruned >> t.leavesBefore[p] & 1) : (pr[t.left[p]] && pr[t.right[p]]);
	for (size_t p = 0; p < size; p++) {
		bool inside = pr[p] && t.parent[p] >= 0 && t.parent[p] < (long)size && pr[t.parent[p]];
		if (pr[p] && !inside) roots.add(p + 1);
		if (!inside) { hashes += r.h[p]; if (t.h[p] == 0) data += a.leafBytes((int)t.leavesBefore[p]); }
	}
	for (int i = 0; i < n; i++) if (m.live[i]) bits[i / 8] |= (char)(0x80 >> (i % 8));
	mkdir((d + "/" + sub).c_str(), 0777); string q = d + "/" + sub + "/";
	spit(q + "pmmr_hash.bin", hashes); spit(q + "pmmr_data.bin", data); spit(q + "pmmr_leafset.bin", bits); spit(q + "version1", "");
	B pl(roots.getSizeInBytes(), 0); roots.write(&pl[0]); spit(q + "pmmr_prun.bin", pl);
}
static void c06()
{
	string top = vh::freshDir("m"); useDir(top); setenv("TMPDIR", top.c_str(), 1);
	auto gen = Global::GetGenesisBlock().GetOutputs().front();
	auto oa = [&]() { auto a = std::make_unique<PA<OutputPMMR, OutputIdentifier>>(); a->sub = "output"; a->mk = [](int s) { return OutputIdentifier(EOutputFeatures::DEFAULT, cmt(s)); }; a->lb = [gen](int s) { return s == 0 ? B(1, (char)gen.GetFeatures()) + ref::bytes(gen.GetCommitment()) : outLeaf(s); }; return a; };
	auto ra = [&]() { auto a = std::make_unique<PA<RangeProofPMMR, RangeProof>>(); a->sub = "rangeproof"; a->mk = proofOf; a->lb = [gen](int s) { return s == 0 ? ref::be(gen.GetRangeProof().GetProofBytes().size(), 8) + ref::bytes(gen.GetRangeProof().GetProofBytes()) : proofLeaf(s); }; return a; };
	auto run = [&](Adapter& a, const string& d, Model cur, const string& ops, int low) -> string {
		// cur: the committed content on disk already (from a base), or empty
		Model com = cur; int serial = 1000;
		a.open(d);
		if (cur.leaf.empty() && a.hasGenesis()) { cur.push(0); com = Model(); a.commit(); com = cur; }
		for (char c : ops) {
			vh::S().transitions++;
			int n = (int)cur.leaf.size(); int first = -1, last = -1; for (int i = 0; i < n; i++) if (cur.live[i]) { if (first < 0) first = i; last = i; }
			auto rewind = [&](int k, bool readd) {
				if (k < low) k = low; if (k > n) k = n;
				vector<uint64_t> add; if (readd) for (int i = low; i < k; i++) if (!cur.live[i]) { add.push_back(i); cur.live[i] = 1; }
				a.rewind(k, add); cur.leaf.resize(k); cur.live.resize(k);
			};
			switch (c) {
			case 'a': a.append(serial); cur.push(serial++); break;
			case 't': for (int i = 0; i < 3; i++) { a.append(serial); cur.push(serial++); } break;
			case 'f': if (first >= 0) { a.remove(first); cur.live[first] = 0; } break;
			case 'l': if (last >= 0) { a.remove(last); cur.live[last] = 0; } break;
			case 'd': { int dead = -1; for (int i = 0; i < n; i++) if (!cur.live[i]) dead = i; if (dead >= 0 && !throws([&] { a.remove(dead); })) return vh::cat("removing leaf ", dead, " a second time is not refused"); if (!throws([&] { a.remove(n); })) return "removing a leaf that does not exist is not refused"; break; }
			case 'w': rewind(n - 1, true); break;
			case 'x': rewind(n - 2, false); break;
			case 'z': rewind(low + (n - low) / 2, true); break;
			case '1': rewind(1, true); break;
			case 'c': a.commit(); com = cur; break;
			case 'b': a.rollback(); cur = com; break;
			case 'o': a.close(); a.open(d); cur = com; break;
			}
		}
		string e = diffMmr(a, cur); a.close(); return e;
	};
	auto explore = [&](const string& name, std::function<std::unique_ptr<Adapter>()> mk, const string& alpha, int depth) {
		sequences(alpha, depth, name + "|", [&](const string& ops) {
			vh::S().states++;
			string d = vh::freshDir("m/s"); auto a = mk(); Model m;
			string e = guard([&] { return run(*a, d, m, ops, a->hasGenesis() ? 1 : 0); });
			if (!e.empty()) vh::fail(name, vh::cat("after ", ops, ": ", e));
		});
	};
	bool T = vh::thorough();
	explore("output", [&]() -> std::unique_ptr<Adapter> { return oa(); }, "atfldwxzcbo", T ? 6 : 5);
	explore("proof", [&]() -> std::unique_ptr<Adapter> { return ra(); }, "tflwzcbo", T ? 5 : 4);
	explore("kernel", []() -> std::unique_ptr<Adapter> { return std::make_unique<KA>(); }, "atw1zcbo", T ? 6 : 5);
	explore("header", []() -> std::unique_ptr<Adapter> { return std::make_unique<HA>(); }, "atw1zcbo", T ? 6 : 5);
	// the root over the unspent bitmap, for every size around the chunk boundaries, several patterns, before and after rewinding
	setenv("TMPDIR", vh::S().scratch.c_str(), 1);
	for (uint64_t n : { 1ull, 2ull, 7ull, 8ull, 9ull, 64ull, 1000ull, 1023ull, 1024ull, 1025ull, 1032ull, 2047ull, 2048ull, 2049ull, 3071ull, 3072ull, 3073ull, 4096ull, 5121ull, 8192ull, 8193ull }) for (int pat = 0; pat < 6; pat++) {
		if (!vh::begin(vh::cat("bitmaproot|", n, "|", pat))) continue;
		auto in = [&](uint64_t i) { switch (pat) { case 0: return true; case 1: return i % 3 == 0; case 2: return i + 1 == n; case 3: return i == 0; case 4: return (i / 1024) % 2 == 1; default: return (i * 2654435761ull >> 7) % 2 == 0; } };
		string d = vh::freshDir("m/u");
		auto expect = [&](uint64_t size, const std::set<uint64_t>& on) { ref::Mmr m; for (uint64_t c = 0; c * 1024 < size; c++) { string b(128, 0); for (uint64_t i = 0; i < 1024; i++) if (on.count(c * 1024 + i)) b[i / 8] |= (char)(0x80 >> (i % 8)); m.append(b); } return m.root(); };
		string e = guard([&]() -> string {
			std::set<uint64_t> on; auto l = LeafSet::Load(fs::path(d + "/l.bin"));
			for (uint64_t i = 0; i < n; i++) if (in(i)) { l->Add(LeafIndex::At(i)); on.insert(i); }
			if (ref::bytes(l->Root(n)) != expect(n, on)) return "wrong root"; vh::S().states++;
			l->Commit(); if (ref::bytes(l->Root(n)) != expect(n, on)) return "wrong root after a flush";
			for (uint64_t back : { 1ull, 2ull, 9ull, 1023ull, 1024ull, 1025ull, 2050ull }) if (back < n) {
				uint64_t m = n - back; std::set<uint64_t> r(on.begin(), on.lower_bound(m)); std::vector<uint64_t> add; if (!r.count(m / 2)) { add.push_back(m / 2); r.insert(m / 2); }
				l->Rewind(m, add); if (ref::bytes(l->Root(m)) != expect(m, r)) return vh::cat("wrong root after rewinding to ", m); vh::S().states++;
				l->Rollback(); if (ref::bytes(l->Root(n)) != expect(n, on)) return vh::cat("wrong root after discarding the rewind to ", m); vh::S().transitions++;
			}
			return ""; });
		if (!e.empty()) vh::fail("bitmaproot", vh::cat(n, " outputs, pattern ", pat, ": ", e));
	}
	// every compacted range of up to M leaves, then every short sequence
	const int M = T ? 9 : 7;
	for (int n = 2; n <= M; n++) for (uint32_t pruned = 1; pruned < (1u << n); pruned++) {
		for (int which = 0; which < 2; which++) {
			if (which == 1 && n != M - 1) continue;
			if (!vh::begin(vh::cat(which ? "compacted-proof|" : "compacted|", n, "|", pruned))) continue;
			string base = vh::freshDir("m/b");
			auto a0 = which ? (std::unique_ptr<Adapter>)ra() : (std::unique_ptr<Adapter>)oa(); Model m0; string sub = which ? "rangeproof" : "output";
			int low = 0; for (int i = 0; i < n; i++) if (pruned >> i & 1) low = i + 1;
			std::function<void(string)> rec = [&](string ops) {
				vh::S().states++;
				vh::rmtree(base + "/" + sub); writePruned(*a0, base, sub, n, pruned, m0);
				string e = guard([&] { return run(*a0, base, m0, ops, low); });
				a0->close();
				if (!e.empty()) vh::fail(which ? "compacted-proof" : "compacted", vh::cat(n, " leaves, pruned ", std::hex, pruned, std::dec, " after ", ops.empty() ? "loading" : ops, ": ", e));
				if ((int)ops.size() < (which ? 2 : (n <= 5 || T) ? 3 : 2)) for (char c : string("tflwzco")) rec(ops + c);
			};
			rec("");
		}
	}
}
VH_MAIN({
	string p = vh::S().prop;
	if (p == "C08") c08(); else if (p == "C07") c07(); else c06();
})
