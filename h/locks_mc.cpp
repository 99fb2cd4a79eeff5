// C17, first part: the reader/writer wrappers.  Every program of two or three short threads over them, every schedule
// up to a preemption bound, under the race detector.
#include "explore.h"
#include <Core/Traits/Lockable.h>
#include <Core/Traits/Batchable.h>
#include <thread>
struct Boom : std::runtime_error { Boom() : std::runtime_error("boom") {} };
// A record of two parts that must always agree.  The marks (sch::point) are the places where a broken lock shows.
struct Rec : public Traits::IBatchable {
	int a = 0, b = 0, sa = 0, sb = 0, ends = 0, inits = 0, commits = 0, rollbacks = 0; bool open = false, failCommit = false; int failInit = 0;
	std::string log;
	void set(int v) { a = v; sch::point(); b = v; }
	int get() const { int x = a; sch::point(); int y = b; if (x != y) vh::fail("torn-read", vh::cat("a reader saw the halves ", x, " and ", y)); return x; }
	void OnInitWrite(const bool) override { if (failInit == sch::self() + 1) { failInit = 0; throw Boom(); } if (open) vh::fail("two-writers", "a write began inside another"); open = true; inits++; sa = a; sb = b; sch::point(); }
	void Commit() override { if (failCommit) { failCommit = false; open = false; throw Boom(); } commits++; sa = a; sb = b; }
	void Rollback() noexcept override { rollbacks++; a = sa; sch::point(); b = sb; }
	void OnEndWrite() override { if (!open) vh::fail("end-twice", "a write ended twice"); open = false; ends++; }
};
struct Plain { int a = 0, b = 0; void set(int v) { a = v; sch::point(); b = v; } int get() const { int x = a; sch::point(); int y = b; if (x != y) vh::fail("torn-read", "plain"); return x; } };
struct World {
	std::shared_ptr<Rec> x = std::make_shared<Rec>(), y = std::make_shared<Rec>(), z = std::make_shared<Rec>(); std::shared_ptr<Plain> p = std::make_shared<Plain>();
	Locked<Rec> X{ x }, Y{ y }, Z{ z }; Locked<Plain> P{ p };
	int cx = 0, cy = 0, cz = 0;  // what must be committed: updated inside the write sections, so exact
	int begun = 0, commitsX = 0;
};
static World* w;
static int stamp(int t, int k) { return 100 * (t + 1) + k; }
template <class B> static void fin(B& b, int v, int& committed) { b->set(v); b->Commit(); b->SetDirty(false); committed = v; }
static void same(int a, int b, const char* what) { if (a != b) vh::fail("not-committed-state", vh::cat(what, ": read ", a, ", committed ", b)); }
typedef void (*Op)(int, int);
struct Named { const char* n; Op f; };
static const Named OPS[] = {
	{ "r", [](int, int) { auto r = w->X.Read(); int v = r->get(); same(v, w->cx, "reader"); sch::point(); if (r->get() != v) vh::fail("unstable-read", "two reads in one section differ"); } },
	{ "rc", [](int, int) { Reader<Rec> c; { auto r = w->X.Read(); c = r; } int v = c->get(); sch::point(); if (c->get() != v) vh::fail("unstable-read", "copied reader"); Reader<Rec> d(std::move(c)); same(d->get(), w->cx, "moved reader"); } },
	{ "rp", [](int, int) { auto r = w->P.Read(); int v = r->get(); sch::point(); if ((*r).get() != v) vh::fail("unstable-read", "plain"); } },
	{ "wp", [](int t, int k) { auto r = w->P.Write(); r->set(stamp(t, k)); } },
	{ "w", [](int t, int k) { auto r = w->X.Write(); w->cx = stamp(t, k); r->set(stamp(t, k)); if (r->get() != stamp(t, k)) vh::fail("lost-write", "own write not seen"); } },
	{ "wc", [](int t, int k) { Writer<Rec> c; { auto r = w->X.Write(); c = r; r.Clear(); } c->set(stamp(t, k)); w->cx = stamp(t, k); } },
	{ "wr", [](int t, int k) { Reader<Rec> rd; { auto r = w->X.Write(); r->set(stamp(t, k)); w->cx = stamp(t, k); rd = r; same(rd->get(), w->cx, "reader of a writer"); rd = Reader<Rec>(); } } },
	{ "wt", [](int t, int k) { try { auto r = w->X.Write(); r->set(stamp(t, k)); w->cx = stamp(t, k); throw Boom(); } catch (Boom&) {} } },
	{ "wf", [](int t, int k) { auto r = w->X.Write(); w->x->failCommit = true; r->set(stamp(t, k)); w->cx = stamp(t, k); } },
	{ "wi", [](int, int) { { auto r = w->X.Read(); } try { auto r = w->Z.Write(); r->failInit = sch::self() + 1; } catch (Boom&) {} try { auto r = w->Z.Write(); r->set(5); w->cz = 5; } catch (Boom&) {} auto r = w->Z.Write(); r->set(6); w->cz = 6; } },
	{ "mi", [](int t, int k) { { auto r = w->Y.Write(); r->failInit = sch::self() + 1; } try { auto l = MultiLocker().BatchLock(w->X, w->Y); std::get<0>(l)->set(99); } catch (Boom&) {} (void)t; (void)k; auto r = w->X.Read(); same(r->get(), w->cx, "after a failed start"); } },
	{ "mj", [](int t, int k) { { auto r = w->Y.Write(); r->failInit = sch::self() + 1; } try { auto l = MultiLocker().Lock(w->Y, w->X, w->Z); auto& x = std::get<1>(l); x->set(stamp(t, k)); w->cx = stamp(t, k); } catch (Boom&) {} auto r = w->Z.Write(); r->set(3); w->cz = 3; } },
	{ "bc", [](int t, int k) { auto b = w->X.BatchWrite(); fin(b, stamp(t, k), w->cx); } },
	{ "bd", [](int t, int k) { auto b = w->X.BatchWrite(); fin(b, stamp(t, k), w->cx); b->SetDirty(true); b->set(7); } },
	{ "bn", [](int t, int k) { auto b = w->X.BatchWrite(); b->set(stamp(t, k)); } },
	{ "bt", [](int t, int k) { try { auto b = w->X.BatchWrite(); b->set(stamp(t, k)); throw Boom(); } catch (Boom&) {} } },
	{ "m", [](int t, int k) { auto l = MultiLocker().Lock(w->X, w->Y); std::get<0>(l)->set(stamp(t, k)); std::get<1>(l)->set(stamp(t, k)); w->cx = w->cy = stamp(t, k); } },
	{ "m'", [](int t, int k) { auto l = MultiLocker().Lock(w->Y, w->X); std::get<0>(l)->set(stamp(t, k)); std::get<1>(l)->set(stamp(t, k)); w->cx = w->cy = stamp(t, k); } },
	{ "mb", [](int t, int k) { auto l = MultiLocker().BatchLock(w->Y, w->X); fin(std::get<0>(l), stamp(t, k), w->cy); fin(std::get<1>(l), stamp(t, k), w->cx); } },
	{ "mn", [](int t, int k) { try { auto l = MultiLocker().BatchLock(w->X, w->Y); std::get<0>(l)->set(stamp(t, k)); std::get<1>(l)->set(stamp(t, k)); if (k & 1) throw Boom(); } catch (Boom&) {} } },
	{ "ms", [](int, int) { auto l = MultiLocker().LockShared(w->X, w->Y); same(std::get<0>(l)->get(), w->cx, "multi reader"); same(std::get<1>(l)->get(), w->cy, "multi reader 2"); } },
	{ "ms'", [](int, int) { auto l = MultiLocker().LockShared(w->Y, w->X); auto c = std::get<0>(l); same(c->get(), w->cy, "multi reader"); same(std::get<1>(l)->get(), w->cx, "multi reader 2"); } },
	{ "m3", [](int t, int k) { auto l = MultiLocker().Lock(w->X, w->Y, w->Z); std::get<0>(l)->set(stamp(t, k)); std::get<1>(l)->set(stamp(t, k)); std::get<2>(l)->set(stamp(t, k)); w->cx = w->cy = w->cz = stamp(t, k); } },
	{ "m3'", [](int t, int k) { auto l = MultiLocker().BatchLock(w->Z, w->Y, w->X); fin(std::get<0>(l), stamp(t, k), w->cz); std::get<1>(l)->set(1); fin(std::get<2>(l), stamp(t, k), w->cx); } },
	{ "ms3", [](int, int) { auto l = MultiLocker().LockShared(w->Z, w->X, w->Y); same(std::get<0>(l)->get(), w->cz, "3"); same(std::get<1>(l)->get(), w->cx, "3"); same(std::get<2>(l)->get(), w->cy, "3"); } },
};
static const int N = sizeof(OPS) / sizeof(OPS[0]);
static void one(const std::vector<std::vector<int>>& prog, int bound)
{
	std::string name = vh::cat("p", bound); for (auto& t : prog) { name += " |"; for (int o : t) name += std::string(" ") + OPS[o].n; }
	if (!vh::begin(name)) return;
	std::unique_ptr<World> world;
	std::vector<std::function<void()>> th;
	for (size_t t = 0; t < prog.size(); t++) th.push_back([&, t] { for (size_t k = 0; k < prog[t].size(); k++) OPS[prog[t][k]].f((int)t, (int)k); });
	bool soft = false; for (auto& t : prog) for (int o : t) if (!strcmp(OPS[o].n, "wi")) soft = true;
	(void)soft;
	ex::program(th, bound, false, [&] { world.reset(new World()); w = world.get(); }, [&](const std::string& tr) {
		auto done = [&](Rec& r, int c, const char* n) {
			if (r.a != c || r.b != c) vh::fail("end-state", vh::cat("schedule ", tr, ": ", n, " is ", r.a, "/", r.b, " at the end, committed was ", c));
			if (r.open) vh::fail("open", vh::cat("schedule ", tr, ": a write on ", n, " never ended"));
		};
		done(*w->x, w->cx, "x"); done(*w->y, w->cy, "y"); done(*w->z, w->cz, "z");
		// every lock is free: each can be taken for writing once more (a lock still held shows as a deadlock of the next program)
		vh::outcome(vh::cat(name, w->x->a, ",", w->y->a));
	});
}
VH_MAIN({
	bool th = vh::thorough();
	for (int i = 0; i < N; i++) one({ { i } }, 0);
	for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) one({ { i, j } }, 0);
	for (int i = 0; i < N; i++) for (int j = i; j < N; j++) one({ { i }, { j } }, th ? 5 : 3);
	std::vector<int> core; for (int i = 0; i < N; i++) for (const char* c : { "r", "w", "wf", "bc", "bn", "mb", "ms'", "m3" }) if (!strcmp(OPS[i].n, c)) core.push_back(i);
	std::vector<int> all; for (int i = 0; i < N; i++) all.push_back(i);
	const std::vector<int>& s = th ? all : core;
	for (int i : s) for (int j : s) for (int k : s) one({ { i, j }, { k } }, 2);
	for (int i : s) for (int j : s) for (int k : s) if (i <= j && j <= k) one({ { i }, { j }, { k } }, th ? 2 : 1);
	if (th) for (int i : core) for (int j : core) for (int k : core) for (int l : core) one({ { i, j }, { k, l } }, 2);
})
