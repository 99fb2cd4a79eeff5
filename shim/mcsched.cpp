// Controlled scheduler: the threads of a program run one at a time; at every lock operation the explorer decides who
// runs next.  Plain C style on purpose: this file is compiled without the race detector and hands the turn over by raw
// futex calls, so the detector sees only the synchronisation of the code under test.
#include "mcsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <linux/futex.h>

namespace sch {
enum { MAXT = 8, MAXC = 4096, MAXL = 65536, MAXI = 4096 };
enum State { NONE, READY, WANT, COND, SLEEP, JOIN, DONE };
enum Mode { M_MUTEX, M_RD, M_WR };
struct Th { State st; void* obj; int mode; bool timed, timedout, signalled; int go; int joinT; pthread_t pt; bool detached; const char* what; };
struct Lk { void* a; int owner, count, readers; unsigned touchR, touchW; };   // touch*: threads that used it (read / exclusively)
struct Ch { int n, c; };
static Th T[MAXT]; static int nT; static __thread int me = -1;
static Lk L[MAXL]; static int nL, usedL[MAXL];
static Ch C[MAXC]; static int depth, pos, used, bound;
static volatile int active; static int mainGo; static int running;
static bool filter, discovering; static void* interesting[MAXI]; static int nI; static bool grew;
static char errorText[1024]; static bool bad; static long steps; static long lastStep; static int slk;
static char trace_[4096]; static int traceN;
static uintptr_t lo, hi, slo, shi;   // the executable, libstdc++

typedef int (*f1)(void*); typedef int (*f2)(void*, void*); typedef int (*f3)(void*, void*, const void*); typedef int (*f4)(void*, void*, int, const void*);
static f1 r_ml, r_mt, r_mu, r_rr, r_rw, r_tr, r_tw, r_ru, r_cs, r_cb; static f2 r_cw; static f3 r_ct; static f4 r_cc;
static int (*r_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static int (*r_join)(pthread_t, void**);
static void resolve()
{
	if (r_cb) return;
#define R(v, n) v = (decltype(v))dlsym(RTLD_NEXT, n)
	R(r_ml, "pthread_mutex_lock"); R(r_mt, "pthread_mutex_trylock"); R(r_mu, "pthread_mutex_unlock");
	R(r_rr, "pthread_rwlock_rdlock"); R(r_rw, "pthread_rwlock_wrlock"); R(r_tr, "pthread_rwlock_tryrdlock"); R(r_tw, "pthread_rwlock_trywrlock"); R(r_ru, "pthread_rwlock_unlock");
	R(r_cw, "pthread_cond_wait"); R(r_ct, "pthread_cond_timedwait"); R(r_cc, "pthread_cond_clockwait"); R(r_cs, "pthread_cond_signal");
	R(r_create, "pthread_create"); R(r_join, "pthread_join"); R(r_cb, "pthread_cond_broadcast");
#undef R
}
static int phdr(struct dl_phdr_info* i, size_t, void*)
{
	uintptr_t a = ~0ul, b = 0;
	for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { uintptr_t x = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; if (x < a) a = x; if (x + i->dlpi_phdr[k].p_memsz > b) b = x + i->dlpi_phdr[k].p_memsz; }
	if (!i->dlpi_name || !*i->dlpi_name) { if (!hi) { lo = a; hi = b; } }
	else if (strstr(i->dlpi_name, "libstdc++")) { slo = a; shi = b; }
	return 0;
}
static inline bool ours(void* ra) { uintptr_t x = (uintptr_t)ra; return (x >= lo && x < hi) || (x >= slo && x < shi); }
static inline bool ctl(void* ra) { return __builtin_expect(active, 0) && me >= 0 && ours(ra); }
static void fwait(int* w) { while (__atomic_exchange_n(w, 0, __ATOMIC_ACQ_REL) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
static bool fwaitFor(int* w, int ms)
{
	if (__atomic_exchange_n(w, 0, __ATOMIC_ACQ_REL)) return true;
	timespec t{ ms / 1000, (ms % 1000) * 1000000L };
	syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, &t, nullptr, 0);
	return __atomic_exchange_n(w, 0, __ATOMIC_ACQ_REL) != 0;
}
static void fpost(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void glock() { while (__atomic_exchange_n(&slk, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void gunlock() { __atomic_store_n(&slk, 0, __ATOMIC_RELEASE); }

static Lk* lk(void* a)
{
	size_t h = ((uintptr_t)a >> 3) * 0x9E3779B97F4A7C15ull >> 48;
	for (size_t i = 0; i < MAXL; i++) { Lk& l = L[(h + i) & (MAXL - 1)]; if (l.a == a) return &l; if (!l.a) { if (nL > MAXL - 16) { fprintf(stderr, "sched: lock table full\n"); _exit(97); } usedL[nL++] = (int)((h + i) & (MAXL - 1)); memset(&l, 0, sizeof(l)); l.a = a; l.owner = -1; return &l; } }
	return nullptr;
}
static bool canTake(int t, Lk* l, int mode)
{
	if (mode == M_RD) return l->owner < 0 || l->owner == t;         // the owner itself: the real call reports the error
	if (mode == M_WR) return (l->owner < 0 && l->readers == 0) || l->owner == t;
	return l->owner < 0;
}
static bool isEnabled(int t)
{
	Th& x = T[t];
	if (x.detached) return false;
	switch (x.st) {
	case READY: return true;
	case WANT: return canTake(t, lk(x.obj), x.mode);
	case COND: return x.signalled && canTake(t, lk(x.obj), M_MUTEX);
	case JOIN: return T[x.joinT].st == DONE;
	default: return false;
	}
}
// only a pointer is kept here: the race detector watches the library's string functions
static const char* errLit; static bool errDescribe;
static void err(const char* s, bool d = false) { if (!bad) { errLit = s; errDescribe = d; bad = true; } }
static void describe(char* o, size_t n)
{
	size_t k = 0;
	for (int t = 0; t < nT && k < n; t++) if (T[t].st != DONE) {
		k += snprintf(o + k, n - k, " thread %d %s", t, T[t].st == WANT ? (T[t].mode == M_RD ? "waits to read" : "waits for a lock") : T[t].st == COND ? "waits to be woken" : T[t].st == SLEEP ? "sleeps" : T[t].st == JOIN ? "waits for a thread" : "runs");
		if (k < n && T[t].st == WANT) { Lk* l = lk(T[t].obj); if (l->owner >= 0) k += snprintf(o + k, n - k, " held by thread %d", l->owner); else k += snprintf(o + k, n - k, " held by %d readers", l->readers); }
	}
}
static int choose(int n)
{
	if (n <= 1) return 0;
	if (pos >= MAXC) { err("schedule too long"); return 0; }
	if (pos == depth) { C[pos].n = n; C[pos].c = 0; depth++; }
	else if (C[pos].n != n) { if (C[pos].c >= n || pos < depth - 1) { grew = true; } C[pos].n = n; if (C[pos].c >= n) C[pos].c = n - 1; }
	return C[pos++].c;
}
// who runs next?  self: the caller (may be not enabled).  -1: nobody can
static int pick(int self, bool selfCanStay)
{
	int opt[MAXT], n = 0;
	bool stay = selfCanStay && isEnabled(self);
	if (stay) opt[n++] = self;
	if (!stay || used < bound) for (int t = 0; t < nT; t++) if (t != self && isEnabled(t)) opt[n++] = t;
	if (!stay && self >= 0 && isEnabled(self)) opt[n++] = self;
	if (n == 0) { for (int t = 0; t < nT; t++) if (T[t].st == SLEEP && !T[t].detached) opt[n++] = t; }
	if (n == 0) { for (int t = 0; t < nT; t++) if (T[t].st == COND && T[t].timed && canTake(t, lk(T[t].obj), M_MUTEX)) opt[n++] = t; if (n) { int c = opt[choose(n)]; T[c].timedout = true; T[c].signalled = true; return c; } }
	if (n == 0) return -1;
	int c = opt[choose(n)];
	if (stay && c != self) used++;
	return c;
}
static void giveTo(int t)
{
	running = t; steps++; __atomic_add_fetch(&lastStep, 1, __ATOMIC_RELAXED);
	if (traceN < (int)sizeof(trace_) - 2 && (traceN == 0 || trace_[traceN - 1] != '0' + t)) trace_[traceN++] = '0' + t;
	trace_[traceN] = 0;
	fpost(&T[t].go);
}
// the caller has set its own state; returns when it has the turn again
static void reschedule(bool canStay)
{
	int self = me;
	glock();
	if (T[self].detached) T[self].detached = false;
	if (running != self) { gunlock(); fwait(&T[self].go); return; } // was set aside while stuck: wait for a turn
	int n = pick(self, canStay);
	if (n == self) { steps++; __atomic_add_fetch(&lastStep, 1, __ATOMIC_RELAXED); gunlock(); return; }
	if (n < 0) {
		bool all = true; for (int t = 0; t < nT; t++) if (T[t].st != DONE) all = false;
		if (!all) {
			bool anyDet = false; for (int t = 0; t < nT; t++) if (T[t].detached) anyDet = true;
			if (!anyDet) err("deadlock", true);
			running = -1;
			if (!anyDet) fpost(&mainGo);
		} else { running = -1; fpost(&mainGo); }
		gunlock();
		if (T[self].st != DONE) fwait(&T[self].go);
		return;
	}
	giveTo(n);
	gunlock();
	if (T[self].st != DONE) fwait(&T[self].go);
}
static bool isInteresting(void* a) { for (int i = 0; i < nI; i++) if (interesting[i] == a) return true; return false; }
static void touch(void* a, bool w)
{
	Lk* l = lk(a); if (w) l->touchW |= 1u << me; else l->touchR |= 1u << me;
	unsigned all = l->touchR | l->touchW;
	if (l->touchW && (all & (all - 1)) && !isInteresting(a) && nI < MAXI) { interesting[nI++] = a; grew = true; }
}
static void before(void* a, int mode)
{
	touch(a, mode != M_RD);
	Lk* l = lk(a);
	T[me].obj = a; T[me].mode = mode; T[me].st = WANT;
	if (!filter || isInteresting(a) || !canTake(me, l, mode)) reschedule(true);
	T[me].st = READY;
}
static void taken(void* a, int mode) { Lk* l = lk(a); if (mode == M_RD) l->readers++; else { l->owner = me; l->count++; } }

void point() { if (active && me >= 0) { T[me].st = READY; reschedule(true); } }
int self() { return me; }
struct Start { void (*f)(void*); void* a; int t; void* (*pf)(void*); };
static Start starts[MAXT];
static void* body(void* p)
{
	Start* s = (Start*)p; me = s->t;
	fwait(&T[s->t].go);
	s->f(s->a);
	T[me].st = DONE; reschedule(false);
	me = -1;
	return nullptr;
}
bool execute(int n, void (**f)(void*), void** a)
{
	resolve();
	nT = n; pos = 0; used = 0; bad = false; errorText[0] = 0; traceN = 0; trace_[0] = 0; mainGo = 0; grew = false;
	memset(T, 0, sizeof(T));
	if (!filter || discovering) { }
	for (int i = 0; i < n; i++) { T[i].st = READY; starts[i] = Start{ f[i], a[i], i, nullptr }; }
	active = 1;
	for (int i = 0; i < n; i++) r_create(&T[i].pt, nullptr, body, &starts[i]);
	glock(); int c = pick(-1, false); giveTo(c); gunlock();
	long ls = -1; int idle = 0; bool done = false;
	while (!done) {
		if (fwaitFor(&mainGo, 500)) { done = true; break; }
		long s = __atomic_load_n(&lastStep, __ATOMIC_RELAXED);
		if (s != ls) { ls = s; idle = 0; continue; }
		if (++idle == 8) { // the running thread waits for something a parked one must do: let another one run
			glock(); int r = running;
			if (r >= 0) { T[r].detached = true; int k = -1; for (int t = 0; t < nT; t++) if (t != r && isEnabled(t)) { k = t; break; } if (k >= 0) { giveTo(k); idle = 0; } else T[r].detached = false; }
			gunlock();
		}
		if (idle > 80) { err("no progress", true); break; }
	}
	if (bad && errDescribe) { char b[800]; b[0] = 0; describe(b, sizeof(b)); snprintf(errorText, sizeof(errorText), "%s:%s", errLit, b); active = 0; return false; }
	for (int i = 0; i < n; i++) r_join(T[i].pt, nullptr);
	active = 0;
	for (int i = 0; i < nL; i++) { Lk& l = L[usedL[i]]; if (l.owner >= 0 || l.readers > 0) err("a lock is still held after all threads ended"); }
	if (!filter) { for (int i = 0; i < nL; i++) L[usedL[i]].a = nullptr; nL = 0; }
	if (bad) { snprintf(errorText, sizeof(errorText), "%s", errLit); return false; }
	return true;
}
const char* error() { return bad ? errorText : ""; }
const char* trace() { return trace_; }
long stepCount() { return steps; }
void beginProgram(int preemptionBound, bool onlyShared)
{
	resolve(); if (!hi) dl_iterate_phdr(phdr, nullptr);
	depth = 0; bound = preemptionBound; filter = onlyShared; nI = 0; for (int i = 0; i < nL; i++) memset(&L[usedL[i]], 0, sizeof(Lk)); nL = 0;
}
bool changed() { return filter && grew; }
void restart() { depth = 0; }
bool nextSchedule()
{
	depth = pos < depth ? pos : depth;
	while (depth > 0 && C[depth - 1].c + 1 >= C[depth - 1].n) depth--;
	if (depth == 0) return false;
	C[depth - 1].c++;
	return true;
}
int pickValue(int n) { return choose(n); }
}
using namespace sch;
#define RA __builtin_return_address(0)
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
	resolve();
	if (!ctl(RA)) return r_ml(m);
	Lk* l = lk(m);
	if (l->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { l->count++; return r_ml(m); }
	before(m, M_MUTEX);
	int r = r_ml(m); if (r == 0) taken(m, M_MUTEX); return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	resolve();
	if (!ctl(RA)) return r_mt(m);
	touch(m, true);
	if (!filter || isInteresting(m)) point();
	Lk* l = lk(m);
	if (l->owner >= 0 && !(l->owner == me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)) return EBUSY;
	int r = r_mt(m); if (r == 0) taken(m, M_MUTEX); return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
	resolve();
	if (!ctl(RA)) return r_mu(m);
	Lk* l = lk(m);
	if (l->owner != me) { err("a mutex is released by a thread that does not hold it"); return 0; }
	if (--l->count == 0) l->owner = -1;
	return r_mu(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
	resolve();
	if (!ctl(RA)) return r_rr((void*)m);
	before(m, M_RD);
	int r = r_rr((void*)m); if (r == 0) taken(m, M_RD); return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
	resolve();
	if (!ctl(RA)) return r_rw((void*)m);
	before(m, M_WR);
	int r = r_rw((void*)m); if (r == 0) taken(m, M_WR); return r;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
	resolve();
	if (!ctl(RA)) return r_tr((void*)m);
	touch(m, false);
	if (!filter || isInteresting(m)) point();
	if (lk(m)->owner >= 0) return EBUSY;
	int r = r_tr((void*)m); if (r == 0) taken(m, M_RD); return r;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
	resolve();
	if (!ctl(RA)) return r_tw((void*)m);
	touch(m, true);
	if (!filter || isInteresting(m)) point();
	if (lk(m)->owner >= 0 || lk(m)->readers > 0) return EBUSY;
	int r = r_tw((void*)m); if (r == 0) taken(m, M_WR); return r;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	resolve();
	if (!ctl(RA)) return r_ru((void*)m);
	Lk* l = lk(m);
	if (l->owner == me) { if (--l->count == 0) l->owner = -1; }
	else if (l->owner >= 0) { err("a lock is released by a thread that does not hold it"); return 0; }
	else if (l->readers > 0) l->readers--;
	else { err("a lock is released that nobody holds"); return 0; }
	return r_ru((void*)m);
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	Lk* l = lk(m); touch(m, true);
	if (l->owner != me) err("waiting on a condition without holding its lock");
	int cnt = l->count; l->count = 0; l->owner = -1; r_mu(m);
	T[me].st = COND; T[me].obj = m; T[me].what = (const char*)c; T[me].timed = timed; T[me].timedout = false; T[me].signalled = false;
	reschedule(false);
	T[me].st = READY;
	r_ml(m); l = lk(m); l->owner = me; l->count = cnt;
	return T[me].timedout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { resolve(); if (!ctl(RA)) return r_cw((void*)c, m); return condWait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { resolve(); if (!ctl(RA)) return r_ct((void*)c, m, t); return condWait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { resolve(); if (!ctl(RA)) return r_cc((void*)c, m, (int)k, t); return condWait(c, m, true); }
static void wake(pthread_cond_t* c, bool all)
{
	int w[MAXT], n = 0;
	for (int t = 0; t < nT; t++) if (T[t].st == COND && T[t].what == (const char*)c && !T[t].signalled) w[n++] = t;
	if (all) { for (int i = 0; i < n; i++) T[w[i]].signalled = true; }
	else if (n) T[w[choose(n)]].signalled = true;
}
int pthread_cond_signal(pthread_cond_t* c) { resolve(); if (!ctl(RA)) return r_cs((void*)c); wake(c, false); return r_cs((void*)c); }
int pthread_cond_broadcast(pthread_cond_t* c) { resolve(); if (!ctl(RA)) return r_cb((void*)c); wake(c, true); return r_cb((void*)c); }
}
