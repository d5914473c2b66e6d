/* The libgomp entry points gcc emits, on POSIX threads. This file is compiled WITHOUT ThreadSanitizer, so that only
 * what OpenMP promises (fork, join, barrier, critical, single with copyprivate) orders the threads in its eyes: the
 * book-keeping of loops and sections, done with atomics here, orders nothing. */
#include "minigomp.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <unistd.h>
#include <time.h>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>

namespace {
const int MAXT = 64, NWS = 64;
struct WorkShare { volatile long gen; volatile long next; long end, incr, chunk; volatile int single; volatile int left; void *copy; bool up; int kind; };
struct Team {
	int n; void (*fn)(void*); void *data; pthread_barrier_t bar; volatile int spin; WorkShare ws[NWS];
	// a loop prepared by GOMP_parallel_loop_*
	bool pre; long pstart, pend, pincr, pchunk; int pkind;
};
struct Thr { Team *team; int id; long wsn; WorkShare *cur; uint64_t rng; long ssnext; long sit; };
thread_local Thr *me = nullptr;
thread_local Thr serialThr = {nullptr,0,0,nullptr,1,0,0};
int nthreads = 0; uint64_t seed = 1; int jitter = 0; long regions = 0; thread_local uint64_t regionSeed = 0;
pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, nameReg = PTHREAD_MUTEX_INITIALIZER, ordm = PTHREAD_MUTEX_INITIALIZER;

Thr *self() { return me ? me : &serialThr; }
uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z^(z>>30))*0xbf58476d1ce4e5b9ull; z = (z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
void jit() {
	Thr *t = self(); if(!jitter || !t->team) return;
	t->rng = mix(t->rng); const uint64_t r = t->rng % 16;
	if(r < (uint64_t)jitter) { if(r < 2) usleep((t->rng>>8) % 300); else sched_yield(); }
}
int maxThreads() { if(nthreads) return nthreads; const char *e = getenv("OMP_NUM_THREADS"); int n = e ? atoi(e) : 1; return n < 1 ? 1 : n > MAXT ? MAXT : n; }

/// the shared part of the thread's next work-sharing construct, initialised by whoever comes first
WorkShare *nextWs(long start, long end, long incr, long chunk, int kind, void (*init)(WorkShare*, long,long,long,long,int)) {
	Thr *t = self(); Team *T = t->team; const long k = t->wsn++; WorkShare *w = &T->ws[k % NWS];
	// slots are reused: wait until the construct NWS before this one has been left by every thread
	while(true) {
		bool ready = false;
		while(__atomic_exchange_n(&T->spin,1,__ATOMIC_ACQUIRE)) sched_yield();
		if(w->gen == k+1) ready = true;
		else if(w->gen == 0 || __atomic_load_n(&w->left,__ATOMIC_ACQUIRE) == T->n) { w->left = 0; w->single = 0; w->copy = nullptr; init(w,start,end,incr,chunk,kind); w->gen = k+1; ready = true; }
		__atomic_store_n(&T->spin,0,__ATOMIC_RELEASE);
		if(ready) break;
		sched_yield();
	}
	t->cur = w; t->sit = 0; return w;
}
void leaveWs() { Thr *t = self(); if(t->cur) { __atomic_add_fetch(&t->cur->left,1,__ATOMIC_ACQ_REL); t->cur = nullptr; } }
enum { STATIC, DYNAMIC, GUIDED };
void initLoop(WorkShare *w, long s, long e, long i, long c, int kind) { w->next = s; w->end = e; w->incr = i; w->chunk = c < 1 ? 1 : c; if(kind == STATIC && c <= 0) w->chunk = 0; w->up = i > 0; w->kind = kind; }
thread_local long serialNext, serialEnd, serialIncr; thread_local bool serialLoop = false;

bool loopNext(long *is, long *ie) {
	Thr *t = self();
	if(!t->team) { if(!serialLoop) return false; serialLoop = false; if(serialIncr > 0 ? serialNext >= serialEnd : serialNext <= serialEnd) return false; *is = serialNext; *ie = serialEnd; return true; }
	jit();
	WorkShare *w = t->cur; const long total = w->up ? (w->end-w->next > 0 ? 1 : 0) : 1; (void)total;
	if(w->kind == STATIC) {
		const long start = w->next, n = w->incr > 0 ? (w->end-start+w->incr-1)/w->incr : (start-w->end-w->incr-1)/(-w->incr); if(n <= 0) return false;
		long a, b; const int T = t->team->n;
		if(w->chunk == 0) { if(t->sit++) return false; const long q = n/T, r = n%T; a = t->id*q + (t->id < r ? t->id : r); b = a + q + (t->id < r ? 1 : 0); }
		else { a = (t->sit*T + t->id)*w->chunk; t->sit++; b = a + w->chunk; if(b > n) b = n; }
		if(a >= b) return false; *is = start+a*w->incr; *ie = b == n ? w->end : start+b*w->incr; return true;
	}
	while(true) {
		long cur = __atomic_load_n(&w->next,__ATOMIC_RELAXED);
		if(w->up ? cur >= w->end : cur <= w->end) return false;
		long nx = cur + w->incr*w->chunk; if(w->up ? nx > w->end : nx < w->end) nx = w->end;
		if(__atomic_compare_exchange_n(&w->next,&cur,nx,false,__ATOMIC_RELAXED,__ATOMIC_RELAXED)) { *is = cur; *ie = nx; return true; }
	}
}
bool loopStart(long s, long e, long i, long c, int kind, long *is, long *ie) {
	if(!self()->team) { serialLoop = true; serialNext = s; serialEnd = e; serialIncr = i; return loopNext(is,ie); }
	nextWs(s,e,i,c,kind,initLoop); return loopNext(is,ie);
}
void runMember(Thr *t) {
	Thr *old = me; me = t; t->rng = mix(t->rng); jit();
	Team *T = t->team; if(T->pre) nextWs(T->pstart,T->pend,T->pincr,T->pchunk,T->pkind,initLoop);
	T->fn(T->data); me = old;
}
// One pool per process, so that a long run does not exhaust ThreadSanitizer's table of threads. Each member has its own
// pair of semaphores: they order it with the thread that forks and joins, and with nobody else.
struct Member { pthread_t pt; sem_t go, done; Thr *job; bool live; };
Member pool[MAXT]; pid_t poolPid = 0;
void *poolMain(void *a) { Member *m = (Member*)a; while(true) { while(sem_wait(&m->go) != 0) {} runMember(m->job); sem_post(&m->done); } return nullptr; }
void dispatch(int k, Thr *t) {
	if(poolPid != getpid()) { memset(pool,0,sizeof pool); poolPid = getpid(); }
	Member& m = pool[k];
	if(!m.live) { sem_init(&m.go,0,0); sem_init(&m.done,0,0); if(pthread_create(&m.pt,nullptr,poolMain,&m) != 0) abort(); m.live = true; }
	m.job = t; sem_post(&m.go);
}
void parallel(void (*fn)(void*), void *data, unsigned num, bool pre, long s, long e, long i, long c, int kind) {
	int n = num ? (int)num : maxThreads(); if(n > MAXT) n = MAXT;
	if(me) n = 1;                       // nested regions are serialised
	Team *T = (Team*)calloc(1,sizeof(Team)); T->n = n; T->fn = fn; T->data = data; T->pre = pre; T->pstart = s; T->pend = e; T->pincr = i; T->pchunk = c; T->pkind = kind;
	pthread_barrier_init(&T->bar,nullptr,n);
	const uint64_t rs = mix(seed ^ mix(++regions));
	Thr th[MAXT]; memset(th,0,sizeof th);
	for(int k = 0; k < n; k++) { th[k].team = T; th[k].id = k; th[k].rng = mix(rs+k); }
	// the order in which threads come to life varies too
	for(int k = 1; k < n; k++) { const int j = (rs & 1) ? n-k : k; dispatch(j,&th[j]); }
	runMember(&th[0]);
	for(int k = 1; k < n; k++) while(sem_wait(&pool[k].done) != 0) {}
	pthread_barrier_destroy(&T->bar); free(T);
}
void barrier() { Thr *t = self(); if(t->team && t->team->n > 1) { jit(); pthread_barrier_wait(&t->team->bar); } jit(); }
void noInit(WorkShare *w, long s, long e, long, long, int) { w->next = s; w->end = e; w->incr = 1; w->chunk = 1; w->up = true; w->kind = DYNAMIC; }
}

extern "C" {
void minigomp_seed(uint64_t s, int j) { seed = s; jitter = j; }
long minigomp_regions() { return regions; }

void GOMP_parallel(void (*fn)(void*), void *d, unsigned n, unsigned) { parallel(fn,d,n,false,0,0,0,0,0); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void *d, unsigned n, unsigned) { parallel(fn,d,n,false,0,0,0,0,0); return n ? n : maxThreads(); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { jit(); pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); jit(); }
void GOMP_critical_name_start(void **p) { jit(); pthread_mutex_lock(&nameReg); if(!*p) { pthread_mutex_t *m = (pthread_mutex_t*)malloc(sizeof *m); pthread_mutex_init(m,nullptr); *p = m; } pthread_mutex_t *m = (pthread_mutex_t*)*p; pthread_mutex_unlock(&nameReg); pthread_mutex_lock(m); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock((pthread_mutex_t*)*p); jit(); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atom); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atom); }
void GOMP_ordered_start(void) { pthread_mutex_lock(&ordm); }
void GOMP_ordered_end(void) { pthread_mutex_unlock(&ordm); }
bool GOMP_single_start(void) { Thr *t = self(); if(!t->team) return true; WorkShare *w = nextWs(0,0,1,1,DYNAMIC,noInit); jit(); const bool first = __atomic_exchange_n(&w->single,1,__ATOMIC_ACQ_REL) == 0; leaveWs(); return first; }
void *GOMP_single_copy_start(void) { Thr *t = self(); if(!t->team) return nullptr; WorkShare *w = nextWs(0,0,1,1,DYNAMIC,noInit); if(__atomic_exchange_n(&w->single,1,__ATOMIC_ACQ_REL) == 0) return nullptr; barrier(); void *r = w->copy; leaveWs(); return r; }
void GOMP_single_copy_end(void *d) { Thr *t = self(); if(!t->team) return; t->cur->copy = d; barrier(); leaveWs(); }

#define LOOP(name,kind) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *a, long *b) { return loopStart(s,e,i,c,kind,a,b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return loopNext(a,b); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, long c, unsigned) { parallel(fn,d,n,true,s,e,i,c,kind); }
LOOP(static,STATIC) LOOP(dynamic,DYNAMIC) LOOP(guided,DYNAMIC) LOOP(nonmonotonic_dynamic,DYNAMIC) LOOP(nonmonotonic_guided,DYNAMIC)
#define LOOPRT(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long *a, long *b) { return loopStart(s,e,i,1,DYNAMIC,a,b); } \
bool GOMP_loop_##name##_next(long *a, long *b) { return loopNext(a,b); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void *d, unsigned n, long s, long e, long i, unsigned) { parallel(fn,d,n,true,s,e,i,1,DYNAMIC); }
LOOPRT(runtime) LOOPRT(nonmonotonic_runtime) LOOPRT(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { leaveWs(); barrier(); }
bool GOMP_loop_end_cancel(void) { leaveWs(); barrier(); return false; }
void GOMP_loop_end_nowait(void) { leaveWs(); }

unsigned GOMP_sections_next(void) { Thr *t = self(); long a,b; if(!t->team) { if(serialNext < serialEnd) return (unsigned)serialNext++; return 0; } return loopNext(&a,&b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { Thr *t = self(); if(!t->team) { serialNext = 1; serialEnd = (long)n+1; return GOMP_sections_next(); } nextWs(1,(long)n+1,1,1,DYNAMIC,noInit); return GOMP_sections_next(); }
void GOMP_parallel_sections(void (*fn)(void*), void *d, unsigned n, unsigned c, unsigned) { parallel(fn,d,n,true,1,(long)c+1,1,1,DYNAMIC); }
void GOMP_sections_end(void) { leaveWs(); barrier(); }
bool GOMP_sections_end_cancel(void) { leaveWs(); barrier(); return false; }
void GOMP_sections_end_nowait(void) { leaveWs(); }
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void*), void *data, void (*cpy)(void*,void*), long size, long align, bool, unsigned, void**, int, void*) {
	if(cpy) { char *b = (char*)malloc(size+align); char *p = (char*)(((uintptr_t)b+align-1)/align*align); cpy(p,data); fn(p); free(b); } else fn(data); }

int omp_get_num_threads(void) { Thr *t = self(); return t->team ? t->team->n : 1; }
int omp_get_thread_num(void) { return self()->id; }
int omp_get_max_threads(void) { return me ? 1 : maxThreads(); }
void omp_set_num_threads(int n) { nthreads = n < 1 ? 1 : n > MAXT ? MAXT : n; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return self()->team && self()->team->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
int omp_get_level(void) { return self()->team ? 1 : 0; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_thread_limit(void) { return MAXT; }
void omp_set_schedule(int,int) {}
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
// omp_lock_t is four bytes
static pthread_mutex_t locks[4096]; static int nlocks = 0;
static pthread_mutex_t *lockOf(void *l) { return &locks[*(int*)l % 4096]; }
void omp_init_lock(void *l) { const int k = __atomic_fetch_add(&nlocks,1,__ATOMIC_RELAXED); *(int*)l = k; pthread_mutex_init(lockOf(l),nullptr); }
void omp_destroy_lock(void *l) { pthread_mutex_destroy(lockOf(l)); }
void omp_set_lock(void *l) { jit(); pthread_mutex_lock(lockOf(l)); }
void omp_unset_lock(void *l) { pthread_mutex_unlock(lockOf(l)); }
int omp_test_lock(void *l) { return pthread_mutex_trylock(lockOf(l)) == 0; }
}
