// A stand-in for the OpenMP run time of gcc.
// GSHIM_THREADS: size of the teams. GSHIM_ORDER: "free" (threads run freely, for the race detector), or a number: one thread runs at a time
// and the turn changes at the scheduling points only: 0 in order, 1 in reverse order, otherwise by pseudo-random choice.
// Not instrumented by, but understood by, the thread sanitizer: everything is built on pthreads.
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <vector>
#include <set>
#include <time.h>
#include <sched.h>

namespace
{
struct WS { bool init = false; unsigned next = 1, count = 0; long long a = 0, end = 0, incr = 0, chunk = 0; int left = 0; bool single = false; void *copy = nullptr; std::vector<unsigned> perm; };
struct Team
{
    int n; void (*fn) (void *); void *data;
    pthread_mutex_t m; pthread_cond_t c;
    int current = -1; std::vector<int> state;    // 0 ready 1 at the barrier 2 ended 3 waits for the lock
    int arrived = 0; unsigned phase = 0;
    std::map<unsigned, WS> ws;
    uint64_t rng;
};
thread_local Team *team = nullptr;
thread_local int me = 0;
thread_local unsigned ord = 0;
thread_local WS *cur = nullptr;
int setting = 0;
long order ()
{
    static const long o = [] { const char *e = getenv ("GSHIM_ORDER"); return !e || !strcmp (e, "free") ? -1L : atol (e); } ();
    return o;
}
int width ()
{
    static const int w = [] { const char *e = getenv ("GSHIM_THREADS"); const int t = e ? atoi (e) : 4; return t < 1 ? 1 : t; } ();
    return setting > 0 ? setting : w;
}
uint64_t regions = 0;
unsigned pick (Team *t, unsigned k) { t->rng = t->rng * 6364136223846793005ULL + 1442695040888963407ULL; return (t->rng >> 33) % k; }
pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;      // critical, atomic
bool held = false;                                    // in turns: who has the lock
struct Hold { Team *t; Hold (Team *t) : t (t) { pthread_mutex_lock (&t->m); } ~Hold () { pthread_mutex_unlock (&t->m); } };
// with t->m held
void next_turn (Team *t)
{
    std::vector<int> r;
    for (int k = 0; k < t->n; ++k) if (t->state[k] == 0) r.push_back (k);
    if (r.empty ()) { t->current = -1; pthread_cond_broadcast (&t->c); return; }
    const long o = order ();
    t->current = o == 0 ? r.front () : o == 1 ? r.back () : r[pick (t, r.size ())];
    pthread_cond_broadcast (&t->c);
}
void wait_turn (Team *t) { while (t->current != me) pthread_cond_wait (&t->c, &t->m); }
void yield_turn ()
{
    if (!team || order () < 0 || team->n == 1) return;
    Hold h (team);
    if (order () == 0 || order () == 1) return;       // runs on
    next_turn (team);
    wait_turn (team);
}
struct Arg { Team *t; int id; };
void work (Team *t, int id)
{
    Team *t0 = team; const int m0 = me; const unsigned o0 = ord; WS *c0 = cur;
    team = t; me = id; ord = 0; cur = nullptr;
    if (order () >= 0 && t->n > 1) { Hold h (t); wait_turn (t); }
    t->fn (t->data);
    if (order () >= 0 && t->n > 1) { Hold h (t); t->state[id] = 2; next_turn (t); }
    team = t0; me = m0; ord = o0; cur = c0;
}
void *entry (void *p) { Arg *a = (Arg *) p; work (a->t, a->id); return nullptr; }
WS *construct ()
{
    Hold h (team);
    return cur = &team->ws[ord++];
}
Team solo;
void ensure () { if (!team) { static bool i = false; if (!i) { i = true; pthread_mutex_init (&solo.m, nullptr); pthread_cond_init (&solo.c, nullptr); solo.n = 1; solo.state.assign (1, 0); } team = &solo; me = 0; } }
void run (void (*fn) (void *), void *data, unsigned nt, void (*prep) (WS &, void *) = nullptr, void *arg = nullptr)
{
    Team t;
    t.n = team && team != &solo ? 1 : nt ? nt : width ();
    t.fn = fn; t.data = data;
    pthread_mutex_init (&t.m, nullptr); pthread_cond_init (&t.c, nullptr);
    t.state.assign (t.n, 0);
    t.rng = order () * 7919 + __atomic_add_fetch (&regions, 1, __ATOMIC_RELAXED);
    if (prep) prep (t.ws[0], arg);
    std::vector<pthread_t> th (t.n);
    std::vector<Arg> ar (t.n);
    if (order () >= 0) next_turn (&t);
    for (int k = 1; k < t.n; ++k) { ar[k] = {&t, k}; if (pthread_create (&th[k], nullptr, entry, &ar[k])) abort (); }
    work (&t, 0);
    for (int k = 1; k < t.n; ++k) pthread_join (th[k], nullptr);
    pthread_mutex_destroy (&t.m); pthread_cond_destroy (&t.c);
}
void barrier ()
{
    Team *t = team;
    if (!t || t->n == 1) return;
    Hold h (t);
    const unsigned ph = t->phase;
    t->state[me] = 1;
    if (++t->arrived == t->n)
    {
        t->arrived = 0; ++t->phase;
        for (auto &s : t->state) if (s == 1) s = 0;
        if (order () >= 0) next_turn (t); else pthread_cond_broadcast (&t->c);
    }
    else if (order () >= 0) next_turn (t);
    if (order () >= 0) wait_turn (t);
    else while (t->phase == ph) pthread_cond_wait (&t->c, &t->m);
}
void lock ()
{
    if (order () < 0) { pthread_mutex_lock (&big); return; }
    while (held) { Hold h (team); next_turn (team); wait_turn (team); }
    held = true;
}
void unlock () { if (order () < 0) pthread_mutex_unlock (&big); else { held = false; } }
void set_sections (WS &w, unsigned count)
{
    if (w.init) return;
    w.init = true; w.count = count; w.next = 0;
    for (unsigned k = 1; k <= count; ++k) w.perm.push_back (k);
    if (order () == 1) for (unsigned k = 0; k < count / 2; ++k) std::swap (w.perm[k], w.perm[count - 1 - k]);
    if (order () > 1 && team) for (unsigned k = count; k > 1; --k) std::swap (w.perm[k - 1], w.perm[pick (team, k)]);
}
unsigned section () { Hold h (team); return cur->next < cur->count ? cur->perm[cur->next++] : 0; }
void set_loop (WS &w, long long a, long long end, long long incr, long long chunk)
{
    if (w.init) return;
    w.init = true; w.a = a; w.end = end; w.incr = incr; w.chunk = chunk < 1 ? 1 : chunk;
}
template<typename T> bool chunk (T *is, T *ie)
{
    Hold h (team);
    WS &w = *cur;
    // both signed and unsigned loops count with the difference
    const T a = (T) w.a, e = (T) w.end, inc = (T) w.incr;
    const bool up = w.incr > 0;
    if (up ? a >= e : a <= e) return false;
    T b = a + inc * (T) w.chunk;
    if (up ? (b > e || b < a) : (b < e || b > a)) b = e;
    *is = a; *ie = b; w.a = (long long) b;
    return true;
}
template<typename T> bool loop_start (T a, T e, T inc, T ch, T *is, T *ie)
{
    ensure ();
    construct ();
    { Hold h (team); set_loop (*cur, (long long) a, (long long) e, (long long) inc, (long long) ch); }
    yield_turn ();
    return chunk<T> (is, ie);
}
template<typename T> bool loop_next (T *is, T *ie) { if (!cur) construct (); yield_turn (); return chunk<T> (is, ie); }
}

extern "C"
{
typedef unsigned long long ull;
void GOMP_parallel (void (*fn) (void *), void *data, unsigned nt, unsigned) { run (fn, data, nt); }
void GOMP_parallel_sections (void (*fn) (void *), void *data, unsigned nt, unsigned count, unsigned)
{
    run (fn, data, nt, [] (WS &w, void *p) { w.count = *(unsigned *) p; }, &count);
}
unsigned GOMP_sections_start (unsigned count) { ensure (); construct (); { Hold h (team); set_sections (*cur, count); } yield_turn (); return section (); }
unsigned GOMP_sections_next () { if (!cur) { construct (); Hold h (team); const unsigned c = cur->count; set_sections (*cur, c); } yield_turn (); return section (); }
void GOMP_sections_end () { cur = nullptr; barrier (); }
void GOMP_sections_end_nowait () { cur = nullptr; }
bool GOMP_sections_end_cancel () { cur = nullptr; barrier (); return false; }
void GOMP_barrier () { barrier (); }
bool GOMP_single_start () { ensure (); WS *w = construct (); yield_turn (); Hold h (team); const bool f = !w->single; w->single = true; return f; }
void *GOMP_single_copy_start () { ensure (); WS *w = construct (); bool f; { Hold h (team); f = !w->single; w->single = true; } if (f) return nullptr; barrier (); return w->copy; }
void GOMP_single_copy_end (void *p) { team->ws[ord - 1].copy = p; barrier (); }
void GOMP_critical_start () { ensure (); yield_turn (); lock (); }
void GOMP_critical_end () { unlock (); yield_turn (); }
void GOMP_critical_name_start (void **) { ensure (); yield_turn (); lock (); }
void GOMP_critical_name_end (void **) { unlock (); yield_turn (); }
void GOMP_atomic_start () { ensure (); lock (); }
void GOMP_atomic_end () { unlock (); }
#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start (long a, long e, long i, long c, long *is, long *ie) { return loop_start<long> (a, e, i, c, is, ie); } \
bool GOMP_loop_##NAME##_next (long *is, long *ie) { return loop_next<long> (is, ie); } \
bool GOMP_loop_ull_##NAME##_start (bool, ull a, ull e, ull i, ull c, ull *is, ull *ie) { return loop_start<ull> (a, e, i, c, is, ie); } \
bool GOMP_loop_ull_##NAME##_next (ull *is, ull *ie) { return loop_next<ull> (is, ie); } \
void GOMP_parallel_loop_##NAME (void (*fn) (void *), void *data, unsigned nt, long a, long e, long i, long c, unsigned) \
{ long p[4] = {a, e, i, c}; run (fn, data, nt, [] (WS &w, void *q) { long *p = (long *) q; set_loop (w, p[0], p[1], p[2], p[3]); }, p); }
LOOP (static) LOOP (dynamic) LOOP (guided) LOOP (nonmonotonic_dynamic) LOOP (nonmonotonic_guided)
#define RLOOP(NAME) \
bool GOMP_loop_##NAME##_start (long a, long e, long i, long *is, long *ie) { return loop_start<long> (a, e, i, 1, is, ie); } \
bool GOMP_loop_##NAME##_next (long *is, long *ie) { return loop_next<long> (is, ie); } \
bool GOMP_loop_ull_##NAME##_start (bool, ull a, ull e, ull i, ull *is, ull *ie) { return loop_start<ull> (a, e, i, 1, is, ie); } \
bool GOMP_loop_ull_##NAME##_next (ull *is, ull *ie) { return loop_next<ull> (is, ie); } \
void GOMP_parallel_loop_##NAME (void (*fn) (void *), void *data, unsigned nt, long a, long e, long i, unsigned) \
{ long p[4] = {a, e, i, 1}; run (fn, data, nt, [] (WS &w, void *q) { long *p = (long *) q; set_loop (w, p[0], p[1], p[2], p[3]); }, p); }
RLOOP (runtime) RLOOP (nonmonotonic_runtime) RLOOP (maybe_nonmonotonic_runtime)
void GOMP_loop_end () { cur = nullptr; barrier (); }
void GOMP_loop_end_nowait () { cur = nullptr; }
void GOMP_taskwait () {}
void GOMP_taskyield () {}
void GOMP_taskgroup_start () {}
void GOMP_taskgroup_end () {}
void GOMP_task (void (*fn) (void *), void *data, void (*cpy) (void *, void *), long size, long align, bool, unsigned, void **, int, void *)
{
    if (!cpy) { fn (data); return; }
    std::vector<char> b (size + align);
    char *p = (char *) (((uintptr_t) b.data () + align - 1) & ~(uintptr_t) (align - 1));
    cpy (p, data);
    fn (p);
}
int omp_get_thread_num () { return team ? me : 0; }
int omp_get_num_threads () { return team ? team->n : 1; }
int omp_get_max_threads () { return width (); }
int omp_get_num_procs () { return width (); }
void omp_set_num_threads (int n) { setting = n; }
int omp_in_parallel () { return team && team->n > 1; }
int omp_get_level () { return team && team != &solo; }
int omp_get_active_level () { return omp_in_parallel (); }
int omp_get_dynamic () { return 0; }
void omp_set_dynamic (int) {}
int omp_get_nested () { return 0; }
void omp_set_nested (int) {}
int omp_get_max_active_levels () { return 1; }
void omp_set_max_active_levels (int) {}
int omp_get_thread_limit () { return 1 << 20; }
double omp_get_wtime () { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick () { return 1e-9; }
void omp_init_lock (int *l) { __atomic_store_n (l, 0, __ATOMIC_RELEASE); }
void omp_destroy_lock (int *) {}
int omp_test_lock (int *l) { int z = 0; return __atomic_compare_exchange_n (l, &z, 1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE); }
void omp_unset_lock (int *l) { __atomic_store_n (l, 0, __ATOMIC_RELEASE); }
void omp_set_lock (int *l) { ensure (); while (!omp_test_lock (l)) { if (order () < 0) sched_yield (); else { Hold h (team); next_turn (team); wait_turn (team); } } }
}
