// Implementation of the controlled scheduler and the virtual OS.
// This file is compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <execinfo.h>
#include "mcrt.hpp"

#include <algorithm>
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <linux/futex.h>
#include <map>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <string>
#include <sys/epoll.h>
#include <semaphore.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/signalfd.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#pragma GCC diagnostic ignored "-Wunused-result"

extern "C" {
void* __libc_malloc(size_t);
void  __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace mc {

// ===================================================================== util
std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h) {
    const unsigned char* c = (const unsigned char*)p;
    while( n >= 8 ) { std::uint64_t v; memcpy(&v, c, 8); h = mix(h, v); c += 8; n -= 8; }
    while( n-- ) { h ^= *c++; h *= 0x100000001b3ULL; }
    return mix(h, 0x1234567);
}

static void rawlog(const char* fmt, ...) __attribute__((format(printf,1,2)));
static void rawlog(const char* fmt, ...) {
    char b[4096];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if( n > (int)sizeof b ) n = sizeof b;
    syscall(SYS_write, 2, b, n);
}

#define REAL(ret, name, ...) \
    typedef ret (*name##_t)(__VA_ARGS__); \
    static name##_t real_##name() { \
        static name##_t f = nullptr; \
        if( !f ) f = (name##_t)dlsym(RTLD_NEXT, #name); \
        return f; \
    }

// ============================================================ shared memory
const int MAXDEV = 40;
struct dev { std::uint16_t pos; std::uint8_t alt; std::uint8_t n; };
struct item {
    std::uint8_t nd, sc, fc, pad;
    dev d[MAXDEV];
};
const std::size_t STACK_CAP = 6u << 20;
const std::size_t TABLE_CAP = 1u << 26;    // state signatures
const std::size_t NOTE_CAP = 1 << 16;
const int MAXW = 64;

struct wslot {
    char msg[8192];
    char kind[32];
    char notes[NOTE_CAP];
    std::size_t notes_n;
    std::uint64_t cur_case, from_case;
    item it;                       // item being executed
    int ndevs_known;
    std::uint64_t frames[2][16];
    int nframes[2];
};

struct shared {
    std::atomic<int> lock;
    std::size_t nstack;
    std::atomic<int> active;
    std::atomic<bool> stop;
    std::atomic<bool> overflow;
    std::atomic<std::uint64_t> execs, pruned, choices, states, events, envchoices;
    std::atomic<std::uint64_t> transitions, next_chunk, cases;
    std::atomic<int> violated;     // 1+slot index of the first violation
    std::atomic<unsigned> nonrepro;
    std::atomic<int> knowns[64];
    std::atomic<std::uint64_t> maxlen;
    std::atomic<int> sample_set;   // 0 none, 1 being written, 2 written
    char sample[1600];
    wslot slots[MAXW];
};
static shared* S;
static item* g_stack;
struct tent { std::atomic<std::uint64_t> key; std::atomic<std::uint32_t> val; std::uint32_t pad; };
static tent* g_table;

static void slock() { int z; do { z = 0; if( S->lock.compare_exchange_weak(z, 1) ) return; sched_yield(); } while(true); }
static void sunlock() { S->lock.store(0); }

// returns true if newly inserted or improved; false if already covered
static bool table_visit(std::uint64_t key, std::uint32_t cost) {
    if( key == 0 ) key = 1;
    std::size_t i = (key ^ (key >> 29)) & (TABLE_CAP - 1);
    for( int probes = 0; probes < 256; ++probes, i = (i + 1) & (TABLE_CAP - 1) ) {
        std::uint64_t k = g_table[i].key.load(std::memory_order_relaxed);
        if( k == 0 ) {
            std::uint64_t z = 0;
            if( g_table[i].key.compare_exchange_strong(z, key) ) {
                g_table[i].val.store(cost + 1);
                S->states.fetch_add(1, std::memory_order_relaxed);
                return true;
            }
            k = z;
        }
        if( k == key ) {
            std::uint32_t v = g_table[i].val.load();
            if( v == 0 ) return true;          // being inserted
            if( v - 1 <= cost ) return false;
            g_table[i].val.store(cost + 1);
            return true;
        }
    }
    return true;
}

// =========================================================== configuration
static bool o_thorough = false;
static bool o_verbose = false;
static double o_time = 40;
static int o_jobs = 8;
static std::string o_replay;
static std::string o_only;
static int o_bound = -1;
static std::string o_scratch;
static std::string o_evdir = "/verif/evidence";
static std::string o_repdir = "/verif/replays";
static std::string o_findings;
bool thorough() { return o_thorough; }
// check programs consult thorough() while they build their scenario lists
__attribute__((constructor)) static void early_options(int argc, char** argv, char**) {
    for( int i = 1; i < argc; ++i ) if( std::string(argv[i]) == "--thorough" ) o_thorough = true;
}
void verbose(bool on) { o_verbose = on; }
const std::string& scratch() { return o_scratch; }

struct finding { std::string key, text; int idx; };
static std::vector<finding> g_findings;

// ============================================================== execution
const int MAXT = 24;
struct vclock { std::uint32_t c[MAXT]; };

struct obj {
    std::uint64_t wh = 0, rh = 0;
    vclock vc;
    // mutex / rwlock state
    int owner = -1;
    int readers = 0;
    obj() { memset(&vc, 0, sizeof vc); }
};

enum en { E_ALWAYS, E_MUTEX, E_RD, E_WR, E_FLAG, E_PRED, E_UNTIL, E_SPIN, E_IDLE, E_EPOLL };

struct epoll;
struct VT {
    int id = 0;
    char name[24];
    bool live = false, done = false, harness = false, joined = false;
    int futex = 0;
    pthread_t real{};
    en e = E_ALWAYS;
    obj* eo = nullptr;
    bool flag = false;
    const std::function<bool()>* pred = nullptr;
    bool timed = false;
    std::int64_t deadline = 0;
    bool timed_out = false;
    bool yielding = false, soft = false;
    const void* saddr = nullptr; int ssize = 0; std::uint64_t sval = 0; int scount = 0;
    epoll* ep = nullptr;
    vclock vc;
    std::uint64_t th = 0;
    const char* what = "";
    std::function<void()> fn;
    void* (*start)(void*) = nullptr; void* arg = nullptr; void* ret = nullptr;
    char *stk_lo = nullptr, *stk_hi = nullptr;
    jmp_buf* exitjmp = nullptr; int exitcode = 0; bool exitquick = false;
    std::uint64_t shstk[128]; int nsh = 0;
    bool in_rt = false;
};

static VT* T[MAXT];
static int NT = 0;
static __thread VT* self = nullptr;
static bool g_running = false;       // an execution is in progress
static std::int64_t g_now = 0;       // virtual ns
static bool g_explore = false;
static faults g_faults;
static item g_item;                  // prefix
static int g_pos = 0;                // choice position
static int g_lastpos = -1;           // last deviation position
static int g_nextdev = 0;
static int g_cur_sc = 0, g_cur_fc = 0;
static int g_sb = 0, g_fb = 0;
static bool g_sequential = false;
static bool g_replaying = false;
static std::uint64_t g_steps = 0, g_steplimit = 400000;
static int g_slot = 0;
static bool g_races = false;
static bool g_arena = false;
static std::uint64_t g_obs = 0;
static unsigned g_consec = 0;
static std::vector<std::pair<std::uintptr_t,std::uintptr_t>> g_ignatom, g_ignrace;
static std::function<void(int,bool)>* g_onexit = nullptr;
static std::function<void(const void*, std::size_t)>* g_onfree = nullptr;

static inline bool in_vt() { return self != nullptr && g_running; }

struct rt_guard { // marks runtime-internal code: no monitoring
    bool old; rt_guard() { old = self ? self->in_rt : false; if( self ) self->in_rt = true; }
    ~rt_guard() { if( self ) self->in_rt = old; }
};

// ------------------------------------------------------------------ output
void note(const char* fmt, ...) {
    wslot& w = S->slots[g_slot];
    char b[2048];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 2, fmt, ap);
    va_end(ap);
    if( n > (int)sizeof b - 2 ) n = sizeof b - 2;
    b[n++] = '\n'; b[n] = 0;
    if( w.notes_n + n < NOTE_CAP ) { memcpy(w.notes + w.notes_n, b, n); w.notes_n += n; w.notes[w.notes_n] = 0; }
    if( o_verbose ) syscall(SYS_write, 2, b, n);
}

[[noreturn]] static void child_exit(int code) {
    S->events.fetch_add(g_steps, std::memory_order_relaxed);
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}

static void clean_ascii(char* p) {
    for( ; *p; ++p ) if( (unsigned char)*p < 32 && *p != '\n' ) *p = '?'; else if( (unsigned char)*p > 126 ) *p = '?';
}

[[noreturn]] static void do_fail(const char* kind, const char* msg) {
    wslot& w = S->slots[g_slot];
    snprintf(w.msg, sizeof w.msg, "%s", msg);
    clean_ascii(w.msg);
    snprintf(w.kind, sizeof w.kind, "%s", kind);
    for( auto& f: g_findings )
        if( strstr(w.msg, f.key.c_str()) ) {
            S->knowns[f.idx].fetch_add(1);
            child_exit(11);
        }
    if( o_verbose ) rawlog("FAIL[%s] %s\n", kind, msg);
    child_exit(66);
}
void fail(const char* fmt, ...) {
    char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    do_fail("property", b);
}
void fail_kind(const char* kind, const char* fmt, ...) {
    char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    do_fail(kind, b);
}
void stop_ok() { child_exit(0); }

// --------------------------------------------------------------- objects
// open addressing map address -> obj*
static const std::size_t OMAP = 1 << 14;
static std::uintptr_t* g_okey; static obj** g_oval;
static obj* obj_at(const void* p) {
    std::uintptr_t k = (std::uintptr_t)p;
    std::size_t i = (k >> 2) * 0x9E3779B97F4A7C15ULL >> 50;
    while( g_okey[i] != 0 && g_okey[i] != k ) i = (i + 1) & (OMAP - 1);
    if( g_okey[i] == 0 ) { g_okey[i] = k; g_oval[i] = new (__libc_malloc(sizeof(obj))) obj; }
    return g_oval[i];
}

static inline void event(std::uint64_t kind, obj* o, bool write, std::uint64_t extra = 0) {
    VT* t = self;
    ++g_steps;
    if( g_sequential ) return;
    std::uint64_t h = mix(t->th, kind * 131 + (write ? 7 : 3));
    if( o ) h = mix(h, o->wh + (write ? o->rh : 0));
    if( extra ) h = mix(h, extra);
    t->th = h;
    if( o ) { if( write ) { o->wh = h; o->rh = 0; } else o->rh += mix(h, 99); }
}
static inline void acq(VT* t, obj* o) { for( int i = 0; i < NT; ++i ) if( o->vc.c[i] > t->vc.c[i] ) t->vc.c[i] = o->vc.c[i]; }
static inline void rel_join(VT* t, obj* o) { for( int i = 0; i < NT; ++i ) if( t->vc.c[i] > o->vc.c[i] ) o->vc.c[i] = t->vc.c[i]; ++t->vc.c[t->id]; }
static inline void rel_set(VT* t, obj* o) { o->vc = t->vc; ++t->vc.c[t->id]; }

static std::uint64_t signature() {
    std::uint64_t s = 0;
    for( int i = 0; i < NT; ++i ) if( T[i] ) s += mix(T[i]->th, i + 1);
    return mix(s, g_obs);
}
void observe(std::uint64_t v) { if( self ) { rt_guard g; event(77, nullptr, true, v + 1); } }

// --------------------------------------------------------------- choices
static void push_alt(int pos, int alt, int n, int sc, int fc) {
    if( g_item.nd >= MAXDEV ) { S->overflow = true; return; }
    if( pos > 65000 ) { S->overflow = true; return; }
    slock();
    if( S->nstack < STACK_CAP ) {
        item& it = g_stack[S->nstack++];
        it = g_item;
        it.d[it.nd++] = dev{ (std::uint16_t)pos, (std::uint8_t)alt, (std::uint8_t)n };
        it.sc = sc; it.fc = fc;
    } else S->overflow = true;
    sunlock();
}

static int take_choice(int n, cost_kind k, const char* label) {
    if( n > 250 ) n = 250;
    int pos = g_pos++;
    if( g_nextdev < g_item.nd && g_item.d[g_nextdev].pos == pos ) {
        dev& d = g_item.d[g_nextdev++];
        if( d.n != n ) do_fail("internal", "nondeterministic replay (harness error)");
        if( k == SCHED ) ++g_cur_sc;
        if( k == FAULT ) ++g_cur_fc;
        if( o_verbose ) rawlog("    -- choice %d (%s) takes %d of %d\n", pos, label, d.alt, n);
        return d.alt;
    }
    if( g_replaying || pos <= g_lastpos ) return 0;
    S->choices.fetch_add(1, std::memory_order_relaxed);
    if( k == SCHED ) {
        std::uint64_t key = mix(mix(signature(), self->id + 1), g_cur_fc * 64 + n);
        if( ! table_visit(key, g_cur_sc) ) {
            S->pruned.fetch_add(1, std::memory_order_relaxed);
            child_exit(10);
        }
    } else S->envchoices.fetch_add(1, std::memory_order_relaxed);
    int nsc = g_cur_sc + (k == SCHED), nfc = g_cur_fc + (k == FAULT);
    if( nsc <= g_sb && nfc <= g_fb )
        for( int a = n - 1; a >= 1; --a ) push_alt(pos, a, n, nsc, nfc);
    return 0;
}

int choose(int n, const char* label, cost_kind k) {
    if( n <= 1 || !in_vt() ) return 0;
    rt_guard g;
    int r = take_choice(n, k, label);
    event(50, nullptr, true, r + 1);
    return r;
}
void explore_schedules(bool on) { g_explore = on && !g_sequential; }
void set_faults(const faults& f) { g_faults = f; }

// ------------------------------------------------------------- scheduling
static void fut_wait(VT* t) {
    while( __atomic_load_n(&t->futex, __ATOMIC_ACQUIRE) == 0 )
        syscall(SYS_futex, &t->futex, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(&t->futex, 0, __ATOMIC_RELEASE);
}
static void fut_wake(VT* t) {
    __atomic_store_n(&t->futex, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, &t->futex, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static bool ep_ready(epoll* e);
static std::uint64_t load_sz(const void* p, int sz) {
    switch( sz ) {
    case 1: return *(volatile const std::uint8_t*)p;
    case 2: return *(volatile const std::uint16_t*)p;
    case 4: return *(volatile const std::uint32_t*)p;
    default: return *(volatile const std::uint64_t*)p;
    }
}

static bool enabled(VT* t) {
    if( t->timed && t->deadline <= g_now ) return true;
    switch( t->e ) {
    case E_ALWAYS: return true;
    case E_MUTEX: return t->eo->owner == -1;
    case E_RD: return t->eo->owner == -1;
    case E_WR: return t->eo->owner == -1 && t->eo->readers == 0;
    case E_FLAG: return t->flag;
    case E_PRED: return (*t->pred)();
    case E_UNTIL: return t->deadline <= g_now;
    case E_SPIN: return load_sz(t->saddr, t->ssize) != t->sval;
    case E_EPOLL: return ep_ready(t->ep);
    case E_IDLE: return false;
    }
    return true;
}

static std::string where_everyone() {
    std::string s;
    for( int i = 0; i < NT; ++i ) if( T[i]->live && !T[i]->done ) {
        s += " ["; s += T[i]->name; s += ": "; s += T[i]->what;
        if( T[i]->e == E_SPIN ) s += " (spinning)";
        if( T[i]->e == E_MUTEX ) s += " (mutex held)";
        s += "]";
    }
    return s;
}

static void schedule() {
    VT* me = self;
    if( ++g_steps > g_steplimit )
        fail_kind("livelock", "no progress: step limit reached; threads:%s", where_everyone().c_str());
    int cand[MAXT]; int n;
    // fairness: a thread that runs for very long lets the others run
    bool forced = false;
    if( ++g_consec > 3000 && !me->yielding ) { me->yielding = forced = true; g_consec = 0; }
    for(;;) {
        n = 0;
        for( int i = 0; i < NT; ++i ) {
            VT* t = T[(me->id + i) % NT];
            if( t->live && !t->done && !(t == me && t->yielding) && enabled(t) ) cand[n++] = t->id;
        }
        if( n == 0 && me->yielding && !me->done && enabled(me) ) {
            // nobody else can run: a polling thread makes time pass
            if( me->soft ) {} else if( !forced ) g_now += 1000000; else if( me->e == E_SPIN ) g_now += 1000000;
            cand[n++] = me->id;
        }
        if( n > 0 ) break;
        for( int i = 0; i < NT; ++i ) {
            VT* t = T[(me->id + i) % NT];
            if( t->live && !t->done && t->e == E_IDLE ) cand[n++] = t->id;
        }
        if( n > 0 ) { n = 1; break; }
        std::int64_t dl = INT64_MAX;
        for( int i = 0; i < NT; ++i )
            if( T[i]->live && !T[i]->done && T[i]->timed && T[i]->deadline < dl ) dl = T[i]->deadline;
        if( dl == INT64_MAX )
            fail_kind("deadlock", "deadlock: no thread can make progress; threads:%s", where_everyone().c_str());
        if( dl > g_now ) g_now = dl;
    }
    int p = 0;
    if( n > 1 && g_explore ) p = take_choice(n, SCHED, me->what);
    if( forced ) me->yielding = false;
    VT* t = T[cand[p]];
    if( t != me ) {
        g_consec = 0;
        bool wait = !me->done;      // its thread object may be reused as soon as another thread runs
        fut_wake(t);
        if( wait ) fut_wait(me);
    }
}

// A visible operation: other threads may run before it.
static void point(const char* what, en e = E_ALWAYS, obj* o = nullptr) {
    VT* t = self;
    t->what = what; t->e = e; t->eo = o; t->timed = false; t->timed_out = false;
    // fast path: in sequential mode an enabled operation just proceeds
    if( g_sequential && ! t->yielding && (e == E_ALWAYS || enabled(t)) ) { ++g_steps; t->e = E_ALWAYS; return; }
    schedule();
    t->e = E_ALWAYS;
}
static void schedule0(const char* what, obj* o) { VT* t = self; t->what = what; t->e = E_ALWAYS; t->eo = o; t->timed = false; t->timed_out = false; schedule(); }
// Blocking with optional timeout; returns false on timeout.
static bool wait_for(const char* what, en e, std::int64_t timeout_ns, obj* o = nullptr) {
    VT* t = self;
    t->what = what; t->e = e; t->eo = o;
    t->timed = timeout_ns >= 0; t->deadline = g_now + timeout_ns;
    schedule();
    t->timed = false;
    bool was_timed = timeout_ns >= 0 && t->deadline <= g_now;
    bool ok = enabled(t);
    t->e = E_ALWAYS;
    (void)was_timed;
    return ok;
}

void yield() { rt_guard g; point("yield"); event(1, nullptr, true); }

static void* thread_main(void* a) {
    VT* t = (VT*)a;
    self = t;
  for(;;) {
    fut_wait(t);   // nothing before this line may allocate: the creator is still running
    if( !t->stk_lo ) {
        pthread_attr_t at; void* lo; size_t sz;
        pthread_getattr_np(pthread_self(), &at);
        pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
        t->stk_lo = (char*)lo; t->stk_hi = (char*)lo + sz;
    }
    t->in_rt = false;
    if( t->start ) t->ret = t->start(t->arg); else t->fn();
    t->in_rt = true;
    ++t->vc.c[t->id];
    t->done = true;
    event(2, obj_at(t), true);
    rel_set(t, obj_at(t));
    t->what = "exit";
    schedule();
    // the thread object stays allocated; its OS thread parks until it is given
    // another job, so that no thread-exit processing runs concurrently.
  }
    return nullptr;
}

REAL(int, pthread_create, pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)
REAL(int, pthread_join, pthread_t, void**)
REAL(int, pthread_detach, pthread_t)

static VT* new_thread(const char* name, bool harness = false) {
    if( !harness ) for( int i = 0; i < NT; ++i ) if( T[i]->done && T[i]->joined && !T[i]->harness ) {
        VT* t = T[i];
        t->done = t->joined = false; t->nsh = 0; t->e = E_ALWAYS; t->timed = false; t->yielding = t->soft = false; t->saddr = nullptr; t->scount = 0;
        t->th = mix(1234, t->id + 1); ++t->vc.c[t->id]; t->ret = nullptr; t->what = "";
        return t;
    }
    if( NT >= MAXT ) fail_kind("internal", "too many threads");
    VT* t = new (__libc_calloc(1, sizeof(VT))) VT;
    memset(&t->vc, 0, sizeof t->vc);
    t->id = NT;
    snprintf(t->name, sizeof t->name, "%s", name);
    t->live = true;
    t->th = mix(1234, NT + 1);
    t->vc.c[t->id] = 1;
    T[NT++] = t;
    return t;
}
static void launch(VT* t) {
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 512 << 10);
    t->in_rt = true;
    int e = t->stk_lo ? 0 : real_pthread_create()(&t->real, &at, thread_main, t);
    if( e ) fail_kind("internal", "pthread_create failed: %d", e);
    pthread_attr_destroy(&at);
    if( self ) {
        for( int i = 0; i < NT; ++i ) if( self->vc.c[i] > t->vc.c[i] ) t->vc.c[i] = self->vc.c[i];
        ++self->vc.c[self->id];
        t->th = mix(t->th, self->th);
    }
}

void spawn(const char* name, std::function<void()> fn) {
    rt_guard g;
    VT* t = new_thread(name, true);
    t->fn = std::move(fn); t->harness = true;
    event(3, nullptr, true, t->id + 1);
    launch(t);
}
void join_all() {
    rt_guard g;
    for( int i = 0; i < NT; ++i ) {
        VT* t = T[i];
        if( t == self || !t->harness || t->fn == nullptr || strcmp(t->name, "server") == 0 ) continue;
        std::function<bool()> f = [t]{ return t->done; };
        self->pred = &f;
        if( ! wait_for("join", E_PRED, 60000000000LL) )
            fail_kind("stuck", "client thread %s did not finish within 60 virtual seconds; threads:%s", t->name, where_everyone().c_str());
        event(4, obj_at(t), false);
        acq(self, obj_at(t));
    }
}
void sleep_ms(unsigned ms) {
    rt_guard g;
    VT* t = self; t->what = "sleep"; t->e = E_UNTIL; t->timed = true; t->deadline = g_now + ms * 1000000LL;
    schedule(); t->timed = false; t->e = E_ALWAYS;
    event(5, nullptr, true, g_now);
}
static obj g_clock;
void advance_ms(unsigned ms) {
    rt_guard g; point("advance clock");
    g_now += ms * 1000000LL; event(6, &g_clock, true, ms);
}
void set_time(std::int64_t s) { g_now = s * 1000000000LL; }
std::int64_t now_sec() { return g_now / 1000000000LL; }
std::int64_t now_ms() { return g_now / 1000000LL; }
void wait_idle() {
    rt_guard g; VT* t = self; t->what = "wait idle"; t->e = E_IDLE; t->timed = false;
    schedule(); t->e = E_ALWAYS;
    event(7, nullptr, true, signature());
}
bool wait_idle_for(unsigned ms) { sleep_ms(ms); wait_idle(); return true; }
void block_until(const std::function<bool()>& f, const char* what, unsigned timeout_ms) {
    rt_guard g; self->pred = &f;
    if( ! wait_for(what, E_PRED, timeout_ms ? timeout_ms * 1000000LL : -1) )
        fail_kind("stuck", "%s did not happen within %u virtual ms; threads:%s", what, timeout_ms, where_everyone().c_str());
    event(8, nullptr, true, signature());
}
void progress(std::uint64_t i) { S->slots[g_slot].cur_case = i; S->cases.fetch_add(1, std::memory_order_relaxed); g_steps = 0; S->slots[g_slot].notes_n = 0; S->slots[g_slot].notes[0] = 0; }
void visit_state(std::uint64_t h) { table_visit(mix(h, 5), 0); }
void count_transition(std::uint64_t n) { S->transitions.fetch_add(n, std::memory_order_relaxed); }
void set_step_limit(std::uint64_t n) { g_steplimit = n; }
std::uint64_t steps() { return g_steps; }
void on_exit_call(std::function<void(int, bool)> f) { g_onexit = new std::function<void(int,bool)>(std::move(f)); }
void on_free(std::function<void(const void*, std::size_t)> f) { g_onfree = new std::function<void(const void*, std::size_t)>(std::move(f)); }
void watch_races(bool on) { g_races = on; }
void ignore_atomics(const void* p, std::size_t n) { g_ignatom.push_back({(std::uintptr_t)p, (std::uintptr_t)p + n}); }
void ignore_races(const void* p, std::size_t n) { g_ignrace.push_back({(std::uintptr_t)p, (std::uintptr_t)p + n}); }

int run_catching_exit(const std::function<void()>& fn) {
    VT* t = self;
    jmp_buf jb; jmp_buf* old = t->exitjmp;
    t->exitjmp = &jb;
    if( setjmp(jb) == 0 ) { fn(); t->exitjmp = old; return -1; }
    t->exitjmp = old; t->nsh = 0;
    return t->exitcode;
}
static bool g_allow_exit = false;
void allow_exit(bool on) { g_allow_exit = on; }
[[noreturn]] static void exited(int code, bool quick) {
    VT* t = self;
    if( g_onexit ) { rt_guard g; (*g_onexit)(code, quick); }
    if( t->exitjmp && (quick || g_allow_exit) ) { t->in_rt = false; t->exitcode = code; longjmp(*t->exitjmp, 1); }
    fail_kind("exit", "the server process terminated itself: %s(%d) called in thread %s", quick ? "quick_exit" : "exit", code, t->name);
}

// ------------------------------------------------------------------ arena
static char* const A_BASE = (char*)0x200000000000ULL;
static const std::size_t A_SIZE = 64ULL << 30;
static unsigned char* const A_SH = (unsigned char*)0x300000000000ULL;
static char* g_bump = A_BASE;
struct ahdr { std::uint64_t size; std::uint64_t magic; };
// Blocks of more than 64 KiB are kept in a list instead of in the shadow.
struct bigblk { char* lo; char* hi; unsigned char st; };
static bigblk g_big[4096]; static int g_nbig = 0;
static bigblk* big_at(const void* p) {
    for( int i = g_nbig - 1; i >= 0; --i ) if( (const char*)p >= g_big[i].lo && (const char*)p < g_big[i].hi ) return &g_big[i];
    return nullptr;
}
static inline unsigned char shadow_at(const void* p);
static inline bool in_arena(const void* p) { return (const char*)p >= A_BASE && (const char*)p < A_BASE + A_SIZE; }
static void arena_init() {
    if( mmap(A_BASE, A_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != A_BASE ||
        mmap(A_SH, A_SIZE / 16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0) != (void*)A_SH ) {
        rawlog("mcrt: cannot reserve the arena\n"); _exit(3);
    }
}
static void* arena_alloc(std::size_t n, std::size_t align = 16) {
    if( align < 16 ) align = 16;
    char* p = g_bump + sizeof(ahdr);
    p = (char*)(((std::uintptr_t)p + align - 1) & ~(align - 1));
    std::size_t rn = (n + 15) & ~15ULL; if( rn == 0 ) rn = 16;
    ahdr* h = (ahdr*)p - 1; h->size = n; h->magic = 0xA110CA7Eu | (self && self->in_rt ? 1ULL << 32 : 0);   // bit 32: belongs to the runtime
    if( rn > 65536 ) {
        if( g_nbig == 4096 ) { rawlog("too many big blocks\n"); child_exit(3); }
        g_big[g_nbig++] = bigblk{ p, p + rn, 1 };
    } else memset(A_SH + ((p - A_BASE) >> 4), 1, rn >> 4);
    g_bump = p + rn;
    if( g_bump > A_BASE + A_SIZE - (1 << 20) ) { rawlog("arena exhausted\n"); child_exit(3); }
    return p;
}
static inline unsigned char shadow_at(const void* p) {
    unsigned char c = A_SH[((const char*)p - A_BASE) >> 4];
    if( c == 0 && g_nbig ) { bigblk* b = big_at(p); if( b ) return b->st; }
    return c;
}
static std::string backtrace_str();
static void arena_free(void* v) {
    char* p = (char*)v; ahdr* h = (ahdr*)p - 1;
    if( (std::uint32_t)h->magic != 0xA110CA7Eu || shadow_at(p) != 1 ) {
        { void* bt[40]; int n = backtrace(bt, 40); if( getenv("MCBT") ) backtrace_symbols_fd(bt, n, 2); }
        fail_kind("uaf", "double free or invalid free of %p%s", v, backtrace_str().c_str());
    }
    if( g_onfree && self && !self->in_rt ) { rt_guard g; (*g_onfree)(p, h->size); }
    std::size_t rn = (h->size + 15) & ~15ULL; if( rn == 0 ) rn = 16;
    if( rn > 65536 ) { big_at(p)->st = 2; std::uintptr_t lo = ((std::uintptr_t)p + 4095) & ~4095ULL, hi = ((std::uintptr_t)p + rn) & ~4095ULL; if( hi > lo ) madvise((void*)lo, hi - lo, MADV_DONTNEED); }
    else memset(A_SH + ((p - A_BASE) >> 4), 2, rn >> 4);
}
void heap_walk(const std::function<void(const void*, std::size_t, bool)>& f) {
    char* p = A_BASE;
    while( p < g_bump ) {
        if( shadow_at(p) != 0 ) {
            ahdr* h = (ahdr*)p - 1;
            if( (std::uint32_t)h->magic == 0xA110CA7Eu ) {
                if( ! (h->magic >> 32) ) f(p, h->size, shadow_at(p) == 1);
                std::size_t rn = (h->size + 15) & ~15ULL; if( rn == 0 ) rn = 16;
                p += rn; continue;
            }
        }
        p += 16;
    }
}

// ------------------------------------------------ race and lifetime monitor
struct cell { std::uintptr_t g; struct rec { std::uint32_t clk; std::uint32_t pc; std::uint8_t tid, mask, wr, used; } r[6]; };
static const std::size_t CELLS = 1 << 18;
static cell* g_cells;

static std::string backtrace_str() {
    std::string s; VT* t = self; if( !t ) return s;
    char b[40];
    for( int i = t->nsh - 1; i >= 0 && i >= t->nsh - 12; --i ) {
        snprintf(b, sizeof b, " <0x%llx>", (unsigned long long)t->shstk[i]); s += b;
    }
    return s;
}

static void race_report(VT* t, void* addr, cell::rec& r, bool wr, std::uintptr_t pc) {
    fail_kind("race", "data race on %p: %s by thread %s at <0x%llx> is not ordered with %s by thread %s at <0x%llx>; stack:%s",
              addr, wr ? "write" : "read", t->name, (unsigned long long)pc, r.wr ? "write" : "read",
              T[r.tid]->name, (unsigned long long)r.pc, backtrace_str().c_str());
}

static inline void race_granule(VT* t, std::uintptr_t g, std::uint8_t mask, bool wr, std::uintptr_t pc) {
    // neighbouring addresses use neighbouring cells
    std::size_t i = ((((g >> 5) * 0x9E3779B97F4A7C15ULL) >> 51) << 5 | (g & 31)) & (CELLS - 1);
    for(;;) {
        if( g_cells[i].g == g ) break;
        if( g_cells[i].g == 0 ) { g_cells[i].g = g; break; }
        i = (i + 32) & (CELLS - 1);
    }
    cell& c = g_cells[i];
    int slot = -1, oldest = 0;
    for( int k = 0; k < 6; ++k ) {
        cell::rec& r = c.r[k];
        if( !r.used ) { if( slot < 0 ) slot = k; continue; }
        if( r.tid == t->id ) {
            if( r.mask == mask && r.wr == wr ) { slot = k; continue; }
            if( wr && (r.mask & ~mask) == 0 ) { r.used = 0; if( slot < 0 ) slot = k; continue; }
            continue;
        }
        if( (r.mask & mask) && (wr || r.wr) && r.clk > t->vc.c[r.tid] ) {
            for( auto& x: g_ignrace ) if( (g << 3) >= x.first && (g << 3) < x.second ) return;
            race_report(t, (void*)(g << 3), r, wr, pc);
        }
        if( (r.mask & ~mask) == 0 && r.clk <= t->vc.c[r.tid] && wr ) { r.used = 0; if( slot < 0 ) slot = k; }
        if( c.r[oldest].clk > r.clk ) oldest = k;
    }
    if( slot < 0 ) slot = oldest;
    c.r[slot] = cell::rec{ t->vc.c[t->id], (std::uint32_t)pc, (std::uint8_t)t->id, mask, wr, 1 };
}

static inline void on_access(const void* p, std::size_t n, bool wr, std::uintptr_t pc) {
    VT* t = self;
    if( !t || t->in_rt || !g_running || n == 0 ) return;
    if( in_arena(p) ) {
        unsigned char a = shadow_at(p), b = shadow_at((const char*)p + n - 1);
        if( a != 1 || b != 1 ) {
            t->in_rt = true;
            bool freed = a == 2 || b == 2;
            fail_kind("uaf", "%s of %zu bytes at %p which is %s, thread %s at <0x%llx>; stack:%s",
                      wr ? "write" : "read", n, p, freed ? "freed memory" : "outside any allocation",
                      t->name, (unsigned long long)pc, backtrace_str().c_str());
        }
    }
    if( wr && t->scount ) if( !((const char*)p >= t->stk_lo && (const char*)p < t->stk_hi) ) t->scount = 0;
    if( !g_races ) return;
    if( (const char*)p >= t->stk_lo && (const char*)p < t->stk_hi ) return;
    std::uintptr_t a = (std::uintptr_t)p, e = a + n;
    t->in_rt = true;
    std::size_t guard = 0;
    while( a < e ) {
        std::uintptr_t g = a >> 3; unsigned off = a & 7;
        unsigned len = 8 - off; if( len > e - a ) len = e - a;
        race_granule(t, g, (std::uint8_t)(((1u << len) - 1) << off), wr, pc);
        a += len;
        if( ++guard == 512 && e - a > 4096 ) a = e - 4096; // large blocks: both ends
    }
    t->in_rt = false;
}
static inline void check_alive(const void* p, const char* what) {
    if( in_arena(p) && shadow_at(p) != 1 )
        fail_kind("uaf", "%s on freed memory %p, thread %s; stack:%s", what, p, self->name, backtrace_str().c_str());
}

// ------------------------------------------------------------- virtual OS
enum ft { F_NONE, F_LISTEN, F_SOCK, F_EPOLL, F_EVENT, F_SIGNAL };
struct vsock;
struct epreg { int fd; std::uint32_t mask; bool pending; std::uint64_t order; epoll_data_t data; };
struct epoll { obj o; std::map<int, epreg> regs; std::uint64_t seq = 0; };

struct vsock {
    obj o;
    int id = 0;
    int fd = -1;                    // server-side descriptor, -1 once closed
    bool fd_closed = false;
    int port = 0;
    // to the server
    std::string rx; bool rx_fin = false, rst = false, rst_reported = false; int err = ECONNRESET;
    // to the client
    std::string tx;                 // delivered, not yet taken by the client
    std::string hist;
    std::size_t window = 1 << 30;
    bool autoread = false;
    bool nospace = false;
    bool shut_wr = false, shut_rd = false, faulted = false;
    bool client_closed = false;     // client closed entirely
    bool keep = false; int keepidle = 7200, keepintvl = 75, keepcnt = 9; std::int64_t gone_at = -1; bool vanished = false; // keepalive probes
    bool unflushed = false;
    bool outgoing = false, queued = false;
    std::function<std::string()> src; unsigned src_ms = 0;
    int connect_state = 0;          // 0 none 1 in progress 2 ok 3 refused
    epoll* ep = nullptr;
};
struct vfd {
    ft type = F_NONE; bool open = false;
    vsock* s = nullptr; epoll* ep = nullptr;
    std::uint64_t cnt = 0;          // eventfd
    std::deque<int> sigs;           // signalfd
    int port = 0; std::deque<vsock*> q; // listener
    std::string addr; bool freebind = false, v6only = false; int domain = 0;
    epoll* reg = nullptr;           // epoll it is registered in
    bool nonblock = false, semaphore = false;
    std::uint64_t sigset = 0;       // signalfd: the signals it takes
    obj o;
};
static const int FDBASE = 1000;
static std::vector<vfd*> g_fds;
static obj g_fdtab;
static int g_nsock = 0;
static std::set<int>* g_realfds;
static std::map<std::string, bool>* g_localips;
static std::map<int, bool>* g_remote; // remote ports that accept
static std::map<int, std::deque<vsock*>>* g_remoteq;
static int g_accept_errno = 0, g_fdlimit = 0;
static bool g_sigpipe_ignored = false;
static std::uint64_t g_sigblocked = 0, g_sighandled = 0;
static std::uint64_t sigbits(const sigset_t* m) { std::uint64_t r = 0; for( int i = 1; i < 64; ++i ) if( sigismember(m, i) == 1 ) r |= 1ull << i; return r; }

static int fd_alloc(ft type) {
    event(20, &g_fdtab, true);
    std::size_t i = 0;
    while( i < g_fds.size() && g_fds[i]->open ) ++i;
    if( i == g_fds.size() ) g_fds.push_back(nullptr);
    g_fds[i] = new vfd;             // a fresh object per opening
    g_fds[i]->type = type; g_fds[i]->open = true;
    return FDBASE + (int)i;
}
static bool is_vfd(int fd) { return fd >= FDBASE && fd < FDBASE + 100000; }
static vfd* get_fd(int fd, const char* op, ft want = F_NONE) {
    std::size_t i = fd - FDBASE;
    if( i >= g_fds.size() || !g_fds[i]->open )
        fail_kind("fd", "%s() on descriptor %d which is already closed, thread %s; stack:%s", op, fd, self->name, backtrace_str().c_str());
    vfd* f = g_fds[i];
    if( want != F_NONE && f->type != want )
        fail_kind("fd", "%s() on descriptor %d of another type (stale descriptor number), thread %s; stack:%s", op, fd, self->name, backtrace_str().c_str());
    return f;
}

static std::uint32_t sock_mask(vsock* s) {
    std::uint32_t m = 0;
    if( s->connect_state == 1 ) return 0;
    if( !s->rx.empty() || s->rx_fin || s->rst || s->shut_rd ) m |= EPOLLIN;
    if( s->rst ) m |= EPOLLERR | EPOLLHUP | EPOLLOUT;
    if( (s->rx_fin || s->shut_rd) && s->shut_wr ) m |= EPOLLHUP;
    if( s->tx.size() < s->window || s->shut_wr ) m |= EPOLLOUT;
    return m;
}
static std::uint32_t vfd_mask(vfd* f) {
    switch( f->type ) {
    case F_LISTEN: return f->q.empty() ? 0 : EPOLLIN;
    case F_SOCK: return sock_mask(f->s);
    case F_SIGNAL: return f->sigs.empty() ? 0 : EPOLLIN;
    case F_EVENT: return EPOLLOUT | (f->cnt ? EPOLLIN : 0);
    default: return 0;
    }
}
static void wake(vfd* f, int fd) { // readiness may have changed
    if( !f->reg ) return;
    epoll* e = f->reg;
    auto it = e->regs.find(fd);
    if( it == e->regs.end() ) return;
    if( ! it->second.pending ) { it->second.pending = true; it->second.order = ++e->seq; }
    event(21, &e->o, true);
}
static void wake_sock(vsock* s) {
    if( s->fd >= 0 && !s->fd_closed ) wake(g_fds[s->fd - FDBASE], s->fd);
}
static bool ep_ready(epoll* e) {
    for( auto& r: e->regs )
        if( r.second.pending && (vfd_mask(g_fds[r.first - FDBASE]) & (r.second.mask | EPOLLERR | EPOLLHUP)) ) return true;
    return false;
}

// client side ------------------------------------------------------------
static bool any_addr(const std::string& a) { return a == "::" || a == "0.0.0.0"; }
// Would a listener bound to `bound` get connections to `to`?
static bool covers(const vfd* f, const std::string& to) {
    if( to.empty() || f->addr == to ) return true;
    if( f->addr == "0.0.0.0" ) return to.find(':') == std::string::npos;
    return f->addr == "::" && (! f->v6only || to.find(':') != std::string::npos);
}
static vfd* listener(int port, const std::string& to = "") {
    for( auto f: g_fds ) if( f->open && f->type == F_LISTEN && f->port == port && covers(f, to) ) return f;
    return nullptr;
}
static bool g_no_ipv6 = false;
void set_ipv6(bool on) { g_no_ipv6 = ! on; }
std::vector<std::pair<std::string, int>> listeners() {
    std::vector<std::pair<std::string, int>> r; rt_guard g;
    for( auto f: g_fds ) if( f->open && f->type == F_LISTEN ) r.push_back({f->addr, f->port});
    std::sort(r.begin(), r.end()); return r;
}
static int listener_fd(vfd* l) { for( std::size_t i = 0; i < g_fds.size(); ++i ) if( g_fds[i] == l ) return FDBASE + i; return -1; }
bool listening(int port) { return listener(port) != nullptr; }

void client::connect(int port, const char* to) {
    rt_guard g; std::string addr = to ? to : "";
    std::function<bool()> f = [&]{ return listener(port, addr) != nullptr; };
    self->pred = &f;
    if( ! wait_for("connect", E_PRED, 20000000000LL) )
        fail_kind("stuck", "nothing listens on port %d%s%s; threads:%s", port, to ? " of " : "", addr.c_str(), where_everyone().c_str());
    vfd* l = listener(port, addr);
    s = new vsock; s->id = ++g_nsock; s->port = port;
    l->q.push_back(s);
    event(22, &l->o, true);
    event(22, &s->o, true);
    wake(l, listener_fd(l));
}
void client::send(const std::string& d) {
    rt_guard g; point("client send", E_ALWAYS, &s->o);
    event(23, &s->o, true, hash_str(d));
    if( s->fd_closed || s->shut_rd ) return;
    s->rx += d;
    wake_sock(s);
}
static void opened_space(vsock* s) { if( s->nospace && s->tx.size() < s->window ) { s->nospace = false; wake_sock(s); } }
std::string client::take() {
    rt_guard g; point("client take", E_ALWAYS, &s->o);
    event(24, &s->o, true);
    std::string r; r.swap(s->tx);
    opened_space(s);
    return r;
}
std::size_t client::avail() const { return s->tx.size(); }
std::string client::recv(std::size_t n, unsigned timeout_ms) {
    rt_guard g;
    std::string out;
    while( out.size() < n ) {
        std::size_t need = n - out.size();
        std::function<bool()> f = [this, need]{ return s->tx.size() >= need || s->tx.size() >= s->window || server_closed(); };
        self->pred = &f;
        if( ! wait_for("client recv", E_PRED, timeout_ms * 1000000LL) )
            fail_kind("stuck", "no reply: client %d waits for %zu bytes, has \"%s\" (+%zu) after %u virtual ms; threads:%s", s->id, n, out.c_str(), s->tx.size(), timeout_ms, where_everyone().c_str());
        event(25, &s->o, true);
        std::size_t k = std::min(need, s->tx.size());
        out.append(s->tx, 0, k); s->tx.erase(0, k);
        opened_space(s);
        if( out.size() < n && server_closed() && s->tx.empty() )
            fail_kind("closed", "connection closed by the server: client %d waits for %zu bytes, got \"%s\"", s->id, n, out.c_str());
    }
    return out;
}
std::string client::recv_until(const std::string& t, unsigned timeout_ms) {
    rt_guard g;
    std::string out; std::size_t p;
    for(;;) {
        std::size_t have = out.size();
        p = out.find(t);
        if( p != std::string::npos ) {
            // give back what was read too much
            std::size_t end = p + t.size();
            s->tx.insert(0, out.substr(end)); out.resize(end);
            return out;
        }
        std::function<bool()> f = [this]{ return !s->tx.empty() || server_closed(); };
        self->pred = &f;
        if( ! wait_for("client recv", E_PRED, timeout_ms * 1000000LL) )
            fail_kind("stuck", "no reply: client %d waits for \"%s\", has \"%s\" after %u virtual ms; threads:%s", s->id, t.c_str(), out.c_str(), timeout_ms, where_everyone().c_str());
        event(25, &s->o, true);
        if( s->tx.empty() ) fail_kind("closed", "connection closed by the server: client %d waits for \"%s\", got \"%s\"", s->id, t.c_str(), out.c_str());
        out += s->tx; s->tx.clear();
        opened_space(s);
        (void)have;
    }
}
std::string client::recv_eof(unsigned timeout_ms) {
    rt_guard g;
    std::string out;
    for(;;) {
        std::function<bool()> f = [this]{ return !s->tx.empty() || server_closed(); };
        self->pred = &f;
        if( ! wait_for("client recv eof", E_PRED, timeout_ms * 1000000LL) )
            fail_kind("stuck", "server does not close the connection of client %d within %u virtual ms; threads:%s", s->id, timeout_ms, where_everyone().c_str());
        event(25, &s->o, true);
        if( s->tx.empty() ) return out;
        out += s->tx; s->tx.clear(); opened_space(s);
    }
}
bool client::server_closed() const { return s->shut_wr || s->fd_closed || s->rst; }
bool client::faulted() const { return s->faulted; }
bool client::fd_released() const { return s->fd_closed; }
bool client::consumed() const { return s->rx.empty(); }
bool client::unflushed() const { return s->unflushed; }
void client::shutdown() { rt_guard g; point("client shutdown"); event(26, &s->o, true); s->rx_fin = true; wake_sock(s); }
void client::close() {
    rt_guard g; point("client close"); event(26, &s->o, true); s->client_closed = true; s->rx_fin = true; s->gone_at = g_now;
    if( !s->tx.empty() ) s->rst = true;   // unread data: RST
    wake_sock(s);
}
void client::vanish() { rt_guard g; s->vanished = true; s->gone_at = g_now; }
void client::reset(int err) { rt_guard g; point("client reset"); event(27, &s->o, true, err); s->err = err; s->rx.clear(); s->rst = true; s->client_closed = true; wake_sock(s); }
void client::set_window(std::size_t n) { rt_guard g; event(28, &s->o, true, n); s->window = n; opened_space(s); }
void client::set_source(std::function<std::string()> f, unsigned ms) { s->src = f; s->src_ms = ms; }
void client::set_autoread(bool b) { s->autoread = b; }
const std::string& client::history() const { return s->hist; }
int client::server_fd() const { return s->fd_closed ? -1 : s->fd; }

void set_remote_listen(int port, bool accept) { rt_guard g; (*g_remote)[port] = accept; }
bool connect_pending(int port) { return !(*g_remoteq)[port].empty(); }
bool accept_connect(client& c, int port, unsigned timeout_ms) {
    rt_guard g;
    std::function<bool()> f = [port]{ return !(*g_remoteq)[port].empty(); };
    self->pred = &f;
    if( ! wait_for("remote accept", E_PRED, timeout_ms * 1000000LL) ) return false;
    vsock* s = (*g_remoteq)[port].front(); (*g_remoteq)[port].pop_front();
    event(29, &s->o, true);
    c.s = s;
    return true;
}
void set_local_ip(const char* ip, bool present) { rt_guard g; event(30, &g_clock, true, hash_str(ip) + present); (*g_localips)[ip] = present; }
void raise_signal(int signo) {
    rt_guard g; point("signal");
    if( ! ((g_sigblocked | g_sighandled) >> signo & 1) ) fail_kind("crash", "the process does not block, handle or ignore signal %d: it is killed", signo);
    for( std::size_t i = 0; i < g_fds.size(); ++i )
        if( g_fds[i]->open && g_fds[i]->type == F_SIGNAL && (g_fds[i]->sigset >> signo & 1) ) {
            g_fds[i]->sigs.push_back(signo); event(31, &g_fds[i]->o, true, signo); wake(g_fds[i], FDBASE + i);
        }
}
// Probes answered with RST (the peer closed) or not at all (it vanished).
static bool g_keepalive = false;
void set_keepalive(bool on) { g_keepalive = on; }
static void keepalive_tick() {
    if( ! g_keepalive ) return;
    for( std::size_t i = 0; i < g_fds.size(); ++i ) {
        vsock* s = g_fds[i]->open ? g_fds[i]->s : nullptr;
        if( ! s || ! s->keep || s->rst || s->gone_at < 0 ) continue;
        std::int64_t t = s->keepidle + (s->vanished ? std::int64_t(s->keepintvl) * s->keepcnt : 0);
        if( g_now - s->gone_at < t * 1000000000LL ) continue;
        event(27, &s->o, true, 1); s->err = s->vanished ? ETIMEDOUT : ECONNRESET; s->rst = true; s->client_closed = true; wake_sock(s);
    }
}
static bool no_fds() { if( ! g_fdlimit ) return false; int n = 0; for( auto f: g_fds ) n += f->open; return n >= g_fdlimit; }
void set_fd_limit(int n) { g_fdlimit = n; }
int open_vfds() { int n = 0; for( auto f: g_fds ) n += f->open; return n; }
static std::size_t g_file_chunk;
void set_file_chunk(std::size_t n) { g_file_chunk = n; }
static bool g_file_points; static obj g_fileobj;
void set_file_points(bool on) { g_file_points = on; }
int open_tmpfiles() { return (int)g_realfds->size(); }
void set_accept_errno(int e) { g_accept_errno = e; }

// --------------------------------------------------------- execution driver
static void reset_exec() {
    NT = 0; self = nullptr;
    g_okey = (std::uintptr_t*)__libc_calloc(OMAP, sizeof *g_okey);
    g_oval = (obj**)__libc_calloc(OMAP, sizeof *g_oval);
    g_cells = (cell*)mmap(nullptr, CELLS * sizeof(cell), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    g_realfds = new std::set<int>; g_localips = new std::map<std::string, bool>;
    g_remote = new std::map<int, bool>; g_remoteq = new std::map<int, std::deque<vsock*>>;
    (*g_localips)["127.0.0.1"] = true;
    g_now = 1700000000LL * 1000000000LL;
}

static void run_body(const std::function<void()>& body) {
    reset_exec();
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    VT* t = new_thread("script");
    t->fn = [&body]{ body(); rt_guard g; child_exit(0); };
    t->harness = true;
    t->in_rt = true;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2 << 20);
    real_pthread_create()(&t->real, &at, thread_main, t);
    g_running = true;
    fut_wake(t);
    for(;;) syscall(SYS_pause);
}

} // namespace mc

using namespace mc;

// =================================================== TSan interface (hooks)
#define PC ((std::uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { VT* t = self; if( t ) { if( t->nsh < 128 ) t->shstk[t->nsh] = (std::uint64_t)pc; ++t->nsh; } }
void __tsan_func_exit() { VT* t = self; if( t && t->nsh > 0 ) --t->nsh; }
#define ACC(name, n, w) void name(void* p) { on_access(p, n, w, PC); }
ACC(__tsan_read1,1,false) ACC(__tsan_read2,2,false) ACC(__tsan_read4,4,false) ACC(__tsan_read8,8,false) ACC(__tsan_read16,16,false)
ACC(__tsan_write1,1,true) ACC(__tsan_write2,2,true) ACC(__tsan_write4,4,true) ACC(__tsan_write8,8,true) ACC(__tsan_write16,16,true)
ACC(__tsan_unaligned_read2,2,false) ACC(__tsan_unaligned_read4,4,false) ACC(__tsan_unaligned_read8,8,false) ACC(__tsan_unaligned_read16,16,false)
ACC(__tsan_unaligned_write2,2,true) ACC(__tsan_unaligned_write4,4,true) ACC(__tsan_unaligned_write8,8,true) ACC(__tsan_unaligned_write16,16,true)
ACC(__tsan_vptr_read,8,false)
ACC(__tsan_read_write1,1,true) ACC(__tsan_read_write2,2,true) ACC(__tsan_read_write4,4,true) ACC(__tsan_read_write8,8,true)
void __tsan_vptr_update(void** p, void* v) { if( *p != v ) on_access(p, 8, true, PC); }
void __tsan_read_range(void* p, unsigned long n) { on_access(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { on_access(p, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { on_access(s, n, false, PC); on_access(d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { on_access(s, n, false, PC); on_access(d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { on_access(d, n, true, PC); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {} 
void __tsan_ignore_thread_end() {}
}

namespace {
bool noise(const volatile void* p) {
    for( auto& x: g_ignatom ) if( (std::uintptr_t)p >= x.first && (std::uintptr_t)p < x.second ) return true;
    return false;
}
// mode: 0 load, 1 store, 2 rmw.  Returns the sync object (or null outside).
template<typename Ty> struct atom {
    static Ty load(const volatile Ty* p, int mo) {
        if( !in_vt() || self->in_rt ) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
        rt_guard g; check_alive((const void*)p, "atomic load");
        if( noise(p) ) return __atomic_load_n(p, __ATOMIC_SEQ_CST);
        VT* t = self; obj* o = obj_at((const void*)p);
        // Re-reading an unchanged variable without writing anything in between
        // looks like polling: others go first, and after many rounds the
        // thread waits for the variable to change.
        if( t->scount >= 1000 ) { t->saddr = nullptr; t->scount = 0; } // an exchange without effect is no spinning load
        bool same = t->saddr == (const void*)p && t->scount >= 2, spin = same && t->scount >= 64;
        if( same && ! spin ) { t->yielding = t->soft = true; int sc = t->scount; const void* sa = t->saddr; schedule0("atomic load", o); t->yielding = t->soft = false; t->scount = sc; t->saddr = sa; }
        else if( spin ) { t->what = "atomic load"; t->e = E_SPIN; t->timed = false; schedule(); t->e = E_ALWAYS; t->scount = 0; t->saddr = nullptr; }
        else point("atomic load", E_ALWAYS, o);
        Ty v = __atomic_load_n(p, __ATOMIC_SEQ_CST);
        std::uint64_t vv = (std::uint64_t)v & (sizeof(Ty) == 8 ? ~0ULL : ((1ULL << (sizeof(Ty) * 8 % 64)) - 1));
        if( t->saddr == (const void*)p && t->sval == vv && t->scount > 0 ) ++t->scount;
        else { t->saddr = (const void*)p; t->ssize = sizeof(Ty); t->sval = vv; t->scount = 1; }
        if( mo != __ATOMIC_RELAXED ) acq(t, o);
        event(10, o, false);
        return v;
    }
    static void store(volatile Ty* p, Ty v, int mo) {
        if( !in_vt() || self->in_rt ) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
        rt_guard g; check_alive((const void*)p, "atomic store");
        if( noise(p) ) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }
        VT* t = self; obj* o = obj_at((const void*)p); t->saddr = nullptr;
        point("atomic store", E_ALWAYS, o);
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
        event(11, o, true);
        if( mo != __ATOMIC_RELAXED ) rel_set(t, o); else o->vc = vclock{};
    }
    template<typename F> static Ty rmw(volatile Ty* p, int mo, F f) {
        if( !in_vt() || self->in_rt || noise(p) ) {
            Ty o = __atomic_load_n(p, __ATOMIC_SEQ_CST), n;
            do { n = f(o); } while( !__atomic_compare_exchange_n(p, &o, n, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) );
            return o;
        }
        rt_guard g; check_alive((const void*)p, "atomic rmw");
        VT* t = self; obj* o = obj_at((const void*)p);
        bool again = t->saddr == (const void*)p && t->scount >= 1000;
        if( again && t->scount < 1004 ) { t->yielding = t->soft = true; int sc = t->scount; const void* sa = t->saddr; schedule0("atomic rmw", o); t->yielding = t->soft = false; t->scount = sc; t->saddr = sa; }
        else if( again ) { // spinning exchange
            t->what = "spin lock"; t->e = E_SPIN; t->timed = false; schedule(); t->e = E_ALWAYS; t->scount = 0; t->saddr = nullptr;
        } else point("atomic rmw", E_ALWAYS, o);
        Ty old = __atomic_load_n(p, __ATOMIC_SEQ_CST), n = f(old);
        __atomic_store_n(p, n, __ATOMIC_SEQ_CST);
        if( n == old ) { t->saddr = (const void*)p; t->ssize = sizeof(Ty); t->sval = (std::uint64_t)(typename std::make_unsigned<Ty>::type)old; t->scount = t->scount >= 1000 && again ? t->scount + 1 : 1000; }
        else t->saddr = nullptr;
        if( mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME ) acq(t, o);
        event(12, o, n != old || true);
        if( mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST ) rel_join(t, o);
        return old;
    }
};
}
#define ATOM(BITS, TY) \
extern "C" { \
TY __tsan_atomic##BITS##_load(const volatile TY* a, int mo) { return atom<TY>::load(a, mo); } \
void __tsan_atomic##BITS##_store(volatile TY* a, TY v, int mo) { atom<TY>::store(a, v, mo); } \
TY __tsan_atomic##BITS##_exchange(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY){ return v; }); } \
TY __tsan_atomic##BITS##_fetch_add(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY o){ return (TY)(o + v); }); } \
TY __tsan_atomic##BITS##_fetch_sub(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY o){ return (TY)(o - v); }); } \
TY __tsan_atomic##BITS##_fetch_and(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY o){ return (TY)(o & v); }); } \
TY __tsan_atomic##BITS##_fetch_or(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY o){ return (TY)(o | v); }); } \
TY __tsan_atomic##BITS##_fetch_xor(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY o){ return (TY)(o ^ v); }); } \
TY __tsan_atomic##BITS##_fetch_nand(volatile TY* a, TY v, int mo) { return atom<TY>::rmw(a, mo, [v](TY o){ return (TY)~(o & v); }); } \
TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY* a, TY c, TY v, int mo, int) { return atom<TY>::rmw(a, mo, [c,v](TY o){ return o == c ? v : o; }); } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY* a, TY* c, TY v, int mo, int) { TY e = *c; TY o = atom<TY>::rmw(a, mo, [e,v](TY x){ return x == e ? v : x; }); if( o == e ) return 1; *c = o; return 0; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY* a, TY* c, TY v, int mo, int) { TY e = *c; TY o = atom<TY>::rmw(a, mo, [e,v](TY x){ return x == e ? v : x; }); if( o == e ) return 1; *c = o; return 0; } \
}
ATOM(8, std::int8_t) ATOM(16, std::int16_t) ATOM(32, std::int32_t) ATOM(64, std::int64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ========================================================= memory allocation
// Accounting of the blocks the server (not the harness or the virtual kernel)
// holds, for executions without the arena.
namespace mc {
static bool g_acct = false;
static std::size_t g_hnow = 0, g_hpeak = 0; static int g_hused = 0;
static const unsigned HN = 1 << 17; static struct { void* p; std::size_t n; } g_htab[HN];
static inline unsigned hslot(void* p) { return (unsigned)(((std::uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 40) & (HN - 1); }
static void acct_add(void* p, std::size_t n) {
    if( !p || n < 256 || !self || self->in_rt || (self->harness && strcmp(self->name, "server") != 0) || g_hused > (int)(HN / 2) ) return;
    unsigned i = hslot(p); while( g_htab[i].p ) i = (i + 1) & (HN - 1);
    g_htab[i].p = p; g_htab[i].n = n; ++g_hused; g_hnow += n; if( g_hnow > g_hpeak ) g_hpeak = g_hnow;
}
static void acct_del(void* p) {
    if( !p ) return;
    unsigned i = hslot(p); while( g_htab[i].p && g_htab[i].p != p ) i = (i + 1) & (HN - 1);
    if( !g_htab[i].p ) return;
    g_hnow -= g_htab[i].n; --g_hused;
    for( unsigned j = i;; ) { // backward shift
        g_htab[i].p = nullptr;
        for( ;; ) { j = (j + 1) & (HN - 1); if( !g_htab[j].p ) return; unsigned k = hslot(g_htab[j].p); if( i <= j ? (i < k && k <= j) : (i < k || k <= j) ) continue; break; }
        g_htab[i] = g_htab[j]; i = j;
    }
}
void watch_heap(bool on) { g_acct = on; g_hpeak = g_hnow; }
std::size_t heap_now() { return g_hnow; }
std::size_t heap_peak(bool restart) { std::size_t r = g_hpeak; if( restart ) g_hpeak = g_hnow; return r; }
}
extern "C" {
void* malloc(size_t n) { if( g_arena && self ) return arena_alloc(n); void* p = __libc_malloc(n); if( g_acct ) acct_add(p, n); return p; }
void free(void* p) { if( !p ) return; if( in_arena(p) ) arena_free(p); else { if( g_acct ) acct_del(p); __libc_free(p); } }
void* calloc(size_t a, size_t b) { if( g_arena && self ) { void* p = arena_alloc(a * b); return p; } void* p = __libc_calloc(a, b); if( g_acct ) acct_add(p, a * b); return p; }
void* realloc(void* p, size_t n) {
    if( (p == nullptr || in_arena(p)) && (g_arena && self) ) {
        void* q = arena_alloc(n);
        if( p ) { std::size_t o = ((ahdr*)p - 1)->size; memcpy(q, p, o < n ? o : n); arena_free(p); }
        return q;
    }
    if( in_arena(p) ) { void* q = __libc_malloc(n); std::size_t o = ((ahdr*)p - 1)->size; memcpy(q, p, o < n ? o : n); return q; }
    if( g_acct ) acct_del(p);
    void* q = __libc_realloc(p, n); if( g_acct ) acct_add(q, n); return q;
}
void* memalign(size_t a, size_t n) { if( g_arena && self ) return arena_alloc(n, a); void* p = __libc_memalign(a, n); if( g_acct ) acct_add(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { if( in_arena(p) ) return ((ahdr*)p - 1)->size; return 0; }
}

// ================================================================= pthreads
namespace mc {
REAL(int, pthread_mutex_lock, pthread_mutex_t*)
REAL(int, pthread_mutex_trylock, pthread_mutex_t*)
REAL(int, pthread_mutex_unlock, pthread_mutex_t*)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t*)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t*)
REAL(int, pthread_cond_wait, pthread_cond_t*, pthread_mutex_t*)
REAL(int, pthread_cond_signal, pthread_cond_t*)
REAL(int, pthread_cond_broadcast, pthread_cond_t*)
static inline bool vmode() { return in_vt() && !self->in_rt; }
static std::map<const void*, std::deque<VT*>>* g_cond;
}
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if( !in_vt() ) return real_pthread_create()(th, at, f, a);
    rt_guard g;
    char nm[24]; snprintf(nm, sizeof nm, "thread%d", NT);
    VT* t = new_thread(nm);
    t->start = f; t->arg = a;
    event(3, nullptr, true, t->id + 1);
    launch(t);
    *th = t->real;
    return 0;
}
int pthread_join(pthread_t th, void** r) {
    if( !in_vt() ) return real_pthread_join()(th, r);
    rt_guard g;
    VT* t = nullptr;
    for( int i = 0; i < NT; ++i ) if( T[i]->real == th && !T[i]->joined ) t = T[i];
    if( !t ) return ESRCH;
    std::function<bool()> f = [t]{ return t->done; };
    self->pred = &f;
    point("join", E_PRED);
    event(4, obj_at(t), false); acq(self, obj_at(t));
    if( r ) *r = t->ret;
    t->joined = true;
    return 0;
}
int pthread_detach(pthread_t th) {
    if( !in_vt() ) return real_pthread_detach()(th);
    for( int i = 0; i < NT; ++i ) if( T[i]->real == th && !T[i]->harness ) T[i]->joined = true;
    return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_mutex_lock()(m);
    rt_guard g; check_alive(m, "mutex lock"); self->saddr = nullptr;
    obj* o = obj_at(m);
    if( o->owner == self->id ) fail_kind("deadlock", "thread %s locks a mutex it already holds; stack:%s", self->name, backtrace_str().c_str());
    point("mutex lock", E_MUTEX, o);
    o->owner = self->id; acq(self, o); event(13, o, true);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_mutex_trylock()(m);
    rt_guard g; check_alive(m, "mutex trylock"); self->saddr = nullptr;
    obj* o = obj_at(m); point("mutex trylock", E_ALWAYS, o);
    event(13, o, true);
    if( o->owner != -1 ) return EBUSY;
    o->owner = self->id; acq(self, o);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_mutex_unlock()(m);
    rt_guard g; check_alive(m, "mutex unlock"); self->saddr = nullptr;
    obj* o = obj_at(m);
    if( o->owner != self->id ) fail_kind("lock", "thread %s unlocks a mutex it does not hold; stack:%s", self->name, backtrace_str().c_str());
    o->owner = -1; event(14, o, true); rel_set(self, o);
    return 0;
}
static int mutex_until(pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_mutex_lock()(m);
    rt_guard g; check_alive(m, "mutex timed lock"); self->saddr = nullptr;
    obj* o = obj_at(m); std::int64_t dl = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    bool ok = wait_for("mutex timed lock", E_MUTEX, dl > g_now ? dl - g_now : 0, o); event(13, o, true);
    if( ! ok ) return ETIMEDOUT;
    o->owner = self->id; acq(self, o); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) { return mutex_until(m, CLOCK_REALTIME, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) { return mutex_until(m, c, ts); }
// semaphores: the count is kept in the first word
int sem_init(sem_t* s, int, unsigned v) { *(volatile unsigned*)s = v; return 0; }
int sem_destroy(sem_t*) { return 0; }
int sem_post(sem_t* s) { volatile unsigned* n = (volatile unsigned*)s; if( ! vmode() ) { ++*n; return 0; } rt_guard g; check_alive(s, "sem_post"); self->saddr = nullptr; obj* o = obj_at(s); point("sem_post", E_ALWAYS, o); ++*n; event(47, o, true, *n); rel_join(self, o); return 0; }
static int sem_take(sem_t* s, int how, std::int64_t dl) {
    volatile unsigned* n = (volatile unsigned*)s; if( ! vmode() ) { if( *n ) { --*n; return 0; } errno = EAGAIN; return -1; }
    rt_guard g; check_alive(s, "sem_wait"); self->saddr = nullptr; obj* o = obj_at(s);
    std::function<bool()> pr = [n]{ return *n > 0; };
    if( how == 0 ) point("sem_trywait", E_ALWAYS, o); else { self->pred = &pr; if( how == 1 ) point("sem_wait", E_PRED, o); else wait_for("sem_timedwait", E_PRED, dl > g_now ? dl - g_now : 0, o); }
    event(48, o, true, *n); if( *n == 0 ) { errno = how ? ETIMEDOUT : EAGAIN; return -1; }
    --*n; acq(self, o); return 0;
}
int sem_wait(sem_t* s) { return sem_take(s, 1, 0); }
int sem_trywait(sem_t* s) { return sem_take(s, 0, 0); }
int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_take(s, 2, ts->tv_sec * 1000000000LL + ts->tv_nsec); }
int sem_clockwait(sem_t* s, clockid_t, const struct timespec* ts) { return sem_timedwait(s, ts); }
int sem_getvalue(sem_t* s, int* v) { *v = *(volatile unsigned*)s; return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if( !vmode() ) return real_pthread_cond_wait()(c, m);
    rt_guard g; check_alive(c, "cond wait"); check_alive(m, "cond wait"); self->saddr = nullptr;
    obj* o = obj_at(m); obj* co = obj_at(c);
    if( o->owner != self->id ) fail_kind("lock", "cond wait without holding the mutex");
    o->owner = -1; event(14, o, true); rel_set(self, o);
    event(15, co, true);
    if( !g_cond ) g_cond = new std::map<const void*, std::deque<VT*>>;
    (*g_cond)[c].push_back(self);
    self->flag = false;
    point("condition wait", E_FLAG);
    point("mutex re-lock", E_MUTEX, o);
    o->owner = self->id; acq(self, o); event(13, o, true);
    return 0;
}
static int cond_notify(const void* c, bool all) {
    check_alive(c, "cond notify"); self->saddr = nullptr;
    obj* co = obj_at(c);
    point("condition notify", E_ALWAYS, co);
    event(16, co, true);
    if( !g_cond ) return 0;
    auto& q = (*g_cond)[c];
    if( all ) { for( VT* t: q ) t->flag = true; q.clear(); }
    else if( !q.empty() ) {
        int k = q.size() > 1 && g_explore ? take_choice(q.size(), SCHED, "notify_one") : 0;
        q[k]->flag = true; q.erase(q.begin() + k);
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { if( !vmode() ) return (self && g_running) ? 0 : real_pthread_cond_signal()(c); rt_guard g; return cond_notify(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { if( !vmode() ) return (self && g_running) ? 0 : real_pthread_cond_broadcast()(c); rt_guard g; return cond_notify(c, true); }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) {
    rt_guard g; check_alive(c, "cond wait"); obj* o = obj_at(m);
    o->owner = -1; event(14, o, true); rel_set(self, o); event(15, obj_at(c), true);
    if( !g_cond ) g_cond = new std::map<const void*, std::deque<VT*>>;
    (*g_cond)[c].push_back(self); self->flag = false;
    std::int64_t dl = ts->tv_sec * 1000000000LL + ts->tv_nsec;
    bool ok = wait_for("condition timed wait", E_FLAG, dl > g_now ? dl - g_now : 0);
    if( !ok ) { auto& q = (*g_cond)[c]; for( auto it = q.begin(); it != q.end(); ++it ) if( *it == self ) { q.erase(it); break; } }
    point("mutex re-lock", E_MUTEX, o); o->owner = self->id; acq(self, o); event(13, o, true);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return pthread_cond_clockwait(c, m, CLOCK_REALTIME, ts); }

int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_rwlock_rdlock()(l);
    rt_guard g; check_alive(l, "rwlock"); self->saddr = nullptr; obj* o = obj_at(l);
    if( o->owner == self->id ) return EDEADLK;
    point("read lock", E_RD, o);
    ++o->readers; acq(self, o); event(17, o, true);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_rwlock_tryrdlock()(l);
    rt_guard g; check_alive(l, "rwlock"); self->saddr = nullptr; obj* o = obj_at(l);
    point("try read lock", E_ALWAYS, o); event(17, o, true);
    if( o->owner != -1 ) return EBUSY;
    ++o->readers; acq(self, o); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_rwlock_wrlock()(l);
    rt_guard g; check_alive(l, "rwlock"); self->saddr = nullptr; obj* o = obj_at(l);
    if( o->owner == self->id ) return EDEADLK;
    point("write lock", E_WR, o);
    o->owner = self->id; acq(self, o); event(18, o, true);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_rwlock_trywrlock()(l);
    rt_guard g; check_alive(l, "rwlock"); self->saddr = nullptr; obj* o = obj_at(l);
    point("try write lock", E_ALWAYS, o); event(18, o, true);
    if( o->owner != -1 || o->readers > 0 ) return EBUSY;
    o->owner = self->id; acq(self, o);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if( !vmode() ) return (self && g_running) ? 0 : real_pthread_rwlock_unlock()(l);
    rt_guard g; check_alive(l, "rwlock unlock"); self->saddr = nullptr; obj* o = obj_at(l);
    if( o->owner == self->id ) { o->owner = -1; event(19, o, true); rel_set(self, o); }
    else { if( o->readers <= 0 ) fail_kind("lock", "rwlock unlocked more often than locked"); --o->readers; event(19, o, true); rel_join(self, o); }
    return 0;
}
int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
int pthread_spin_lock(pthread_spinlock_t* l) {
    if( !vmode() ) return 0;
    rt_guard g; check_alive((void*)l, "spin lock"); self->saddr = nullptr; obj* o = obj_at((void*)l);
    if( o->owner == self->id ) fail_kind("deadlock", "thread %s locks a spin lock it already holds; stack:%s", self->name, backtrace_str().c_str());
    point("spin lock", E_MUTEX, o); o->owner = self->id; acq(self, o); event(13, o, true); return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
    if( !vmode() ) return 0;
    rt_guard g; check_alive((void*)l, "spin lock"); self->saddr = nullptr; obj* o = obj_at((void*)l);
    point("try spin lock", E_ALWAYS, o); event(13, o, true); if( o->owner != -1 ) return EBUSY;
    o->owner = self->id; acq(self, o); return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
    if( !vmode() ) return 0;
    rt_guard g; check_alive((void*)l, "spin unlock"); self->saddr = nullptr; obj* o = obj_at((void*)l);
    if( o->owner != self->id ) fail_kind("lock", "thread %s unlocks a spin lock it does not hold", self->name);
    o->owner = -1; event(19, o, true); rel_set(self, o); return 0;
}
// one-time initialisation: whoever comes second waits under the scheduler
static bool once_enter(void* l, const volatile char* done) {
    rt_guard g; self->saddr = nullptr; obj* o = obj_at(l); point("one-time initialisation", E_MUTEX, o);
    acq(self, o); event(13, o, true); if( *done ) return false;
    o->owner = self->id; return true;
}
static void once_leave(void* l) { rt_guard g; obj* o = obj_at(l); o->owner = -1; event(19, o, true); rel_set(self, o); }
static int (*real_once())(pthread_once_t*, void (*)()) { static int (*f)(pthread_once_t*, void (*)()) = (int (*)(pthread_once_t*, void (*)()))dlsym(RTLD_NEXT, "pthread_once"); return f; }
int pthread_once(pthread_once_t* c, void (*f)()) {
    if( !vmode() ) return real_once()(c, f);
    volatile char* d = (volatile char*)c;      // glibc: 2 = done
    if( *d == 2 ) { rt_guard g; acq(self, obj_at(c)); return 0; }
    char done = 0;
    { rt_guard g; self->saddr = nullptr; obj* o = obj_at(c); point("call_once", E_MUTEX, o); acq(self, o); event(13, o, true); done = *d == 2; if( ! done ) o->owner = self->id; }
    if( done ) return 0;
    try { f(); } catch( ... ) { once_leave(c); throw; }
    *d = 2; once_leave(c); return 0;
}
REAL(int, __cxa_guard_acquire, std::uint64_t*)
REAL(void, __cxa_guard_release, std::uint64_t*)
REAL(void, __cxa_guard_abort, std::uint64_t*)
int __cxa_guard_acquire(std::uint64_t* gd) {
    volatile char* b = (volatile char*)gd; if( *b ) return 0;
    if( !vmode() ) return real___cxa_guard_acquire()(gd);
    return once_enter(gd, b) ? 1 : 0;
}
void __cxa_guard_release(std::uint64_t* gd) { if( !vmode() ) { real___cxa_guard_release()(gd); return; } *(volatile char*)gd = 1; once_leave(gd); }
void __cxa_guard_abort(std::uint64_t* gd) { if( !vmode() ) { real___cxa_guard_abort()(gd); return; } once_leave(gd); }
int pthread_sigmask(int how, const sigset_t* m, sigset_t*) {
    if( ! m || ! in_vt() ) return 0;
    std::uint64_t b = sigbits(m); if( how == SIG_BLOCK ) g_sigblocked |= b; else if( how == SIG_UNBLOCK ) g_sigblocked &= ~b; else g_sigblocked = b;
    return 0;
}
int sigprocmask(int how, const sigset_t* m, sigset_t* o) { return pthread_sigmask(how, m, o); }
int sched_yield(void) { if( !vmode() ) return syscall(SYS_sched_yield); rt_guard g; self->yielding = true; point("sched_yield"); self->yielding = false; event(1, nullptr, true); return 0; }
}

// ================================================================ time, exit
extern "C" {
static int real_clock(clockid_t c, struct timespec* ts) { return syscall(SYS_clock_gettime, c, ts); }
int clock_gettime(clockid_t c, struct timespec* ts) {
    if( !in_vt() ) return real_clock(c, ts);
    if( !self->in_rt ) { rt_guard g; event(32, &g_clock, false, g_now); }
    ts->tv_sec = g_now / 1000000000LL; ts->tv_nsec = g_now % 1000000000LL;
    return 0;
}
time_t time(time_t* t) {
    time_t r;
    if( !in_vt() ) { struct timespec ts; real_clock(CLOCK_REALTIME, &ts); r = ts.tv_sec; }
    else { if( !self->in_rt ) { rt_guard g; event(32, &g_clock, false, g_now / 1000000000LL); } r = g_now / 1000000000LL; }
    if( t ) *t = r;
    return r;
}
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) {
    if( !in_vt() ) return syscall(SYS_nanosleep, a, b);
    rt_guard g; self->saddr = nullptr;
    VT* t = self; t->what = "nanosleep"; t->e = E_UNTIL; t->timed = true; t->deadline = g_now + a->tv_sec * 1000000000LL + a->tv_nsec;
    schedule(); t->timed = false; t->e = E_ALWAYS;
    event(5, &g_clock, false, g_now);
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return nanosleep(a, b); }
int usleep(useconds_t us) { struct timespec ts = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 }; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts = { (time_t)s, 0 }; nanosleep(&ts, nullptr); return 0; }

REAL(void, exit, int)
void exit(int code) {
    if( in_vt() ) exited(code, false);
    real_exit()(code); __builtin_unreachable();
}
void quick_exit(int code) {
    if( in_vt() ) exited(code, true);
    syscall(SYS_exit_group, code); __builtin_unreachable();
}
}

// ================================================================== syscalls
namespace mc {
static inline void sp(const char* what, obj* o = nullptr) { self->saddr = nullptr; point(what, E_ALWAYS, o); }
}
extern "C" {
int eventfd(unsigned int v, int flags) {
    if( !in_vt() ) return syscall(SYS_eventfd2, v, flags);
    rt_guard g; int fd = fd_alloc(F_EVENT); g_fds[fd - FDBASE]->cnt = v; g_fds[fd-FDBASE]->nonblock = flags & EFD_NONBLOCK; g_fds[fd-FDBASE]->semaphore = flags & EFD_SEMAPHORE; return fd;
}
int epoll_create1(int flags) {
    if( !in_vt() ) return syscall(SYS_epoll_create1, flags);
    rt_guard g; int fd = fd_alloc(F_EPOLL); g_fds[fd - FDBASE]->ep = new epoll; return fd;
}
int epoll_create(int) { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) {
    if( !in_vt() ) return syscall(SYS_epoll_ctl, ep, op, fd, ev);
    rt_guard g;
    epoll* e = get_fd(ep, "epoll_ctl", F_EPOLL)->ep;
    vfd* f = get_fd(fd, "epoll_ctl");
    event(33, &e->o, true, fd * 8 + op);
    auto it = e->regs.find(fd);
    switch( op ) {
    case EPOLL_CTL_ADD:
        if( it != e->regs.end() ) { errno = EEXIST; return -1; }
        e->regs[fd] = epreg{ fd, ev->events, true, ++e->seq, ev->data }; f->reg = e; break;
    case EPOLL_CTL_MOD:
        if( it == e->regs.end() ) { errno = ENOENT; return -1; }
        it->second.mask = ev->events; it->second.data = ev->data; it->second.pending = true; it->second.order = ++e->seq; break;
    case EPOLL_CTL_DEL:
        if( it == e->regs.end() ) { errno = ENOENT; return -1; }
        e->regs.erase(it); f->reg = nullptr; break;
    }
    return 0;
}
int epoll_wait(int ep, struct epoll_event* evs, int max, int timeout) {
    if( !in_vt() ) return syscall(SYS_epoll_wait, ep, evs, max, timeout);
    rt_guard g; self->saddr = nullptr;
    epoll* e = get_fd(ep, "epoll_wait", F_EPOLL)->ep;
    self->ep = e;
    if( g_faults.wait_eintr && choose(2, "epoll_wait", FAULT) ) { errno = EINTR; return -1; }
    if( timeout == 0 ) {
        if( ! ep_ready(e) ) self->yielding = true;
        point("epoll_wait(0)", E_ALWAYS, &e->o);
        self->yielding = false;
    } else {
        wait_for("epoll_wait", E_EPOLL, timeout < 0 ? -1 : timeout * 1000000LL);
    }
    keepalive_tick();
    std::vector<epreg*> v;
    for( auto& r: e->regs ) if( r.second.pending ) v.push_back(&r.second);
    std::sort(v.begin(), v.end(), [](epreg* a, epreg* b){ return a->order < b->order; });
    int n = 0;
    std::uint64_t x = 1;
    for( epreg* r: v ) {
        if( n == max ) break;
        std::uint32_t m = vfd_mask(g_fds[r->fd - FDBASE]) & (r->mask | EPOLLERR | EPOLLHUP);
        r->pending = !(r->mask & EPOLLET) && m;
        if( m && (r->mask & EPOLLONESHOT) ) { r->pending = false; r->mask = 0; }
        if( !m ) continue;
        evs[n].events = m; evs[n].data = r->data; ++n;
        x = mix(x, r->fd * 65536ULL + m);
    }
    event(34, &e->o, true, mix(x, n ? 0 : g_now));
    return n;
}
int socket(int d, int t, int p) {
    if( !in_vt() ) return syscall(SYS_socket, d, t, p);
    rt_guard g; if( d == AF_INET6 && g_no_ipv6 ) { errno = EAFNOSUPPORT; return -1; }
    int fd = fd_alloc(F_SOCK); vsock* s = new vsock; s->id = ++g_nsock; s->fd = fd; s->connect_state = 0; s->outgoing = true; g_fds[fd - FDBASE]->s = s; g_fds[fd - FDBASE]->domain = d; g_fds[fd - FDBASE]->nonblock = t & SOCK_NONBLOCK; return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) {
    if( !in_vt() ) return syscall(SYS_bind, fd, a, l);
    rt_guard g; vfd* f = get_fd(fd, "bind");
    if( a->sa_family != f->domain ) { errno = EINVAL; return -1; }
    bool v6 = a->sa_family == AF_INET6; char b[64] = ""; int port = ntohs(v6 ? ((sockaddr_in6*)a)->sin6_port : ((sockaddr_in*)a)->sin_port);
    inet_ntop(a->sa_family, v6 ? (const void*)&((sockaddr_in6*)a)->sin6_addr : &((sockaddr_in*)a)->sin_addr, b, sizeof b);
    std::string addr = b; auto it = g_localips->find(addr); event(47, &g_clock, false);
    bool local = any_addr(addr) || addr == "::1" || addr.compare(0, 4, "127.") == 0 || (it != g_localips->end() && it->second);
    if( ! local && ! f->freebind ) { errno = EADDRNOTAVAIL; return -1; }
    for( auto x: g_fds ) if( x->open && x != f && x->type == F_LISTEN && x->port == port && (x->addr == addr || covers(x, addr) || (any_addr(addr) && (addr == "::" ? ! f->v6only || x->addr.find(':') != std::string::npos : x->addr.find(':') == std::string::npos))) ) { errno = EADDRINUSE; return -1; }
    f->port = port; f->addr = addr;
    return 0;
}
int listen(int fd, int n) {
    if( !in_vt() ) return syscall(SYS_listen, fd, n);
    rt_guard g; vfd* f = get_fd(fd, "listen"); f->type = F_LISTEN; event(35, &f->o, true); return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
    if( !in_vt() ) return syscall(SYS_accept4, fd, a, l, flags);
    rt_guard g; vfd* f = get_fd(fd, "accept", F_LISTEN);
    if( ! f->nonblock ) { std::function<bool()> pr = [=]{ return ! f->open || ! f->q.empty(); }; self->pred = &pr; point("accept(blocking)", E_PRED, &f->o); }
    sp("accept", &f->o);
    event(36, &f->o, true);
    if( ! f->q.empty() && no_fds() ) { errno = EMFILE; return -1; }
    if( g_accept_errno ) { errno = g_accept_errno; g_accept_errno = 0; return -1; }
    if( f->q.empty() ) { errno = EAGAIN; return -1; }
    vsock* s = f->q.front();
    if( ! g_faults.accept_errnos.empty() ) {
        int c = choose(g_faults.accept_errnos.size() + 1, "accept", FAULT);
        if( c ) {
            int er = g_faults.accept_errnos[c - 1];
            if( er != EINTR && er != EMFILE && er != ENFILE && er != ENOBUFS && er != ENOMEM ) { f->q.pop_front(); s->faulted = s->rst = s->fd_closed = true; }
            errno = er; return -1;
        }
    }
    f->q.pop_front();
    int nfd = fd_alloc(F_SOCK); vfd* nf = g_fds[nfd - FDBASE];
    nf->s = s; s->fd = nfd; nf->nonblock = flags & SOCK_NONBLOCK;
    event(36, &s->o, true);
    sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(40000 + s->id); in.sin_addr.s_addr = htonl(0x0a000002);
    if( a && l ) { memcpy(a, &in, std::min((size_t)*l, sizeof in)); *l = sizeof in; }
    return nfd;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { if( !in_vt() ) return syscall(SYS_accept, fd, a, l); return accept4(fd, a, l, 0); }
int epoll_pwait(int ep, struct epoll_event* e, int m, int t, const sigset_t*) { return epoll_wait(ep, e, m, t); }
int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
    if( !in_vt() ) return syscall(SYS_getpeername, fd, a, l);
    rt_guard g; vfd* f = get_fd(fd, "getpeername", F_SOCK); event(37, &f->s->o, false);
    if( f->s->rst ) { errno = ENOTCONN; return -1; }
    sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; in.sin_port = htons(40000 + f->s->id); in.sin_addr.s_addr = htonl(0x0a000002);
    memcpy(a, &in, std::min((size_t)*l, sizeof in)); *l = sizeof in; return 0;
}
int connect(int fd, const struct sockaddr* a, socklen_t l) {
    if( !in_vt() ) return syscall(SYS_connect, fd, a, l);
    rt_guard g; vfd* f = get_fd(fd, "connect", F_SOCK); sp("connect");
    int port = ntohs(a->sa_family == AF_INET6 ? ((sockaddr_in6*)a)->sin6_port : ((sockaddr_in*)a)->sin_port);
    event(38, &f->s->o, true);
    f->s->port = port; f->s->connect_state = 1;
    auto it = g_remote->find(port);
    if( it != g_remote->end() && it->second ) f->s->connect_state = 2; else f->s->connect_state = 3;
    if( ! f->nonblock ) {
        if( f->s->connect_state == 3 ) { errno = ECONNREFUSED; return -1; }
        f->s->queued = true; (*g_remoteq)[port].push_back(f->s); return 0;
    }
    errno = EINPROGRESS; return -1;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
    if( !in_vt() ) return syscall(SYS_poll, p, n, timeout);
    rt_guard g; self->saddr = nullptr; sp("poll");
    bool connecting = false; int r = 0;
    for( nfds_t i = 0; i < n; ++i ) {
        p[i].revents = 0; if( p[i].fd < 0 ) continue;
        vfd* f = get_fd(p[i].fd, "poll"); event(39, &f->o, true);
        if( f->type != F_SOCK || f->s->queued || (f->s->connect_state != 2 && f->s->connect_state != 3) ) continue;
        connecting = true;
        if( f->s->connect_state == 2 ) { p[i].revents = POLLOUT; ++r; f->s->queued = true; (*g_remoteq)[f->s->port].push_back(f->s); }
        else { p[i].revents = POLLOUT|POLLERR|POLLHUP; ++r; }
    }
    if( connecting ) return r;
    auto ready = [=](nfds_t i) -> short {
        if( p[i].fd < 0 ) return 0;
        std::size_t k = p[i].fd - FDBASE; if( k >= g_fds.size() || ! g_fds[k]->open ) return POLLNVAL;
        return vfd_mask(g_fds[k]) & ((std::uint32_t)p[i].events | POLLERR | POLLHUP);
    };
    std::function<bool()> pr = [=]{ for( nfds_t i = 0; i < n; ++i ) if( ready(i) ) return true; return false; };
    if( timeout != 0 ) { self->pred = &pr; wait_for("poll", E_PRED, timeout < 0 ? -1 : timeout * 1000000LL); }
    std::uint64_t x = 1;
    for( nfds_t i = 0; i < n; ++i ) { p[i].revents = ready(i); if( p[i].revents ) ++r; x = mix(x, p[i].revents); }
    event(39, nullptr, true, mix(x, r ? 0 : g_now));
    return r;
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* ts, const sigset_t*) { return poll(p, n, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1); }
int epoll_pwait2(int ep, struct epoll_event* e, int m, const struct timespec* ts, const sigset_t*) { return epoll_wait(ep, e, m, ts ? ts->tv_sec * 1000 + ts->tv_nsec / 1000000 : -1); }
int eventfd_read(int fd, eventfd_t* v) { return ::read(fd, v, 8) == 8 ? 0 : -1; }
int eventfd_write(int fd, eventfd_t v) { return ::write(fd, &v, 8) == 8 ? 0 : -1; }
int getsockopt(int fd, int lv, int opt, void* v, socklen_t* l) {
    if( !in_vt() ) return syscall(SYS_getsockopt, fd, lv, opt, v, l);
    rt_guard g; vfd* f = get_fd(fd, "getsockopt");
    if( opt == SO_ERROR && *l >= 4 ) *(int*)v = f->s && f->s->connect_state == 3 ? ECONNREFUSED : 0;
    return 0;
}
int setsockopt(int fd, int lv, int opt, const void* v, socklen_t l) {
    if( !in_vt() ) return syscall(SYS_setsockopt, fd, lv, opt, v, l);
    rt_guard g; vfd* f = get_fd(fd, "setsockopt");
    if( lv == IPPROTO_IP && opt == IP_FREEBIND ) f->freebind = *(const int*)v;
    if( lv == IPPROTO_IPV6 && opt == IPV6_V6ONLY ) f->v6only = *(const int*)v;
    if( f->s && lv == IPPROTO_TCP && (opt == TCP_NODELAY || opt == TCP_CORK) ) {
        event(40, &f->s->o, true);
        if( opt == TCP_NODELAY && *(const int*)v ) f->s->unflushed = false;
        if( opt == TCP_CORK && !*(const int*)v ) f->s->unflushed = false;
    }
    if( f->s && lv == SOL_SOCKET && opt == SO_KEEPALIVE ) f->s->keep = *(const int*)v;
    if( f->s && lv == IPPROTO_TCP && (opt == TCP_KEEPIDLE || opt == TCP_KEEPINTVL || opt == TCP_KEEPCNT) ) (opt == TCP_KEEPIDLE ? f->s->keepidle : opt == TCP_KEEPINTVL ? f->s->keepintvl : f->s->keepcnt) = *(const int*)v;
    return 0;
}
static int peer_gone(int er, int fl) {
    if( er == EPIPE && ! (fl & MSG_NOSIGNAL) && ! g_sigpipe_ignored && ! (g_sigblocked >> SIGPIPE & 1) ) fail_kind("crash", "SIGPIPE is neither ignored nor blocked: the process is killed by a send to a connection that is gone");
    errno = er; return -1;
}
static ssize_t do_send(int fd, const struct iovec* v, int cnt, const char* op, int fl = 0) {
    vfd* f = get_fd(fd, op, F_SOCK); vsock* s = f->s;
    if( ! f->nonblock && ! (fl & MSG_DONTWAIT) ) {   // a blocking socket sends everything
        ssize_t done = 0;
        for( int i = 0; i < cnt; ++i ) for( std::size_t off = 0; off < v[i].iov_len; ) {
            f = get_fd(fd, op, F_SOCK); s = f->s;
            std::function<bool()> pr = [=]{ return ! f->open || s->shut_wr || s->rst || s->client_closed || s->tx.size() < s->window; };
            self->pred = &pr; point("send(blocking)", E_PRED, &s->o);
            struct iovec w = { (char*)v[i].iov_base + off, v[i].iov_len - off };
            ssize_t r = do_send(fd, &w, 1, op, fl | MSG_DONTWAIT);
            if( r < 0 ) { if( errno == EAGAIN ) continue; return done ? done : -1; }
            off += r; done += r;
        }
        return done;
    }
    sp("send", &s->o);
    f = get_fd(fd, op, F_SOCK); s = f->s;
    std::size_t total = 0; for( int i = 0; i < cnt; ++i ) total += v[i].iov_len;
    std::uint64_t h = 3; for( int i = 0; i < cnt; ++i ) h = hash_bytes(v[i].iov_base, v[i].iov_len, h);
    for( int i = 0; i < cnt; ++i ) { self->in_rt = false; on_access(v[i].iov_base, v[i].iov_len, false, PC); self->in_rt = true; }
    event(41, &s->o, true, h);
    if( s->shut_wr ) return peer_gone(EPIPE, fl);
    if( s->rst ) { int er = s->rst_reported ? EPIPE : s->err; s->rst_reported = true; return peer_gone(er, fl); }
    if( s->client_closed ) { // peer is gone: it answers with RST
        s->rst = true; wake_sock(s);
        return (ssize_t)total;
    }
    std::size_t room = s->window > s->tx.size() ? s->window - s->tx.size() : 0;
    if( room == 0 && total > 0 ) { s->nospace = true; errno = EAGAIN; return -1; }
    std::size_t n = std::min(room, total);
    bool hit = !g_faults.only || g_faults.only == s;
    bool f1 = hit && g_faults.short_send && n > 1, f2 = hit && g_faults.send_error, f3 = hit && g_faults.short_send;
    if( f1 || f2 || f3 ) {
        // alternatives: full, none (EAGAIN), 1 byte, half, error
        static const std::vector<int> dflt = {EPIPE, ECONNRESET}; const std::vector<int>& errs = g_faults.send_errnos.empty() ? dflt : g_faults.send_errnos;
        int opts[40], k = 0; opts[k++] = 0;
        if( f3 ) opts[k++] = 1;
        if( f1 ) { opts[k++] = 2; if( n > 3 ) opts[k++] = 3; }
        if( f2 ) for( std::size_t i = 0; i < errs.size() && i < 30; ++i ) opts[k++] = 4 + i;
        int c = k > 1 ? opts[choose(k, "send", FAULT)] : 0;
        if( c == 1 ) { s->nospace = true; opened_space(s); errno = EAGAIN; return -1; }
        if( c == 2 ) n = 1;
        if( c == 3 ) n = n / 2;
        if( c >= 4 ) { int er = errs[c - 4]; errno = er; if( er == EINTR ) return -1; s->rst = s->rst_reported = true; s->client_closed = s->faulted = true; s->rx.clear(); wake_sock(s); return peer_gone(er, fl); }
    }
    std::size_t left = n;
    for( int i = 0; i < cnt && left; ++i ) {
        std::size_t k = std::min(left, v[i].iov_len);
        if( !s->autoread ) s->tx.append((const char*)v[i].iov_base, k);
        s->hist.append((const char*)v[i].iov_base, k);
        left -= k;
    }
    if( n < total ) s->nospace = true;
    if( n < total && s->tx.size() < s->window ) opened_space(s);
    s->unflushed = true;
    return (ssize_t)n;
}
// transfers of value files may be split by the kernel
static size_t file_part(int fd, size_t n) {
    if( !mc::g_file_chunk || n <= mc::g_file_chunk || !in_vt() || self->in_rt || !g_realfds ) return n;
    rt_guard g; return g_realfds->count(fd) ? mc::g_file_chunk : n;
}
// ... and may be interleaved with those of other threads, or interrupted
static bool file_write(int fd) {
    if( !mc::g_file_points || !in_vt() || self->in_rt ) return true;
    rt_guard g; sp("write(file)", &mc::g_fileobj); event(48, &mc::g_fileobj, true, fd);
    if( g_faults.file_eintr && choose(2, "write interrupted", FAULT) ) { errno = EINTR; return false; }
    return true;
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
    if( !in_vt() ) return syscall(SYS_sendto, fd, p, n, fl, nullptr, 0);
    rt_guard g; struct iovec v = { const_cast<void*>(p), n }; return do_send(fd, &v, 1, "send", fl);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if( !is_vfd(fd) && ! file_write(fd) ) return -1;
    if( !in_vt() || !is_vfd(fd) ) { if( in_vt() && mc::g_file_chunk && c > 0 ) { struct iovec w = { v[0].iov_base, file_part(fd, v[0].iov_len) }; return syscall(SYS_writev, fd, &w, 1); } return syscall(SYS_writev, fd, v, c); }
    rt_guard g; return do_send(fd, v, c, "writev");
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) { if( !in_vt() ) return syscall(SYS_sendmsg, fd, m, fl); rt_guard g; return do_send(fd, m->msg_iov, m->msg_iovlen, "sendmsg", fl); }
ssize_t recv(int fd, void* p, size_t n, int fl) {
    if( !in_vt() ) return syscall(SYS_recvfrom, fd, p, n, fl, nullptr, nullptr);
    rt_guard g; vfd* f = get_fd(fd, "recv", F_SOCK);
    if( ! f->nonblock && ! (fl & MSG_DONTWAIT) ) {
        vsock* bs = f->s; std::function<bool()> pr = [=]{ return ! f->open || bs->rst || bs->shut_rd || bs->rx_fin || ! bs->rx.empty() || bs->src; };
        self->pred = &pr; point("recv(blocking)", E_PRED, &bs->o);
    }
    sp("recv", &f->s->o);
    f = get_fd(fd, "recv", F_SOCK); vsock* s = f->s;
    event(42, &s->o, true);
    if( s->src && !s->rst ) { g_now += s->src_ms * 1000000LL; std::string d = s->src(); s->rx += d; }
    if( s->rx.empty() ) {
        if( s->rst ) { if( s->rst_reported ) return 0; s->rst_reported = true; errno = s->err; return -1; }
        if( s->shut_rd || s->rx_fin ) return 0;
        errno = EAGAIN; return -1;
    }
    std::size_t k = std::min(n, s->rx.size());
    if( (g_faults.short_recv || g_faults.recv_error) && (!g_faults.only || g_faults.only == s) ) {
        static const std::vector<int> dflt = {ECONNRESET, ETIMEDOUT}; const std::vector<int>& errs = g_faults.recv_errnos.empty() ? dflt : g_faults.recv_errnos;
        int opts[40], m = 0; opts[m++] = 0;
        if( g_faults.short_recv && k > 1 ) { opts[m++] = 1; if( k > 2 ) opts[m++] = 2; }
        if( g_faults.recv_error ) for( std::size_t i = 0; i < errs.size() && i < 30; ++i ) opts[m++] = 3 + i;
        int c = m > 1 ? opts[choose(m, "recv", FAULT)] : 0;
        if( c == 1 ) k = 1;
        if( c == 2 ) k = k - 1;
        if( c >= 3 ) { int er = errs[c - 3]; if( er == EINTR ) { errno = er; return -1; } s->rst = s->rst_reported = true; s->client_closed = s->faulted = true; s->rx.clear(); wake_sock(s); errno = er; return -1; }
    }
    self->in_rt = false; on_access(p, k, true, PC); self->in_rt = true;
    memcpy(p, s->rx.data(), k); if( ! (fl & MSG_PEEK) ) s->rx.erase(0, k);
    return (ssize_t)k;
}
ssize_t recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if( !in_vt() ) return syscall(SYS_recvfrom, fd, p, n, fl, a, l); if( l ) *l = 0; return recv(fd, p, n, fl); }
ssize_t sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr* a, socklen_t l) { if( !in_vt() ) return syscall(SYS_sendto, fd, p, n, fl, a, l); return send(fd, p, n, fl); }
ssize_t pread(int fd, void* p, size_t n, off_t o) { return syscall(SYS_pread64, fd, p, file_part(fd, n), o); }
ssize_t pread64(int fd, void* p, size_t n, off_t o) { return syscall(SYS_pread64, fd, p, file_part(fd, n), o); }
ssize_t pwrite(int fd, const void* p, size_t n, off_t o) { return syscall(SYS_pwrite64, fd, p, file_part(fd, n), o); }
ssize_t pwrite64(int fd, const void* p, size_t n, off_t o) { return syscall(SYS_pwrite64, fd, p, file_part(fd, n), o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    if( !in_vt() || !is_vfd(fd) ) { if( in_vt() && mc::g_file_chunk && c > 0 ) { struct iovec w = { v[0].iov_base, file_part(fd, v[0].iov_len) }; return syscall(SYS_readv, fd, &w, 1); } return syscall(SYS_readv, fd, v, c); }
    ssize_t t = 0;
    for( int i = 0; i < c; ++i ) { ssize_t r = recv(fd, v[i].iov_base, v[i].iov_len, 0); if( r < 0 ) return t ? t : r; t += r; if( (size_t)r < v[i].iov_len ) break; }
    return t;
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl) { if( !in_vt() ) return syscall(SYS_recvmsg, fd, m, fl); m->msg_namelen = 0; m->msg_controllen = 0; m->msg_flags = 0; return readv(fd, m->msg_iov, m->msg_iovlen); }
int shutdown(int fd, int how) {
    if( !in_vt() ) return syscall(SYS_shutdown, fd, how);
    rt_guard g; vfd* f = get_fd(fd, "shutdown", F_SOCK); sp("shutdown", &f->s->o);
    f = get_fd(fd, "shutdown", F_SOCK);
    event(43, &f->s->o, true);
    if( how != SHUT_RD ) f->s->shut_wr = true;
    if( how != SHUT_WR ) f->s->shut_rd = true;
    wake_sock(f->s);
    return 0;
}
int close(int fd) {
    if( !in_vt() || !is_vfd(fd) ) {
        if( in_vt() && g_realfds && !self->in_rt ) {
            rt_guard g;
            if( g_realfds->erase(fd) == 0 && fd > 2 )
                fail_kind("fd", "close(%d): not an open descriptor of this process, thread %s; stack:%s", fd, self->name, backtrace_str().c_str());
        }
        return syscall(SYS_close, fd);
    }
    rt_guard g; vfd* f = get_fd(fd, "close"); sp("close", &f->o);
    f = get_fd(fd, "close");
    event(44, &f->o, true); event(44, &g_fdtab, true);
    if( f->s ) { event(44, &f->s->o, true); f->s->fd_closed = true; }
    if( f->reg ) { event(44, &f->reg->o, true); f->reg->regs.erase(fd); f->reg = nullptr; }
    f->open = false;
    return 0;
}
ssize_t read(int fd, void* p, size_t n) {
    if( !in_vt() || !is_vfd(fd) ) return syscall(SYS_read, fd, p, file_part(fd, n));
    rt_guard g; vfd* f = get_fd(fd, "read"); self->saddr = nullptr;
    if( f->type == F_EVENT ) {
        if( f->nonblock ) { sp("read(eventfd)", &f->o); if( f->cnt == 0 ) { errno = EAGAIN; return -1; } }
        else {
            std::function<bool()> pr = [f]{ return f->cnt > 0 || !f->open; };
            self->pred = &pr; point("read(eventfd)", E_PRED, &f->o);
        }
        if( !f->open ) fail_kind("fd", "read on closed eventfd");
        std::uint64_t v = f->semaphore ? 1 : f->cnt; f->cnt -= v; memcpy(p, &v, 8);
        acq(self, &f->o); event(45, &f->o, true);
        return 8;
    }
    if( f->type == F_SIGNAL ) {
        sp("read(signalfd)", &f->o); event(45, &f->o, true);
        if( f->sigs.empty() && ! f->nonblock ) { std::function<bool()> pr = [f]{ return ! f->open || ! f->sigs.empty(); }; self->pred = &pr; point("read(signalfd)", E_PRED, &f->o); }
        if( f->sigs.empty() ) { errno = EAGAIN; return -1; }
        struct signalfd_siginfo si; memset(&si, 0, sizeof si); si.ssi_signo = f->sigs.front(); f->sigs.pop_front();
        memcpy(p, &si, sizeof si); return sizeof si;
    }
    if( f->type == F_SOCK ) return recv(fd, p, n, 0);
    errno = EINVAL; return -1;
}
ssize_t write(int fd, const void* p, size_t n) {
    if( in_vt() && is_vfd(fd) ) {
        rt_guard g; vfd* f = get_fd(fd, "write");
        if( f->type == F_EVENT ) {
            sp("write(eventfd)", &f->o);
            f = get_fd(fd, "write", F_EVENT);
            std::uint64_t v; memcpy(&v, p, 8); f->cnt += v; event(46, &f->o, true); rel_join(self, &f->o);
            wake(f, fd);
            return 8;
        }
        struct iovec v = { const_cast<void*>(p), n }; return do_send(fd, &v, 1, "write");
    }
    if( in_vt() && (fd == 1 || fd == 2) ) { rt_guard g; note("log: %.*s", (int)(n > 1500 ? 1500 : (n && ((const char*)p)[n-1] == '\n' ? n - 1 : n)), (const char*)p); return n; }
    if( ! file_write(fd) ) return -1;
    return syscall(SYS_write, fd, p, file_part(fd, n));
}
int signalfd(int fd, const sigset_t* m, int fl) {
    if( !in_vt() ) { errno = ENOSYS; return -1; }
    rt_guard g; int n = fd == -1 ? fd_alloc(F_SIGNAL) : fd; vfd* f = get_fd(n, "signalfd", F_SIGNAL); f->sigset = sigbits(m); f->nonblock = fl & SFD_NONBLOCK; return n;
}
static void handled(int s, void (*h)(int)) { if( h == SIG_DFL ) g_sighandled &= ~(1ull << s); else g_sighandled |= 1ull << s; if( s == SIGPIPE ) g_sigpipe_ignored = h != SIG_DFL; }
sighandler_t signal(int s, sighandler_t h) { if( in_vt() ) { handled(s, h); return SIG_DFL; } struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = h; return sigaction(s, &a, nullptr) ? SIG_ERR : SIG_DFL; }
int sigaction(int s, const struct sigaction* a, struct sigaction* o) {
    if( in_vt() ) { if( a && s > 0 && s < 64 ) handled(s, a->sa_handler); return 0; }
    typedef int (*F)(int, const struct sigaction*, struct sigaction*);
    static F f = (F)dlsym(RTLD_NEXT, "sigaction");
    return f(s, a, o);
}
REAL(int, getaddrinfo, const char*, const char*, const struct addrinfo*, struct addrinfo**)
int getaddrinfo(const char* node, const char* service, const struct addrinfo* hints, struct addrinfo** res) {
    if( !in_vt() || !hints || !(hints->ai_flags & AI_ADDRCONFIG) ) return real_getaddrinfo()(node, service, hints, res);
    // the addresses configured are the model's, not those of the machine this runs on
    rt_guard g; if( hints->ai_family == AF_INET6 && g_no_ipv6 ) return EAI_NONAME;
    struct addrinfo h = *hints; h.ai_flags &= ~AI_ADDRCONFIG; if( h.ai_family == AF_UNSPEC && g_no_ipv6 ) h.ai_family = AF_INET;
    return real_getaddrinfo()(node, service, &h, res);
}
int getifaddrs(struct ifaddrs** r) {
    rt_guard g;
    if( in_vt() ) event(47, &g_clock, false);
    *r = nullptr;
    if( in_vt() && no_fds() ) { errno = EMFILE; return -1; } // a netlink socket
    for( auto& x: *g_localips ) if( x.second ) {
        struct node { ifaddrs a; sockaddr_in in; sockaddr_in6 in6; };
        node* nd = (node*)__libc_calloc(1, sizeof(node));
        if( inet_pton(AF_INET, x.first.c_str(), &nd->in.sin_addr) == 1 ) { nd->in.sin_family = AF_INET; nd->a.ifa_addr = (sockaddr*)&nd->in; }
        else if( inet_pton(AF_INET6, x.first.c_str(), &nd->in6.sin6_addr) == 1 ) { nd->in6.sin6_family = AF_INET6; nd->a.ifa_addr = (sockaddr*)&nd->in6; }
        nd->a.ifa_next = *r; *r = &nd->a;
    }
    return 0;
}
void freeifaddrs(struct ifaddrs* a) { while( a ) { ifaddrs* n = a->ifa_next; __libc_free(a); a = n; } }
REAL(int, mkostemp, char*, int)
int mkostemp(char* t, int f) {
    if( !in_vt() ) return real_mkostemp()(t, f);
    rt_guard g; int fd = real_mkostemp()(t, f); if( fd >= 0 ) g_realfds->insert(fd); return fd;
}
int mkstemp(char* t) { return mkostemp(t, 0); }
int mkstemp64(char* t) { return mkostemp(t, 0); }
int mkostemp64(char* t, int f) { return mkostemp(t, f); }
int memfd_create(const char* n, unsigned f) { int fd = syscall(SYS_memfd_create, n, f); if( fd >= 0 && in_vt() ) { rt_guard g; g_realfds->insert(fd); } return fd; }
int openat(int d, const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap);
    int r = syscall(SYS_openat, d, path, flags, mode);
    if( r >= 0 && in_vt() && g_realfds && !self->in_rt ) { rt_guard g; g_realfds->insert(r); }
    return r;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if( !in_vt() || !is_vfd(fd) ) { int r = syscall(SYS_fcntl, fd, cmd, a); if( r >= 0 && in_vt() && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) ) { rt_guard g; g_realfds->insert(r); } return r; }
    rt_guard g; vfd* f = get_fd(fd, "fcntl");
    switch( cmd ) {
    case F_GETFL: return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: f->nonblock = (a & O_NONBLOCK) != 0; return 0;
    case F_GETFD: return FD_CLOEXEC;
    case F_SETFD: return 0;
    }
    errno = EINVAL; return -1;
}
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, a); }
int ioctl(int fd, unsigned long req, ...) {
    va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
    if( !in_vt() || !is_vfd(fd) ) return syscall(SYS_ioctl, fd, req, a);
    rt_guard g; vfd* f = get_fd(fd, "ioctl"); if( req == FIONBIO ) { f->nonblock = *(int*)a != 0; return 0; }
    errno = ENOTTY; return -1;
}
int open(const char* path, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = flags & (O_CREAT | O_TMPFILE) ? va_arg(ap, int) : 0; va_end(ap);
    int r = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    if( r >= 0 && in_vt() && g_realfds && !self->in_rt ) { rt_guard g; g_realfds->insert(r); }
    return r;
}
int dup(int fd) { if( in_vt() && no_fds() ) { errno = EMFILE; return -1; } int r = syscall(SYS_dup, fd); if( in_vt() && r >= 0 ) { rt_guard g; if( !is_vfd(fd) ) g_realfds->insert(r); } return r; }
int fsync(int fd) { if( in_vt() ) { if( ! is_vfd(fd) && fcntl(fd, F_GETFD) == -1 ) fail_kind("fd", "fsync on closed descriptor %d", fd); return 0; } return syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if( in_vt() ) { if( fcntl(fd, F_GETFD) == -1 ) fail_kind("fd", "fdatasync on closed descriptor %d", fd); return 0; } return syscall(SYS_fdatasync, fd); }
int posix_fadvise(int fd, off_t, off_t, int) { return 0; }
pid_t getpid(void) { if( in_vt() ) return 4242; return syscall(SYS_getpid); }
int getrusage(__rusage_who_t w, struct rusage* r) { if( in_vt() ) { memset(r, 0, sizeof *r); return 0; } return syscall(SYS_getrusage, w, r); }
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) { fail_kind("crash", "assertion %s failed at %s:%u", e, f, l); }
}

// ================================================================= explorer
namespace mc {

static double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct vio { bool any = false; std::string scen, kind, msg, notes, devs; std::uint64_t idx = 0, from = 0; bool seq = false; };

static std::string dev_str(const item& it) {
    std::string s; char b[64];
    for( int i = 0; i < it.nd; ++i ) { snprintf(b, sizeof b, "%u:%u:%u ", it.d[i].pos, it.d[i].alt, it.d[i].n); s += b; }
    return s;
}

// run one child; returns exit status as from waitpid
static int run_child(const std::function<void()>& in_child, unsigned alarm_sec) {
    pid_t p = fork();
    if( p == 0 ) {
        prctl(78 /* PR_FUTEX_HASH */, 1 /* PR_FUTEX_HASH_SET_SLOTS */, 0, 0, 0); // resizing a private futex hash would delay the release of the memory
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        itimerval tv{}; tv.it_value.tv_sec = alarm_sec; setitimer(ITIMER_REAL, &tv, nullptr);
        in_child();
        child_exit(0);
    }
    int st = 0;
    while( waitpid(p, &st, 0) == -1 && errno == EINTR );
    return st;
}

static bool judge(int slot, int st, const char* what, std::uint64_t /*idx*/) {
    wslot& w = S->slots[slot];
    if( WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 11) ) return true;
    if( WIFSIGNALED(st) ) {
        snprintf(w.kind, sizeof w.kind, "%s", WTERMSIG(st) == SIGALRM ? "hang" : "crash");
        snprintf(w.msg, sizeof w.msg, WTERMSIG(st) == SIGALRM ? "the process hangs (%s)" : "the process crashed with signal %2$d (%1$s)", what, WTERMSIG(st));
        for( auto& f: g_findings )
            if( strstr(w.msg, f.key.c_str()) || strstr(w.notes, f.key.c_str()) ) { S->knowns[f.idx].fetch_add(1); return true; }
    } else if( WIFEXITED(st) && WEXITSTATUS(st) != 66 ) {
        snprintf(w.kind, sizeof w.kind, "internal");
        snprintf(w.msg, sizeof w.msg, "child exited with status %d", WEXITSTATUS(st));
    }
    return false;
}

// A failed execution is run again, alone, before it is believed.  The second
// run decides: what it reports is what the replay file describes.
static bool confirm(int w, const std::function<void()>& again, const char* what) {
    wslot& sl = S->slots[w];
    std::string k = sl.kind, m = sl.msg; int n = sl.notes_n; std::string notes(sl.notes, n > 0 ? n : 0);
    sl.notes_n = 0; sl.notes[0] = 0; sl.msg[0] = 0; sl.kind[0] = 0;
    int st = run_child(again, 120);
    if( judge(w, st, what, 0) ) {
        unsigned c = S->nonrepro.fetch_add(1);
        if( c < 3 ) {
            char b[900]; snprintf(b, sizeof b, "warning: a failure did not reproduce and is not counted: %s [%s] %.300s devs %.300s case %llu\n", what, k.c_str(), m.c_str(), "", (unsigned long long)sl.cur_case);
            rawlog("%s", b);
        }
        if( c > 30 ) S->stop = true;
        return false;
    }
    int z = 0;
    S->violated.compare_exchange_strong(z, w + 1);
    S->stop = true;
    return true;
}

// one processor per job, out of those allowed to this program
static void pin(int i) {
    cpu_set_t c; static cpu_set_t a; static bool have = false; if( ! have ) have = sched_getaffinity(0, sizeof a, &a) == 0 && CPU_COUNT(&a); if( ! have ) return;
    i %= CPU_COUNT(&a); CPU_ZERO(&c); for( int k = 0; k < CPU_SETSIZE; ++k ) if( CPU_ISSET(k, &a) && i-- == 0 ) { CPU_SET(k, &c); break; }
    sched_setaffinity(0, sizeof c, &c);
}

static void child_setup(const scenario& sc) {
    g_arena = sc.arena; g_races = sc.races;
}

static void explorer(int w, const scenario& sc, int sb, int fb, double until) {
    pin(w);
    g_slot = w;
    wslot& sl = S->slots[w];
    for(;;) {
        if( S->stop ) return;
        if( wall() > until ) return;
        slock();
        bool got = false; item it;
        if( S->nstack > 0 ) { it = g_stack[--S->nstack]; S->active.fetch_add(1); got = true; }
        bool fin = !got && S->active.load() == 0;
        sunlock();
        if( fin ) return;
        if( !got ) { usleep(200); continue; }
        sl.it = it; sl.notes_n = 0; sl.notes[0] = 0; sl.msg[0] = 0; sl.kind[0] = 0;
        int st = run_child([&]{
            g_item = it; g_pos = 0; g_nextdev = 0; g_lastpos = it.nd ? it.d[it.nd - 1].pos : -1;
            g_cur_sc = 0; g_cur_fc = 0; g_sb = sb; g_fb = fb; g_sequential = false;
            child_setup(sc);
            run_body(sc.body);
        }, 60);
        S->execs.fetch_add(1);
        bool ok = judge(w, st, sc.name.c_str(), 0);
        if( ok && WIFEXITED(st) && WEXITSTATUS(st) == 0 && it.nd >= std::min(sb + fb, 1) ) {
            int z = 0;
            if( S->sample_set.compare_exchange_strong(z, 1) ) {
                snprintf(S->sample, sizeof S->sample, "deviations [%s] trace: %.1200s", dev_str(it).c_str(), sl.notes);
                S->sample_set = 2;
            }
        }
        if( !ok && !S->violated ) {
            confirm(w, [&]{
                g_item = it; g_pos = 0; g_nextdev = 0; g_lastpos = it.nd ? it.d[it.nd - 1].pos : -1;
                g_cur_sc = 0; g_cur_fc = 0; g_sb = sb; g_fb = fb; g_sequential = false; g_replaying = true;
                child_setup(sc);
                run_body(sc.body);
            }, sc.name.c_str());
        }
        S->active.fetch_sub(1);
    }
}

static void seq_explorer(int w, const chunked& c, double until) {
    pin(w);
    g_slot = w;
    wslot& sl = S->slots[w];
    for(;;) {
        if( S->stop || wall() > until ) return;
        std::uint64_t from = S->next_chunk.fetch_add(c.chunk);
        if( from >= c.count ) return;
        std::uint64_t to = std::min(c.count, from + c.chunk);
        bool stop = false;
        while( from < to && !S->stop ) {
            sl.notes_n = 0; sl.notes[0] = 0; sl.msg[0] = 0; sl.kind[0] = 0; sl.it.nd = 0; sl.cur_case = from;
            auto child = [&](std::uint64_t f, std::uint64_t t) {
                g_item.nd = 0; g_pos = 0; g_nextdev = 0; g_lastpos = -1; g_sb = g_fb = 0;
                g_sequential = true; g_arena = c.arena; g_races = false;
                run_body([&]{ c.body(f, t); });
            };
            int st = run_child([&]{ child(from, to); }, 300);
            S->execs.fetch_add(1);
            if( judge(w, st, c.name.c_str(), sl.cur_case) ) break;
            if( S->violated ) { stop = true; break; }
            // alone first, then with the cases that preceded it in this process
            std::uint64_t at = sl.cur_case;
            sl.from_case = at;
            std::uint64_t ops = S->cases.load();
            std::string k = sl.kind, m = sl.msg;
            int st1 = run_child([&]{ child(at, at + 1); }, 120);
            if( judge(w, st1, c.name.c_str(), at) ) {
                sl.from_case = from; snprintf(sl.kind, sizeof sl.kind, "%s", k.c_str()); snprintf(sl.msg, sizeof sl.msg, "%s", m.c_str());
            }
            std::uint64_t f0 = sl.from_case;
            if( confirm(w, [&]{ child(f0, at + 1); }, c.name.c_str()) ) { stop = true; break; }
            (void)ops;
            from = at + 1;
        }
        if( stop ) return;
        int z = 0;
        if( S->sample_set.compare_exchange_strong(z, 1) ) {
            snprintf(S->sample, sizeof S->sample, "case %llu%s%s: %.1200s", (unsigned long long)sl.cur_case, c.describe ? " " : "", c.describe ? c.describe(sl.cur_case).c_str() : "", sl.notes);
            S->sample_set = 2;
        }
    }
}

static void reset_shared() {
    S->nstack = 0; S->active = 0; S->stop = false; S->overflow = false;
    S->execs = 0; S->pruned = 0; S->choices = 0; S->states = 0; S->events = 0; S->envchoices = 0;
    S->nonrepro = 0;
    S->transitions = 0; S->next_chunk = 0; S->cases = 0; S->violated = 0; S->sample_set = 0; S->sample[0] = 0;
    madvise(g_table, TABLE_CAP * sizeof(tent), MADV_REMOVE);
}

static void fork_workers(const std::function<void(int)>& f) {
    std::vector<pid_t> ps;
    for( int i = 0; i < o_jobs; ++i ) {
        pid_t p = fork();
        if( p == 0 ) { prctl(PR_SET_PDEATHSIG, SIGKILL); f(i); syscall(SYS_exit_group, 0); }
        ps.push_back(p);
    }
    for( pid_t p: ps ) {
        int st;
        while( waitpid(p, &st, 0) == -1 && errno == EINTR ) {}
        if( WIFSIGNALED(st) ) rawlog("explorer killed by signal %d\n", WTERMSIG(st));
    }
}

static std::string self_exe;
static std::string symbolize(const std::string& m) {
    std::string out; std::size_t i = 0;
    std::map<std::string, std::string> cache;
    while( i < m.size() ) {
        std::size_t a = m.find("<0x", i);
        if( a == std::string::npos ) { out += m.substr(i); break; }
        std::size_t b = m.find('>', a);
        out += m.substr(i, a - i);
        std::string h = m.substr(a + 1, b - a - 1);
        if( !cache.count(h) ) {
            std::string cmd = "addr2line -C -f -s -e " + self_exe + " " + h + " 2>/dev/null";
            FILE* p = popen(cmd.c_str(), "r"); char l1[512] = "", l2[256] = "";
            if( p ) { if( fgets(l1, sizeof l1, p) ) fgets(l2, sizeof l2, p); pclose(p); }
            l1[strcspn(l1, "\n")] = 0; l2[strcspn(l2, "\n")] = 0;
            std::string f1 = l1; if( f1.size() > 90 ) f1 = f1.substr(0, 90) + "...";
            cache[h] = std::string("<") + f1 + " " + l2 + ">";
        }
        out += cache[h];
        i = b + 1;
    }
    return out;
}

static void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for( unsigned char c: s ) { if( c == '"' || c == '\\' ) { fputc('\\', f); fputc(c, f); } else if( c < 32 || c > 126 ) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}

int main_(int argc, char** argv, check& ck) {
    char exe[4096]; ssize_t el = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[el > 0 ? el : 0] = 0; self_exe = exe;
    const char* tier = getenv("VERIF_TIER");
    const char* vdir = getenv("VERIF_DIR"); std::string vd = vdir ? vdir : "/verif";
    o_evdir = vd + "/evidence"; o_repdir = vd + "/replays"; o_findings = vd + "/known_findings.txt";
    (void)tier;
    for( int i = 1; i < argc; ++i ) {
        std::string a = argv[i];
        if( a == "--thorough" ) o_thorough = true;
        else if( a == "--time" ) o_time = atof(argv[++i]);
        else if( a == "--jobs" ) o_jobs = atoi(argv[++i]);
        else if( a == "--replay" ) o_replay = argv[++i];
        else if( a == "--only" ) o_only = argv[++i];
        else if( a == "--bound" ) o_bound = atoi(argv[++i]);
        else if( a == "-v" ) o_verbose = true;
        else { rawlog("unknown option %s\n", a.c_str()); return 2; }
    }
    if( getenv("MC_JOBS") ) o_jobs = atoi(getenv("MC_JOBS"));
    if( o_jobs > MAXW ) o_jobs = MAXW;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    mkdir(o_evdir.c_str(), 0755); mkdir(o_repdir.c_str(), 0755);
    char td[] = "/tmp/mcrt.XXXXXX"; o_scratch = mkdtemp(td);
    struct cleaner { ~cleaner() { std::string c = "rm -rf " + o_scratch; if( o_scratch.compare(0, 10, "/tmp/mcrt.") == 0 ) system(c.c_str()); } } cl;

    S = (shared*)mmap(nullptr, sizeof(shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    g_stack = (item*)mmap(nullptr, STACK_CAP * sizeof(item), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    g_table = (tent*)mmap(nullptr, TABLE_CAP * sizeof(tent), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if( S == MAP_FAILED || g_stack == MAP_FAILED || g_table == MAP_FAILED ) { rawlog("mmap failed\n"); return 2; }
    arena_init();

    // known findings
    if( FILE* f = fopen(o_findings.c_str(), "r") ) {
        char line[4096];
        while( fgets(line, sizeof line, f) ) {
            std::string l = line; while( !l.empty() && (l.back() == '\n') ) l.pop_back();
            std::string pre = "finding: property=" + ck.property + " key=\"";
            if( l.compare(0, pre.size(), pre) == 0 ) {
                std::size_t q = l.find('"', pre.size());
                if( q != std::string::npos && q > pre.size() )
                    g_findings.push_back({ l.substr(pre.size(), q - pre.size()), l.substr(q + 1), (int)g_findings.size() });
            }
        }
        fclose(f);
    }
    if( ck.setup ) ck.setup();

    double t0 = wall();
    vio V;
    std::uint64_t tot_exec = 0, tot_pruned = 0, tot_states = 0, tot_choices = 0, tot_events = 0, tot_cases = 0, tot_trans = 0, tot_env = 0;
    bool exhaustive = true;
    std::string per;
    std::vector<std::string> samples;
    auto take_sample = [&](const std::string& n) { if( S->sample_set == 2 ) samples.push_back(n + ": " + S->sample); };

    if( !o_replay.empty() ) {
        FILE* f = fopen(o_replay.c_str(), "r");
        if( !f ) { rawlog("cannot open %s\n", o_replay.c_str()); return 2; }
        char line[65536]; std::string scen, devs; unsigned long long idx = 0, from = ~0ull; int sb = 0, fb = 0;
        while( fgets(line, sizeof line, f) ) {
            line[strcspn(line, "\n")] = 0;
            if( !strncmp(line, "scenario ", 9) ) scen = line + 9;
            if( !strncmp(line, "devs ", 5) ) devs = line + 5;
            if( !strncmp(line, "case ", 5) ) idx = strtoull(line + 5, nullptr, 10);
            if( !strncmp(line, "from ", 5) ) from = strtoull(line + 5, nullptr, 10);
            if( !strncmp(line, "--- notes", 9) ) break;
        }
        if( from > idx ) from = idx;
        fclose(f);
        o_verbose = true;
        g_slot = 0; pin(0);
        for( auto& sc: ck.scenarios ) if( sc.name == scen ) {
            item it{}; const char* p = devs.c_str(); unsigned a, b, c; int n;
            while( sscanf(p, "%u:%u:%u %n", &a, &b, &c, &n) == 3 ) { it.d[it.nd++] = dev{ (std::uint16_t)a, (std::uint8_t)b, (std::uint8_t)c }; p += n; }
            int st = run_child([&]{ g_item = it; g_lastpos = it.nd ? it.d[it.nd-1].pos : -1; g_sb = sb; g_fb = fb; g_replaying = true; child_setup(sc); run_body(sc.body); }, 60);
            bool ok = judge(0, st, scen.c_str(), 0);
            printf("replay of %s: %s%s\n", scen.c_str(), ok ? "no violation" : "VIOLATION ", ok ? "" : symbolize(S->slots[0].msg).c_str());
            return ok ? 0 : 1;
        }
        for( auto& c: ck.sequences ) if( c.name == scen ) {
            int st = run_child([&]{ g_sequential = true; g_arena = c.arena; run_body([&]{ c.body(from, idx + 1); }); }, 120);
            bool ok = judge(0, st, scen.c_str(), idx);
            printf("replay of %s case %llu: %s%s\n", scen.c_str(), idx, ok ? "no violation" : "VIOLATION ", ok ? "" : S->slots[0].msg);
            return ok ? 0 : 1;
        }
        rawlog("scenario %s not found\n", scen.c_str());
        return 2;
    }

    double wsum = 0;
    for( auto& sc: ck.scenarios ) if( o_only.empty() || sc.name.find(o_only) != std::string::npos ) wsum += sc.weight;
    auto capture = [&](const std::string& scen, bool seq) {
        if( S->nonrepro ) exhaustive = false;
        int s = S->violated.load();
        if( !s ) return false;
        wslot& w = S->slots[s - 1];
        V.any = true; V.scen = scen; V.kind = w.kind; V.msg = symbolize(w.msg); V.notes = w.notes; V.devs = dev_str(w.it); V.idx = w.cur_case; V.from = seq ? w.from_case : 0; V.seq = seq;
        return true;
    };
    // sequential enumerations first: they are complete by construction
    for( auto& c: ck.sequences ) {
        if( !o_only.empty() && c.name.find(o_only) == std::string::npos ) continue;
        if( V.any ) break;
        reset_shared();
        double ts = wall();
        double until = t0 + o_time * 4 + 60;   // enumerations have fixed size
        fork_workers([&](int w){ seq_explorer(w, c, until); });
        bool done = S->next_chunk.load() >= c.count && !S->stop;
        capture(c.name, true);
        take_sample(c.name);
        tot_exec += S->cases; tot_states += S->states; tot_events += S->events; tot_cases += S->cases; tot_trans += S->transitions;
        if( !done ) exhaustive = false;
        char b[512];
        snprintf(b, sizeof b, "%s{\"name\": \"%s\", \"cases\": %llu, \"of\": %llu, \"abstract_states\": %llu, \"transitions\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
                 per.empty() ? "" : ", ", c.name.c_str(), (unsigned long long)S->cases.load(), (unsigned long long)c.count, (unsigned long long)S->states.load(), (unsigned long long)S->transitions.load(), done ? "true" : "false", wall() - ts);
        per += b;
        printf("[%s] %s: %llu/%llu cases, %llu states, %llu transitions, %.1fs%s\n", ck.property.c_str(), c.name.c_str(), (unsigned long long)S->cases.load(), (unsigned long long)c.count, (unsigned long long)S->states.load(), (unsigned long long)S->transitions.load(), wall() - ts, done ? "" : " INCOMPLETE");
    }
    double tsched = wall();
    double spent_w = 0;
    for( auto& sc: ck.scenarios ) {
        if( !o_only.empty() && sc.name.find(o_only) == std::string::npos ) continue;
        if( V.any ) break;
        double left = o_time - (wall() - tsched);
        double share = std::min(left, 4 * left * sc.weight / std::max(0.0001, wsum - spent_w));
        spent_w += sc.weight;
        double until = wall() + std::max(share, 1.0);
        int maxb = o_bound >= 0 ? o_bound : sc.sched_bound + (o_thorough ? 1 : 0);
        int done_b = -1; 
        for( int b = 0; b <= maxb && !V.any; ++b ) {
            reset_shared();
            item root{}; root.nd = 0; g_stack[0] = root; S->nstack = 1;
            double ts = wall();
            int fb = std::min(sc.fault_bound, sc.fault_bound ? std::max(1, b) : 0);
            if( b == maxb ) fb = sc.fault_bound;
            fork_workers([&](int w){ explorer(w, sc, b, fb, b == 0 ? until + 5 : until); });
            bool done = !S->stop && S->nstack == 0 && !S->overflow;
            capture(sc.name, false);
            if( b == std::min(1, maxb) ) take_sample(sc.name);
            tot_exec += S->execs; tot_pruned += S->pruned; tot_states += S->states; tot_choices += S->choices; tot_events += S->events; tot_env += S->envchoices;
            char bb[512];
            snprintf(bb, sizeof bb, "%s{\"name\": \"%s\", \"schedule_deviations\": %d, \"faults\": %d, \"executions\": %llu, \"pruned\": %llu, \"states\": %llu, \"choice_points\": %llu, \"env_choice_points\": %llu, \"complete\": %s, \"wall_s\": %.2f}",
                     per.empty() ? "" : ", ", sc.name.c_str(), b, fb, (unsigned long long)S->execs.load(), (unsigned long long)S->pruned.load(), (unsigned long long)S->states.load(), (unsigned long long)S->choices.load(), (unsigned long long)S->envchoices.load(), done ? "true" : "false", wall() - ts);
            per += bb;
            printf("[%s] %s bound %d/%d: %llu executions (%llu pruned), %llu states, %llu choice points, %.1fs%s\n", ck.property.c_str(), sc.name.c_str(), b, fb,
                   (unsigned long long)S->execs.load(), (unsigned long long)S->pruned.load(), (unsigned long long)S->states.load(), (unsigned long long)S->choices.load(), wall() - ts, done ? "" : (V.any ? " VIOLATION" : " (time box)"));
            if( done ) done_b = b;
            if( done && S->choices == S->envchoices ) break; // no scheduling left
            if( !done ) { if( b <= sc.sched_bound ) exhaustive = false; break; }
        }
        (void)done_b;
    }
    double dt = wall() - t0;
    for( auto& f: g_findings )
        if( S->knowns[f.idx].load() > 0 )
            printf("KNOWN-FINDING: property=%s %s\n", ck.property.c_str(), f.text.c_str());
    std::string rep;
    if( V.any ) {
        rep = o_repdir + "/" + ck.property + "-" + V.scen + ".replay";
        for( char& c: rep ) if( c == ' ' ) c = '_';
        if( FILE* f = fopen(rep.c_str(), "w") ) {
            fprintf(f, "property %s\nscenario %s\n", ck.property.c_str(), V.scen.c_str());
            if( V.seq ) fprintf(f, "case %llu\nfrom %llu\n", (unsigned long long)V.idx, (unsigned long long)V.from); else fprintf(f, "devs %s\n", V.devs.c_str());
            fprintf(f, "kind %s\nmessage %s\n--- notes\n%s\n", V.kind.c_str(), V.msg.c_str(), V.notes.c_str());
            fclose(f);
        }
    }
    // evidence
    std::string ev = o_evdir + "/" + ck.property + ".json";
    if( FILE* f = o_only.empty() ? fopen(ev.c_str(), "w") : nullptr ) {
        fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %d, \"level\": \"model_checking\",\n", ck.property.c_str(), o_thorough ? "thorough" : "quick", getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1);
        fprintf(f, " \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"exhaustive\": %s,\n",
                (unsigned long long)tot_states, (unsigned long long)(tot_trans + tot_events), (unsigned long long)tot_exec, exhaustive ? "true" : "false");
        fprintf(f, "  \"schedule_choice_points\": %llu, \"environment_choice_points\": %llu, \"executions_cut_at_known_state\": %llu,\n", (unsigned long long)(tot_choices - tot_env), (unsigned long long)tot_env, (unsigned long long)tot_pruned);
        fprintf(f, "  \"rule\": "); json_str(f, ck.rule); fprintf(f, ",\n  \"samples\": [");
        for( std::size_t i = 0; i < samples.size(); ++i ) { if( i ) fprintf(f, ",\n    "); json_str(f, samples[i]); }
        fprintf(f, "],\n  \"scenarios\": [%s]},\n \"assumptions\": [", per.c_str());
        for( std::size_t i = 0; i < ck.assumptions.size(); ++i ) { if( i ) fprintf(f, ", "); json_str(f, ck.assumptions[i]); }
        fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d", dt, V.any ? 1 : 0);
        if( V.any ) { fprintf(f, ",\n \"violation\": {\"scenario\": "); json_str(f, V.scen); fprintf(f, ", \"kind\": "); json_str(f, V.kind); fprintf(f, ", \"message\": "); json_str(f, V.msg); fprintf(f, ", \"replay\": "); json_str(f, rep); fprintf(f, "}"); }
        fprintf(f, "}\n");
        fclose(f);
    }
    if( V.any ) {
        printf("scenario %s [%s]: %s\n", V.scen.c_str(), V.kind.c_str(), V.msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", ck.property.c_str(), rep.c_str());
        return 1;
    }
    printf("[%s] ok: %llu executions, %llu states, %.1fs\n", ck.property.c_str(), (unsigned long long)tot_exec, (unsigned long long)tot_states, dt);
    return 0;
}

} // namespace mc
