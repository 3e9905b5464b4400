// Deterministic simulator runtime.
//
// Stands where oneTBB's scheduler and the ThreadSanitizer runtime would stand:
// every task of every parallel region runs on a simulated worker (a fiber), all
// on the one OS thread that entered the region. Which worker runs, which chunk
// it takes, how the range is split and at which memory access it is preempted
// are decisions drawn from one seeded generator, logged, and replayable.
// The memory accesses (compiled in by -fsanitize=thread) also feed a
// happens-before race detector. Allocation failures are injected at operator new.
//
// Built without instrumentation and preloaded into the interpreter.
#include "simrt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
extern char __libc_single_threaded;
}

namespace {

constexpr int MAXW = 16;
constexpr size_t STACK = 512 * 1024;
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;

// ---------------------------------------------------------------- PRNG
struct Rng
{
    u64 s = 1;
    u64 next()
    {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u32 below(u32 n) { return n <= 1 ? 0 : (u32) ((next() >> 32) * (u64) n >> 32); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
};

// ---------------------------------------------------------------- config and counters
struct Config
{
    int hw = 4;          // simulated hardware concurrency
    int serial = 1;      // run every region inline, unsplit (the reference schedule)
    int preempt = 1;     // preempt inside tasks
    int detect = 1;      // race detection
    int max_switches = 4000; // preemptions per region
} cfg;

struct Stats
{
    u64 regions, par_regions, chunks, switches, preemptions, accesses, atomics, locks, lock_waits;
    u64 allocs, alloc_faults, steals, sort_shuffles, sort_calls, ets_slots, stalls, races, hangs;
    u64 decisions, max_workers, cancelled, task_failures, deadlocks, uaf, entropy, entropy_faults, oob, guarded, looked, hash;
} st;

Rng rng;
u64 entropy_seed;     // a new std::random_device draws from this, each the same
u64 entropy_fail_at; // which opening of the random device fails (0: none)
std::vector<u32>* declog;
std::vector<u32>* replay;
size_t replay_pos;
bool replaying;
bool log_full;

void hash_in(u64 v)
{
    st.hash = (st.hash ^ v) * 0x100000001b3ULL;
    st.hash ^= st.hash >> 29;
}

// Every scheduling decision passes through here. 0 is always the simplest choice.
u32 decide(u32 generated, u32 n)
{
    u32 v = generated;
    if (replaying)
    {
        v = replay_pos < replay->size() ? (*replay)[replay_pos] : 0;
        replay_pos++;
        if (n != 0)
            v %= n;
    }
    st.decisions++;
    if (declog->size() < (4u << 20))
        declog->push_back(v);
    else
        log_full = true;
    hash_in(v);
    return v;
}

// ---------------------------------------------------------------- workers
enum State
{
    IDLE,
    RUNNABLE,
    BLOCKED,
    DONE
};

struct Slot
{
    u32 region, clock;
    u8 tid, mask, flags, pad; // flags: 1 write, 2 atomic
    u32 pad2;
    void* pc;
};
struct Cell
{
    Slot s[4];
};
struct Page
{
    u32 freed_region[512];
    Cell c[512];
};

struct Pending
{
    bool on = false;
    char* addr;
    u32 size;
    void* pc;
    unsigned char old[16];
    int nconf = 0;
    Slot conf[4];
    char* confaddr[4];
};

struct Region;
struct Worker
{
    void* sp = nullptr;
    char* stack = nullptr;
    int id = 0, slot = 0;
    State state = IDLE;
    void* waiting = nullptr;
    u64 budget = 0; // accesses left until preemption; 0: never
    u64 since = 0;
    int ignore = 0;
    int depth = 0;
    void* ehcaught = nullptr;
    unsigned ehuncaught = 0;
    u32 vc[MAXW];
    Pending pend;
    std::vector<void*> tls;
};
Worker workers[MAXW];

struct Region
{
    void (*fn)(void*, size_t);
    void* ctx;
    std::vector<u32> pending;
    std::exception_ptr exc;
    bool cancel = false;
    int W = 1;
    int ids[MAXW];
    // policies
    int pick = 0, order = 0, split_mode = 0, stalled = -1, last = 0;
    u32 gap_mean = 0;
    u64 switches = 0;
    u64 accesses = 0;
    u32 id = 0;
    bool hang = false;
};
Region* R = nullptr;
Worker* cur = nullptr; // running fiber
void* sched_sp = nullptr;
void* sched_eh_caught = nullptr;
unsigned sched_eh_unc = 0;
u32 region_counter = 0;
u64 access_cap = 400000000ULL;
int fill_byte = -1;

__thread bool t_fiber = false; // this OS thread is inside a fiber
__thread bool t_live = false;  // ... and accesses count (not ignored, not in the runtime)
bool defer_frees = false;      // inside a parallel region
pthread_t sim_thread;

struct Race
{
    void *pc1, *pc2;
    void* addr;
    int w1, w2, kind;
};
std::vector<Race>* races;

// ---------------------------------------------------------------- context switch
extern "C" void simrt_switch(void** save, void* to);
__asm__(R"(
.text
.globl simrt_switch
.type simrt_switch,@function
simrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size simrt_switch,.-simrt_switch
.globl simrt_trampoline
.type simrt_trampoline,@function
simrt_trampoline:
    .cfi_startproc
    .cfi_undefined rip
    xorl %ebp, %ebp
    andq $-16, %rsp
    call simrt_fiber_main
    ud2
    .cfi_endproc
.size simrt_trampoline,.-simrt_trampoline
)");
extern "C" void simrt_trampoline();

struct EhGlobals
{
    void* caught;
    unsigned uncaught;
};
EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(abi::__cxa_get_globals()); }

void to_scheduler()
{
    Worker* w = cur;
    EhGlobals* g = eh();
    w->ehcaught = g->caught;
    w->ehuncaught = g->uncaught;
    g->caught = sched_eh_caught;
    g->uncaught = sched_eh_unc;
    t_live = false;
    simrt_switch(&w->sp, sched_sp);
}

u32 draw_gap()
{
    if (!R || R->switches >= (u64) cfg.max_switches || !cfg.preempt)
        return decide(0, 0);
    u32 g = 0;
    if (R->gap_mean)
    {
        // geometric-like: most gaps short, a few long
        u32 r = rng.below(8);
        u32 m = R->gap_mean << (r == 7 ? 3 : r == 6 ? 2 : 0);
        g = 1 + rng.below(2 * m);
    }
    return decide(g, 0);
}

void resume(Worker* w)
{
    cur = w;
    EhGlobals* g = eh();
    sched_eh_caught = g->caught;
    sched_eh_unc = g->uncaught;
    g->caught = w->ehcaught;
    g->uncaught = w->ehuncaught;
    w->since = 0;
    w->budget = R->W > 1 ? draw_gap() : 0;
    t_fiber = true;
    t_live = w->ignore == 0;
    simrt_switch(&sched_sp, w->sp);
    t_fiber = false;
    t_live = false;
    cur = nullptr;
}


// ---------------------------------------------------------------- guarded heap
// While it is on, blocks come from an arena in which every byte around and after the life of a block is marked; each
// instrumented access of the extension modules, in a parallel region or not, is looked up there. Blocks given back
// are not used again for as long as possible.
namespace gh {
constexpr uintptr_t BASE = 0x200000000000ULL, SPAN = 64ULL << 30, SHADOW = 0x210000000000ULL;
constexpr size_t HEAD = 64;
constexpr u8 AROUND = 0xFA, GONE = 0xFD;
struct Head
{
    u64 size;
    u32 magic, cls;
    Head* next;
    void* site; // of the extension modules' operator new, or null
    u64 serial;
};
static_assert(sizeof(Head) <= HEAD);
struct Bin
{
    Head *first = nullptr, *last = nullptr;
    size_t n = 0;
};
bool on = false;
bool ready = false;
uintptr_t top = BASE;
Bin bins[160];
std::atomic_flag lock = ATOMIC_FLAG_INIT;
u64 serial = 0;
u64 live_new = 0; // blocks of the extension modules' operator new in use

struct Hold
{
    Hold()
    {
        while (lock.test_and_set(std::memory_order_acquire))
            sched_yield();
    }
    ~Hold() { lock.clear(std::memory_order_release); }
};
inline bool has(const volatile void* p) { return (uintptr_t) p - BASE < SPAN; }
inline u8* shadow(uintptr_t a) { return (u8*) (SHADOW + ((a - BASE) >> 3)); }
// slot sizes: 128 * 2^k * (4..7)/4
inline size_t slot_size(u32 c) { return ((size_t) 128 << (c >> 2)) / 4 * (4 + (c & 3)); }
inline u32 class_of(size_t n)
{
    u32 c = 0;
    while (slot_size(c) < n)
        c++;
    return c;
}
void start()
{
    if (ready)
        return;
    int f = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
    if (mmap((void*) BASE, SPAN, PROT_READ | PROT_WRITE, f, -1, 0) != (void*) BASE
        || mmap((void*) SHADOW, SPAN >> 3, PROT_READ | PROT_WRITE, f, -1, 0) != (void*) SHADOW)
    {
        fprintf(stderr, "SIMRT: no room for the guarded heap\n");
        _exit(98);
    }
    ready = true;
}
void mark(uintptr_t a, size_t n, u8 v) { memset(shadow(a), v, n >> 3); }
void* alloc(size_t n, void* site = nullptr)
{
    size_t room = HEAD + n + std::max<size_t>(64, std::min<size_t>(n, 4096));
    u32 c = class_of(room);
    size_t S = slot_size(c);
    Hold h;
    Bin& b = bins[c];
    Head* x;
    size_t keep = S >= (1u << 20) ? 2 : S >= (1u << 16) ? 16 : 256;
    if (b.n > keep)
    {
        x = b.first;
        b.first = x->next;
        if (!b.first)
            b.last = nullptr;
        b.n--;
    }
    else
    {
        if (top + S > BASE + SPAN)
            return nullptr;
        x = (Head*) top;
        top += S;
    }
    x->size = n;
    x->magic = 0x600DB10C;
    x->cls = c;
    x->next = nullptr;
    x->site = site;
    x->serial = ++serial;
    live_new += site != nullptr;
    uintptr_t u = (uintptr_t) x + HEAD;
    mark((uintptr_t) x, S, AROUND);
    mark(u, n & ~7ULL, 0);
    if (n & 7)
        *shadow(u + (n & ~7ULL)) = (u8) (n & 7);
    st.guarded += site != nullptr;
    return (void*) u;
}
inline Head* head(void* p) { return (Head*) ((char*) p - HEAD); }
inline size_t size(void* p) { return head(p)->size; }
// It is no longer to be used.
void bury(void* p)
{
    Head* x = head(p);
    if (x->magic == 0x600DB10C)
    {
        x->magic = 0xDEADB10C;
        live_new -= x->site != nullptr;
        mark((uintptr_t) p, (x->size + 7) & ~7ULL, GONE);
    }
}
// Its memory may be used for another block, later.
void release(void* p)
{
    bury(p);
    Hold h;
    Head* x = head(p);
    size_t S = slot_size(x->cls);
    if (S >= (1u << 18))
    {
        uintptr_t a = ((uintptr_t) p + 4095) & ~4095ULL, e = ((uintptr_t) x + S) & ~4095ULL;
        if (e > a)
            madvise((void*) a, e - a, MADV_DONTNEED);
    }
    Bin& b = bins[x->cls];
    x->next = nullptr;
    (b.last ? b.last->next : b.first) = x;
    b.last = x;
    b.n++;
}
void report(char* a, u32 n, bool write, void* pc, u8 s);
__attribute__((noinline)) void look(char* a, u32 n, bool write, void* pc)
{
    uintptr_t x = (uintptr_t) a, e = x + n;
    if (e > top)
        return;
    while (x < e)
    {
        u8 s = *shadow(x);
        uintptr_t g = x & ~7ULL;
        uintptr_t upto = std::min<uintptr_t>(e, g + 8);
        if (s && (s >= 8 || upto - g > s))
        {
            report((char*) x, n, write, pc, s);
            return;
        }
        if (!s && g + 8 < e)
        { // a long block: the rest in words
            x = g + 8;
            while (x + 64 <= e && *(u64*) ((uintptr_t) shadow(x) & ~7ULL) == 0 && ((uintptr_t) shadow(x) & 7) == 0)
                x += 64;
            continue;
        }
        x = upto;
    }
}
inline void check(void* a, u32 n, bool write, void* pc)
{
    if (!has(a))
        return;
    st.looked++;
    u8 s = *shadow((uintptr_t) a);
    if (__builtin_expect(s == 0 && ((uintptr_t) a & 7) + n <= 8, 1))
        return;
    look((char*) a, n, write, pc);
}
} // namespace gh

// ---------------------------------------------------------------- shadow memory
struct PageTable
{
    static constexpr size_t N = 1 << 16;
    struct Ent
    {
        uintptr_t key;
        Page* p;
    };
    Ent* t = nullptr;
    size_t used = 0;
    uintptr_t lk = 0;
    Page* lp = nullptr;
    Page* get(uintptr_t key, bool create)
    {
        if (lp && lk == key)
            return lp;
        if (!t)
            t = (Ent*) __libc_calloc(N, sizeof(Ent));
        size_t h = (key * 0x9e3779b97f4a7c15ULL) >> 48;
        while (t[h].p && t[h].key != key)
            h = (h + 1) & (N - 1);
        if (!t[h].p)
        {
            if (!create || used > 6000)
                return nullptr;
            t[h].key = key;
            t[h].p = (Page*) __libc_calloc(1, sizeof(Page));
            used++;
        }
        lk = key;
        lp = t[h].p;
        return lp;
    }
    void maybe_trim()
    {
        if (used < 3000)
            return;
        for (size_t i = 0; i < N; i++)
            if (t[i].p)
                __libc_free(t[i].p);
        memset(t, 0, N * sizeof(Ent));
        used = 0;
        lp = nullptr;
        lk = 0;
    }
} pages;

void report_race(int kind, char* addr, void* pc1, int w1, void* pc2, int w2)
{
    st.races++;
    for (auto& r : *races)
        if ((r.pc1 == pc1 && r.pc2 == pc2) || (r.pc1 == pc2 && r.pc2 == pc1))
            return;
    if (races->size() < 64)
        races->push_back({pc1, pc2, addr, w1, w2, kind});
}

void gh::report(char* a, u32 n, bool write, void* pc, u8 s)
{
    st.oob++;
    int kind = s == GONE ? 5 : 4;
    for (auto& r : *races)
        if (r.kind == kind && r.pc1 == pc)
            return;
    // how far from the nearest byte that may be used
    int past = 0;
    if (kind == 4)
    {
        uintptr_t g = (uintptr_t) a & ~7ULL;
        while (past < 1 << 16 && g > BASE && *shadow(g) >= 8)
            g -= 8, past += 8;
    }
    if (races->size() < 64)
        races->push_back({pc, pc, a, write ? -(int) n : (int) n, past, kind});
}

void put_slot(Cell& c, u8 mask, u8 flags, void* pc)
{
    Worker* w = cur;
    int victim = -1;
    for (int i = 0; i < 4; i++)
    {
        Slot& s = c.s[i];
        if (s.region != R->id)
        {
            if (victim < 0)
                victim = i;
            continue;
        }
        if (s.tid == w->slot && s.mask == mask && ((s.flags & 1) <= (flags & 1)) && (s.flags & 2) == (flags & 2))
        {
            victim = i;
            break;
        }
    }
    if (victim < 0)
    { // prefer to drop a read; rotate
        victim = (int) (st.accesses & 3);
        for (int i = 0; i < 4; i++)
            if (!(c.s[i].flags & 1))
            {
                victim = i;
                break;
            }
    }
    c.s[victim] = Slot {R->id, w->vc[w->slot], (u8) w->slot, mask, flags, 0, 0, pc};
}

void flush_pending(Worker* w)
{
    Pending& p = w->pend;
    if (!p.on)
        return;
    p.on = false;
    bool changed = memcmp(p.addr, p.old, p.size) != 0;
    if (!changed)
        return;
    for (int i = 0; i < p.nconf; i++)
        report_race(p.conf[i].flags & 1 ? 1 : 2, p.confaddr[i], p.conf[i].pc, R->ids[p.conf[i].tid], p.pc, w->id);
    char* a = p.addr;
    u32 n = p.size;
    while (n)
    {
        u32 off = (uintptr_t) a & 7, k = std::min<u32>(8 - off, n);
        Page* pg = pages.get((uintptr_t) a >> 12, true);
        if (pg)
            put_slot(pg->c[((uintptr_t) a >> 3) & 511], (u8) (((1u << k) - 1) << off), 1, p.pc);
        a += k;
        n -= k;
    }
}

// Conflicts of this access with earlier unordered accesses of other workers.
void check_conflicts(char* a, u32 n, bool write, bool atomic, void* pc, Pending* collect)
{
    Worker* w = cur;
    while (n)
    {
        u32 off = (uintptr_t) a & 7, k = std::min<u32>(8 - off, n);
        u8 mask = (u8) (((1u << k) - 1) << off);
        Page* pg = pages.get((uintptr_t) a >> 12, true);
        if (pg)
        {
            if (pg->freed_region[((uintptr_t) a >> 3) & 511] == R->id)
            {
                st.uaf++;
                report_race(3, a, pc, w->id, pc, w->id);
            }
            Cell& c = pg->c[((uintptr_t) a >> 3) & 511];
            for (int i = 0; i < 4; i++)
            {
                Slot& s = c.s[i];
                if (s.region != R->id || s.tid == w->slot || !(s.mask & mask))
                    continue;
                if (!write && !(s.flags & 1))
                    continue;
                if (atomic && (s.flags & 2))
                    continue;
                if (s.clock <= w->vc[s.tid])
                    continue;
                if (collect)
                {
                    if (collect->nconf < 4)
                    {
                        collect->conf[collect->nconf] = s;
                        collect->confaddr[collect->nconf++] = a;
                    }
                }
                else
                    report_race(write ? ((s.flags & 1) ? 1 : 2) : 2, a, s.pc, R->ids[s.tid], pc, w->id);
            }
            if (!collect)
                put_slot(c, mask, (write ? 1 : 0) | (atomic ? 2 : 0), pc);
        }
        a += k;
        n -= k;
    }
}

void preempt_now(bool forced)
{
    if (R->W > 1)
    {
        R->switches++;
        st.preemptions++;
        hash_in(0x5157 + cur->id);
        to_scheduler();
    }
    (void) forced;
    cur->budget = cur->budget;
}

// Called (outside of ignore) before each instrumented access.
inline void step(Worker* w)
{
    st.accesses++;
    w->since++;
    if (w->budget && --w->budget == 0)
    {
        t_live = false;
        preempt_now(false);
        t_live = true;
    }
    else if (__builtin_expect(w->since > 2000000, 0))
    {
        // A task that spins must not starve the worker it is waiting for.
        w->since = 0;
        R->accesses += 2000000;
        if (R->accesses > access_cap && !R->hang)
        {
            R->hang = true;
            st.hangs++;
            fprintf(stderr, "SIMRT-HANG: no progress within %llu accesses\n", (unsigned long long) access_cap);
            _exit(97);
        }
        t_live = false;
        preempt_now(true);
        t_live = true;
    }
}

inline bool own_stack(Worker* w, void* a) { return (char*) a >= w->stack && (char*) a < w->stack + STACK; }

void access_slow(char* a, u32 n, bool write, void* pc)
{
    Worker* w = cur;
    if (w->pend.on)
        flush_pending(w);
    if (own_stack(w, a))
        return;
    step(w);
    if (!cfg.detect)
        return;
    if (write && n <= 16)
    {
        Pending& p = w->pend;
        p.nconf = 0;
        p.addr = a;
        p.size = n;
        p.pc = pc;
        memcpy(p.old, a, n);
        check_conflicts(a, n, true, false, pc, &p);
        p.on = true;
    }
    else
        check_conflicts(a, n, write, false, pc, nullptr);
}

#define ACCESS(a, n, w) \
    do \
    { \
        if (__builtin_expect(gh::on, 0)) \
            gh::check((void*) (a), (n), (w), __builtin_return_address(0)); \
        if (__builtin_expect(t_live, 0)) \
            access_slow((char*) (a), (n), (w), __builtin_return_address(0)); \
    } while (0)

// ---------------------------------------------------------------- sync objects
struct VC
{
    u32 region = 0;
    u32 c[MAXW];
};
std::unordered_map<void*, VC>* syncs;
std::unordered_map<void*, int>* locks; // address -> owner slot + 1

void acquire(void* a)
{
    auto it = syncs->find(a);
    if (it == syncs->end() || it->second.region != R->id)
        return;
    for (int i = 0; i < R->W; i++)
        cur->vc[i] = std::max(cur->vc[i], it->second.c[i]);
}
void release(void* a, bool merge = true)
{
    VC& v = (*syncs)[a];
    if (v.region != R->id)
    {
        v.region = R->id;
        memset(v.c, 0, sizeof v.c);
        merge = false;
    }
    for (int i = 0; i < R->W; i++)
        v.c[i] = merge ? std::max(v.c[i], cur->vc[i]) : cur->vc[i];
    cur->vc[cur->slot]++;
}

struct Quiet // runtime code called from a fiber
{
    bool was;
    Quiet() : was(t_live) { t_live = false; }
    ~Quiet() { t_live = was; }
};

void lock_addr(void* m)
{
    Worker* w = cur;
    if (w->pend.on)
        flush_pending(w);
    st.locks++;
    if (t_live || true)
    {
        if (w->ignore == 0)
            step(w);
        while ((*locks)[m] != 0 && (*locks)[m] != w->slot + 1)
        {
            st.lock_waits++;
            w->state = BLOCKED;
            w->waiting = m;
            to_scheduler();
            t_live = false;
        }
    }
    (*locks)[m] = w->slot + 1;
    acquire(m);
}
void wake(void* m)
{
    for (int i = 0; i < R->W; i++)
    {
        Worker& w = workers[R->ids[i]];
        if (w.state == BLOCKED && w.waiting == m)
        {
            w.state = RUNNABLE;
            w.waiting = nullptr;
        }
    }
}
void unlock_addr(void* m)
{
    Worker* w = cur;
    if (w->pend.on)
        flush_pending(w);
    release(m);
    locks->erase(m);
    wake(m);
    if (w->ignore == 0)
        step(w);
}

// ---------------------------------------------------------------- deferred frees
struct FreeNode
{
    FreeNode* next;
};
void give_back(void* p)
{
    if (gh::has(p))
        gh::release(p);
    else
        __libc_free(p);
}
size_t usable(void* p) { return gh::has(p) ? gh::size(p) : malloc_usable_size(p); }
void* take(size_t n, void* site = nullptr)
{
    if (__builtin_expect(gh::on, 0))
        return gh::alloc(n ? n : 1, site);
    return __libc_malloc(n ? n : 1);
}
FreeNode* deferred = nullptr;

void run_deferred()
{
    FreeNode* n = deferred;
    deferred = nullptr;
    while (n)
    {
        FreeNode* x = n->next;
        give_back(n);
        n = x;
    }
}

// ---------------------------------------------------------------- allocation faults
struct AllocFault
{
    bool armed = false;
    u64 at = 0;      // fail the at-th allocation from now (1-based)
    u64 until = 0;   // ... up to and including this one
    u64 seen = 0, fired = 0;
    int where = 0; // 0 anywhere, 1 inside parallel regions, 2 outside of them
} af;
int nofail = 0;

void alloc_point(size_t)
{
    if (!af.armed || nofail > 0)
        return;
    if ((af.where == 1 && !R) || (af.where == 2 && R))
        return;
    st.allocs++;
    af.seen++;
    if (af.seen >= af.at && af.seen <= af.until)
    {
        af.fired++;
        st.alloc_faults++;
        hash_in(0xA110C);
        throw std::bad_alloc();
    }
}

struct GC
{
    size_t n;
};
std::vector<GC*>* gclist;

Worker* setup_worker(int id)
{
    Worker& w = workers[id];
    w.id = id;
    if (!w.stack)
    {
        char* m = (char*) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(m, 4096, PROT_NONE);
        w.stack = m + 4096;
    }
    return &w;
}

__attribute__((constructor)) void init()
{
    declog = new std::vector<u32>();
    replay = new std::vector<u32>();
    races = new std::vector<Race>();
    syncs = new std::unordered_map<void*, VC>();
    locks = new std::unordered_map<void*, int>();
    gclist = new std::vector<GC*>();
    __libc_single_threaded = 0;
}

void run_task(size_t i)
{
    Region* r = R;
    st.chunks++;
    hash_in(((u64) i << 8) | (u64) cur->id);
    try
    {
        t_live = cur->ignore == 0;
        r->fn(r->ctx, i);
        t_live = false;
    }
    catch (...)
    {
        t_live = false;
        st.task_failures++;
        if (!r->exc)
            r->exc = std::current_exception();
        st.cancelled += r->pending.size();
        r->cancel = true;
        r->pending.clear();
    }
    if (cur->pend.on)
        flush_pending(cur);
}

u32 take_pending()
{
    Region* r = R;
    u32 n = (u32) r->pending.size();
    u32 g = 0;
    if (r->order == 1)
        g = n - 1;
    else if (r->order == 2)
        g = rng.below(n);
    u32 k = decide(g, n);
    u32 v = r->pending[k];
    r->pending.erase(r->pending.begin() + k);
    return v;
}

} // namespace

extern "C" void simrt_fiber_main()
{
    Worker* w = cur;
    for (;;)
    {
        t_live = false;
        Region* r = R;
        if (r->pending.empty())
        {
            w->state = DONE;
            to_scheduler();
            continue;
        }
        u32 i = take_pending();
        run_task(i);
        if (r->W > 1 && !r->pending.empty())
        {
            to_scheduler(); // chunk boundary: anyone may go next
        }
    }
}

// ---------------------------------------------------------------- regions
static int pool_limit()
{
    int m = cfg.hw;
    for (auto* g : *gclist)
        m = std::min<int>(m, (int) g->n);
    return std::max(1, std::min(m, MAXW));
}

extern "C" {

int sim_max_parallelism() { return pool_limit(); }
int sim_hw_threads() { return cfg.hw; }
int sim_worker_id() { return t_fiber ? cur->id : 0; }
int sim_slot_id() { return t_fiber ? cur->slot : 0; }

static Region staged;
static bool staged_valid = false;

int sim_region_begin(size_t work)
{
    if (t_fiber)
        return 1;
    st.regions++;
    staged = Region();
    staged_valid = true;
    Region& r = staged;
    r.id = ++region_counter;
    if (cfg.serial)
    {
        r.W = 1;
        r.ids[0] = 0;
        return 0;
    }
    int lim = pool_limit();
    u32 g = 0;
    if (lim > 1)
    {
        u32 d = rng.below(20);
        g = d == 0 ? 0 : d < 7 ? 1 : d < 10 ? (u32) lim - 1 : 1 + rng.below(lim - 1);
    }
    r.W = 1 + (int) decide(g, (u32) lim);
    r.ids[0] = 0;
    int pool = std::min(MAXW, std::max(lim, 2) + 3);
    if (lim == 1)
        pool = 1;
    bool usedid[MAXW] = {true};
    for (int i = 1; i < r.W; i++)
    {
        u32 k = decide(rng.below((u32) (pool - i)), (u32) (pool - i));
        int id = 1;
        for (;; id++)
        {
            if (usedid[id])
                continue;
            if (k-- == 0)
                break;
        }
        usedid[id] = true;
        r.ids[i] = id;
    }
    u32 d = rng.below(20);
    r.split_mode = d < 2 ? 0 : d < 8 ? 1 : d < 14 ? 2 : 3;
    if (r.W > 1 && r.split_mode == 0)
        r.split_mode = 2;
    d = rng.below(20);
    static const u32 gaps[] = {0, 0, 0, 0, 0, 0, 2000, 1000, 500, 300, 200, 100, 60, 40, 25, 15, 10, 6, 4, 2};
    r.gap_mean = gaps[d];
    d = rng.below(10);
    r.pick = d < 4 ? 0 : d < 6 ? 1 : d < 8 ? 2 : 3;
    if (r.pick == 3)
    {
        r.stalled = (int) rng.below(r.W);
        if (r.W > 1)
            st.stalls++;
    }
    d = rng.below(10);
    r.order = d < 4 ? 0 : d < 6 ? 1 : 2;
    (void) work;
    return 0;
}

uint32_t sim_split_choice(size_t size, int depth)
{
    if (cfg.serial && !t_fiber)
        return 0;
    int mode = t_fiber ? 2 : staged.split_mode;
    int W = t_fiber ? 2 : staged.W;
    u32 v = 0;
    switch (mode)
    {
    case 0: break;
    case 1: // coarse: about W..2W chunks
        v = (1 << depth) < 2 * W ? 8 : 0;
        break;
    case 2:
        v = depth < 6 && rng.chance(3, 4) ? 1 + rng.below(15) : 0;
        break;
    default: // fine
        v = (depth < 12) ? 8 : 0;
    }
    if (size > 4096 && depth > 6)
        v = 0;
    if (depth > 24)
        return 0;
    return decide(v, 16);
}

void sim_region_abandon() { staged_valid = false; }

void sim_region_run(void (*fn)(void*, size_t), void* ctx, size_t n)
{
    if (t_fiber)
    {
        // Nested region: this worker runs the inner tasks, and while it waits it
        // may pick up an outer task, as TBB's waiting threads do.
        Worker* w = cur;
        bool live = t_live;
        for (size_t i = 0; i < n; i++)
        {
            t_live = live;
            fn(ctx, i);
            t_live = false;
            if (w->pend.on)
                flush_pending(w);
            Region* r = R;
            if (w->depth < 2 && !r->pending.empty() && r->W > 1)
            {
                if (decide(rng.chance(1, 6) ? 1 : 0, 2))
                {
                    st.steals++;
                    u32 k = take_pending();
                    w->depth++;
                    run_task(k);
                    w->depth--;
                }
            }
        }
        t_live = live;
        return;
    }
    Region r = staged;
    if (cfg.serial)
    {
        for (size_t i = 0; i < n; i++)
            fn(ctx, i);
        return;
    }
    if (n == 0)
        return;
    r.fn = fn;
    r.ctx = ctx;
    r.pending.resize(n);
    for (size_t i = 0; i < n; i++)
        r.pending[i] = (u32) i;
    if (r.W > 1)
    {
        st.par_regions++;
        st.max_workers = std::max<u64>(st.max_workers, r.W);
    }
    hash_in(0xBE610 + r.W);
    pages.maybe_trim();
    syncs->clear();
    R = &r;
    defer_frees = true;
    sim_thread = pthread_self();
    for (int i = 0; i < r.W; i++)
    {
        Worker* w = setup_worker(r.ids[i]);
        w->slot = i;
        w->state = RUNNABLE;
        w->ignore = 0;
        w->depth = 0;
        w->pend.on = false;
        w->ehcaught = nullptr;
        w->ehuncaught = 0;
        memset(w->vc, 0, sizeof w->vc);
        w->vc[i] = 1;
        void** sp = (void**) (w->stack + STACK - 64);
        *--sp = nullptr;
        *--sp = (void*) simrt_trampoline; // return address
        for (int k = 0; k < 6; k++)
            *--sp = nullptr;
        --sp;
        unsigned mx = 0x1f80;
        unsigned short cw = 0x37f;
        memcpy(sp, &mx, 4);
        memcpy((char*) sp + 4, &cw, 2);
        w->sp = sp;
    }
    for (;;)
    {
        int run[MAXW], nr = 0, alive = 0;
        for (int i = 0; i < r.W; i++)
        {
            Worker& w = workers[r.ids[i]];
            if (w.state == RUNNABLE)
                run[nr++] = i;
            if (w.state == RUNNABLE || w.state == BLOCKED)
                alive++;
        }
        if (alive == 0)
            break;
        if (nr == 0)
        {
            st.deadlocks++;
            fprintf(stderr, "SIMRT-DEADLOCK: every simulated worker is blocked\n");
            _exit(98);
        }
        u32 g = 0;
        if (nr > 1)
        {
            switch (r.pick)
            {
            case 0: g = rng.below(nr); break;
            case 1: // round robin
                while (g < (u32) nr && run[g] <= r.last)
                    g++;
                if (g == (u32) nr)
                    g = 0;
                break;
            case 2: // sticky
                g = rng.below(nr);
                if (!rng.chance(1, 6))
                    for (int k = 0; k < nr; k++)
                        if (run[k] == r.last)
                            g = k;
                break;
            default: // one worker is stalled until the others are done
                do
                    g = rng.below(nr);
                while (run[g] == r.stalled);
            }
            g = decide(g, nr);
        }
        r.last = run[g];
        st.switches++;
        resume(&workers[r.ids[run[g]]]);
    }
    R = nullptr;
    defer_frees = false;
    run_deferred();
    if (r.exc)
        std::rethrow_exception(r.exc);
}

void* sim_gc_push(size_t n)
{
    GC* g = new GC {n};
    gclist->push_back(g);
    return g;
}
void sim_gc_pop(void* p)
{
    gclist->erase(std::remove(gclist->begin(), gclist->end(), (GC*) p), gclist->end());
    delete (GC*) p;
}
size_t sim_gc_active()
{
    size_t m = (size_t) cfg.hw;
    for (auto* g : *gclist)
        m = std::min(m, g->n);
    return m;
}

uint32_t sim_sort_seed()
{
    st.sort_calls++;
    if (cfg.serial)
        return 0;
    u32 v = rng.chance(3, 4) ? 1 + rng.below(0x7ffffffe) : 0;
    v = decide(v, 0);
    if (v)
        st.sort_shuffles++;
    return v;
}

void sim_tbb_alloc_point()
{
    st.ets_slots++;
    alloc_point(0);
}

void sim_mutex_lock(void* m)
{
    if (!t_fiber)
        return;
    Quiet q;
    lock_addr(m);
}
int sim_mutex_trylock(void* m)
{
    if (!t_fiber)
        return 1;
    Quiet q;
    if (cur->pend.on)
        flush_pending(cur);
    if (cur->ignore == 0)
        step(cur), t_live = false;
    auto it = locks->find(m);
    if (it != locks->end() && it->second != 0)
        return 0;
    (*locks)[m] = cur->slot + 1;
    acquire(m);
    return 1;
}
void sim_mutex_unlock(void* m)
{
    if (!t_fiber)
        return;
    Quiet q;
    unlock_addr(m);
}
void sim_acquire(void* a)
{
    if (!t_fiber)
        return;
    Quiet q;
    acquire(a);
}
void sim_release(void* a)
{
    if (!t_fiber)
        return;
    Quiet q;
    if (cur->pend.on)
        flush_pending(cur);
    release(a);
}
void sim_yield_point()
{
    if (!t_fiber || cur->ignore)
        return;
    Quiet q;
    if (cur->pend.on)
        flush_pending(cur);
    preempt_now(true);
}
void sim_ignore_begin()
{
    if (t_fiber)
    {
        if (cur->pend.on)
        {
            t_live = false;
            flush_pending(cur);
        }
        cur->ignore++;
        t_live = false;
    }
}
void sim_ignore_end()
{
    if (t_fiber)
    {
        cur->ignore--;
        t_live = cur->ignore == 0;
    }
}

// ---------------------------------------------------------------- control interface (Python, via ctypes)
void sim_ctl_seed(uint64_t s)
{
    rng.s = s * 0x9e3779b97f4a7c15ULL + 0x1234567;
    rng.next();
    entropy_seed = rng.s ^ 0x5eed5eed5eedULL;
    entropy_fail_at = 0;
    declog->clear();
    races->clear();
    replaying = false;
    replay->clear();
    replay_pos = 0;
    log_full = false;
    memset(&st, 0, sizeof st);
    st.hash = 0xcbf29ce484222325ULL;
    af = AllocFault();
    for (auto& w : workers)
        for (auto& p : w.tls)
            (void) p;
}
void sim_ctl_replay(const uint32_t* v, size_t n)
{
    replay->assign(v, v + n);
    replay_pos = 0;
    replaying = true;
}
void sim_ctl_set(const char* k, long v)
{
    std::string s(k);
    if (s == "hw") cfg.hw = (int) v;
    else if (s == "serial") cfg.serial = (int) v;
    else if (s == "preempt") cfg.preempt = (int) v;
    else if (s == "detect") cfg.detect = (int) v;
    else if (s == "max_switches") cfg.max_switches = (int) v;
    else if (s == "fill") fill_byte = (int) v;
    else if (s == "entropy_fail") entropy_fail_at = (u64) v;
    else if (s == "guard")
    {
        if (v)
            gh::start();
        gh::on = v != 0;
    }
    else if (s == "access_cap") access_cap = (u64) v;
    else if (s == "max_workers") st.max_workers = (u64) v;
}
size_t sim_ctl_log(uint32_t* out, size_t cap)
{
    size_t n = std::min(cap, declog->size());
    memcpy(out, declog->data(), n * 4);
    return declog->size();
}
void sim_ctl_stats(uint64_t* out, size_t n)
{
    memcpy(out, &st, std::min(n * 8, sizeof st));
}
size_t sim_ctl_nstats() { return sizeof st / 8; }
uint64_t sim_ctl_live() { return gh::live_new; }
// Sites of the blocks in use whose number is greater than since.
size_t sim_ctl_live_sites(uint64_t since, uint64_t* serial_now, void** out, size_t cap)
{
    size_t n = 0;
    if (serial_now)
        *serial_now = gh::serial;
    if (!out)
        return 0;
    for (uintptr_t a = gh::BASE; gh::ready && a < gh::top;)
    {
        gh::Head* x = (gh::Head*) a;
        a += gh::slot_size(x->cls);
        if (x->magic == 0x600DB10C && x->site && x->serial > since && n < cap)
            out[n++] = x->site;
    }
    return n;
}
void sim_ctl_arm_alloc(uint64_t at, uint64_t count, int where)
{
    af = AllocFault();
    af.armed = true;
    af.at = at;
    af.until = at + count - 1;
    af.where = where;
}
void sim_nofail(int d) { nofail += d; }
// Returns allocations seen since arming; *fired how many failed.
uint64_t sim_ctl_disarm_alloc(uint64_t* fired)
{
    if (fired)
        *fired = af.fired;
    u64 s = af.seen;
    af.armed = false;
    return s;
}
size_t sim_ctl_nraces() { return races->size(); }
int sim_ctl_race(size_t i, char* out, size_t cap)
{
    if (i >= races->size())
        return 0;
    Race& r = (*races)[i];
    Dl_info a {}, b {};
    dladdr(r.pc1, &a);
    dladdr(r.pc2, &b);
    return snprintf(out, cap, "%d|%s|%#lx|%s|%#lx|%d|%d", r.kind, a.dli_fname ? a.dli_fname : "?",
                    (unsigned long) ((char*) r.pc1 - (char*) a.dli_fbase), b.dli_fname ? b.dli_fname : "?",
                    (unsigned long) ((char*) r.pc2 - (char*) b.dli_fbase), r.w1, r.w2);
}
int sim_ctl_version() { return 1; }

// ---------------------------------------------------------------- instrumentation entry points
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() { sim_ignore_begin(); }
void __tsan_ignore_thread_end() { sim_ignore_end(); }

#define RW(n) \
    void __tsan_read##n(void* a) { ACCESS(a, n, false); } \
    void __tsan_write##n(void* a) { ACCESS(a, n, true); } \
    void __tsan_unaligned_read##n(void* a) { ACCESS(a, n, false); } \
    void __tsan_unaligned_write##n(void* a) { ACCESS(a, n, true); } \
    void __tsan_read_write##n(void* a) { ACCESS(a, n, true); } \
    void __tsan_unaligned_read_write##n(void* a) { ACCESS(a, n, true); } \
    void __tsan_volatile_read##n(void* a) { ACCESS(a, n, false); } \
    void __tsan_volatile_write##n(void* a) { ACCESS(a, n, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { ACCESS(a, n, false); } \
    void __tsan_unaligned_volatile_write##n(void* a) { ACCESS(a, n, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { ACCESS(a, (u32) n, false); }
void __tsan_write_range(void* a, size_t n) { ACCESS(a, (u32) n, true); }
void __tsan_vptr_read(void** a) { ACCESS(a, 8, false); }
void __tsan_vptr_update(void** a, void* v)
{
    if (*a != v)
        ACCESS(a, 8, true);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    if (n)
    {
        ACCESS(s, (u32) n, false);
        ACCESS(d, (u32) n, true);
    }
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    if (n)
    {
        ACCESS(s, (u32) n, false);
        ACCESS(d, (u32) n, true);
    }
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    if (n)
        ACCESS(d, (u32) n, true);
    return memset(d, c, n);
}
} // extern "C"

namespace {
inline void atomic_pre(const volatile void* a, u32 n, int mo, bool load, bool store, void* pc)
{
    Worker* w = cur;
    if (w->pend.on)
        flush_pending(w);
    st.atomics++;
    step(w);
    t_live = false;
    if (cfg.detect)
        check_conflicts((char*) a, n, store, true, pc, nullptr);
    // memory_order: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
    if (load && (mo == 1 || mo == 2 || mo == 4 || mo == 5))
        acquire(const_cast<void*>(a));
    if (store && (mo == 3 || mo == 4 || mo == 5))
        release(const_cast<void*>(a), load);
    t_live = true;
}
} // namespace
#define APRE(load, store) \
    if (__builtin_expect(gh::on, 0)) \
        gh::check((void*) a, sizeof(*a), store, __builtin_return_address(0)); \
    if (__builtin_expect(t_live, 0)) \
    atomic_pre(a, sizeof(*a), mo, load, store, __builtin_return_address(0))

#define ATOMIC(B, T) \
    extern "C" T __tsan_atomic##B##_load(const volatile T* a, int mo) \
    { \
        APRE(true, false); \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
    } \
    extern "C" void __tsan_atomic##B##_store(volatile T* a, T v, int mo) \
    { \
        APRE(false, true); \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int mo) \
    { \
        APRE(true, true); \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); \
    } \
    extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) \
    { \
        APRE(true, true); \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) \
    { \
        APRE(true, true); \
        return __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    } \
    extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) \
    { \
        APRE(true, true); \
        __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        return e; \
    }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- thread_local storage per simulated worker
struct EmuTls
{
    size_t size, align;
    size_t index;
    void* value;
};
static std::atomic<size_t> emu_next {1};
static __thread std::vector<void*>* other_tls = nullptr;

extern "C" __attribute__((visibility("default"))) void* __emutls_get_address(EmuTls* c)
{
    bool live = t_live;
    t_live = false;
    if (!c->index)
        c->index = emu_next++;
    // Worker 0 is the calling thread: it shares its storage with code outside regions.
    std::vector<void*>* v;
    if (t_fiber && cur->id != 0)
        v = &cur->tls;
    else
    {
        if (!other_tls)
            other_tls = new std::vector<void*>();
        v = other_tls;
    }
    if (v->size() <= c->index)
        v->resize(c->index + 16, nullptr);
    void*& p = (*v)[c->index];
    if (!p)
    {
        size_t al = std::max<size_t>(c->align, 16);
        p = __libc_memalign(al, std::max<size_t>(c->size, 1));
        if (c->value)
            memcpy(p, c->value, c->size);
        else
            memset(p, 0, c->size);
    }
    t_live = live;
    return p;
}

// ---------------------------------------------------------------- process memory
// Blocks freed inside a region are given back only when it ends, so that no
// address is reused by another worker while its accesses are being compared.
extern "C" __attribute__((visibility("default"))) void free(void* p)
{
    if (__builtin_expect(defer_frees && p, 0) && pthread_equal(pthread_self(), sim_thread))
    {
        size_t n = usable(p);
        if (gh::has(p))
            gh::bury(p);
        if (n >= sizeof(FreeNode))
        {
            if (t_fiber && R && cfg.detect)
                for (size_t o = 0; o < n && o < 65536; o += 8)
                {
                    uintptr_t a = (uintptr_t) p + o;
                    Page* pg = pages.get(a >> 12, false);
                    if (pg)
                        pg->freed_region[(a >> 3) & 511] = R->id;
                }
            FreeNode* f = (FreeNode*) p;
            f->next = deferred;
            deferred = f;
            return;
        }
    }
    if (p)
        give_back(p);
}
extern "C" __attribute__((visibility("default"))) void* malloc(size_t n) { return __builtin_expect(gh::on, 0) ? take(n) : __libc_malloc(n); }
extern "C" __attribute__((visibility("default"))) void* calloc(size_t a, size_t b)
{
    if (!__builtin_expect(gh::on, 0))
        return __libc_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n))
        return nullptr;
    void* p = take(n);
    return p ? memset(p, 0, n) : p;
}
extern "C" __attribute__((visibility("default"))) void* realloc(void* p, size_t n)
{
    if (__builtin_expect(defer_frees && p && n, 0) && pthread_equal(pthread_self(), sim_thread))
    {
        void* q = take(n);
        if (!q)
            return nullptr;
        memcpy(q, p, std::min(n, usable(p)));
        free(p);
        return q;
    }
    if (!p)
        return malloc(n);
    if (gh::has(p))
    {
        void* q = n ? take(n) : nullptr;
        if (q)
            memcpy(q, p, std::min(n, usable(p)));
        if (q || !n)
            free(p);
        return q;
    }
    return __libc_realloc(p, n);
}

// operator new of freud's own object files is redirected here (objcopy --redefine-syms).
// Fresh blocks hold a byte pattern the run chose, so a value that was never written
// differs between two runs; blocks given back are overwritten, so a stale reader shows.
static inline void* filled(void* p, size_t n)
{
    if (fill_byte >= 0)
        memset(p, fill_byte, n);
    return p;
}
static inline void unfilled(void* p)
{
    if (p && fill_byte >= 0)
        memset(p, fill_byte ^ 0xff, usable(p));
    free(p);
}
extern "C" {
static inline void* do_new(size_t n, void* site)
{
    alloc_point(n);
    // the simulated machine has no room for a block of more than 1 GiB
    void* p = n > (1ull << 30) ? nullptr : take(n, site);
    if (!p)
        throw std::bad_alloc();
    return filled(p, n);
}
void* sim_Znwm(size_t n) { return do_new(n, __builtin_return_address(0)); }
void* sim_Znam(size_t n) { return do_new(n, __builtin_return_address(0)); }
void* sim_ZnwmRKSt9nothrow_t(size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return sim_Znwm(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void* sim_ZnamRKSt9nothrow_t(size_t n, const std::nothrow_t& t) noexcept { return sim_ZnwmRKSt9nothrow_t(n, t); }
void* sim_ZnwmSt11align_val_t(size_t n, std::align_val_t a)
{
    alloc_point(n);
    void* p = (size_t) a <= 64 ? take(n, __builtin_return_address(0)) : __libc_memalign((size_t) a, n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return filled(p, n);
}
void* sim_ZnamSt11align_val_t(size_t n, std::align_val_t a) { return sim_ZnwmSt11align_val_t(n, a); }
void sim_ZdlPv(void* p) noexcept { unfilled(p); }
void sim_ZdaPv(void* p) noexcept { unfilled(p); }
void sim_ZdlPvm(void* p, size_t) noexcept { unfilled(p); }
void sim_ZdaPvm(void* p, size_t) noexcept { unfilled(p); }
void sim_ZdlPvSt11align_val_t(void* p, std::align_val_t) noexcept { unfilled(p); }
void sim_ZdaPvSt11align_val_t(void* p, std::align_val_t) noexcept { unfilled(p); }
void sim_ZdlPvmSt11align_val_t(void* p, size_t, std::align_val_t) noexcept { unfilled(p); }
void sim_ZdaPvmSt11align_val_t(void* p, size_t, std::align_val_t) noexcept { unfilled(p); }

// ---------------------------------------------------------------- wrapped synchronisation of the code under test
int sim_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!t_fiber)
        return pthread_mutex_lock(m);
    sim_mutex_lock(m);
    return 0;
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!t_fiber)
        return pthread_mutex_unlock(m);
    sim_mutex_unlock(m);
    return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!t_fiber)
        return pthread_mutex_trylock(m);
    return sim_mutex_trylock(m) ? 0 : EBUSY;
}
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!t_fiber)
        return pthread_rwlock_wrlock(m);
    sim_mutex_lock(m);
    return 0;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!t_fiber)
        return pthread_rwlock_rdlock(m);
    sim_mutex_lock(m); // readers exclude one another: a legal, coarser lock
    return 0;
}
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!t_fiber)
        return pthread_rwlock_unlock(m);
    sim_mutex_unlock(m);
    return 0;
}
int sim_sched_yield()
{
    sim_yield_point();
    return 0;
}
int sim_nanosleep(const struct timespec*, struct timespec*)
{
    sim_yield_point();
    return 0;
}
pthread_t sim_pthread_self()
{
    if (t_fiber && cur->id != 0)
        return (pthread_t) (0x51a00000 + cur->id);
    return pthread_self();
}
// ---------------------------------------------------------------- entropy and clocks
void sim_random_device_init(void* dev, const void*)
{
    st.entropy++;
    if (entropy_fail_at != 0 && --entropy_fail_at == 0)
    {
        st.entropy_faults++;
        throw std::runtime_error("random_device: injected failure");
    }
    *(u64*) dev = entropy_seed; // (it is some kilobytes large)
}
unsigned sim_random_device_getval(void* dev)
{
    Rng r;
    r.s = *(u64*) dev;
    const unsigned v = (unsigned) (r.next() >> 32);
    *(u64*) dev = r.s;
    return v;
}
void sim_random_device_fini(void*) {}
int64_t sim_system_clock_now() { return 1700000000000000000LL + (int64_t) (st.accesses * 1000); }
int64_t sim_steady_clock_now() { return sim_system_clock_now(); }
int sim_getpid() { return 4242; }
unsigned sim_hardware_concurrency() { return (unsigned) cfg.hw; }

int sim_cxa_guard_acquire(char* g)
{
    if (!t_fiber)
        return abi::__cxa_guard_acquire((abi::__guard*) g);
    Quiet q;
    if (cur->pend.on)
        flush_pending(cur);
    acquire(g);
    if (*g)
        return 0;
    lock_addr(g);
    if (*g)
    {
        unlock_addr(g);
        return 0;
    }
    return 1;
}
void sim_cxa_guard_release(char* g)
{
    if (!t_fiber)
    {
        abi::__cxa_guard_release((abi::__guard*) g);
        return;
    }
    Quiet q;
    *g = 1;
    unlock_addr(g);
}
void sim_cxa_guard_abort(char* g)
{
    if (!t_fiber)
    {
        abi::__cxa_guard_abort((abi::__guard*) g);
        return;
    }
    Quiet q;
    unlock_addr(g);
}
int sim_pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!t_fiber)
        return pthread_once(o, f);
    {
        Quiet q;
        lock_addr(o);
    }
    if (*(int*) o == 0)
    {
        f();
        *(int*) o = 2;
    }
    Quiet q;
    unlock_addr(o);
    return 0;
}
}
