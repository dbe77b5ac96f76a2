#include "turns.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

// -------------------------------------------------------------------------
// Memory: nothing is used twice, so that an access to what has been freed shows

static char* g_arena;
static size_t g_arenaAt, g_arenaSize = size_t(1) << 30;
static uint8_t* g_freed; // one octet per 16
static bool g_ownMemory;

static void* allocate(size_t n)
{
    if (!g_arena) {
        g_arena = (char*)mmap(nullptr, g_arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        g_freed = (uint8_t*)mmap(nullptr, g_arenaSize / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    const size_t m = ((n + 15) & ~size_t(15)) + 16;
    // threads that are not under control may allocate as well
    const size_t at = __atomic_fetch_add(&g_arenaAt, m, __ATOMIC_RELAXED);
    if (at + m > g_arenaSize)
        abort();
    *(size_t*)(g_arena + at) = n;
    return g_arena + at + 16;
}
static bool inArena(const void* p) { return g_arena && (const char*)p >= g_arena && (const char*)p < g_arena + g_arenaSize; }
static void release(void* p)
{
    if (!p)
        return;
    if (!inArena(p)) {
        free(p);
        return;
    }
    const size_t n = *(size_t*)((char*)p - 16);
    memset(p, 0xdb, n);
    const size_t at = (char*)p - g_arena;
    memset(g_freed + at / 16, 1, (n + 15) / 16);
}
void* operator new(size_t n) { return g_ownMemory ? allocate(n) : (n = n ? n : 1, malloc(n)); }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release(p); }

// -------------------------------------------------------------------------

namespace sched {

std::function<void(const std::string&, const std::string&)> onDoom;

struct Thread {
    int id = 0;
    std::string name;
    enum { READY, WAITING, RESTING, ENDED } state = READY;
    const std::function<bool()>* ready = nullptr;
    const char* why = "";
    int64_t deadline = -1;
    bool timedOut = false;
    int turn = 0; // futex
    long prio = 0;
    pthread_t handle {};
    char *lo = nullptr, *hi = nullptr; // its stack
};

static Plan g_plan;
static Shared* g_shared;
static std::deque<Thread> g_threads;
static std::atomic<bool> g_on { false };
static long g_sync, g_mem, g_low;
static std::vector<long> g_changes, g_memChanges;
static int64_t g_offset; // virtual time that has been skipped, ns
static uint64_t g_rng;
static thread_local Thread* t_self;
static thread_local int t_quiet;
static thread_local std::string* t_spawnName;

static uint64_t rnd()
{
    g_rng ^= g_rng << 13;
    g_rng ^= g_rng >> 7;
    g_rng ^= g_rng << 17;
    return g_rng * 0x2545F4914F6CDD1DULL;
}
static double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

bool on() { return g_on && t_self; }
int quiet(int q)
{
    const int was = t_quiet;
    t_quiet = q;
    return was;
}
std::string self() { return t_self ? t_self->name : "none"; }
int64_t elapsed() { return g_offset / 1000000; }

static int64_t now()
{
    timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000000000LL + t.tv_nsec + g_offset;
}

static void futexWait(int* w, int v) { syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void futexWake(int* w) { syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void give(Thread* to)
{
    Thread* me = t_self;
    if (to == me)
        return;
    __atomic_store_n(&to->turn, 1, __ATOMIC_SEQ_CST);
    futexWake(&to->turn);
    if (me->state == Thread::ENDED)
        return;
    while (!__atomic_load_n(&me->turn, __ATOMIC_SEQ_CST))
        futexWait(&me->turn, 0);
    __atomic_store_n(&me->turn, 0, __ATOMIC_SEQ_CST);
}

static bool enabled(Thread& t)
{
    switch (t.state) {
    case Thread::READY:
        return true;
    case Thread::WAITING:
        return (*t.ready)();
    default:
        return false;
    }
}

static std::string situation()
{
    std::string s;
    for (auto& t : g_threads)
        if (t.state == Thread::WAITING)
            s += (s.empty() ? "" : ", ") + t.name + " waits for " + t.why;
    return s;
}

// The thread that goes on.  may: the caller could go on itself.
static Thread* choose(bool may)
{
    for (;;) {
        std::vector<Thread*> es;
        for (auto& t : g_threads)
            if (&t == t_self ? may || (t.state == Thread::WAITING && enabled(t)) : enabled(t))
                es.push_back(&t);
        // A wait that is to last a moment only may be over before the others go on.
        for (auto& t : g_threads)
            if (t.state == Thread::WAITING && t.deadline >= 0 && !enabled(t) && t.deadline - now() <= 1000000000LL && rnd() % 3 == 0) {
                g_offset += std::max<int64_t>(0, t.deadline - now());
                t.timedOut = true;
                return &t;
            }
        if (!es.empty()) {
            if (g_plan.strategy == WALK)
                return es[rnd() % es.size()];
            Thread* best = es[0];
            for (auto* t : es)
                if (t->prio > best->prio)
                    best = t;
            return best;
        }
        for (auto& t : g_threads)
            if (t.state == Thread::RESTING)
                return &t;
        Thread* first = nullptr;
        for (auto& t : g_threads)
            if (t.state == Thread::WAITING && t.deadline >= 0 && (!first || t.deadline < first->deadline))
                first = &t;
        if (!first) {
            g_on = false;
            onDoom("dead", situation());
            _exit(3);
        }
        const int64_t n = now();
        if (first->deadline > n)
            g_offset += first->deadline - n;
        first->timedOut = true;
        return first;
    }
}

static const long Limit = 3000000;
static void tooLong()
{
    g_on = false;
    onDoom("dead", "no end: " + situation());
    _exit(3);
}

void point()
{
    if (!on() || t_quiet)
        return;
    const long k = g_sync++;
    if (k > Limit)
        tooLong();
    ++t_quiet; // what follows is not part of the program
    Thread* to = t_self;
    if (g_plan.strategy == WALK) {
        if (unit() < g_plan.pSync)
            to = choose(true);
    } else {
        if (std::binary_search(g_changes.begin(), g_changes.end(), k))
            t_self->prio = --g_low;
        for (auto& t : g_threads)
            if (&t != t_self && t.prio > to->prio && enabled(t))
                to = &t;
    }
    give(to);
    --t_quiet;
}

static void memory(const void* p, bool write)
{
    if (!g_on || !t_self || t_quiet)
        return;
    Thread* me = t_self;
    if ((char*)p >= me->lo && (char*)p < me->hi)
        return;
    if (inArena(p) && g_freed[((const char*)p - g_arena) / 16]) {
        g_on = false;
        onDoom("crash", "freed memory is accessed");
        _exit(3);
    }
    const uint64_t at = (uint64_t)p >> 3;
    Shared::Slot* s = nullptr;
    for (uint64_t h = at * 0x9E3779B97F4A7C15ULL >> 48, i = 0; i < 32; ++i) {
        Shared::Slot& c = g_shared->slot[(h + i) % Shared::Slots];
        if (c.at == at || c.at == 0) {
            s = &c;
            break;
        }
    }
    if (!s)
        return;
    if (g_shared->learn) {
        s->at = at;
        s->who |= 1u << (me->id & 31);
        s->written |= write;
    } else if (s->at == 0)
        return;
    if (!s->written || !(s->who & (s->who - 1)))
        return;
    const long k = g_mem++;
    if (k > 20 * Limit)
        tooLong();
    Thread* to = me;
    ++t_quiet;
    if (g_plan.strategy == WALK) {
        if (g_plan.pMem > 0 && unit() < g_plan.pMem)
            to = choose(true);
    } else if (std::binary_search(g_memChanges.begin(), g_memChanges.end(), k)) {
        me->prio = --g_low;
        to = choose(true);
    }
    give(to);
    --t_quiet;
}

bool wait(const std::function<bool()>& ready, const char* why, int64_t ns)
{
    Thread* me = t_self;
    ++t_quiet;
    me->deadline = ns < 0 ? -1 : now() + ns;
    me->timedOut = false;
    me->ready = &ready;
    me->why = why;
    me->state = Thread::WAITING;
    give(choose(false));
    me->state = Thread::READY;
    me->deadline = -1;
    --t_quiet;
    return !me->timedOut;
}

void rest()
{
    Thread* me = t_self;
    ++t_quiet;
    me->state = Thread::RESTING;
    give(choose(false));
    me->state = Thread::READY;
    --t_quiet;
}

bool finished(const std::string& prefix)
{
    for (auto& t : g_threads)
        if (t.state != Thread::ENDED && t.name.compare(0, prefix.size(), prefix) == 0)
            return false;
    return true;
}

std::string waiting(const char* why)
{
    std::string s;
    for (auto& t : g_threads)
        if (t.state == Thread::WAITING && !strcmp(t.why, why))
            s += (s.empty() ? "" : ", ") + t.name;
    return s;
}

static void stackOf(Thread* t)
{
    pthread_attr_t a;
    void* p = nullptr;
    size_t n = 0;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &p, &n);
        pthread_attr_destroy(&a);
    }
    t->lo = (char*)p;
    t->hi = (char*)p + n;
}

static Thread* add(const std::string& name)
{
    g_threads.emplace_back();
    Thread* t = &g_threads.back();
    t->id = (int)g_threads.size() - 1;
    t->name = name;
    t->prio = 1 + (long)(rnd() % 1000000);
    return t;
}

void begin(const Plan& p, Shared* s)
{
    g_plan = p;
    g_shared = s;
    g_rng = p.seed * 0x9E3779B97F4A7C15ULL + 0x1234567;
    for (int i = 0; i < 8; ++i)
        rnd();
    for (long i = 0; i < p.changeSync; ++i)
        g_changes.push_back((long)(rnd() % std::max(1L, p.lenSync)));
    for (long i = 0; i < p.changeMem; ++i)
        g_memChanges.push_back((long)(rnd() % std::max(1L, p.lenMem)));
    std::sort(g_changes.begin(), g_changes.end());
    std::sort(g_memChanges.begin(), g_memChanges.end());
    t_self = add("main");
    stackOf(t_self);
    g_ownMemory = true;
    g_on = true;
}

void end()
{
    g_on = false;
    g_shared->steps = g_sync;
    g_shared->memSteps = g_mem;
}

void spawn(const std::string& name, const std::function<void()>& f)
{
    std::string n = name;
    t_spawnName = &n;
    auto* copy = new std::function<void()>(f);
    pthread_t h;
    pthread_create(&h, nullptr, [](void* p) -> void* {
        (*(std::function<void()>*)p)();
        return nullptr;
    }, copy);
    t_spawnName = nullptr;
}

// -------------------------------------------------------------------------
// Locks and conditions

struct Lock {
    Thread* owner = nullptr;
    int depth = 0, readers = 0;
};
static std::unordered_map<void*, Lock> g_locks;
struct Waiter {
    bool woken = false;
};
static std::map<void*, std::deque<Waiter*>> g_conds;

template <class F> static F next(F, const char* name)
{
    return (F)dlsym(RTLD_NEXT, name);
}
#define NEXT(f) static auto real = next(&f, #f)

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

static int acquire(pthread_mutex_t* m, bool tryOnly, int64_t ns)
{
    Lock& l = g_locks[m];
    if (l.owner == t_self && recursive(m)) {
        ++l.depth;
        return 0;
    }
    if (l.owner) {
        if (tryOnly)
            return EBUSY;
        while (l.owner)
            if (!wait([&l] { return !l.owner; }, "a lock", ns))
                return ETIMEDOUT;
    }
    l.owner = t_self;
    l.depth = 1;
    return 0;
}

static int64_t until(clockid_t c, const struct timespec* t)
{
    timespec n;
    syscall(SYS_clock_gettime, c, &n);
    const int64_t d = (t->tv_sec - n.tv_sec) * 1000000000LL + (t->tv_nsec - n.tv_nsec) - g_offset;
    return d < 0 ? 0 : d;
}

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, int64_t ns)
{
    Lock& l = g_locks[m];
    const int depth = l.depth;
    Waiter w;
    g_conds[c].push_back(&w);
    l.owner = nullptr;
    l.depth = 0;
    const bool ok = wait([&w] { return w.woken; }, "a condition", ns);
    if (!w.woken) {
        auto& q = g_conds[c];
        q.erase(std::remove(q.begin(), q.end(), &w), q.end());
    }
    while (l.owner)
        wait([&l] { return !l.owner; }, "a lock");
    l.owner = t_self;
    l.depth = depth;
    return ok ? 0 : ETIMEDOUT;
}

} // namespace sched

using namespace sched;

// The stand-ins are transparent to threads that are not under control.
extern "C" {

int pthread_mutex_lock(pthread_mutex_t* m)
{
    NEXT(pthread_mutex_lock);
    if (!on())
        return real(m);
    point();
    return acquire(m, false, -1);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    NEXT(pthread_mutex_trylock);
    if (!on())
        return real(m);
    point();
    return acquire(m, true, -1);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
    NEXT(pthread_mutex_timedlock);
    if (!on())
        return real(m, t);
    point();
    return acquire(m, false, until(CLOCK_REALTIME, t));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t)
{
    NEXT(pthread_mutex_clocklock);
    if (!on())
        return real(m, c, t);
    point();
    return acquire(m, false, until(c, t));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    NEXT(pthread_mutex_unlock);
    if (!on())
        return real(m);
    auto it = g_locks.find(m);
    if (it == g_locks.end() || !it->second.owner) // locked before control began
        return real(m);
    if (--it->second.depth == 0)
        it->second.owner = nullptr;
    point();
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    NEXT(pthread_mutex_destroy);
    if (on())
        g_locks.erase(m);
    return real(m);
}

static int rw(pthread_rwlock_t* m, bool write, bool tryOnly, int64_t ns)
{
    Lock& l = g_locks[m];
    auto free = [&l, write] { return !l.owner && !(write && l.readers); };
    while (!free()) {
        if (tryOnly)
            return EBUSY;
        if (!wait(free, "a lock", ns))
            return ETIMEDOUT;
    }
    if (write)
        l.owner = t_self;
    else
        ++l.readers;
    return 0;
}
#define RW(name, write, tryOnly)                  \
    int name(pthread_rwlock_t* m)                 \
    {                                             \
        NEXT(name);                               \
        if (!on())                                \
            return real(m);                       \
        point();                                  \
        return rw(m, write, tryOnly, -1);         \
    }
RW(pthread_rwlock_rdlock, false, false)
RW(pthread_rwlock_wrlock, true, false)
RW(pthread_rwlock_tryrdlock, false, true)
RW(pthread_rwlock_trywrlock, true, true)
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    NEXT(pthread_rwlock_unlock);
    if (!on())
        return real(m);
    Lock& l = g_locks[m];
    if (l.owner)
        l.owner = nullptr;
    else if (l.readers)
        --l.readers;
    else
        return real(m);
    point();
    return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    NEXT(pthread_cond_wait);
    return on() ? condWait(c, m, -1) : real(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
    NEXT(pthread_cond_timedwait);
    if (!on())
        return real(c, m, t);
    // which clock was chosen when it was made
    const bool mono = c->__data.__wrefs & 2;
    return condWait(c, m, until(mono ? CLOCK_MONOTONIC : CLOCK_REALTIME, t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
    NEXT(pthread_cond_clockwait);
    return on() ? condWait(c, m, until(k, t)) : real(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    NEXT(pthread_cond_signal);
    if (!on())
        return real(c);
    auto& q = g_conds[c];
    if (!q.empty()) {
        q.front()->woken = true;
        q.pop_front();
    }
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    NEXT(pthread_cond_broadcast);
    if (!on())
        return real(c);
    auto& q = g_conds[c];
    for (auto* w : q)
        w->woken = true;
    q.clear();
    point();
    return 0;
}

struct Entry {
    void* (*fn)(void*);
    void* arg;
    sched::Thread* me;
};
static void* enter(void* p)
{
    Entry e = *(Entry*)p;
    free(p);
    ++t_quiet;
    t_self = e.me;
    stackOf(t_self);
    while (!__atomic_load_n(&t_self->turn, __ATOMIC_SEQ_CST))
        futexWait(&t_self->turn, 0);
    __atomic_store_n(&t_self->turn, 0, __ATOMIC_SEQ_CST);
    --t_quiet;
    void* r = e.fn(e.arg);
    ++t_quiet;
    if (g_on) {
        t_self->state = sched::Thread::ENDED;
        give(choose(false));
    }
    t_self = nullptr;
    return r;
}
int pthread_create(pthread_t* h, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    NEXT(pthread_create);
    if (!on())
        return real(h, a, fn, arg);
    Entry* e = (Entry*)malloc(sizeof(Entry));
    e->fn = fn;
    e->arg = arg;
    e->me = add(t_spawnName ? *t_spawnName : "io");
    int r = real(h, a, enter, e);
    if (r == 0)
        e->me->handle = *h;
    else
        e->me->state = sched::Thread::ENDED;
    point();
    return r;
}
int pthread_join(pthread_t h, void** v)
{
    NEXT(pthread_join);
    if (on())
        for (auto& t : g_threads)
            if (t.handle == h && t.id) {
                sched::Thread* x = &t;
                point();
                if (x->state != sched::Thread::ENDED)
                    wait([x] { return x->state == sched::Thread::ENDED; }, "a thread");
            }
    return real(h, v);
}
int sched_yield()
{
    if (on()) {
        point();
        return 0;
    }
    return (int)::syscall(SYS_sched_yield);
}

// Time passes only when nothing else can happen.
int clock_gettime(clockid_t c, struct timespec* t)
{
    int r = (int)::syscall(SYS_clock_gettime, c, t);
    if (g_offset && (c == CLOCK_MONOTONIC || c == CLOCK_REALTIME)) {
        const int64_t n = t->tv_nsec + g_offset;
        t->tv_sec += n / 1000000000;
        t->tv_nsec = n % 1000000000;
    }
    return r;
}
static int nap(int64_t ns)
{
    static const std::function<bool()> never = [] { return false; };
    wait(never, "time", ns);
    return 0;
}
int nanosleep(const struct timespec* t, struct timespec* left)
{
    if (on())
        return nap(t->tv_sec * 1000000000LL + t->tv_nsec);
    return (int)::syscall(SYS_nanosleep, t, left);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* left)
{
    if (on())
        return nap(flags ? until(c, t) : t->tv_sec * 1000000000LL + t->tv_nsec);
    return (int)::syscall(SYS_clock_nanosleep, c, flags, t, left);
}
int usleep(useconds_t us)
{
    timespec t { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
    timespec t { (time_t)s, 0 };
    nanosleep(&t, nullptr);
    return 0;
}

int epoll_wait(int fd, struct epoll_event* ev, int n, int timeout)
{
    if (on()) {
        point();
        if (timeout != 0) {
            auto ready = [fd] {
                pollfd p { fd, POLLIN, 0 };
                return (int)::syscall(SYS_poll, &p, 1, 0) > 0;
            };
            if (!ready())
                wait(ready, "events", timeout < 0 ? -1 : timeout * 1000000LL);
            timeout = 0;
        }
    }
    return (int)::syscall(SYS_epoll_pwait, fd, ev, n, timeout, nullptr, 8);
}
int poll(struct pollfd* p, nfds_t n, int timeout)
{
    if (on()) {
        point();
        if (timeout != 0) {
            auto ready = [p, n] { return (int)::syscall(SYS_poll, p, n, 0) > 0; };
            if (!ready())
                wait(ready, "events", timeout < 0 ? -1 : timeout * 1000000LL);
            timeout = 0;
        }
    }
    return (int)::syscall(SYS_poll, p, n, timeout);
}

long syscall(long nr, ...)
{
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (long& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if (nr == SYS_futex && on() && !t_quiet) {
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        int* w = (int*)a[0];
        const int v = (int)a[2];
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != v) {
                errno = EAGAIN;
                return -1;
            }
            const timespec* t = (const timespec*)a[3];
            const int64_t ns = !t ? -1
                : op == FUTEX_WAIT ? t->tv_sec * 1000000000LL + t->tv_nsec
                                   : until((int)a[1] & FUTEX_CLOCK_REALTIME ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
            if (!wait([w, v] { return __atomic_load_n(w, __ATOMIC_SEQ_CST) != v; }, "a value", ns)) {
                errno = ETIMEDOUT;
                return -1;
            }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point();
            return 0;
        }
    }
    long r;
    register long r10 asm("r10") = a[3];
    register long r8 asm("r8") = a[4];
    register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = (int)-r;
        return -1;
    }
    return r;
}

// Initialisation of static variables
int guard_acquire(uint64_t* g) asm("__cxa_guard_acquire");
int guard_acquire(uint64_t* g)
{
    char* b = (char*)g;
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE))
        return 0;
    while (__atomic_load_n(b + 1, __ATOMIC_ACQUIRE)) {
        if (on())
            wait([b] { return !b[1]; }, "a lock");
        if (b[0])
            return 0;
    }
    b[1] = 1;
    return 1;
}
void guard_release(uint64_t* g) asm("__cxa_guard_release");
void guard_release(uint64_t* g)
{
    char* b = (char*)g;
    b[1] = 0;
    __atomic_store_n(b, 1, __ATOMIC_RELEASE);
}
void guard_abort(uint64_t* g) asm("__cxa_guard_abort");
void guard_abort(uint64_t* g) { ((char*)g)[1] = 0; }

// -------------------------------------------------------------------------
// What -fsanitize=thread calls

void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define ACCESS(n)                                                      \
    void __tsan_read##n(void* p) { memory(p, false); }                 \
    void __tsan_write##n(void* p) { memory(p, true); }                 \
    void __tsan_unaligned_read##n(void* p) { memory(p, false); }       \
    void __tsan_unaligned_write##n(void* p) { memory(p, true); }       \
    void __tsan_volatile_read##n(void* p) { memory(p, false); }        \
    void __tsan_volatile_write##n(void* p) { memory(p, true); }        \
    void __tsan_unaligned_volatile_read##n(void* p) { memory(p, false); } \
    void __tsan_unaligned_volatile_write##n(void* p) { memory(p, true); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) memory(p, false); }
void __tsan_write_range(void* p, unsigned long n) { if (n) memory(p, true); }
void __tsan_vptr_update(void** p, void*) { memory(p, true); }
void __tsan_vptr_read(void** p) { memory(p, false); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) { }
#define ATOMIC(n, T)                                                                                          \
    T __tsan_atomic##n##_load(const volatile T* p, int) { memory((const void*)p, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { memory((const void*)p, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }  \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { memory((const void*)p, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { memory((const void*)p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { memory((const void*)p, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { memory((const void*)p, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
}
