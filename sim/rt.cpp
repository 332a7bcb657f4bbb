// Runtime behind -fsanitize=thread instrumentation: scheduler, simulated synchronisation, race detector.
#include "rt.hpp"
#include "seams.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <clocale>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

extern "C"
{
    int __real_pthread_mutex_lock(pthread_mutex_t*);
    int __real_pthread_mutex_trylock(pthread_mutex_t*);
    int __real_pthread_mutex_unlock(pthread_mutex_t*);
    int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
    int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const timespec*);
    int __real_pthread_cond_signal(pthread_cond_t*);
    int __real_pthread_cond_broadcast(pthread_cond_t*);
    int __real_pthread_once(pthread_once_t*, void (*)());
    int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    int __real_pthread_join(pthread_t, void**);
    int __real_pthread_detach(pthread_t);
    int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
    int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
    int __real___cxa_guard_acquire(uint64_t*);
    void __real___cxa_guard_release(uint64_t*);
    void __real___cxa_guard_abort(uint64_t*);
    int __real_sched_yield();
    int __real_nanosleep(const timespec*, timespec*);
    int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
    int __real_usleep(useconds_t);
    long __real_syscall(long, long, long, long, long, long, long);
    extern char __data_start, _end;
}

namespace sim::rt
{
    Report report;
    void (*on_violation)(const std::string&, const std::string&) = nullptr;
    thread_local const char* t_label = "";

    constexpr int MAXT = 8;
    using Clk = uint32_t;
    struct VC
    {
        Clk c[MAXT] = {};
        void join(const VC& o)
        {
            for (int i = 0; i < MAXT; ++i) c[i] = std::max(c[i], o.c[i]);
        }
        bool zero() const
        {
            for (auto x : c)
                if (x) return false;
            return true;
        }
    };
    enum State { FREE, RUNNABLE, BLOCKED, FINISHED };
    struct Thread
    {
        int id = -1;
        State st = FREE;
        const void* wait = nullptr;
        bool timed = false, timed_out = false;
        uint32_t go = 0; // futex
        uint64_t steps = 0;
        VC vc, acq, relf;
        bool has_relf = false;
        char *lo = nullptr, *hi = nullptr;
        const char* label = "";
        uint64_t prio = 0;
        std::vector<Pre> list;
        size_t li = 0;
        pthread_t handle{};
        void* (*fn)(void*) = nullptr;
        void *arg = nullptr, *ret = nullptr;
        bool helper = false, joined = false;
        uint32_t out = 0; // lets the finished thread end
    };
    static Thread T[MAXT];
    static __thread Thread* self;
    static Sched S;
    static const std::function<void(int)>* body;
    static uint64_t total, budget, countdown, consecutive;
    static std::vector<uint64_t> changes; // pct
    static Rng rng(1);
    static uint32_t main_go;
    static bool active, record = true;
    static uint64_t lowprio;

    static long fut(uint32_t* w, int op, uint32_t v) { return __real_syscall(SYS_futex, (long)w, op | FUTEX_PRIVATE_FLAG, (long)v, 0, 0, 0); }
    static void wake(uint32_t& w)
    {
        __atomic_store_n(&w, 1u, __ATOMIC_SEQ_CST);
        fut(&w, FUTEX_WAKE, 1);
    }
    static void await(uint32_t& w)
    {
        for (int i = 0; i < 200; ++i)
        {
            if (__atomic_load_n(&w, __ATOMIC_SEQ_CST)) break;
            __builtin_ia32_pause();
        }
        while (!__atomic_load_n(&w, __ATOMIC_SEQ_CST)) fut(&w, FUTEX_WAIT, 0);
        __atomic_store_n(&w, 0u, __ATOMIC_SEQ_CST);
    }

    [[noreturn]] static void violation(const std::string& c, const std::string& d)
    {
        ++t_alloc.pause;
        active = false;
        on_violation(c, d);
        _exit(99);
    }

    static uint64_t geo()
    {
        double u = rng.unit();
        double v = -__builtin_log(1 - u) * S.mean;
        return 1 + (uint64_t)std::min(v, 1e9);
    }

    // ---- scheduling ----------------------------------------------------------------------------------------
    static int runnable_count()
    {
        int n = 0;
        for (auto& t : T) n += t.st == RUNNABLE;
        return n;
    }
    // who runs when the current thread cannot (or must not) go on; -1: nobody can
    static int choose(int except)
    {
        int cand[MAXT], n = 0;
        for (auto& t : T)
            if (t.st == RUNNABLE && t.id != except) cand[n++] = t.id;
        if (n == 0) return -1;
        if (S.mode == "serial") return cand[0];
        if (S.mode == "list")
        {
            if (self)
            {
                auto& l = self->list;
                while (self->li < l.size() && l[self->li].at < self->steps) ++self->li;
                if (self->li < l.size() && l[self->li].at == self->steps)
                {
                    int to = l[self->li].to;
                    ++self->li;
                    for (int i = 0; i < n; ++i)
                        if (cand[i] == to) return to;
                }
            }
            return cand[0];
        }
        if (S.mode == "pct")
        {
            int b = cand[0];
            for (int i = 1; i < n; ++i)
                if (T[cand[i]].prio > T[b].prio) b = cand[i];
            return b;
        }
        return cand[rng.below((uint64_t)n)];
    }
    static void pass(int to)
    {
        Thread& me = *self;
        Thread& o = T[to];
        consecutive = 0;
        ++report.switches;
        report.hash = mix(report.hash ^ (uint64_t(me.id) << 40) ^ (uint64_t(to) << 48) ^ me.steps);
        if (report.executed.size() < 20000) report.executed.push_back({me.id, me.steps, to});
        wake(o.go);
    }
    static void switch_to(int to)
    {
        ++t_alloc.pause;
        pass(to);
        --t_alloc.pause;
        await(self->go);
    }
    static void block_on(const void* what, bool timed = false)
    {
        Thread& me = *self;
        ++t_alloc.pause;
        me.st = BLOCKED;
        me.wait = what;
        me.timed = timed;
        me.timed_out = false;
        ++report.blocks;
        int to = choose(me.id);
        if (to < 0)
        {
            // time passes: the first timed waiter gives up waiting
            for (auto& t : T)
                if (t.st == BLOCKED && t.timed)
                {
                    t.st = RUNNABLE;
                    t.timed_out = true;
                    to = t.id;
                    break;
                }
        }
        if (to < 0)
        {
            std::string d;
            for (auto& t : T)
                if (t.st == BLOCKED) d += "thread " + std::to_string(t.id) + " in " + t.label + " waits; ";
            violation("threads wait for each other for ever", d);
        }
        --t_alloc.pause;
        if (to != me.id)
        {
            switch_to(to);
        }
        me.wait = nullptr;
    }
    static void wake_waiters(const void* what, int most = INT_MAX)
    {
        for (auto& t : T)
            if (t.st == BLOCKED && t.wait == what && most-- > 0) t.st = RUNNABLE;
    }

    static inline bool live() { return self && active && t_alloc.armed && t_alloc.pause == 0; }

    static void give_way(bool other_required)
    {
        int to = choose(other_required ? self->id : -1);
        if (to >= 0 && to != self->id) switch_to(to);
    }

    // a scheduling point of library code
    static inline void step(int kind, bool hot)
    {
        Thread& me = *self;
        ++me.steps;
        ++total;
        ++consecutive;
        if (__builtin_expect(total > budget, 0)) violation("threads make no progress", std::to_string(total) + " steps, thread " + std::to_string(me.id) + " in " + t_label);
        if (S.mode[0] == 's' && S.mode[1] == 'e') // serial
        {
            if (consecutive > 40000000) give_way(true);
            return;
        }
        if (S.mode[0] == 'l')
        {
            auto& l = me.list;
            if (me.li < l.size() && l[me.li].at <= me.steps)
            {
                while (me.li < l.size() && l[me.li].at < me.steps) ++me.li;
                if (me.li < l.size() && l[me.li].at == me.steps)
                {
                    int to = l[me.li].to;
                    if (to >= 0 && to < MAXT && T[to].st == RUNNABLE && to != me.id)
                    {
                        ++me.li;
                        switch_to(to);
                        return;
                    }
                }
            }
            if (consecutive > 60000) give_way(true);
            return;
        }
        if (consecutive > 60000)
        {
            ++report.forced;
            if (S.mode == "pct") me.prio = --lowprio;
            give_way(true);
            return;
        }
        if (S.mode[0] == 'p')
        {
            if (!changes.empty() && total >= changes.back())
            {
                changes.pop_back();
                me.prio = --lowprio;
                give_way(false);
            }
            return;
        }
        bool go = false;
        if (S.mode[0] == 'h' && hot) go = rng.below(3) == 0;
        if (S.mode[0] == 's' && kind != Y_MEM) go = rng.below(4) == 0;
        if (!go && --countdown == 0)
        {
            countdown = geo();
            go = true;
        }
        if (go) give_way(true);
    }

    // ---- race detector -------------------------------------------------------------------------------------
    struct Cell
    {
        uint64_t key; // granule number, 0: empty
        Clk w[MAXT], r[MAXT], aw[MAXT], ar[MAXT];
        uint8_t wm[MAXT], rm[MAXT], awm[MAXT], arm[MAXT];
        uint32_t wpc[MAXT], rpc[MAXT];
    };
    constexpr uint64_t NCELL = 1 << 19;
    static Cell* cells;
    static uint64_t used_cells;
    struct LabelOf
    {
        const char* l[MAXT];
    };

    static Cell* cell(uint64_t gran, bool make)
    {
        uint64_t h = mix(gran) & (NCELL - 1);
        for (uint64_t n = 0; n < NCELL; ++n, h = (h + 1) & (NCELL - 1))
        {
            Cell& c = cells[h];
            if (c.key == gran) return &c;
            if (c.key == 0)
            {
                if (!make) return nullptr;
                if (used_cells > NCELL / 2) return nullptr;
                ++used_cells;
                c.key = gran;
                return &c;
            }
        }
        return nullptr;
    }

    // state of the process that calls change or read without going through memory we can see
    alignas(8) static char process_state[8 * 8];
    static const char* const process_state_name[8] = {"the process-wide locale", "strtok's state", "the working directory", "the file mode mask", "the environment", "the random number state", "shared C library buffers", "signal handlers"};

    static const char* region(const char* a)
    {
        if (a >= process_state && a < process_state + sizeof process_state) return process_state_name[(a - process_state) / 8];
        if (a >= &__data_start && a < &_end) return "static storage";
        for (auto& t : T)
            if (t.lo && a >= t.lo && a < t.hi) return "another thread's stack";
        return "shared memory";
    }
    static uint32_t pc_off(const void* pc) { return (uint32_t)(reinterpret_cast<uintptr_t>(pc) - 0x555555554000ull); }

    [[noreturn]] static void race(const char* a, int n, bool write, const void* pc, int other, const char* how, uint32_t opc)
    {
        ++t_alloc.pause;
        std::string me = t_label;
        std::string ot = T[other].label ? T[other].label : "";
        char b[200];
        snprintf(b, sizeof b, " (@%x, other side @%x)", pc_off(pc), opc);
        violation(std::string("data race on ") + region(a),
                  "thread " + std::to_string(self->id) + " in " + me + (write ? " writes " : " reads ") + std::to_string(n) + " bytes while thread " + std::to_string(other) + " (now in " + ot + ") " + how +
                      " them without synchronisation" + b);
    }

    enum Acc { READ, WRITE, AREAD, AWRITE };
    static inline void check1(const char* a, uint64_t gran, uint8_t mask, Acc k, int n, const void* pc)
    {
        Thread& me = *self;
        Cell* c = cell(gran, true);
        if (!c) return;
        const int t = me.id;
        for (int u = 0; u < MAXT; ++u)
        {
            if (u == t) continue;
            Clk seen = me.vc.c[u];
            bool wr = k == WRITE || k == AWRITE;
            if (c->w[u] > seen && (c->wm[u] & mask)) race(a, n, wr, pc, u, "wrote", c->wpc[u]);
            if (wr && c->r[u] > seen && (c->rm[u] & mask)) race(a, n, wr, pc, u, "read", c->rpc[u]);
            if (k <= WRITE)
            {
                if (c->aw[u] > seen && (c->awm[u] & mask)) race(a, n, wr, pc, u, "atomically wrote", 0);
                if (wr && c->ar[u] > seen && (c->arm[u] & mask)) race(a, n, wr, pc, u, "atomically read", 0);
            }
        }
        Clk now = me.vc.c[t];
        auto put = [&](Clk* cl, uint8_t* m)
        {
            m[t] = cl[t] == now ? m[t] | mask : mask;
            cl[t] = now;
        };
        switch (k)
        {
        case READ:
            put(c->r, c->rm);
            c->rpc[t] = pc_off(pc);
            break;
        case WRITE:
            put(c->w, c->wm);
            c->wpc[t] = pc_off(pc);
            break;
        case AREAD: put(c->ar, c->arm); break;
        case AWRITE: put(c->aw, c->awm); break;
        }
    }
    static inline void record_access(const char* a, size_t n, Acc k, const void* pc)
    {
        if (!S.races) return;
        uintptr_t p = reinterpret_cast<uintptr_t>(a), e = p + n;
        size_t size = n;
        while (p < e)
        {
            uintptr_t g = p >> 3;
            uintptr_t lim = std::min<uintptr_t>(e, (g + 1) << 3);
            uint8_t mask = (uint8_t)(((1u << (lim - p)) - 1) << (p & 7));
            check1(a, g, mask, k, (int)size, pc);
            p = lim;
        }
    }
    static inline void access(const void* addr, size_t n, Acc k, const void* pc)
    {
        if (!live()) return;
        auto a = static_cast<const char*>(addr);
        if (a >= self->lo && a < self->hi) return;
        ++report.accesses;
        bool hot = a >= &__data_start && a < &_end;
        step(k >= AREAD ? Y_SYNC : Y_MEM, hot || k >= AREAD);
        ++t_alloc.pause;
        record_access(a, n, k, pc);
        --t_alloc.pause;
    }

    // ---- happens-before through sync variables -------------------------------------------------------------
    struct SyncVar
    {
        const void* key;
        VC vc;
        // simulated primitive state
        int owner = -1, depth = 0, readers = 0, writer = -1;
        int phase = 0; // once / guard: 0 new, 1 running, 2 done
    };
    static SyncVar* syncs;
    constexpr uint64_t NSYNC = 1 << 14;
    static SyncVar& sv(const void* a)
    {
        uint64_t h = mix(reinterpret_cast<uintptr_t>(a)) & (NSYNC - 1);
        for (;; h = (h + 1) & (NSYNC - 1))
        {
            if (syncs[h].key == a) return syncs[h];
            if (!syncs[h].key)
            {
                syncs[h].key = a;
                syncs[h].owner = syncs[h].writer = -1;
                return syncs[h];
            }
        }
    }
    static void acquire(SyncVar& s) { self->vc.join(s.vc); }
    static void release(SyncVar& s)
    {
        s.vc.join(self->vc);
        ++self->vc.c[self->id];
    }
    static void release_set(SyncVar& s)
    {
        s.vc = self->vc;
        ++self->vc.c[self->id];
    }
    static void sync_point()
    {
        ++report.syncs;
        step(Y_SYNC, true);
    }

    static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
    static bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
    static void at_load(const void* a, size_t n, int mo, const void* pc)
    {
        if (!live()) return;
        if (a >= self->lo && a < self->hi) return;
        access(a, n, AREAD, pc);
        auto& s = sv(a);
        if (is_acq(mo)) acquire(s);
        else self->acq.join(s.vc);
    }
    static void at_store(const void* a, size_t n, int mo, const void* pc)
    {
        if (!live()) return;
        if (a >= self->lo && a < self->hi) return;
        access(a, n, AWRITE, pc);
        auto& s = sv(a);
        if (is_rel(mo)) release_set(s);
        else if (self->has_relf) s.vc = self->relf;
        else s.vc = VC{};
    }
    static void at_rmw(const void* a, size_t n, int mo, const void* pc)
    {
        if (!live()) return;
        if (a >= self->lo && a < self->hi) return;
        access(a, n, AWRITE, pc);
        auto& s = sv(a);
        if (is_acq(mo)) acquire(s);
        else self->acq.join(s.vc);
        if (is_rel(mo)) release(s);
        else if (self->has_relf) s.vc.join(self->relf);
    }

    // ---- running threads -----------------------------------------------------------------------------------
    static void finish()
    {
        Thread& me = *self;
        ++t_alloc.pause;
        me.st = FINISHED;
        SyncVar& s = sv(&me);
        release(s);
        wake_waiters(&me);
        int to = choose(me.id);
        if (to < 0)
            for (auto& t : T)
                if (t.st == BLOCKED && t.timed)
                {
                    t.st = RUNNABLE;
                    t.timed_out = true;
                    to = t.id;
                    break;
                }
        bool done = true;
        for (auto& t : T)
            if (t.st == BLOCKED || t.st == RUNNABLE) done = false;
        if (to < 0 && !done)
        {
            std::string d;
            for (auto& t : T)
                if (t.st == BLOCKED) d += "thread " + std::to_string(t.id) + " in " + t.label + " waits; ";
            violation("threads wait for each other for ever", d);
        }
        if (done)
        {
            active = false;
            self = nullptr;
            wake(main_go);
        }
        else
        {
            pass(to);
            self = nullptr;
        }
        // what the C library still does for this thread happens when nothing else runs
        await(me.out);
        --t_alloc.pause;
    }
    // Thread-local objects of the library are destroyed inside the simulation: this runs after them.
    static pthread_key_t end_key;
    static void at_end(void*)
    {
        t_alloc.armed = false;
        finish();
    }
    static void bounds(Thread& t)
    {
        pthread_attr_t at;
        pthread_getattr_np(pthread_self(), &at);
        void* p;
        size_t n;
        pthread_attr_getstack(&at, &p, &n);
        t.lo = static_cast<char*>(p);
        t.hi = t.lo + n;
        pthread_attr_destroy(&at);
    }
    static void* thread_main(void* p)
    {
        Thread& t = *static_cast<Thread*>(p);
        await(t.go);
        bounds(t);
        self = &t;
        if (t.helper)
        {
            t_label = t.label;
            t_alloc.armed = true;
            t.ret = t.fn(t.arg);
            t_alloc.armed = false;
        }
        else (*body)(t.id);
        t_alloc = sim::AllocSim{};
        t_alloc.armed = true;
        pthread_setspecific(end_key, &t);
        return t.ret;
    }

    void run(int n, const std::function<void(int)>& b, const Sched& s)
    {
        if (!cells)
        {
            cells = static_cast<Cell*>(mmap(nullptr, NCELL * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            syncs = static_cast<SyncVar*>(mmap(nullptr, NSYNC * sizeof(SyncVar), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        }
        static bool made = pthread_key_create(&end_key, at_end) == 0;
        if (!made) abort();
        mallopt(M_ARENA_MAX, 1); // addresses must not depend on real thread timing
        S = s;
        body = &b;
        total = consecutive = 0;
        budget = s.budget;
        rng = Rng(mix(s.seed));
        report = Report{};
        lowprio = 1000;
        changes.clear();
        if (s.mode == "pct")
        {
            for (int i = 0; i < s.depth; ++i) changes.push_back(1 + rng.below(std::max<uint64_t>(s.length, 1)));
            std::sort(changes.rbegin(), changes.rend());
        }
        countdown = geo();
        for (auto& t : T) t = Thread{};
        for (int i = 0; i < n; ++i)
        {
            Thread& t = T[i];
            t.id = i;
            t.st = RUNNABLE;
            t.vc.c[i] = 1;
            t.prio = 2000 + rng.below(1000000);
            for (auto& l : s.list)
                if (l.t == i) t.list.push_back(l);
        }
        for (int i = n; i < MAXT; ++i) T[i].id = i;
        active = true;
        for (int i = 0; i < n; ++i)
        {
            pthread_attr_t at;
            pthread_attr_init(&at);
            pthread_attr_setstacksize(&at, 1 << 20);
            __real_pthread_create(&T[i].handle, &at, thread_main, &T[i]);
            pthread_attr_destroy(&at);
        }
        int first = s.mode == "serial" || s.mode == "list" ? 0 : s.mode == "pct" ? choose(-1) : (int)rng.below((uint64_t)n);
        for (auto& l : s.list)
            if (l.t == -1 && l.to >= 0 && l.to < n) first = l.to;
        report.executed.push_back({-1, 0, first});
        wake(T[first].go);
        await(main_go);
        for (int i = 0; i < n; ++i)
        {
            wake(T[i].out);
            __real_pthread_join(T[i].handle, nullptr);
        }
        active = false;
        report.steps = total;
        for (int i = 0; i < n; ++i) report.per_thread.push_back(T[i].steps);
        report.shared_cells = used_cells;
        report.hash = mix(report.hash ^ total);
    }
}

using namespace sim::rt;
using sim::t_alloc;

// ---- hooks from the seams -----------------------------------------------------------------------------------
extern "C"
{
    void sim_yield(int kind)
    {
        if (live()) step(kind, false);
    }
    void sim_on_alloc(void* p, unsigned long n)
    {
        if (!self || !active || !S.races || !cells) return;
        for (uintptr_t g = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3; g < e; ++g)
            if (Cell* c = cell(g, false))
            {
                uint64_t k = c->key;
                memset(static_cast<void*>(c), 0, sizeof *c);
                c->key = k;
            }
    }
    void sim_on_free(void* p, unsigned long n)
    {
        if (!self || !active || !S.races || !cells) return;
        bool lv = live();
        ++t_alloc.pause;
        for (uintptr_t g = reinterpret_cast<uintptr_t>(p) >> 3, e = (reinterpret_cast<uintptr_t>(p) + n) >> 3; g < e; ++g)
            if (Cell* c = cell(g, false))
            {
                if (lv) check1(static_cast<char*>(p), g, 0xff, WRITE, (int)n, __builtin_return_address(0));
                uint64_t k = c->key;
                memset(static_cast<void*>(c), 0, sizeof *c);
                c->key = k;
            }
        --t_alloc.pause;
    }
}
namespace sim::rt
{
    void set_label(const char* l)
    {
        t_label = l;
        if (self) self->label = l;
    }
}

// ---- instrumentation entry points ---------------------------------------------------------------------------
#define PC __builtin_return_address(0)
#define RW(n)                                                                    \
    void __tsan_read##n(void* a) { access(a, n, READ, PC); }                     \
    void __tsan_write##n(void* a) { access(a, n, WRITE, PC); }                   \
    void __tsan_unaligned_read##n(void* a) { access(a, n, READ, PC); }           \
    void __tsan_unaligned_write##n(void* a) { access(a, n, WRITE, PC); }         \
    void __tsan_volatile_read##n(void* a) { access(a, n, READ, PC); }            \
    void __tsan_volatile_write##n(void* a) { access(a, n, WRITE, PC); }          \
    void __tsan_read_write##n(void* a) { access(a, n, WRITE, PC); }              \
    void __tsan_unaligned_read_write##n(void* a) { access(a, n, WRITE, PC); }
#define AT(bits, type)                                                                                                     \
    type __tsan_atomic##bits##_load(const volatile type* a, int mo)                                                        \
    {                                                                                                                      \
        at_load((const void*)a, sizeof(type), mo, PC);                                                                     \
        return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                       \
    }                                                                                                                      \
    void __tsan_atomic##bits##_store(volatile type* a, type v, int mo)                                                     \
    {                                                                                                                      \
        at_store((const void*)a, sizeof(type), mo, PC);                                                                    \
        __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                          \
    }                                                                                                                      \
    type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo)                                                  \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                      \
    type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo)                                                 \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo)                                                 \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo)                                                 \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo)                                                  \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                                  \
    }                                                                                                                      \
    type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo)                                                 \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                                 \
    }                                                                                                                      \
    type __tsan_atomic##bits##_fetch_nand(volatile type* a, type v, int mo)                                                \
    {                                                                                                                      \
        at_rmw((const void*)a, sizeof(type), mo, PC);                                                                      \
        return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                                \
    }                                                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo)                  \
    {                                                                                                                      \
        if (live()) step(sim::Y_SYNC, true);                                                                               \
        if (__atomic_load_n(a, __ATOMIC_SEQ_CST) == *c)                                                                    \
        {                                                                                                                  \
            ++t_alloc.pause;                                                                                               \
            --t_alloc.pause;                                                                                               \
            cas_done((const void*)a, sizeof(type), mo, true, PC);                                                          \
            __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                      \
            return 1;                                                                                                      \
        }                                                                                                                  \
        cas_done((const void*)a, sizeof(type), fmo, false, PC);                                                            \
        *c = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                         \
        return 0;                                                                                                          \
    }                                                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo)                    \
    {                                                                                                                      \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo);                                            \
    }                                                                                                                      \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo)                     \
    {                                                                                                                      \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo);                                                  \
        return c;                                                                                                          \
    }

// records a compare-exchange without a further scheduling point
static void cas_done(const void* a, size_t n, int mo, bool ok, const void* pc)
{
    if (!live() || (a >= self->lo && a < self->hi)) return;
    ++t_alloc.pause;
    record_access(static_cast<const char*>(a), n, ok ? AWRITE : AREAD, pc);
    auto& s = sv(a);
    if (is_acq(mo)) acquire(s);
    else self->acq.join(s.vc);
    if (ok)
    {
        if (is_rel(mo)) release(s);
        else if (self->has_relf) s.vc.join(self->relf);
    }
    --t_alloc.pause;
}

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
    RW(1)
    RW(2)
    RW(4)
    RW(8)
    RW(16)
    void __tsan_vptr_update(void** a, void* v)
    {
        if (*a != v) access(a, 8, WRITE, PC);
    }
    void __tsan_vptr_read(void** a) { access(a, 8, READ, PC); }
    void __tsan_read_range(void* a, unsigned long n) { access(a, n, READ, PC); }
    void __tsan_write_range(void* a, unsigned long n) { access(a, n, WRITE, PC); }
    void* __tsan_memcpy(void* d, const void* s, size_t n)
    {
        if (n)
        {
            access(s, n, READ, PC);
            access(d, n, WRITE, PC);
        }
        return memcpy(d, s, n);
    }
    void* __tsan_memmove(void* d, const void* s, size_t n)
    {
        if (n)
        {
            access(s, n, READ, PC);
            access(d, n, WRITE, PC);
        }
        return memmove(d, s, n);
    }
    void* __tsan_memset(void* d, int v, size_t n)
    {
        if (n) access(d, n, WRITE, PC);
        return memset(d, v, n);
    }
    AT(8, uint8_t)
    AT(16, uint16_t)
    AT(32, uint32_t)
    AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int mo)
    {
        if (!live()) return;
        step(sim::Y_SYNC, true);
        if (is_acq(mo)) self->vc.join(self->acq);
        if (is_rel(mo))
        {
            self->relf = self->vc;
            self->has_relf = true;
            ++self->vc.c[self->id];
        }
    }
    void __tsan_atomic_signal_fence(int) {}

    // ---- synchronisation primitives ------------------------------------------------------------------------
    static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
    static bool simulated() { return self && active; }

    static void lock_mutex(pthread_mutex_t* m)
    {
        for (;;)
        {
            auto& s = sv(m);
            if (s.owner < 0)
            {
                s.owner = self->id;
                s.depth = 1;
                acquire(s);
                return;
            }
            if (s.owner == self->id && recursive(m))
            {
                ++s.depth;
                return;
            }
            block_on(m);
        }
    }
    static void unlock_mutex(pthread_mutex_t* m)
    {
        auto& s = sv(m);
        if (--s.depth > 0) return;
        s.depth = 0;
        s.owner = -1;
        release(s);
        wake_waiters(m);
    }
    int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
    {
        if (!simulated()) return __real_pthread_mutex_lock(m);
        if (live()) sync_point();
        lock_mutex(m);
        return 0;
    }
    int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!simulated()) return __real_pthread_mutex_trylock(m);
        if (live()) sync_point();
        auto& s = sv(m);
        if (s.owner >= 0 && !(s.owner == self->id && recursive(m))) return EBUSY;
        lock_mutex(m);
        return 0;
    }
    int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
    {
        if (!simulated()) return __real_pthread_mutex_unlock(m);
        unlock_mutex(m);
        if (live()) sync_point();
        return 0;
    }
    static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
    {
        if (live()) sync_point();
        unlock_mutex(m);
        block_on(c, timed);
        bool to = self->timed_out;
        self->timed_out = false;
        acquire(sv(c));
        lock_mutex(m);
        return to ? ETIMEDOUT : 0;
    }
    int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!simulated()) return __real_pthread_cond_wait(c, m);
        return cond_wait(c, m, false);
    }
    int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    {
        if (!simulated()) return __real_pthread_cond_timedwait(c, m, t);
        return cond_wait(c, m, true);
    }
    int __wrap_pthread_cond_signal(pthread_cond_t* c)
    {
        if (!simulated()) return __real_pthread_cond_signal(c);
        release(sv(c));
        wake_waiters(c, 1);
        if (live()) sync_point();
        return 0;
    }
    int __wrap_pthread_cond_broadcast(pthread_cond_t* c)
    {
        if (!simulated()) return __real_pthread_cond_broadcast(c);
        release(sv(c));
        wake_waiters(c);
        if (live()) sync_point();
        return 0;
    }
    int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l)
    {
        if (!simulated()) return __real_pthread_rwlock_rdlock(l);
        if (live()) sync_point();
        while (sv(l).writer >= 0) block_on(l);
        ++sv(l).readers;
        acquire(sv(l));
        return 0;
    }
    int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l)
    {
        if (!simulated()) return __real_pthread_rwlock_wrlock(l);
        if (live()) sync_point();
        while (sv(l).writer >= 0 || sv(l).readers > 0) block_on(l);
        sv(l).writer = self->id;
        acquire(sv(l));
        return 0;
    }
    int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
    {
        if (!simulated()) return __real_pthread_rwlock_tryrdlock(l);
        if (live()) sync_point();
        if (sv(l).writer >= 0) return EBUSY;
        ++sv(l).readers;
        acquire(sv(l));
        return 0;
    }
    int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l)
    {
        if (!simulated()) return __real_pthread_rwlock_trywrlock(l);
        if (live()) sync_point();
        if (sv(l).writer >= 0 || sv(l).readers > 0) return EBUSY;
        sv(l).writer = self->id;
        acquire(sv(l));
        return 0;
    }
    int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l)
    {
        if (!simulated()) return __real_pthread_rwlock_unlock(l);
        auto& s = sv(l);
        if (s.writer == self->id) s.writer = -1;
        else if (s.readers > 0) --s.readers;
        release(s);
        wake_waiters(l);
        if (live()) sync_point();
        return 0;
    }
    int __wrap_pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!simulated()) return __real_pthread_once(o, f);
        if (live()) sync_point();
        if (*o == 2) return 0; // done before the threads started (glibc's mark)
        for (;;)
        {
            auto& s = sv(o);
            if (s.phase == 2)
            {
                acquire(s);
                return 0;
            }
            if (s.phase == 0)
            {
                s.phase = 1;
                f();
                sv(o).phase = 2;
                release(sv(o));
                wake_waiters(o);
                *o = 2;
                return 0;
            }
            block_on(o);
        }
    }
    int __wrap___cxa_guard_acquire(uint64_t* g)
    {
        if (!simulated()) return __real___cxa_guard_acquire(g);
        if (live()) sync_point();
        for (;;)
        {
            auto& s = sv(g);
            if (*reinterpret_cast<unsigned char*>(g))
            {
                acquire(s);
                return 0;
            }
            if (s.phase != 1)
            {
                s.phase = 1;
                acquire(s);
                return 1;
            }
            block_on(g);
        }
    }
    void __wrap___cxa_guard_release(uint64_t* g)
    {
        if (!simulated()) return __real___cxa_guard_release(g);
        auto& s = sv(g);
        *reinterpret_cast<unsigned char*>(g) = 1;
        s.phase = 2;
        release(s);
        wake_waiters(g);
        if (live()) sync_point();
    }
    void __wrap___cxa_guard_abort(uint64_t* g)
    {
        if (!simulated()) return __real___cxa_guard_abort(g);
        auto& s = sv(g);
        s.phase = 0;
        release(s);
        wake_waiters(g);
    }
    // libc++'s own code is not instrumented: what it orders through a once-flag or a weak count is told here
    struct OnceCall
    {
        void (*f)(void*);
        void* arg;
        const void* flag;
    };
    static void once_call(void* p)
    {
        auto c = static_cast<OnceCall*>(p);
        c->f(c->arg);
        if (simulated()) release(sv(c->flag)); // the fast path's acquire load meets this
    }
    void __real__ZNSt3__111__call_onceERVmPvPFvS2_E(volatile unsigned long* flag, void* arg, void (*f)(void*));
    void __wrap__ZNSt3__111__call_onceERVmPvPFvS2_E(volatile unsigned long* flag, void* arg, void (*f)(void*))
    {
        if (!simulated()) return __real__ZNSt3__111__call_onceERVmPvPFvS2_E(flag, arg, f);
        OnceCall c{f, arg, const_cast<const unsigned long*>(flag)};
        __real__ZNSt3__111__call_onceERVmPvPFvS2_E(flag, &c, once_call);
        if (simulated()) acquire(sv(const_cast<const unsigned long*>(flag)));
    }
    void __real__ZNSt3__119__shared_weak_count14__release_weakEv(void* c);
    void __wrap__ZNSt3__119__shared_weak_count14__release_weakEv(void* c)
    {
        if (simulated())
        {
            auto& s = sv(static_cast<char*>(c) + 16); // the weak count
            acquire(s);
            release(s);
        }
        __real__ZNSt3__119__shared_weak_count14__release_weakEv(c);
    }
    void* __real__ZNSt3__119__shared_weak_count4lockEv(void* c);
    void* __wrap__ZNSt3__119__shared_weak_count4lockEv(void* c)
    {
        void* r = __real__ZNSt3__119__shared_weak_count4lockEv(c);
        if (r && simulated())
        {
            auto& s = sv(static_cast<char*>(c) + 8); // the shared count
            acquire(s);
            release(s);
        }
        return r;
    }
    // process-wide state: 0 locale, 1 strtok, 2 directory, 3 mask, 4 environment, 5 random, 6 buffers, 7 signals
#define PSTATE(i, k) \
    if (live() && !t_alloc.pause) access(&process_state[8 * (i)], 8, k, __builtin_return_address(0))
#define WRAP(i, k, ret, name, params, args) \
    ret __real_##name params; \
    ret __wrap_##name params \
    { \
        PSTATE(i, k); \
        return __real_##name args; \
    }
    void* __real__ZNSt3__16locale6globalERKS0_(void* r, const void* l);
    void* __wrap__ZNSt3__16locale6globalERKS0_(void* r, const void* l)
    {
        PSTATE(0, WRITE);
        return __real__ZNSt3__16locale6globalERKS0_(r, l);
    }
    void __real__ZNSt3__16localeC1Ev(void* t);
    void __wrap__ZNSt3__16localeC1Ev(void* t)
    {
        PSTATE(0, READ);
        __real__ZNSt3__16localeC1Ev(t);
    }
    void __real__ZNSt3__16localeC2Ev(void* t);
    void __wrap__ZNSt3__16localeC2Ev(void* t)
    {
        PSTATE(0, READ);
        __real__ZNSt3__16localeC2Ev(t);
    }
    char* __real_setlocale(int c, const char* l);
    char* __wrap_setlocale(int c, const char* l)
    {
        if (l) { PSTATE(0, WRITE); }
        else { PSTATE(0, READ); }
        return __real_setlocale(c, l);
    }
    WRAP(0, READ, lconv*, localeconv, (), ())
    WRAP(0, READ, double, strtod, (const char* a, char** b), (a, b))
    WRAP(0, READ, double, atof, (const char* a), (a))
    WRAP(1, WRITE, char*, strtok, (char* a, const char* b), (a, b))
    WRAP(2, WRITE, int, chdir, (const char* a), (a))
    WRAP(2, READ, char*, getcwd, (char* a, size_t n), (a, n))
    WRAP(3, WRITE, mode_t, umask, (mode_t m), (m))
    WRAP(4, WRITE, int, setenv, (const char* a, const char* b, int c), (a, b, c))
    WRAP(4, WRITE, int, unsetenv, (const char* a), (a))
    WRAP(4, WRITE, int, putenv, (char* a), (a))
    WRAP(4, READ, char*, getenv, (const char* a), (a))
    WRAP(5, WRITE, double, drand48, (), ())
    WRAP(5, WRITE, void, srand48, (long a), (a))
    WRAP(6, WRITE, char*, tmpnam, (char* a), (a))
    WRAP(6, WRITE, tm*, localtime, (const time_t* a), (a))
    WRAP(6, WRITE, tm*, gmtime, (const time_t* a), (a))
    WRAP(6, WRITE, char*, ctime, (const time_t* a), (a))
    WRAP(6, WRITE, char*, asctime, (const tm* a), (a))

    int __wrap_sched_yield()
    {
        if (!simulated()) return __real_sched_yield();
        if (live())
        {
            sync_point();
            give_way(true);
        }
        return 0;
    }
    int __wrap_nanosleep(const timespec* a, timespec* b)
    {
        if (!simulated()) return __real_nanosleep(a, b);
        sim::g_clock += a->tv_sec * 1000000000ll + a->tv_nsec;
        return __wrap_sched_yield();
    }
    int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
    {
        if (!simulated()) return __real_clock_nanosleep(c, f, a, b);
        sim::g_clock += 1000000;
        return __wrap_sched_yield();
    }
    int __wrap_usleep(useconds_t u)
    {
        if (!simulated()) return __real_usleep(u);
        sim::g_clock += int64_t(u) * 1000;
        return __wrap_sched_yield();
    }
    long __wrap_syscall(long n, long a, long b, long c, long d, long e, long f)
    {
        if (simulated() && n == SYS_futex)
        {
            // waits return at once and are tried again: a spurious wake-up
            int op = int(b) & 127;
            __wrap_sched_yield();
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
            {
                errno = EAGAIN;
                return -1;
            }
            return 0;
        }
        return __real_syscall(n, a, b, c, d, e, f);
    }
    int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
    {
        if (!simulated()) return __real_pthread_create(h, at, fn, arg);
        Thread* t = nullptr;
        for (auto& x : T)
            if (x.st == FREE || (x.st == FINISHED && x.helper && x.joined))
            {
                t = &x;
                break;
            }
        if (!t) return EAGAIN;
        uint32_t old = t->vc.c[t->id];
        int id = t->id;
        *t = Thread{};
        t->id = id;
        t->helper = true;
        t->fn = fn;
        t->arg = arg;
        t->label = self->label;
        t->vc = self->vc;
        t->vc.c[id] = std::max(old, t->vc.c[id]) + 1;
        t->prio = 2000 + sim::mix(uint64_t(id) + S.seed) % 1000000;
        for (auto& l : S.list)
            if (l.t == id) t->list.push_back(l);
        ++self->vc.c[self->id];
        ++t_alloc.pause;
        int r = __real_pthread_create(&t->handle, nullptr, thread_main, t);
        --t_alloc.pause;
        if (r) return r;
        t->st = RUNNABLE;
        *h = t->handle;
        if (live()) sync_point();
        return 0;
    }
    int __wrap_pthread_join(pthread_t h, void** ret)
    {
        if (!simulated()) return __real_pthread_join(h, ret);
        for (auto& t : T)
            if (t.helper && !t.joined && (t.st != FREE) && pthread_equal(t.handle, h))
            {
                if (live()) sync_point();
                while (t.st != FINISHED) block_on(&t);
                acquire(sv(&t));
                t.joined = true;
                wake(t.out);
                return __real_pthread_join(h, ret);
            }
        return __real_pthread_join(h, ret);
    }
    int __wrap_pthread_detach(pthread_t h)
    {
        if (simulated())
            for (auto& t : T)
                if (t.helper && pthread_equal(t.handle, h))
                {
                    t.joined = true;
                    wake(t.out);
                }
        return __real_pthread_detach(h);
    }
}
