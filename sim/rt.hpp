// Simulated threads: real threads, exactly one of which runs at any time; who runs next is decided here.
#pragma once
#include "util.hpp"
#include <functional>

namespace sim::rt
{
    struct Pre // thread t, having made `at` steps of its own, gives way to thread `to`
    {
        int t;
        uint64_t at;
        int to;
    };
    struct Sched
    {
        // serial: threads run one after the other; list: exactly the given switches; random, sync, hot, pct: seeded
        std::string mode = "serial";
        uint64_t seed = 1;
        double mean = 100; // mean distance of switches
        int depth = 3;     // pct: number of priority changes
        uint64_t length = 10000; // pct: expected number of steps
        std::vector<Pre> list;
        uint64_t budget = 50000000;
        bool races = true;
    };
    struct Report
    {
        uint64_t steps = 0, switches = 0, forced = 0;
        std::vector<uint64_t> per_thread;
        std::vector<Pre> executed;
        uint64_t hash = 1;
        uint64_t accesses = 0, shared_cells = 0, syncs = 0, blocks = 0;
    };
    extern Report report;
    // called inside a simulated thread when the run violates (race, deadlock, no progress); must not return
    extern void (*on_violation)(const std::string& cls, const std::string& detail);
    // label of what thread t is doing, for reports
    extern thread_local const char* t_label;
    void set_label(const char* l);
    void run(int n, const std::function<void(int)>& body, const Sched& s);
}
