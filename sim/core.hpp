// Property table and process-level helpers of the simulator.
#pragma once
#include "util.hpp"
#include <algorithm>
#include <functional>

namespace sim
{
    struct Prop
    {
        const char* id;
        Plan (*gen)(Rng& r, uint64_t run);
        void (*exec)(const Plan& p);
    };
    const Prop* find_prop(const std::string& id);

    // Runs f in a fork of the calling process. What f returns comes back as a byte string. `crashed` tells
    // that the process ended in any other way; `how` says how (sanitizer report, signal, exit code).
    struct ForkResult
    {
        bool crashed = false;
        std::string how;
        std::string data;
        int exit_code = 0;
    };
    ForkResult in_fork(const std::function<std::string()>& f, int cpu_seconds = 20);

    // Scratch directory of this run (made by the driver, emptied before each run).
    extern std::string scratch;
    void clear_scratch();
    void make_dirs(); // the directories some file names need
    int open_files(); // of this process, as the system counts them
    std::string slurp(const std::string& path, bool* ok = nullptr);
    void spill(const std::string& path, const std::string& data);

    std::string hex64(uint64_t v);

    // What the run is doing, visible to the parent: a run that dies while it only makes undisturbed calls
    // (phase 'u') tells nothing about the property and is discarded.
    extern volatile char* g_phase;
}

namespace sim
{
    struct Reg
    {
        explicit Reg(Prop p);
    };
}
