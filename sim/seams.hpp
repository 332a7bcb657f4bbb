// Link-time seams: memory and files. All state is per thread, so that simulated threads have their own faults.
#pragma once
#include "util.hpp"

namespace sim
{
    // ---- memory -----------------------------------------------------------------------------------------
    struct AllocSim
    {
        bool armed = false;     // library code is running under the simulator
        int pause = 0;          // > 0: harness code called back from library code
        int64_t count = 0;      // allocations asked for while armed
        int64_t fail_at = 0;    // 1-based index of the allocation to refuse, 0: none
        bool persistent = false; // refuse every one from fail_at on
        int64_t fail_times = 1;
        int64_t refused = 0;
        int64_t live = 0, live_bytes = 0, peak_bytes = 0; // net of what was freed, while armed
        uint64_t cap = 0;       // refuse to go over this many live bytes and note it
        uint64_t over_cap = 0;  // size of the request that went over
    };
    extern thread_local AllocSim t_alloc;
    extern int64_t g_live, g_live_bytes; // of the whole process, always counted
    extern unsigned char g_fill; // pattern new memory is filled with (0: none)
    extern bool g_fill_on;
    extern int64_t g_clock; // simulated clock and entropy, as library code sees them

    // RAII: harness code (stream callbacks, bookkeeping) inside a library call
    struct Pause
    {
        Pause() { ++t_alloc.pause; }
        ~Pause() { --t_alloc.pause; }
    };

    // ---- files ------------------------------------------------------------------------------------------
    struct FileSim
    {
        bool active = false;
        // faults, configured per call
        int open_errno = 0;        // refuse opens
        int64_t open_skip = 0;     // let this many opens pass first
        int64_t wr_limit = -1;     // bytes accepted before writes are refused
        int wr_errno = 28;         // ENOSPC
        bool wr_oneshot = false;   // only one write is refused
        int64_t wr_chunk = 0;      // > 0: short writes of at most this many bytes (fd level)
        bool close_fail = false;
        bool sync_fail = false;
        bool rename_fail = false;
        int64_t rd_limit = -1;     // bytes handed out before reads fail
        int64_t rd_chunk = 0;      // hand out at most this many bytes per read
        // process death
        int64_t crash_byte = -1;   // after this many bytes reached the storage
        int crash_open = 0;        // 1: before the open takes effect, 2: right after it
        bool crash_close = false;
        bool crash_rename = false;
        // what happened
        int64_t wr_done = 0, rd_done = 0, rd_refused = 0;
        int opens = 0, open_handles = 0, refused = 0, close_refused = 0;
        bool wr_shot = false;
        std::string last_refusal;
    };
    extern thread_local FileSim t_file;
    constexpr int CRASH_EXIT = 77;

    // Runs library code under the memory seam.
    struct Armed
    {
        Armed()
        {
            t_alloc.armed = true;
            t_alloc.pause = 0;
        }
        ~Armed() { t_alloc.armed = false; }
        Armed(const Armed&) = delete;
    };
    inline void alloc_reset(int64_t fail_at = 0, bool persistent = false, uint64_t cap = 0)
    {
        bool a = t_alloc.armed;
        t_alloc = AllocSim{};
        t_alloc.armed = a;
        t_alloc.fail_at = fail_at;
        t_alloc.persistent = persistent;
        t_alloc.cap = cap;
    }

    // Hooks the threaded build fills in (weak no-ops otherwise).
    enum YieldKind { Y_ALLOC = 1, Y_IO = 2, Y_STREAM = 3, Y_SYNC = 4, Y_MEM = 5 };
}
extern "C"
{
    void sim_yield(int kind);
    void sim_on_alloc(void* p, unsigned long n);
    void sim_on_free(void* p, unsigned long n);
}
