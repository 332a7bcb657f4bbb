#include "seams.hpp"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <malloc.h>
#include <new>
#include <stdio.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace sim
{
    thread_local AllocSim t_alloc;
    thread_local FileSim t_file;
    int64_t g_live, g_live_bytes;
    unsigned char g_fill = 0;
    bool g_fill_on = false;
    int64_t g_clock = 1;
}

#ifndef SIM_THREADS
extern "C"
{
    void sim_yield(int) {}
    void sim_on_alloc(void*, unsigned long) {}
    void sim_on_free(void*, unsigned long) {}
}
#endif

extern "C"
{
    void* __real_malloc(size_t);
    void* __real_calloc(size_t, size_t);
    void* __real_realloc(void*, size_t);
    void __real_free(void*);
    int __real_posix_memalign(void**, size_t, size_t);
    void* __real_aligned_alloc(size_t, size_t);
}

namespace
{
    bool live_code() { return t_alloc.armed && t_alloc.pause == 0; }

    // the C++ runtime's own memory for exceptions: never refused (its emergency pool is not what is being tested)
    thread_local int t_exempt = 0;

    // true: this request must be refused
    bool refuse(size_t n)
    {
        if (!live_code()) return false;
        if (t_exempt) return false;
        sim_yield(Y_ALLOC);
        auto& a = t_alloc;
        ++a.count;
        if (a.fail_at && (a.count == a.fail_at || (a.persistent && a.count >= a.fail_at)))
        {
            ++a.refused;
            return true;
        }
        if (a.cap && n > a.cap && a.live_bytes + (int64_t)n > (int64_t)a.cap)
        {
            if (n > a.over_cap) a.over_cap = n;
            return true;
        }
        if (a.cap && a.live_bytes + (int64_t)n > (int64_t)a.cap)
        {
            if (!a.over_cap) a.over_cap = uint64_t(a.live_bytes) + n;
            return true;
        }
        return false;
    }
    void* gained(void* p, size_t n)
    {
        if (!p) return p;
        ++g_live;
        g_live_bytes += (int64_t)malloc_usable_size(p);
        if (live_code())
        {
            auto& a = t_alloc;
            ++a.live;
            a.live_bytes += (int64_t)malloc_usable_size(p);
            if (a.live_bytes > a.peak_bytes) a.peak_bytes = a.live_bytes;
        }
        if (g_fill_on && live_code()) memset(p, g_fill, n);
        sim_on_alloc(p, n);
        return p;
    }
    void lost(void* p)
    {
        if (!p) return;
        --g_live;
        g_live_bytes -= (int64_t)malloc_usable_size(p);
        if (live_code())
        {
            sim_yield(Y_ALLOC);
            auto& a = t_alloc;
            --a.live;
            a.live_bytes -= (int64_t)malloc_usable_size(p);
        }
        sim_on_free(p, malloc_usable_size(p));
    }
}

extern "C"
{
    void* __wrap_malloc(size_t n)
    {
        if (refuse(n))
        {
            errno = ENOMEM;
            return nullptr;
        }
        return gained(__real_malloc(n), n);
    }
    void* __wrap_calloc(size_t a, size_t b)
    {
        if (refuse(a * b))
        {
            errno = ENOMEM;
            return nullptr;
        }
        void* p = __real_calloc(a, b);
        bool f = g_fill_on;
        g_fill_on = false;
        p = gained(p, a * b);
        g_fill_on = f;
        return p;
    }
    void* __wrap_realloc(void* o, size_t n)
    {
        if (refuse(n))
        {
            errno = ENOMEM;
            return nullptr;
        }
        lost(o);
        bool f = g_fill_on;
        g_fill_on = false;
        void* p = gained(__real_realloc(o, n), n);
        g_fill_on = f;
        return p;
    }
    void __wrap_free(void* p)
    {
        lost(p);
        __real_free(p);
    }
    int __wrap_posix_memalign(void** o, size_t al, size_t n)
    {
        if (refuse(n)) return ENOMEM;
        int r = __real_posix_memalign(o, al, n);
        if (r == 0) gained(*o, n);
        return r;
    }
    int __wrap___vasprintf_chk(char** o, int, const char* fmt, va_list ap)
    {
        if (refuse(64)) return -1;
        int r = vasprintf(o, fmt, ap);
        if (r >= 0)
        {
            bool f = g_fill_on;
            g_fill_on = false;
            gained(*o, size_t(r) + 1);
            g_fill_on = f;
        }
        return r;
    }
    void* __wrap_aligned_alloc(size_t al, size_t n)
    {
        if (refuse(n))
        {
            errno = ENOMEM;
            return nullptr;
        }
        return gained(__real_aligned_alloc(al, n), n);
    }
}

extern "C"
{
    void* __real___cxa_allocate_exception(size_t) noexcept;
    void* __wrap___cxa_allocate_exception(size_t n) noexcept
    {
        ++t_exempt;
        void* p = __real___cxa_allocate_exception(n);
        --t_exempt;
        return p;
    }
    void* __real___cxa_allocate_dependent_exception() noexcept;
    void* __wrap___cxa_allocate_dependent_exception() noexcept
    {
        ++t_exempt;
        void* p = __real___cxa_allocate_dependent_exception();
        --t_exempt;
        return p;
    }
    void* __real___cxa_get_globals() noexcept;
    void* __wrap___cxa_get_globals() noexcept
    {
        ++t_exempt;
        void* p = __real___cxa_get_globals();
        --t_exempt;
        return p;
    }
}

static void* op_new(size_t n)
{
    if (n == 0) n = 1;
    if (refuse(n)) throw std::bad_alloc();
    void* p = __real_malloc(n);
    if (!p) throw std::bad_alloc();
    return gained(p, n);
}
static void* op_new_al(size_t n, size_t al)
{
    if (n == 0) n = 1;
    if (refuse(n)) throw std::bad_alloc();
    void* p = nullptr;
    if (al < sizeof(void*)) al = sizeof(void*);
    if (__real_posix_memalign(&p, al, n) != 0) throw std::bad_alloc();
    return gained(p, n);
}
void* operator new(size_t n) { return op_new(n); }
void* operator new[](size_t n) { return op_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return op_new(n);
    }
    catch (...)
    {
        return nullptr;
    }
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t a) { return op_new_al(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return op_new_al(n, size_t(a)); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept
{
    try
    {
        return op_new_al(n, size_t(a));
    }
    catch (...)
    {
        return nullptr;
    }
}
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t& t) noexcept { return operator new(n, a, t); }
static void op_del(void* p)
{
    lost(p);
    __real_free(p);
}
void operator delete(void* p) noexcept { op_del(p); }
void operator delete[](void* p) noexcept { op_del(p); }
void operator delete(void* p, size_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t) noexcept { op_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, std::align_val_t, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t, const std::nothrow_t&) noexcept { op_del(p); }

// ---- clock and entropy ------------------------------------------------------------------------------------
extern "C"
{
    int __real_clock_gettime(clockid_t, timespec*);
    int __real_gettimeofday(timeval*, void*);
    time_t __real_time(time_t*);
    ssize_t __real_getrandom(void*, size_t, unsigned);
    int __real_getentropy(void*, size_t);
}
namespace
{
    void entropy(void* b, size_t n)
    {
        auto p = static_cast<unsigned char*>(b);
        for (size_t i = 0; i < n; ++i) p[i] = (unsigned char)mix(uint64_t(++g_clock));
    }
}
extern "C"
{
    int __wrap_clock_gettime(clockid_t c, timespec* t)
    {
        if (!live_code()) return __real_clock_gettime(c, t);
        g_clock += 1 + int64_t(mix(uint64_t(g_clock)) % 50000000);
        *t = timespec{1700000000 + g_clock / 1000000000, g_clock % 1000000000};
        return 0;
    }
    int __wrap_gettimeofday(timeval* t, void* z)
    {
        if (!live_code()) return __real_gettimeofday(t, z);
        timespec s;
        __wrap_clock_gettime(CLOCK_REALTIME, &s);
        *t = timeval{s.tv_sec, s.tv_nsec / 1000};
        return 0;
    }
    time_t __wrap_time(time_t* t)
    {
        if (!live_code()) return __real_time(t);
        timespec s;
        __wrap_clock_gettime(CLOCK_REALTIME, &s);
        if (t) *t = s.tv_sec;
        return s.tv_sec;
    }
    ssize_t __wrap_getrandom(void* b, size_t n, unsigned f)
    {
        if (!live_code()) return __real_getrandom(b, n, f);
        entropy(b, n);
        return (ssize_t)n;
    }
    int __wrap_getentropy(void* b, size_t n)
    {
        if (!live_code()) return __real_getentropy(b, n);
        entropy(b, n);
        return 0;
    }
}

// ---- files ----------------------------------------------------------------------------------------------
extern "C"
{
    FILE* __real_fopen(const char*, const char*);
    int __real_open(const char*, int, ...);
    int __real_openat(int, const char*, int, ...);
    int __real_creat(const char*, mode_t);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    int __real_close(int);
    int __real_rename(const char*, const char*);
    int __real_fsync(int);
    FILE* __real_fdopen(int, const char*);
    int __real_mkstemp(char*);
    void* __real_mmap(void*, size_t, int, int, int, off_t);
    int __real_munmap(void*, size_t);
    int __real_fdatasync(int);
    int __real_fileno(FILE*);
}

namespace
{
    constexpr int MAXFD = 1024;
    bool simfd[MAXFD], rndfd[MAXFD];
    struct Cookie
    {
        int fd;
        bool used;
        FILE* f;
    };
    Cookie cookies[64];

    [[noreturn]] void die() { _exit(CRASH_EXIT); }

    void refused(const char* what)
    {
        ++t_file.refused;
        if (t_alloc.pause == 0)
        {
            Pause p;
            t_file.last_refusal = what;
        }
    }

    // the storage: how many of n bytes go through; -1 refused
    ssize_t store(int fd, const char* b, size_t n)
    {
        auto& f = t_file;
        size_t take = n;
        if (f.wr_limit >= 0 && !(f.wr_oneshot && f.wr_shot))
        {
            int64_t room = f.wr_limit - f.wr_done;
            if (room <= 0)
            {
                f.wr_shot = true;
                refused("write");
                errno = f.wr_errno;
                return -1;
            }
            if ((int64_t)take > room) take = (size_t)room;
        }
        if (f.wr_chunk > 0 && (int64_t)take > f.wr_chunk) take = (size_t)f.wr_chunk;
        bool crash = false;
        if (f.crash_byte >= 0 && f.wr_done + (int64_t)take >= f.crash_byte)
        {
            take = (size_t)(f.crash_byte - f.wr_done);
            crash = true;
        }
        ssize_t r = take ? __real_write(fd, b, take) : 0;
        if (r < 0) return r;
        f.wr_done += r;
        if (crash) die();
        return r;
    }
    ssize_t fetch(int fd, char* b, size_t n)
    {
        auto& f = t_file;
        if (f.rd_limit >= 0)
        {
            int64_t room = f.rd_limit - f.rd_done;
            if (room <= 0)
            {
                ++f.rd_refused;
                refused("read");
                errno = EIO;
                return -1;
            }
            if ((int64_t)n > room) n = (size_t)room;
        }
        if (f.rd_chunk > 0 && (int64_t)n > f.rd_chunk) n = (size_t)f.rd_chunk;
        ssize_t r = __real_read(fd, b, n);
        if (r > 0) f.rd_done += r;
        return r;
    }
    bool on_open()
    {
        auto& f = t_file;
        sim_yield(Y_IO);
        if (f.crash_open == 1) die();
        if (f.open_errno && f.open_skip-- <= 0)
        {
            refused("open");
            errno = f.open_errno;
            return false;
        }
        return true;
    }
    void opened(int fd)
    {
        if (fd < 0) return;
        ++t_file.opens;
        ++t_file.open_handles;
        if (fd < MAXFD) simfd[fd] = true;
        if (t_file.crash_open == 2) die();
    }
    int on_close(int fd)
    {
        sim_yield(Y_IO);
        if (t_file.crash_close) die();
        if (fd >= 0 && fd < MAXFD) simfd[fd] = false;
        --t_file.open_handles;
        int r = __real_close(fd);
        if (t_file.close_fail)
        {
            ++t_file.close_refused;
            refused("close");
            errno = EIO;
            return -1;
        }
        return r;
    }
    ssize_t ck_read(void* c, char* b, size_t n)
    {
        sim_yield(Y_IO);
        return fetch(static_cast<Cookie*>(c)->fd, b, n);
    }
    ssize_t ck_write(void* c, const char* b, size_t n)
    {
        sim_yield(Y_IO);
        size_t done = 0;
        while (done < n)
        {
            ssize_t r = store(static_cast<Cookie*>(c)->fd, b + done, n - done);
            if (r <= 0) break;
            done += (size_t)r;
        }
        return (ssize_t)done;
    }
    int ck_seek(void* c, off64_t* off, int whence)
    {
        off64_t r = lseek64(static_cast<Cookie*>(c)->fd, *off, whence);
        if (r < 0) return -1;
        *off = r;
        return 0;
    }
    int ck_close(void* c)
    {
        auto k = static_cast<Cookie*>(c);
        int r = on_close(k->fd);
        k->used = false;
        return r;
    }

    int flags_of(const char* m)
    {
        bool plus = strchr(m, '+') != nullptr;
        int f = 0;
        switch (m[0])
        {
        case 'r': f = plus ? O_RDWR : O_RDONLY; break;
        case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: return -1;
        }
        if (strchr(m, 'x')) f |= O_EXCL;
        return f | O_CLOEXEC;
    }
}

extern "C"
{
    FILE* __wrap_fopen(const char* path, const char* mode)
    {
        if (!t_file.active || t_alloc.pause) return __real_fopen(path, mode);
        if (!on_open()) return nullptr;
        int fl = flags_of(mode);
        int fd = __real_open(path, fl, 0600);
        if (fd < 0) return nullptr;
        opened(fd);
        Cookie* c = nullptr;
        for (auto& k : cookies)
            if (!k.used)
            {
                c = &k;
                break;
            }
        if (!c) abort();
        *c = {fd, true, nullptr};
        c->f = fopencookie(c, mode, cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close});
        return c->f;
    }
    FILE* __wrap_fdopen(int fd, const char* mode)
    {
        if (fd < 0 || fd >= MAXFD || !simfd[fd]) return __real_fdopen(fd, mode);
        for (auto& k : cookies)
            if (!k.used)
            {
                k = {fd, true, nullptr};
                k.f = fopencookie(&k, mode, cookie_io_functions_t{ck_read, ck_write, ck_seek, ck_close});
                return k.f;
            }
        abort();
    }
    int __wrap_mkstemp(char* t)
    {
        if (!t_file.active || t_alloc.pause) return __real_mkstemp(t);
        if (!on_open()) return -1;
        size_t n = strlen(t);
        if (n < 6) return errno = EINVAL, -1;
        int fd = -1;
        for (int i = 0; i < 100000 && fd < 0; ++i)
        {
            char b[8];
            snprintf(b, sizeof b, "%06d", i);
            memcpy(t + n - 6, b, 6);
            fd = __real_open(t, O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC, 0600);
            if (fd < 0 && errno != EEXIST) return -1;
        }
        opened(fd);
        return fd;
    }
    // mapped memory counts as memory held
    void* __wrap_mmap(void* a, size_t n, int p, int f, int fd, off_t o)
    {
        void* r = __real_mmap(a, n, p, f, fd, o);
        if (live_code() && r != MAP_FAILED) sim::g_live += 1, sim::g_live_bytes += (int64_t)n;
        return r;
    }
    void* __wrap_mmap64(void* a, size_t n, int p, int f, int fd, off_t o) { return __wrap_mmap(a, n, p, f, fd, o); }
    int __wrap_munmap(void* a, size_t n)
    {
        int r = __real_munmap(a, n);
        if (live_code() && r == 0) sim::g_live -= 1, sim::g_live_bytes -= (int64_t)n;
        return r;
    }
    FILE* __wrap_fopen64(const char* path, const char* mode) { return __wrap_fopen(path, mode); }
    int __wrap_fileno(FILE* f)
    {
        for (auto& k : cookies)
            if (k.used && k.f == f) return k.fd;
        return __real_fileno(f);
    }
    static int do_open(int at, const char* path, int flags, int mode)
    {
        if (live_code() && (strcmp(path, "/dev/urandom") == 0 || strcmp(path, "/dev/random") == 0))
        {
            int fd = __real_openat(at, path, flags, mode);
            if (fd >= 0 && fd < MAXFD) rndfd[fd] = true;
            return fd;
        }
        if (!t_file.active || t_alloc.pause) return __real_openat(at, path, flags, mode);
        if (!on_open()) return -1;
        int fd = __real_openat(at, path, flags, mode);
        opened(fd);
        return fd;
    }
    int __wrap_open(const char* path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int m = va_arg(ap, int);
        va_end(ap);
        return do_open(AT_FDCWD, path, flags, m);
    }
    int __wrap_open64(const char* path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int m = va_arg(ap, int);
        va_end(ap);
        return do_open(AT_FDCWD, path, flags, m);
    }
    int __wrap_openat(int at, const char* path, int flags, ...)
    {
        va_list ap;
        va_start(ap, flags);
        int m = va_arg(ap, int);
        va_end(ap);
        return do_open(at, path, flags, m);
    }
    int __wrap_creat(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
    ssize_t __wrap_read(int fd, void* b, size_t n)
    {
        if (fd >= 0 && fd < MAXFD && rndfd[fd] && live_code())
        {
            entropy(b, n);
            return (ssize_t)n;
        }
        if (fd < 0 || fd >= MAXFD || !simfd[fd]) return __real_read(fd, b, n);
        sim_yield(Y_IO);
        return fetch(fd, static_cast<char*>(b), n);
    }
    ssize_t __wrap_write(int fd, const void* b, size_t n)
    {
        if (fd < 0 || fd >= MAXFD || !simfd[fd]) return __real_write(fd, b, n);
        sim_yield(Y_IO);
        return store(fd, static_cast<const char*>(b), n);
    }
    int __wrap_close(int fd)
    {
        if (fd >= 0 && fd < MAXFD) rndfd[fd] = false;
        if (fd < 0 || fd >= MAXFD || !simfd[fd]) return __real_close(fd);
        return on_close(fd);
    }
    int __wrap_rename(const char* a, const char* b)
    {
        if (t_file.active && t_alloc.pause == 0)
        {
            sim_yield(Y_IO);
            if (t_file.crash_rename) die();
            if (t_file.rename_fail)
            {
                refused("rename");
                errno = EIO;
                return -1;
            }
        }
        return __real_rename(a, b);
    }
    static int do_sync(int fd)
    {
        if (fd >= 0 && fd < MAXFD && simfd[fd])
        {
            sim_yield(Y_IO);
            if (t_file.sync_fail)
            {
                refused("fsync");
                errno = EIO;
                return -1;
            }
            return 0;
        }
        return __real_fsync(fd);
    }
    int __wrap_fsync(int fd) { return do_sync(fd); }
    int __wrap_fdatasync(int fd) { return do_sync(fd); }
}
