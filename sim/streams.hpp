// The stream seam: destinations and sources the simulator controls byte by byte.
#pragma once
#include "seams.hpp"
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <unistd.h>

namespace sim
{
    struct SinkError : std::runtime_error
    {
        using std::runtime_error::runtime_error;
    };

    // Destination. Accepts bytes until `limit`, then refuses (short count / eof, or an exception), once or for good.
    struct SimOut : std::streambuf
    {
        std::string got;          // accepted, in order
        int64_t limit = -1;
        int mode = 0;             // 0 refuse by return value, 1 throw
        bool oneshot = false;
        bool sync_fail = false;
        bool bytewise = false;    // xsputn accepts one byte at a time through overflow
        int64_t bufsize = 0;      // > 0: put area of this size in front of the sink
        int64_t fired = 0, sync_calls = 0, sync_refused = 0, calls = 0;
        std::string area;

        void setup()
        {
            if (bufsize > 0)
            {
                area.assign((size_t)bufsize, 0);
                setp(area.data(), area.data() + area.size());
            }
        }
        // all bytes this destination has taken responsibility for
        std::string accepted() const { return got + std::string(pbase(), size_t(pptr() - pbase())); }

    private:
        bool refusing() const { return limit >= 0 && (int64_t)got.size() >= limit && !(oneshot && fired > 0); }
        size_t sink(const char* s, size_t n)
        {
            ++calls;
            size_t take = n;
            if (limit >= 0 && !(oneshot && fired > 0))
            {
                int64_t room = limit - (int64_t)got.size();
                if (room < 0) room = 0;
                if ((int64_t)take > room) take = (size_t)room;
            }
            got.append(s, take);
            if (take < n)
            {
                ++fired;
                if (mode == 1)
                {
                    --t_alloc.pause;
                    throw SinkError("destination failed");
                }
            }
            return take;
        }
        bool drain()
        {
            size_t n = size_t(pptr() - pbase());
            if (n == 0) return true;
            size_t t = sink(pbase(), n);
            if (t < n)
            {
                // keep what was not accepted
                memmove(pbase(), pbase() + t, n - t);
                setp(area.data(), area.data() + area.size());
                pbump(int(n - t));
                return false;
            }
            setp(area.data(), area.data() + area.size());
            return true;
        }

    protected:
        int_type overflow(int_type c) override
        {
            sim_yield(Y_STREAM);
            ++t_alloc.pause;
            bool ok = true;
            if (bufsize > 0)
            {
                ok = drain();
                if (ok && c != traits_type::eof())
                {
                    *pptr() = (char)c;
                    pbump(1);
                }
            }
            else if (c != traits_type::eof())
            {
                char ch = (char)c;
                ok = sink(&ch, 1) == 1;
            }
            --t_alloc.pause;
            return ok ? traits_type::not_eof(c) : traits_type::eof();
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            if (bufsize > 0 || bytewise) return std::streambuf::xsputn(s, n);
            sim_yield(Y_STREAM);
            ++t_alloc.pause;
            size_t t = sink(s, (size_t)n);
            --t_alloc.pause;
            return (std::streamsize)t;
        }
        int sync() override
        {
            sim_yield(Y_STREAM);
            ++sync_calls;
            if (sync_fail)
            {
                ++sync_refused;
                return -1;
            }
            ++t_alloc.pause;
            bool ok = drain();
            --t_alloc.pause;
            return ok ? 0 : -1;
        }
    };

    // Source. Hands out `data` in pieces; fails before byte `fail_at`.
    struct SimIn : std::streambuf
    {
        std::string data;
        uint64_t chunkseed = 0;   // 0: everything at once
        int64_t maxchunk = 1 << 30;
        int64_t fail_at = -1;
        int mode = 0;             // 0 throw, 1 set the bad state on `owner` and end
        bool oneshot = false;     // fails once, works again afterwards
        std::ios* owner = nullptr;
        int64_t fired = 0, calls = 0, calls_after_fail = 0, eofs = 0;
        int64_t budget = -1;      // calls allowed in total
        bool over_budget = false;
        size_t pos = 0;           // end of the current get area
        Rng r{0};

        void setup()
        {
            r = Rng(chunkseed);
            setg(data.data(), data.data(), data.data());
        }
        size_t consumed() const { return size_t(gptr() - data.data()); }

    protected:
        int_type underflow() override
        {
            sim_yield(Y_STREAM);
            if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
            ++calls;
            if (fired) ++calls_after_fail;
            if (budget >= 0 && calls > budget)
            {
                over_budget = true;
                if (calls > budget + 100000) _exit(79);
            }
            pos = size_t(egptr() - data.data());
            bool failing = fail_at >= 0 && (int64_t)pos >= fail_at && !(oneshot && fired);
            if (failing)
            {
                ++fired;
                if (mode == 0) throw SinkError("source failed");
                if (owner) owner->setstate(std::ios::badbit);
                return traits_type::eof();
            }
            if (pos >= data.size())
            {
                ++eofs;
                return traits_type::eof();
            }
            size_t n = data.size() - pos;
            if (chunkseed)
            {
                size_t m = 1 + r.below((uint64_t)maxchunk);
                if (m < n) n = m;
            }
            if (fail_at >= 0 && !(oneshot && fired) && (int64_t)(pos + n) > fail_at) n = size_t(fail_at) - pos;
            setg(data.data() + pos, data.data() + pos, data.data() + pos + n);
            return traits_type::to_int_type(*gptr());
        }
    };
}
