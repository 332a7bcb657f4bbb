// Basic pieces of the simulator: hashing, the seeded PRNG, plans, run context.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace sim
{
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ull;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }

    inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
    {
        auto b = static_cast<const unsigned char*>(p);
        while (n >= 8)
        {
            uint64_t w;
            memcpy(&w, b, 8);
            h = mix(h ^ w);
            b += 8;
            n -= 8;
        }
        uint64_t w = n;
        memcpy(&w, b, n);
        return mix(h ^ w ^ (uint64_t(n) << 56));
    }

    inline uint64_t hash_str(std::string_view s, uint64_t h = 0xcbf29ce484222325ull)
    {
        return hash_bytes(s.data(), s.size(), h);
    }

    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed) : s(seed) {}
        uint64_t next()
        {
            s += 0x9e3779b97f4a7c15ull;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }
        uint64_t below(uint64_t n) { return n ? next() % n : 0; }
        int range(int lo, int hi) { return hi <= lo ? lo : lo + int(below(uint64_t(hi - lo) + 1)); }
        double unit() { return double(next() >> 11) * 0x1p-53; }
        bool chance(double p) { return unit() < p; }
        template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
        template <typename V> const typename V::value_type& of(const V& v) { return v[below(v.size())]; }
    };

    // One step of a plan: an operation name and integer or word attributes.
    struct Step
    {
        std::string op;
        std::vector<std::pair<std::string, std::string>> kv;

        Step() = default;
        explicit Step(std::string o) : op(std::move(o)) {}

        const std::string* find(std::string_view k) const
        {
            for (auto& [a, b] : kv)
                if (a == k) return &b;
            return nullptr;
        }
        bool has(std::string_view k) const { return find(k) != nullptr; }
        int64_t i(std::string_view k, int64_t def = 0) const
        {
            auto* v = find(k);
            return v ? strtoll(v->c_str(), nullptr, 10) : def;
        }
        std::string s(std::string_view k, std::string def = "") const
        {
            auto* v = find(k);
            return v ? *v : def;
        }
        Step& set(const std::string& k, int64_t v) { return set(k, std::to_string(v)); }
        Step& set(const std::string& k, std::string v)
        {
            for (auto& [a, b] : kv)
                if (a == k)
                {
                    b = std::move(v);
                    return *this;
                }
            kv.emplace_back(k, std::move(v));
            return *this;
        }
        Step& del(std::string_view k)
        {
            for (size_t i = 0; i < kv.size(); ++i)
                if (kv[i].first == k)
                {
                    kv.erase(kv.begin() + i);
                    break;
                }
            return *this;
        }
        std::string text() const
        {
            std::string r = op;
            for (auto& [a, b] : kv) r += " " + a + "=" + b;
            return r;
        }
        static Step parse(const std::string& line)
        {
            Step r;
            size_t p = 0;
            auto word = [&]() -> std::string
            {
                while (p < line.size() && line[p] == ' ') ++p;
                size_t q = p;
                while (q < line.size() && line[q] != ' ') ++q;
                std::string w = line.substr(p, q - p);
                p = q;
                return w;
            };
            r.op = word();
            for (;;)
            {
                auto w = word();
                if (w.empty()) break;
                auto e = w.find('=');
                if (e == std::string::npos) continue;
                r.kv.emplace_back(w.substr(0, e), w.substr(e + 1));
            }
            return r;
        }
    };

    struct Plan
    {
        std::string prop;
        uint64_t seed = 0;
        uint64_t run = 0;
        std::vector<Step> steps;

        std::string text() const
        {
            std::string r = "libnurbs-sim-plan 1\nprop " + prop + "\norigin seed=" + std::to_string(seed) +
                            " run=" + std::to_string(run) + "\n";
            for (auto& s : steps) r += "step " + s.text() + "\n";
            return r;
        }
        static bool parse(const std::string& t, Plan& out)
        {
            size_t p = 0;
            bool magic = false;
            while (p < t.size())
            {
                size_t q = t.find('\n', p);
                if (q == std::string::npos) q = t.size();
                std::string line = t.substr(p, q - p);
                p = q + 1;
                if (line.rfind("libnurbs-sim-plan", 0) == 0) magic = true;
                else if (line.rfind("prop ", 0) == 0) out.prop = line.substr(5);
                else if (line.rfind("origin ", 0) == 0)
                {
                    Step s = Step::parse(line);
                    out.seed = strtoull(s.s("seed").c_str(), nullptr, 10);
                    out.run = strtoull(s.s("run").c_str(), nullptr, 10);
                }
                else if (line.rfind("step ", 0) == 0) out.steps.push_back(Step::parse(line.substr(5)));
            }
            return magic;
        }
    };

    // What one run reports. Lives in the child; written to the parent through a pipe.
    struct Ctx
    {
        int fd = -1;
        uint64_t evhash = 1, sighash = 1;
        uint64_t events = 0;
        std::map<std::string, uint64_t> stats;
        bool trace = false;
        std::vector<std::string> tracelog;
        std::vector<std::string> aux; // steps that pin what a seeded strategy decided (schedules)

        void count(const std::string& k, uint64_t n = 1) { stats[k] += n; }
        // Every observable event enters the event hash (determinism check); `s` never contains addresses.
        void ev(const std::string& s)
        {
            ++events;
            evhash = hash_str(s, evhash);
            if (trace) tracelog.push_back(s);
        }
        void evh(uint64_t h) { evhash = mix(evhash ^ h); }
        // Coarse signature of the run: what kind of thing happened where (distinctness measure).
        void sig(const std::string& s) { sighash = hash_str(s, sighash); }

        [[noreturn]] void finish(const std::string& status, const std::string& cls, const std::string& detail);
        [[noreturn]] void violate(const std::string& cls, const std::string& detail);
        [[noreturn]] void discard(const std::string& why);
    };

    extern Ctx g;

    inline std::string oneline(std::string s)
    {
        for (auto& c : s)
            if (c == '\n' || c == '\r') c = ' ';
        if (s.size() > 900) s.resize(900);
        return s;
    }

    struct Outcome
    {
        std::string status = "crash"; // ok, viol, discard, crash
        std::string cls, detail;
        uint64_t evhash = 0, sighash = 0, events = 0;
        std::map<std::string, uint64_t> stats;
        std::vector<std::string> trace, aux;
        bool violated() const { return status == "viol"; }
    };
}
