// C08, C09: calls made by several threads at once.
#include "ops.hpp"
#include "rt.hpp"
#include <locale>
#include <memory>
#include <sstream>

using namespace sim;

namespace
{
    Step draw_sched(Rng& r)
    {
        Step s("sched");
        const char* m = r.pick({"random", "random", "sync", "hot", "hot", "pct", "pct"});
        s.set("mode", std::string(m)).set("seed", (int64_t)r.below(1u << 30));
        s.set("mean", r.pick({2, 7, 30, 120, 500, 2500})).set("depth", r.range(1, 5));
        return s;
    }
    void add_fault(Rng& r, Step& s)
    {
        double d = r.unit();
        if (d < 0.7) s.set("f", (int64_t)(1 + r.below(r.chance(0.5) ? 4 : 50))).set("h", r.chance(0.4) ? 1 : 0);
        else if (s.op == "c.save" || s.op == "s.save" || s.op == "c.rt" || s.op == "s.rt")
        {
            if ((s.op == "c.rt" || s.op == "s.rt") && r.chance(0.4)) s.set("rf", (int64_t)r.below(1500));
            else s.set("lim", (int64_t)r.below(r.chance(0.3) ? 40 : 1500));
        }
    }
    bool shareable(const Step& s) { return s.op != "s.align"; }

    Plan gen08(Rng& r, uint64_t)
    {
        Plan p;
        draw_setup(r, p);
        int n = r.pick({2, 2, 2, 3, 3, 4});
        double faults = r.pick({0.0, 0.0, 0.15, 0.4});
        std::vector<Step> tmpl;
        int k = r.range(1, 3), fa = r.range(0, 2);
        bool same = r.chance(0.7);
        for (int i = 0; i < k; ++i)
        {
            Step s = draw_op(r, OPS_READ, false);
            while (!shareable(s)) s = draw_op(r, OPS_READ, false);
            if (same) s.set("a", fa);
            tmpl.push_back(s);
        }
        for (int t = 0; t < n; ++t)
        {
            int c = r.range(1, 4);
            for (int i = 0; i < c; ++i)
            {
                Step s = r.chance(0.85) ? r.of(tmpl) : draw_op(r, OPS_READ, false);
                if (!shareable(s)) s = tmpl[0];
                if (r.chance(0.4))
                {
                    // the same call with other arguments
                    const char* a = r.pick({"x", "y", "ord", "times", "pt", "ord2", "dir", "i", "j", "a"});
                    if (s.has(a)) s.set(a, r.range(0, 8) * 512 + r.range(0, 3));
                }
                s.set("t", t);
                if (r.chance(faults)) add_fault(r, s);
                p.steps.push_back(s);
            }
        }
        p.steps.push_back(draw_sched(r));
        return p;
    }

    Plan gen09(Rng& r, uint64_t)
    {
        Plan p;
        int n = r.pick({2, 2, 2, 3, 3, 4});
        bool same = r.chance(0.4);
        Plan first;
        draw_setup(r, first);
        for (int t = 0; t < n; ++t)
        {
            Plan q;
            if (same) q = first;
            else draw_setup(r, q);
            for (auto& s : q.steps)
            {
                s.set("t", t);
                p.steps.push_back(s);
            }
        }
        if (r.chance(0.3)) p.steps.push_back(Step("comma"));
        // objects of different threads that are copies of one another
        if (r.chance(0.4))
            for (int t = 1; t < n; ++t)
            {
                Step s("twin");
                s.set("t", t).set("mask", r.chance(0.5) ? 1023 : (int64_t)r.below(1024));
                p.steps.push_back(s);
            }
        double faults = r.pick({0.0, 0.1, 0.3});
        int mix_ = r.range(0, 2); // 0: anything, 1: files and streams, 2: the same few calls
        std::vector<Step> tmpl;
        for (int i = r.range(1, 3); i > 0; --i) tmpl.push_back(draw_op(r, OPS_ALL, true));
        auto io = [&]
        {
            Step s = draw_op(r, OPS_ALL, true);
            while (s.op != "c.rt" && s.op != "s.rt") s = draw_op(r, OPS_ALL, true);
            return s;
        };
        for (int t = 0; t < n; ++t)
        {
            int c = r.range(1, 4);
            for (int i = 0; i < c; ++i)
            {
                Step s = mix_ == 1 && r.chance(0.8) ? io() : mix_ == 2 && r.chance(0.8) ? r.of(tmpl) : r.chance(0.07) ? Step("u.fmt") : draw_op(r, OPS_ALL, true);
                s.set("t", t);
                if (s.op.rfind("poke.", 0) != 0 && s.op.rfind("copy.", 0) != 0 && s.op != "u.fmt" && r.chance(faults)) add_fault(r, s);
                p.steps.push_back(s);
            }
        }
        p.steps.push_back(draw_sched(r));
        return p;
    }

    struct Rec
    {
        std::string flat, out, text;
        bool threw = false, refused = false, skipped = false;
        void enc(Bytes& b) const
        {
            b.str(flat);
            b.str(out);
            b.str(text);
            b.i(threw);
            b.i(refused);
            b.i(skipped);
        }
        void dec(Reader& d)
        {
            flat = d.str();
            out = d.str();
            text = d.str();
            threw = d.i();
            refused = d.i();
            skipped = d.i();
        }
    };

    struct Comma : std::numpunct<char>
    {
        char do_decimal_point() const override { return ','; }
        char do_thousands_sep() const override { return '.'; }
        std::string do_grouping() const override { return "\3"; }
    };

    struct World
    {
        bool own; // every thread has its own objects
        int n = 0;
        std::vector<std::unique_ptr<Pool>> pools;
        std::vector<std::vector<Step>> ops;
        std::vector<std::vector<Rec>> recs;
        Pool& pool(int t) { return *pools[own ? size_t(t) : 0]; }
    };

    World* W;

    World build(const Plan& p, bool own)
    {
        World w;
        w.own = own;
        for (auto& s : p.steps)
            if (s.op != "pre" && s.op != "sched" && s.op != "comma" && !(s.op == "obj" && !own)) w.n = std::max(w.n, 1 + int(uint64_t(s.i("t")) % 4));
        int np = own ? std::max(w.n, 1) : 1;
        for (int i = 0; i < np; ++i)
        {
            w.pools.push_back(std::make_unique<Pool>());
            w.pools.back()->id = i + 1;
            w.pools.back()->dir = scratch;
        }
        w.ops.resize(size_t(w.n));
        w.recs.resize(size_t(w.n));
        for (auto& s : p.steps)
        {
            if (s.op == "obj") setup_slot(*w.pools[own ? uint64_t(s.i("t")) % 4 : 0], s);
            else if (s.op == "pre" || s.op == "sched") continue;
            else if (s.op == "twin")
            {
                if (!own) continue;
                Pool &a = *w.pools[0], &b = *w.pools[uint64_t(s.i("t")) % 4];
                if (&a == &b) continue;
                for (int i = 0; i < NSLOT; ++i)
                    if (s.i("mask") >> i & 1)
                    {
                        if (i < NC) b.c[i] = a.c[i];
                        else if (i < NC + NS) b.s[i - NC] = a.s[i - NC];
                        else if (i < NC + NS + NK) b.k[i - NC - NS] = a.k[i - NC - NS];
                        else b.g[i - NC - NS - NK] = a.g[i - NC - NS - NK];
                    }
            }
            else if (s.op == "comma") std::locale::global(std::locale(std::locale::classic(), new Comma));
            else w.ops[uint64_t(s.i("t")) % 4].push_back(s);
        }
        return w;
    }

    Rec one(Pool& P, const Step& s)
    {
        Rec r;
        rt::set_label(s.op.c_str());
        t_file = FileSim{};
        if (s.op == "u.fmt")
        {
            Armed a;
            sim_yield(Y_STREAM);
            Pause q;
            std::ostringstream os;
            os << 12345.5;
            r.flat = r.out = os.str();
            r.text = "ok";
            return r;
        }
        if (s.i("path") && s.has("lim")) t_file.wr_limit = s.i("lim");
        if (s.i("path") && s.has("rf")) t_file.rd_limit = s.i("rf");
        alloc_reset(s.i("f"), s.i("h") != 0);
        OpResult o = run_op(P, s, true);
        r.refused = t_alloc.refused > 0;
        alloc_reset();
        t_file = FileSim{};
        r.flat = o.flat();
        r.out = o.out;
        r.text = o.text() + (o.what.empty() ? "" : " " + o.what);
        r.threw = o.threw;
        r.skipped = o.skipped;
        return r;
    }

    void warm_up()
    {
        std::ostringstream os;
        os << std::fixed << 1.5 << ' ' << 17 << std::scientific << 2.5;
        std::istringstream is(os.str());
        double d;
        int i;
        is >> d >> i;
        try
        {
            throw std::ios_base::failure("x");
        }
        catch (...)
        {
        }
    }

    Plan* cur;
    void pin_schedule()
    {
        if (rt::report.executed.size() > 4000) return;
        g.aux.push_back("sched mode=list");
        for (auto& e : rt::report.executed) g.aux.push_back("pre t=" + std::to_string(e.t) + " at=" + std::to_string(e.at) + " to=" + std::to_string(e.to));
    }
    void stop(const std::string& cls, const std::string& detail)
    {
        t_file = FileSim{};
        pin_schedule();
        g.violate(cls, detail);
    }

    void exec(const Plan& p, bool own)
    {
        *g_phase = 'u';
        warm_up();
        World w = build(p, own);
        if (w.n == 0) return;
        W = &w;
        std::vector<std::vector<std::string>> before;
        for (auto& q : w.pools) before.push_back(q->images());

        // what every thread's calls give when the thread runs alone, in a process of its own
        std::vector<std::vector<Rec>> alone((size_t)w.n);
        std::vector<std::vector<std::string>> after((size_t)w.n);
        uint64_t steps = 0;
        for (int t = 0; t < w.n; ++t)
        {
            auto f = in_fork(
                [&]
                {
                    rt::Sched sc;
                    sc.races = false;
                    rt::run(
                        w.n,
                        [&](int i)
                        {
                            if (i == t)
                                for (auto& s : w.ops[size_t(i)]) w.recs[size_t(i)].push_back(one(w.pool(i), s));
                        },
                        sc);
                    Bytes b;
                    b.i((int64_t)rt::report.steps);
                    b.i((int64_t)w.recs[size_t(t)].size());
                    for (auto& r : w.recs[size_t(t)]) r.enc(b);
                    b.str(pack(w.pool(t).images()));
                    return b.b;
                });
            if (f.crashed) g.discard("thread dies alone: " + f.how.substr(0, 60));
            Reader d{f.data};
            steps += (uint64_t)d.i();
            alone[size_t(t)].resize((size_t)d.i());
            for (auto& r : alone[size_t(t)]) r.dec(d);
            after[size_t(t)] = unpack(d.str());
        }
        clear_scratch();

        rt::Sched sc;
        sc.mode = "list";
        for (auto& s : p.steps)
            if (s.op == "sched")
            {
                sc.mode = s.s("mode", "list");
                sc.seed = (uint64_t)s.i("seed", 1);
                sc.mean = double(std::max<int64_t>(1, s.i("mean", 100)));
                sc.depth = (int)s.i("depth", 3);
            }
            else if (s.op == "pre") sc.list.push_back({(int)s.i("t"), (uint64_t)s.i("at"), (int)s.i("to")});
        sc.length = steps;
        sc.budget = steps * 50 + 2000000;
        rt::on_violation = stop;
        *g_phase = 'c';
        rt::run(
            w.n,
            [&](int i)
            {
                for (auto& s : w.ops[size_t(i)]) w.recs[size_t(i)].push_back(one(w.pool(i), s));
            },
            sc);
        auto bad = [&](const std::string& c, const std::string& d)
        {
            pin_schedule();
            g.violate(c, d);
        };
        g.evh(rt::report.hash);
        g.count("schedule " + sc.mode);
        g.count("simulated steps", rt::report.steps);
        g.count("thread switches", rt::report.switches);
        g.count("memory accesses checked for races", rt::report.accesses);
        g.count("synchronisation operations", rt::report.syncs);
        g.count("threads " + std::to_string(w.n));
        for (int t = 0; t < w.n; ++t)
        {
            bool diverged = false;
            for (size_t i = 0; i < w.ops[size_t(t)].size(); ++i)
            {
                auto& s = w.ops[size_t(t)][i];
                Rec &a = alone[size_t(t)][i], &c = w.recs[size_t(t)][i];
                g.ev(s.op + " " + c.text);
                g.evh(hash_str(c.flat));
                if (c.skipped)
                {
                    g.count("skipped " + s.op);
                    continue;
                }
                if (c.refused) g.count("fault allocation refused");
                if (s.has("lim") || s.has("rf")) g.count("fault stream or file");
                if (c.threw) g.count("call failed");
                if (diverged) continue;
                g.count("calls compared");
                if (a.flat == c.flat) continue;
                // which allocation is the n-th may legitimately depend on what others initialised already
                if (a.refused || c.refused)
                {
                    if (!own && !a.threw && !c.threw) bad(s.op + " disturbed by other threads", s.text() + ": " + c.text + " concurrently, " + a.text + " alone, " + summarise_diff(c.out, a.out));
                    if (own) diverged = true;
                    g.count("fault met another allocation");
                    continue;
                }
                bad(s.op + " disturbed by other threads", s.text() + ": " + c.text + " concurrently, " + a.text + " alone, " + summarise_diff(c.out, a.out));
            }
            if (own && !diverged)
            {
                auto im = w.pool(t).images();
                for (int i = 0; i < NSLOT; ++i)
                    if (im[size_t(i)] != after[size_t(t)][size_t(i)]) bad("object of a thread disturbed by other threads", "thread " + std::to_string(t) + " " + slot_name(i));
            }
        }
        if (!own)
        {
            auto im = w.pools[0]->images();
            for (int i = 0; i < NSLOT; ++i)
                if (im[size_t(i)] != before[0][size_t(i)]) bad("shared object changed by readers", slot_name(i));
        }
        if (rt::report.switches > 0) g.sig(hex64(rt::report.hash));
    }
    void exec08(const Plan& p) { exec(p, false); }
    void exec09(const Plan& p) { exec(p, true); }
    Reg r08({"C08", gen08, exec08}), r09({"C09", gen09, exec09});
}
