// C12: results do not depend on the history of calls.
#include "ops.hpp"
#include <cfenv>
#include <clocale>

using namespace sim;

namespace
{
    Plan gen12(Rng& r, uint64_t)
    {
        Plan p;
        draw_setup(r, p);
        {
            Step e("env");
            e.set("fill", r.pick({0, 255, 90, 1, 64})).set("clock", (int64_t)r.below(1000000));
            p.steps.push_back(e);
        }
        int n = r.range(4, 24);
        // a long history of small calls: tables fill, entries are replaced, counters run on
        bool longer = r.chance(0.02);
        if (longer)
        {
            n = r.range(60, 200);
            std::vector<std::string> few;
            for (int i = r.range(1, 3); i > 0; --i) few.push_back(r.pick({"c.eval", "c.der", "s.eval", "k.span", "k.find", "k.mult", "b.eval", "b.all", "k.pairs", "c.bsearch", "g.getu", "c.save", "s.save", "c.ins1"}));
            for (int i = 0; i < n; ++i)
            {
                Step s;
                do s = draw_op(r, OPS_READ, false);
                while (s.op != few[size_t(i) % few.size()]);
                p.steps.push_back(s);
                if (r.chance(0.05)) p.steps.push_back(draw_op(r, OPS_ALL, true));
            }
            for (auto& s : p.steps)
                for (auto& [k, v] : s.kv)
                    if (k != "x" && k != "y" && v[0] == '-') v = "0";
            return p;
        }
        bool focus = r.chance(0.6);
        int fa = r.range(0, 2);
        double faults = r.pick({0.0, 0.1, 0.3});
        std::vector<Step> done;
        double triples = r.pick({0.0, 0.15, 0.5});
        for (int i = 0; i < n; ++i)
        {
            Step s;
            double d = r.unit();
            if (r.chance(triples))
            {
                // the same call before and after something that changes (or might change) its object
                Step x;
                do x = draw_op(r, OPS_READ, false);
                while (x.op[0] == 'b' || x.op.rfind("geo", 0) == 0 || x.op == "k.new" || x.op == "k.newp" || x.op == "k.uni");
                char t = x.op[0];
                for (auto& [k, v] : x.kv)
                    if (k != "x" && k != "y" && v[0] == '-') v = "0";
                int a = int(x.i("a"));
                Step y(std::string("poke.") + t);
                y.set("a", a).set("what", r.range(0, 2)).set("i", r.range(0, 8)).set("j", r.range(0, 3)).set("by", r.range(1, 15));
                switch (r.below(8))
                {
                case 0:
                    y = Step(std::string("copy.") + t);
                    y.set("a", a + 1).set("dst", a);
                    if (r.chance(0.4)) y.set("move", 1);
                    break;
                case 1:
                    if (t == 'k' || t == 'g') break;
                    y = Step(std::string(1, t) + ".rt");
                    y.set("a", a + 1).set("to", a).set("bin", r.range(0, 1)).set("piece", 63);
                    break;
                case 2:
                    y = x;
                    y.set("a", a + 1);
                    break;
                case 3:
                    if (t == 'k') y = Step("k.ins").set("a", a).set("x", 256 * r.range(1, 15)).set("times", 1);
                    else if (t == 'g') y = Step("g.setu").set("a", a).set("i", r.range(0, 3)).set("j", 0).set("pt", r.range(0, 900));
                    else y = Step(std::string(1, t) + ".xform").set("a", a + 1).set("dst", a).set("ord", 0).set("ord2", 0).set("pt", r.range(0, 900));
                    break;
                default: break;
                }
                p.steps.push_back(x);
                p.steps.push_back(y);
                p.steps.push_back(x);
                done.push_back(x);
                continue;
            }
            if (!done.empty() && d < 0.25) s = r.of(done);
            else if (!done.empty() && d < 0.4)
            {
                // the same kind of call with one attribute changed
                s = r.of(done);
                const char* k = r.pick({"x", "y", "ord", "a", "times", "pt", "ord2", "dir"});
                if (s.has(k)) s.set(k, s.i(k) + r.pick({-1, 1, 1, 256, -256}));
            }
            else
            {
                s = draw_op(r, OPS_ALL, true);
                if (focus && r.chance(0.6)) s.set("a", fa);
            }
            s.del("f").del("h");
            if (s.op.rfind("poke.", 0) != 0 && s.op.rfind("copy.", 0) != 0 && r.chance(faults)) s.set("f", (int64_t)(1 + r.below(r.chance(0.5) ? 4 : 60))).set("h", r.chance(0.4) ? 1 : 0);
            for (auto& [k, v] : s.kv)
                if (k != "x" && k != "y" && v[0] == '-') v = "0";
            done.push_back(s);
            p.steps.push_back(s);
        }
        return p;
    }

    // fills the stack below the next call
    __attribute__((noinline)) void scrub(unsigned char v)
    {
        volatile unsigned char a[48 * 1024];
        for (size_t i = 0; i < sizeof a; ++i) a[i] = v;
    }

    struct Rec
    {
        std::vector<std::string> before, after;
        std::string flat, out, text;
        bool threw = false, oom = false, refused = false, skipped = false, args = false;
    };
    std::string enc(const Rec& r)
    {
        Bytes b;
        b.str(pack(r.before));
        b.str(pack(r.after));
        b.str(r.flat);
        b.str(r.out);
        b.str(r.text);
        b.i(r.threw);
        b.i(r.oom);
        b.i(r.refused);
        b.i(r.skipped);
        b.i(r.args);
        return std::move(b.b);
    }
    Rec dec(const std::string& s)
    {
        Reader d{s};
        Rec r;
        r.before = unpack(d.str());
        r.after = unpack(d.str());
        r.flat = d.str();
        r.out = d.str();
        r.text = d.str();
        r.threw = d.i();
        r.oom = d.i();
        r.refused = d.i();
        r.skipped = d.i();
        r.args = d.i();
        return r;
    }
    Rec run1(Pool& P, const Step& s, bool fault, unsigned char fill)
    {
        Rec r;
        r.before = P.images();
        g_fill = fill;
        g_fill_on = true;
        alloc_reset(fault ? s.i("f") : 0, fault && s.i("h") != 0);
        t_file = FileSim{};
        scrub(fill);
        OpResult o = run_op(P, s, true);
        r.refused = t_alloc.refused > 0;
        alloc_reset();
        g_fill_on = false;
        r.flat = o.flat();
        r.out = o.out;
        r.text = o.text() + (o.what.empty() ? "" : " " + o.what);
        r.threw = o.threw;
        r.oom = o.oom;
        r.skipped = o.skipped;
        r.args = o.args_changed;
        r.after = P.images();
        return r;
    }

    Pool pool;
    volatile int64_t* progress() { return reinterpret_cast<volatile int64_t*>(g_phase + 64); }

    std::vector<Rec> history(const Plan& p, size_t upto, bool& crashed, std::string& how)
    {
        *progress() = -1;
        auto f = in_fork(
            [&]
            {
                pool.dir = scratch;
                unsigned char fill = 0;
                std::vector<std::string> recs;
                for (size_t i = 0; i < p.steps.size() && i < upto; ++i)
                {
                    auto& s = p.steps[i];
                    *progress() = (int64_t)i;
                    if (s.op == "obj") setup_slot(pool, s);
                    else if (s.op == "env")
                    {
                        fill = (unsigned char)s.i("fill");
                        g_clock = s.i("clock");
                    }
                    else recs.push_back(enc(run1(pool, s, s.has("f"), fill)));
                }
                return pack(recs);
            });
        crashed = f.crashed;
        how = f.how;
        std::vector<Rec> r;
        if (!f.crashed)
            for (auto& x : unpack(f.data)) r.push_back(dec(x));
        return r;
    }

    ForkResult solo(const Step& s, const std::vector<std::string>& before)
    {
        Step clean = s;
        clean.del("f").del("h");
        return in_fork(
            [&]
            {
                pool.dir = scratch;
                pool.restore(before);
                g_clock = 777;
                return enc(run1(pool, clean, false, 0xC3));
            });
    }

    void exec12(const Plan& p)
    {
        bool crashed;
        std::string how;
        auto recs = history(p, p.steps.size(), crashed, how);
        if (crashed)
        {
            int64_t at = *progress();
            if (at < 0 || at >= (int64_t)p.steps.size() || p.steps[size_t(at)].op == "obj") g.discard("crash in the setup");
            // the state before the call that died
            Plan q = p;
            q.steps.resize(size_t(at));
            q.steps.push_back(Step("none"));
            auto pre = history(q, q.steps.size(), crashed, how);
            if (crashed || pre.empty()) g.discard("crash does not repeat");
            std::string h0 = how;
            auto f = solo(p.steps[size_t(at)], pre.back().before);
            if (f.crashed) g.discard("call dies alone: " + p.steps[size_t(at)].op + ": " + f.how.substr(0, 60));
            bool c2;
            history(p, size_t(at) + 1, c2, how);
            g.violate(p.steps[size_t(at)].op + " dies after a history, not alone", how);
        }
        size_t ri = 0;
        bool faulted = false;
        for (auto& s : p.steps)
        {
            if (s.op == "obj" || s.op == "env") continue;
            if (ri >= recs.size()) break;
            Rec& r = recs[ri++];
            if (r.skipped)
            {
                g.count("skipped " + s.op);
                continue;
            }
            if (r.args) g.violate(s.op + " changed its argument", s.text());
            uint64_t ok = may_modify(s);
            for (int i = 0; i < NSLOT; ++i)
                if (!(ok >> i & 1) && r.after[i] != r.before[i]) g.violate(s.op + " changed another object", slot_name(i) + " changed by " + s.text());
            g.ev(s.op + " " + r.text);
            g.evh(hash_str(r.flat));
            g.sig(s.op);
            if (r.refused) g.count("fault allocation refused");
            if (s.op.rfind("poke.", 0) == 0) continue;
            if (s.op.rfind("copy.", 0) == 0)
            {
                int k = s.op[5] == 'c' ? 0 : s.op[5] == 's' ? NC : s.op[5] == 'k' ? NC + NS : NC + NS + NK;
                int n = s.op[5] == 'c' ? NC : s.op[5] == 's' ? NS : s.op[5] == 'k' ? NK : NG;
                int a = int(uint64_t(s.i("a")) % uint64_t(n)), d = int(uint64_t(s.i("dst")) % uint64_t(n));
                if (r.after[size_t(k + d)] != r.before[size_t(k + a)]) g.violate("a copy differs from its original", s.text());
                continue;
            }
            if (r.refused && r.threw)
            {
                g.count("call failed for lack of memory");
                faulted = true;
                continue;
            }
            // of a long history, every eighth call and the last twenty are compared
            if (recs.size() > 80 && ri + 20 < recs.size() && ri % 8 != 0) continue;
            auto f = solo(s, r.before);
            if (f.crashed) g.discard("call dies alone: " + s.op + ": " + f.how.substr(0, 60));
            Rec q = dec(f.data);
            if (q.flat != r.flat)
                g.violate(s.op + " depends on earlier calls", s.text() + ": " + r.text + " in the history, " + q.text + " alone, " + summarise_diff(r.out, q.out));
            for (int i = 0; i < NSLOT; ++i)
                if (q.after[i] != r.after[i]) g.violate(s.op + " has effects that depend on earlier calls", slot_name(i) + " " + s.text());
            if (r.threw) g.count("call failed for other reasons");
            if (faulted) g.count("call compared after an earlier failure");
            g.count("calls compared");
        }
    }
    Reg reg12({"C12", gen12, exec12});
}
