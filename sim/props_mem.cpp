// C10 (memory runs out in queries), C11 (in-place edits), C13 (nothing leaks).
#include "ops.hpp"
#include <malloc.h>
#include <memory>

using namespace sim;

namespace
{
    Pool* fresh_pool()
    {
        static Pool P;
        P.dir = scratch;
        return &P;
    }
    std::string diff_slots(const std::vector<std::string>& a, const std::vector<std::string>& b)
    {
        for (int i = 0; i < NSLOT; ++i)
            if (a[i] != b[i]) return slot_name(i);
        return "";
    }
}

// ---- C10 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen10(Rng& r, uint64_t)
    {
        Plan p;
        draw_setup(r, p);
        // cold: the first call of the process that does some work is one that is refused memory
        if (r.chance(0.5)) p.steps.push_back(Step("cold"));
        int n = r.range(1, 6);
        for (int i = 0; i < n; ++i)
        {
            Step s = draw_op(r, OPS_READ, true);
            if (s.op == "c.save" || s.op == "s.save")
            {
                --i;
                continue;
            }
            int k = r.range(1, 3);
            for (int j = 0; j < k; ++j)
                s.set("f" + std::to_string(j), (int64_t)(r.chance(0.4) ? r.range(0, 6) : (int)r.below(100000))).set("h" + std::to_string(j), r.chance(0.35) ? 1 : 0);
            p.steps.push_back(s);
        }
        return p;
    }

    struct Undisturbed
    {
        bool skipped, args_changed, changed;
        int64_t count;
        std::string flat, out, text;
    };
    // All calls of the plan without faults, in another process.
    std::vector<Undisturbed> undisturbed(const Plan& p)
    {
        auto f = in_fork(
            [&]
            {
                Pool& P = *fresh_pool();
                std::vector<std::string> v;
                for (auto& s : p.steps)
                {
                    if (s.op == "cold") continue;
                    if (s.op == "obj")
                    {
                        setup_slot(P, s);
                        continue;
                    }
                    auto before = P.images();
                    alloc_reset();
                    OpResult R = run_op(P, s, false);
                    Bytes b;
                    b.i(t_alloc.count);
                    alloc_reset();
                    b.i(R.skipped);
                    b.i(R.args_changed);
                    b.i(!R.skipped && !diff_slots(before, P.images()).empty());
                    b.str(R.flat());
                    b.str(R.out);
                    b.str(R.text());
                    v.push_back(std::move(b.b));
                    if (!R.skipped && s.has("dst")) run_op(P, s, true);
                }
                return pack(v);
            });
        if (f.crashed) g.discard("undisturbed calls die: " + f.how.substr(0, 60));
        std::vector<Undisturbed> r;
        for (auto& x : unpack(f.data))
        {
            Reader d{x};
            Undisturbed u;
            u.count = d.i();
            u.skipped = d.i();
            u.args_changed = d.i();
            u.changed = d.i();
            u.flat = d.str();
            u.out = d.str();
            u.text = d.str();
            r.push_back(u);
        }
        return r;
    }

    void exec10(const Plan& p)
    {
        Pool& P = *fresh_pool();
        bool faulted = false, cold = false;
        std::vector<Undisturbed> und;
        size_t ui = 0;
        for (auto& s : p.steps)
            if (s.op == "cold") cold = true;
        if (cold) und = undisturbed(p);
        for (auto& s : p.steps)
        {
            if (s.op == "obj")
            {
                setup_slot(P, s);
                continue;
            }
            if (s.op == "cold") continue;
            auto before = P.images();
            *g_phase = faulted ? 'a' : 'u';
            Undisturbed R0;
            int64_t N;
            if (cold)
            {
                R0 = und.at(ui++);
                N = R0.count ? R0.count + 2 : 0; // lazily made things may add a few
            }
            else
            {
                alloc_reset();
                OpResult R = run_op(P, s, false);
                N = t_alloc.count;
                alloc_reset();
                R0 = {R.skipped, R.args_changed, !R.skipped && !diff_slots(before, P.images()).empty(), N, R.flat(), R.out, R.text()};
            }
            if (R0.skipped)
            {
                g.count("skipped " + s.op);
                continue;
            }
            if (R0.args_changed) g.violate(s.op + " changed its argument", "undisturbed call");
            if (R0.changed) g.violate(s.op + " changed its object", "after an undisturbed call");
            *g_phase = 'f';
            std::string how;
            for (int j = 0; j < 3 && N > 0; ++j)
            {
                std::string fk = "f" + std::to_string(j);
                if (!s.has(fk)) continue;
                int64_t f = 1 + s.i(fk) % N;
                bool pers = s.i("h" + std::to_string(j)) != 0;
                alloc_reset(f, pers);
                OpResult R = run_op(P, s, false);
                bool fired = t_alloc.refused > 0;
                alloc_reset();
                faulted |= fired;
                if (fired) g.count(pers ? "fault allocations refused from one on" : "fault one allocation refused");
                if (fired && R.threw) g.count("call failed");
                if (fired && !R.threw) g.count("call survived");
                std::string at = "allocation " + std::to_string(f) + " of " + std::to_string(N) + (pers ? " and all later ones" : "") + " refused";
                g.ev(s.op + " " + at + " " + R.text());
                how += R.text() + (f < 4 ? "e" : f + 3 > N ? "l" : "m");
                if (!R.threw && R.out != R0.out)
                    g.violate(s.op + " returned a wrong result after memory ran out", at + ", " + summarise_diff(R.out, R0.out));
                if (R.args_changed) g.violate(s.op + " changed its argument", at);
                if (auto d = diff_slots(before, P.images()); !d.empty()) g.violate(s.op + " changed its object", d + ", " + at);
            }
            *g_phase = 'a';
            OpResult R1 = run_op(P, s, false);
            if (R1.flat() != R0.flat) g.violate(s.op + " differs after memory ran out before", R1.text() + " vs " + R0.text + ", " + summarise_diff(R1.out, R0.out));
            if (s.has("dst")) run_op(P, s, true);
            g.evh(hash_str(R0.flat));
            if (cold) g.count("faults come before the first undisturbed call");
            g.sig(s.op + how);
        }
    }
    Reg reg10({"C10", gen10, exec10});
}

// ---- C11 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen11(Rng& r, uint64_t)
    {
        Plan p;
        int n = r.range(3, 20);
        double fr = r.pick({0.0, 0.2, 0.4, 0.7});
        int kind = r.range(0, 3); // 0 knots, 1 grid of points, 2 grid of numbers, 3 mixed
        {
            Step s("start");
            s.set("u", r.range(1, r.chance(0.2) ? 24 : 6)).set("v", r.range(1, r.chance(0.2) ? 24 : 6)).set("p", r.range(1, 4)).set("n", r.range(5, 12)).set("km", r.range(0, 3)).set("os", (int64_t)r.below(1000));
            p.steps.push_back(s);
        }
        for (int i = 0; i < n; ++i)
        {
            int k = kind == 3 ? r.range(0, 2) : kind;
            Step s;
            if (k == 0)
            {
                s.op = r.pick({"k.ins", "k.ins", "k.ins", "k.ins", "k.ins", "k.rev", "k.count", "k.put", "k.copy"});
                s.set("x", r.chance(0.4) ? 512 * r.range(1, 7) : r.range(1, 4095)).set("times", r.chance(0.1) ? r.range(5, 40) : r.chance(0.05) ? 0 : r.range(1, 4));
                if (r.chance(0.2)) s.set("nx", r.range(0, 17)); // a value beside another knot, or beside an end
            }
            else
            {
                s.op = r.pick({"insu", "insu", "insu", "insv", "insv", "insv", "setu", "setv", "getu", "getv", "put", "copy"});
                s.set("t", k).set("i", r.range(0, 24)).set("j", r.range(0, 24)).set("val", r.range(0, 9999));
                if ((s.op == "insu" || s.op == "insv") && r.chance(0.3)) s.set("self", r.range(0, 999));
                if ((s.op == "insu" || s.op == "insv") && r.chance(0.2)) s.set("def", 1);
            }
            if (r.chance(fr)) s.set("f", r.pick({1, 1, 1, 2, 3})).set("h", r.chance(0.4) ? 1 : 0);
            p.steps.push_back(s);
        }
        return p;
    }

    template <typename T> T make_val(int64_t n);
    template <> double make_val<double>(int64_t n) { return n * 0.5 - 100; }
    template <> Vec4 make_val<Vec4>(int64_t n) { return Vec4{n * 0.5, n + 1.0, -double(n), 1.0 + n % 3}; }

    template <typename T> struct GridModel
    {
        libnurbs::Grid<T> g;
        std::vector<std::vector<T>> rows; // rows[v][u]

        void start(int u, int v, int64_t os)
        {
            g = libnurbs::Grid<T>(u, v);
            rows.assign(v, std::vector<T>(u));
            for (int j = 0; j < v; ++j)
                for (int i = 0; i < u; ++i) g.Get(i, j) = rows[j][i] = make_val<T>(os + 31 * j + i);
        }
        std::string bad() const
        {
            if (rows.empty()) return "";
            if (g.VCount != (int)rows.size() || g.UCount != (int)rows[0].size()) return "dimensions " + std::to_string(g.UCount) + "x" + std::to_string(g.VCount) + " instead of " + std::to_string(rows[0].size()) + "x" + std::to_string(rows.size());
            if (g.Values.size() != size_t(g.UCount) * size_t(g.VCount)) return "number of values " + std::to_string(g.Values.size()) + " does not match " + std::to_string(g.UCount) + "x" + std::to_string(g.VCount);
            for (int j = 0; j < g.VCount; ++j)
                for (int i = 0; i < g.UCount; ++i)
                    if (!(g.Values[size_t(j) * g.UCount + i] == rows[j][i])) return "value at " + std::to_string(i) + "," + std::to_string(j);
            return "";
        }
    };

    template <typename T> bool zero_like(const T& v)
    {
        if constexpr (std::is_same_v<T, double>) return v == 0.0;
        else return true;
    }

    template <typename T> CallResult apply(GridModel<T>& m, const Step& s, bool& took)
    {
        auto& g = m.g;
        int U = g.UCount, V = g.VCount;
        int i = int(uint64_t(s.i("i")) % uint64_t(U)), j = int(uint64_t(s.i("j")) % uint64_t(V));
        T val = make_val<T>(s.i("val"));
        CallResult r;
        took = true;
        bool big = g.Values.size() > 1500;
        if ((s.op == "insu" || s.op == "insv") && big) return r;
        size_t e = s.has("self") ? uint64_t(s.i("self")) % g.Values.size() : 0;
        T selfv = g.Values[e];
        // T() of an Eigen vector has no defined value: only numbers use the default argument
        bool def = s.has("def") && std::is_same_v<T, double> && !s.has("self");
        T expect = s.has("self") ? selfv : def ? make_val<T>(200) : val;
        if (s.op == "insu")
        {
            r = guarded(
                [&]
                {
                    if (s.has("self")) g.InsertU(i, g.Values[e]);
                    else if (def) g.InsertU(i);
                    else g.InsertU(i, val);
                });
            if (!r.threw)
                for (auto& row : m.rows) row.insert(row.begin() + i, expect);
        }
        else if (s.op == "insv")
        {
            r = guarded(
                [&]
                {
                    if (s.has("self")) g.InsertV(j, g.Values[e]);
                    else if (def) g.InsertV(j);
                    else g.InsertV(j, val);
                });
            if (!r.threw) m.rows.insert(m.rows.begin() + j, std::vector<T>(U, expect));
        }
        else if (s.op == "setu" || s.op == "setv")
        {
            bool u = s.op == "setu";
            std::vector<T> vals;
            for (int k = 0; k < (u ? V : U); ++k) vals.push_back(make_val<T>(s.i("val") + k));
            r = guarded([&] { u ? g.SetU(i, vals) : g.SetV(j, vals); });
            if (!r.threw)
            {
                if (u)
                    for (int k = 0; k < V; ++k) m.rows[k][i] = vals[k];
                else m.rows[j] = vals;
            }
        }
        else if (s.op == "getu" || s.op == "getv")
        {
            bool u = s.op == "getu";
            std::vector<T> got;
            r = guarded([&] { got = u ? g.GetU(i) : g.GetV(j); });
            if (!r.threw)
            {
                std::vector<T> want;
                if (u)
                    for (auto& row : m.rows) want.push_back(row[i]);
                else want = m.rows[j];
                if (!(got == want)) g_fill_on = false, sim::g.violate(s.op + " returned the wrong values", std::to_string(got.size()) + " values");
            }
        }
        else if (s.op == "put")
        {
            r = guarded([&] { g.Get(i, j) = val; });
            if (!r.threw) m.rows[j][i] = val;
        }
        else if (s.op == "copy")
        {
            libnurbs::Grid<T> h;
            r = guarded([&] { h = g; });
            if (!r.threw) g = std::move(h);
        }
        else took = false;
        return r;
    }

    void exec11(const Plan& p)
    {
        GridModel<double> gd;
        GridModel<Vec4> gp;
        libnurbs::KnotVector K;
        std::vector<double> mk;
        auto start = [&](const Step& s)
        {
            gd.start(1 + int(s.i("u", 2) % 32), 1 + int(s.i("v", 2) % 32), s.i("os"));
            gp.start(1 + int(s.i("u", 2) % 32), 1 + int(s.i("v", 2) % 32), s.i("os"));
            mk = make_curve(s).Knots.Values();
            K.Values() = mk;
        };
        start(Step("start"));
        bool faulted = false;
        for (auto& s : p.steps)
        {
            if (s.op == "start")
            {
                start(s);
                continue;
            }
            *g_phase = faulted ? 'f' : 'u';
            bool f = s.has("f");
            if (f) *g_phase = 'f';
            alloc_reset(f ? s.i("f") : 0, s.i("h") != 0);
            CallResult r;
            bool took = true;
            std::string bad, name = s.op;
            if (s.op[0] == 'k')
            {
                double x = double(1 + uint64_t(s.i("x")) % 4095) / 4096;
                if (s.has("nx"))
                {
                    static const double by[]{0, 1e-16, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-9, 1e-7, 1e-6};
                    double b = mk[uint64_t(s.i("x")) % mk.size()], d = by[uint64_t(s.i("nx")) % 9];
                    double y = d == 0 ? std::nextafter(b, s.i("times") % 2 ? 1.0 : 0.0) : b + (uint64_t(s.i("nx")) / 9 % 2 ? d : -d);
                    if (y > 0 && y < 1) x = y;
                }
                int times = int(uint64_t(s.i("times", 1)) % 65);
                if (s.op == "k.put")
                {
                    // the caller's own write of one knot, between its neighbours
                    size_t i = 1 + uint64_t(s.i("x")) % (mk.size() - 2);
                    double y = mk[i - 1] + (mk[i + 1] - mk[i - 1]) * 0.25;
                    K[int(i)] = y;
                    mk[i] = y;
                    if (K(int(i)) != y) bad = "a knot written is not read back";
                }
                else if (s.op == "k.copy")
                {
                    libnurbs::KnotVector L;
                    r = guarded([&] { L = K; });
                    if (!r.threw)
                    {
                        // one of the two goes on; the other keeps its values
                        if (s.i("times") % 2) std::swap(K, L);
                        if (L.Count() > 2) L[1] = 0.5;
                    }
                }
                if (s.op == "k.ins")
                {
                    int at = -1;
                    if (mk.size() < 2000)
                    {
                        r = guarded([&] { at = K.InsertKnot(x, times); });
                        if (!r.threw)
                        {
                            auto it = std::upper_bound(mk.begin(), mk.end(), x);
                            if (at != int(it - mk.begin()) - 1) bad = "span index " + std::to_string(at);
                            mk.insert(it, times, x);
                        }
                    }
                }
                else if (s.op == "k.rev")
                {
                    r = guarded([&] { K.Reverse(); });
                    if (!r.threw)
                    {
                        std::reverse(mk.begin(), mk.end());
                        for (auto& t : mk) t = 1.0 - t;
                    }
                }
                if (K.Values() != mk || K.Count() != (int)mk.size()) bad = "knots differ from the model, " + std::to_string(K.Values().size()) + " instead of " + std::to_string(mk.size());
                else if (!std::is_sorted(K.Values().begin(), K.Values().end())) bad = "knots are not sorted";
            }
            else if (s.i("t", 1) == 1)
            {
                r = apply(gp, s, took);
                bad = gp.bad();
                name += " (points)";
            }
            else
            {
                r = apply(gd, s, took);
                bad = gd.bad();
                name += " (numbers)";
            }
            bool fired = t_alloc.refused > 0;
            alloc_reset();
            faulted |= fired;
            if (fired) g.count("fault allocation refused");
            if (fired && !r.threw) g.count("edit survived the refusal");
            if (r.threw && !fired) g.violate(s.op + " threw without a reason", r.what);
            if (!bad.empty()) g.violate(s.op + (r.threw ? " failed and left a different object" : " gave a different object"), bad + " after " + name + " (" + r.text() + ")");
            g.ev(name + " " + r.text());
            g.sig(s.op + r.text() + (s.has("self") ? "s" : ""));
        }
    }
    Reg reg11({"C11", gen11, exec11});
}

// ---- C13 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen13(Rng& r, uint64_t)
    {
        Plan p;
        draw_setup(r, p);
        // models larger than the buffers of the C and C++ libraries
        if (r.chance(0.4))
            for (auto& s : p.steps)
            {
                int slot = (int)s.i("slot");
                if (slot == 0) s.set("n", r.range(100, 400));
                if (slot == NC) s.set("n", r.range(14, 24)).set("m", r.range(12, 24));
            }
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            Step s;
            double d = r.unit();
            if (d < 0.45)
            {
                s = draw_op(r, OPS_CALL, false);
                if (r.chance(0.8)) s.set("f", (int64_t)(r.chance(0.4) ? r.range(0, 6) : (int)r.below(100000))).set("h", r.chance(0.35) ? 1 : 0);
            }
            else
            {
                s.op = d < 0.72 ? "save" : "load";
                s.set("kind", r.chance(0.5) ? "c" : "s").set("a", r.chance(0.5) ? 0 : r.range(0, 2)).set("bin", r.range(0, 1)).set("path", r.range(0, 1));
                int k = r.range(0, 5);
                if (s.op == "save")
                {
                    if (k == 1) s.set("fault", "write").set("mode", r.range(0, 1));
                    if (k == 2) s.set("fault", "open");
                    if (k == 3) s.set("fault", "close");
                    if (k >= 4) s.set("fault", "mem").set("f", (int64_t)(r.chance(0.5) ? r.range(0, 12) : (int)r.below(100000))).set("h", r.chance(0.35) ? 1 : 0);
                }
                else
                {
                    if (k == 1) s.set("fault", "read").set("mode", r.range(0, 1));
                    if (k == 2) s.set("fault", "cut");
                    if (k == 3)
                    {
                        s.set("fault", "damage").set("ms", (int64_t)r.below(1 << 20));
                    }
                    if (k >= 4) s.set("fault", "mem").set("f", (int64_t)(r.chance(0.5) ? r.range(0, 12) : (int)r.below(100000))).set("h", r.chance(0.35) ? 1 : 0);
                    if (r.chance(0.05)) s.set("fault", "missing").set("path", 1);
                    if (r.chance(0.3)) s.set("ex", r.range(1, 7));
                }
                draw_place(r, s);
                if (s.i("path")) draw_name(r, s);
            }
            p.steps.push_back(s);
        }
        return p;
    }

    template <typename F> auto with_obj(Pool& P, const Step& s, F&& f)
    {
        if (s.s("kind", "c") == "c") return f(P.c[uint64_t(s.i("a")) % NC]);
        return f(P.s[uint64_t(s.i("a")) % NS]);
    }

    // one execution of the step; everything it allocates is gone when it returns, unless the library kept it
    struct Once
    {
        char result = '-'; // ok, threw, skipped
        int handles = 0;
        bool fired = false;
        int64_t allocs = 0;
    };
    Once once(Pool& P, const Step& s, const std::string& bytes, const std::string& file, int64_t fail_at)
    {
        Once o;
        alloc_reset(fail_at, s.i("h") != 0);
        t_file = FileSim{};
        if (s.op != "save" && s.op != "load")
        {
            OpResult r = run_op(P, s, false);
            o.result = r.skipped ? 's' : r.threw ? 't' : 'o';
        }
        else
        {
            bool bin = s.i("bin") != 0, path = s.i("path") != 0;
            std::string fault = s.s("fault", "none");
            int64_t at = place(s, (int64_t)bytes.size());
            CallResult r;
            if (s.op == "save" && path)
            {
                t_file.active = true;
                if (fault == "open") t_file.open_errno = 13;
                if (fault == "close") t_file.close_fail = true;
                if (fault == "write") t_file.wr_limit = at;
                r = with_obj(P, s, [&](auto& x) { return guarded([&] { x.SaveToFile(file, bin); }); });
                t_file.active = false;
            }
            else if (s.op == "save")
            {
                SimOut out;
                if (fault == "write" || fault == "open" || fault == "close") out.limit = at;
                out.mode = (int)s.i("mode");
                out.setup();
                std::ostream os(&out);
                r = with_obj(P, s, [&](auto& x) { return guarded([&] { x.SaveToFile(os, bin); }); });
                o.fired |= out.fired > 0;
            }
            else if (path)
            {
                t_file.active = true;
                if (fault == "read") t_file.rd_limit = at;
                std::string f2 = fault == "missing" ? file + "-none" : file;
                r = with_obj(P, s, [&](auto& x) { return guarded([&] { x.LoadFromFile(f2); }); });
                t_file.active = false;
                o.fired |= fault == "missing" || fault == "cut" || fault == "damage";
            }
            else
            {
                SimIn in;
                in.data = bytes;
                if (fault == "read") in.fail_at = at;
                in.mode = (int)s.i("mode");
                in.budget = (int64_t)bytes.size() + 4096;
                in.setup();
                std::istream is(&in);
                try
                {
                    is.exceptions(exmask(s.i("ex")));
                }
                catch (...)
                {
                }
                r = with_obj(P, s, [&](auto& x) { return guarded([&] { x.LoadFromFile(is); }); });
                o.fired |= in.fired > 0 || fault == "cut" || fault == "damage";
            }
            o.result = r.threw ? 't' : 'o';
        }
        o.fired |= t_alloc.refused > 0 || t_file.refused > 0;
        o.handles = t_file.open_handles;
        o.allocs = t_alloc.count;
        t_file = FileSim{};
        alloc_reset();
        return o;
    }

    int64_t system_memory()
    {
#if defined(__has_feature) && __has_feature(address_sanitizer)
        return 0;
#else
        auto m = mallinfo2();
        return int64_t(m.uordblks) + int64_t(m.hblkhd);
#endif
    }

    void exec13(const Plan& p)
    {
        static Pool P;
        P.dir = scratch;
        constexpr int REPS = 20, MID = 5;
        static int64_t bytes_after[REPS], blocks_after[REPS], system_after[REPS];
        bool any = false;
        for (auto& s : p.steps)
        {
            if (s.op == "obj")
            {
                setup_slot(P, s);
                continue;
            }
            *g_phase = any ? 'f' : 'u';
            std::string data, file = file_path(s.i("fn"));
            int files = open_files();
            if (s.op == "save" || s.op == "load")
            {
                Obj o;
                o.kind = s.s("kind", "c")[0];
                if (o.kind == 'c') o.c = P.c[uint64_t(s.i("a")) % NC];
                else o.s = P.s[uint64_t(s.i("a")) % NS];
                data = ref_bytes(o, s.i("bin") != 0);
                if (s.op == "load")
                {
                    if (s.s("fault") == "cut") data.resize(size_t(place(s, (int64_t)data.size())));
                    if (s.s("fault") == "damage")
                    {
                        Rng r(uint64_t(s.i("ms")));
                        damage(data, draw_damage(r, s.i("bin") != 0), o, s.i("bin") != 0);
                    }
                    spill(file, data);
                }
            }
            std::vector<std::string> before = P.images();
            // how many allocations an undisturbed execution makes
            Step clean = s;
            clean.del("f").del("fault");
            int64_t fail = 0;
            if (s.has("f"))
            {
                Once o = once(P, clean, data, file, 0);
                P.restore(before);
                if (o.allocs > 0) fail = 1 + s.i("f") % o.allocs;
            }
            *g_phase = 'f';
            any = true;
            Once last;
            for (int i = 0; i < REPS; ++i)
            {
                last = once(P, s, data, file, fail);
                if (last.handles != 0) g.violate(s.op + " leaves a file open", std::to_string(last.handles) + " handles open after repetition " + std::to_string(i) + " (" + last.result + ")");
                if (int now = open_files(); now > files) g.violate(s.op + " leaves a file open", std::to_string(now - files) + " more descriptors after repetition " + std::to_string(i) + " (" + last.result + ")");
                P.drop();
                bytes_after[i] = g_live_bytes;
                blocks_after[i] = g_live;
                system_after[i] = system_memory();
                P.restore(before);
                if (last.result == 's') break;
            }
            if (last.result == 's')
            {
                g.count("skipped " + s.op);
                continue;
            }
            std::string fault = s.has("f") ? "mem" : s.s("fault", "none");
            if (last.fired) g.count("fault " + fault + (s.i("path") ? " (path)" : ""));
            g.count(std::string("repeated call ") + (last.result == 't' ? "fails" : "returns"));
            g.ev(s.op + " " + fault + " " + last.result);
            g.sig(s.op + fault + last.result);
            if (bytes_after[REPS - 1] > bytes_after[MID] || blocks_after[REPS - 1] > blocks_after[MID])
                g.violate(s.op + " accumulates memory (" + (last.result == 't' ? "fails" : "returns") + ")",
                          std::to_string(bytes_after[REPS - 1] - bytes_after[MID]) + " bytes in " + std::to_string(blocks_after[REPS - 1] - blocks_after[MID]) + " blocks over " + std::to_string(REPS - 1 - MID) +
                              " repetitions, fault " + fault + (fail ? " at allocation " + std::to_string(fail) : ""));
            // memory the C library hands out on its own account: more after every single repetition
            bool grows = true;
            for (int i = MID; i < REPS; ++i) grows &= system_after[i] > system_after[i - 1];
            if (grows)
                g.violate(s.op + " accumulates memory of the C library (" + (last.result == 't' ? "fails" : "returns") + ")",
                          std::to_string(system_after[REPS - 1] - system_after[MID]) + " bytes over " + std::to_string(REPS - 1 - MID) + " repetitions, fault " + fault);
        }
    }
    Reg reg13({"C13", gen13, exec13});
}
