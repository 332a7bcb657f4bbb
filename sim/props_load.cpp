// C02 (failing sources), C05 (loads are all or nothing), C06 (damaged files).
#include "objects.hpp"
#include <cerrno>

using namespace sim;

// ---- C02 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen02(Rng& r, uint64_t)
    {
        Plan p;
        int n = r.range(1, 4);
        if (r.chance(0.3)) p.steps.push_back(Step("cold"));
        for (int i = 0; i < n; ++i)
        {
            Step s("load");
            draw_model(r, s, true);
            s.set("fmt", r.chance(0.5) ? "b" : "t");
            bool path = r.chance(0.15);
            s.set("src", path ? "path" : "stream");
            if (path) draw_name(r, s);
            s.set("chunk", r.chance(0.7) ? (int64_t)(1 + r.below(1 << 20)) : 0).set("max", (int64_t)r.pick({1, 2, 5, 16, 64, 1000, 4096}));
            if (r.chance(0.8))
            {
                s.set("fail", 1).set("mode", r.range(0, 1)).set("once", r.chance(0.4) ? 1 : 0);
                draw_place(r, s);
            }
            if (r.chance(0.3)) s.set("ex", (int64_t)(s.i("fail") ? r.range(1, 7) : 1));
            p.steps.push_back(s);
        }
        return p;
    }

    void exec02(const Plan& p)
    {
        Refs refs(p, {"load"}, "b");
        for (auto& s : p.steps)
        {
            if (s.op == "cold") continue;
            Obj o = Obj::from(s);
            bool bin = s.s("fmt", "b") == "b";
            bool path = s.s("src", "stream") == "path";
            auto one = refs.get(s, "b");
            std::string bytes = one.bytes, ref = one.image;
            if (!one.ok) g.discard("reference load failed");
            std::string where = std::string(o.kind == 'c' ? "curve " : "surface ") + fmtname(bin) + (path ? " path" : " stream");
            int64_t at = place(s, (int64_t)bytes.size());
            bool fail = s.i("fail") != 0;
            Obj t;
            t.kind = o.kind;
            alloc_reset();
            CallResult res;
            bool fired = false;
            std::string fault = "none";
            if (path)
            {
                std::string file = file_path(s.i("fn"));
                spill(file, bytes);
                t_file = FileSim{};
                t_file.active = true;
                if (fail) t_file.rd_limit = at;
                t_file.rd_chunk = s.i("chunk") ? std::max<int64_t>(1, s.i("max", 64)) : 0;
                res = guarded([&] { t.load(file); });
                t_file.active = false;
                // a text file that cannot be read to its end is indistinguishable from a short one here,
                // and an error behind the last byte may be met or not
                bool met = t_file.refused > 0;
                fired = bin && met && at < (int64_t)bytes.size();
                if (met) fault = "file read error";
                if (met && !fired)
                {
                    g.count("fault " + fault);
                    g.ev(where + res.text());
                    continue;
                }
            }
            else
            {
                SimIn in;
                in.data = bytes;
                in.chunkseed = uint64_t(s.i("chunk"));
                in.maxchunk = std::max<int64_t>(1, s.i("max", 64));
                if (fail) in.fail_at = at;
                in.mode = s.i("mode") ? 1 : 0;
                in.oneshot = s.i("once") != 0;
                in.budget = (int64_t)bytes.size() + 64;
                in.setup();
                std::istream is(&in);
                in.owner = &is;
                if (s.i("ex")) is.exceptions(exmask(fail ? s.i("ex") : 1));
                res = guarded([&] { t.load(is); });
                fired = in.fired > 0;
                if (fired) fault = in.mode ? "source sets the bad state" : "source throws";
                if (fired && in.oneshot) fault += " once";
                if (in.over_budget || in.calls_after_fail > 64)
                    g.violate("load goes on reading: " + where, std::to_string(in.calls) + " reads, " + std::to_string(in.calls_after_fail) + " after the failure");
                g.count("pieces handed out", (uint64_t)in.calls);
            }
            g.count("fault " + fault);
            g.count("loads");
            g.ev(where + fault + std::to_string(at) + res.text());
            g.sig(where + fault + res.text() + std::to_string(bytes.empty() || !fail ? 0 : at * 32 / (int64_t)bytes.size()) + "/" + std::to_string(s.i("max")));
            if (fired && !res.threw)
                g.violate("a failing source was taken for the end of the data: " + where,
                          fault + " at byte " + std::to_string(at) + " of " + std::to_string(bytes.size()));
            if (!fired && res.threw) g.violate("load failed although the source worked: " + where, res.what);
            if (!fired && t.image() != ref)
                g.violate("the loaded model depends on how the source hands out its bytes: " + where, summarise_diff(t.image(), ref));
        }
    }
    Reg r02({"C02", gen02, exec02});
}

// ---- C05 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen05(Rng& r, uint64_t)
    {
        Plan p;
        Step o("target");
        draw_model(r, o, true, true);
        char kind = o.s("kind")[0];
        if (r.chance(0.3)) o.set("fresh", 1);
        p.steps.push_back(o);
        int n = r.range(1, 7);
        for (int i = 0; i < n; ++i)
        {
            Step s("load");
            draw_model(r, s, true, r.chance(0.8));
            if (r.chance(0.92)) // sometimes the other kind: a type mismatch
            {
                s.set("kind", std::string(1, kind));
                if (kind == 's' && !s.has("q")) s.set("q", r.range(1, 3)).set("m", r.range(4, 6)).set("kqm", r.range(0, 3)).set("n", std::min<int64_t>(s.i("n"), 12));
            }
            s.set("fmt", r.chance(0.4) ? "b" : "t");
            s.set("src", r.chance(0.2) ? "path" : "stream");
            if (s.s("src") == "path") draw_name(r, s);
            switch (r.below(7))
            {
            case 0: break;
            case 1:
            case 2:
                s.set("fault", "damage");
                s.set("nd", r.range(1, 2)).set("ds", (int64_t)r.below(1 << 30));
                break;
            case 3:
                s.set("fault", "cut");
                draw_place(r, s);
                break;
            case 4:
                s.set("fault", "source").set("mode", r.range(0, 1));
                draw_place(r, s);
                break;
            case 5: s.set("fault", "oom").set("oom", r.range(1, r.chance(0.5) ? 30 : 300)).set("oomp", r.chance(0.3) ? 1 : 0); break;
            case 6: s.set("fault", s.s("src") == "path" ? "nofile" : "ended"); break;
            }
            // another model of the same shape
            if (i > 0 && r.chance(0.15))
            {
                s = p.steps.back();
                s.set("os", (int64_t)r.below(100000));
                if (r.chance(0.7)) s.set("fault", "none");
            }
            p.steps.push_back(s);
        }
        return p;
    }

    // What a fresh object in a fresh process makes of the bytes of a step, undisturbed (memory capped: C06 decides that part).
    struct Ref
    {
        bool ok = false;
        std::string bytes, image;
    };
    Ref fresh05(const Step& s, char kind)
    {
        auto fr = in_fork(
            [&]
            {
                Obj src = Obj::from(s);
                bool bin = s.s("fmt", "b") == "b";
                std::string fault = s.s("fault", "none");
                std::string bytes = ref_bytes(src, bin);
                if (fault == "damage")
                {
                    Rng r(uint64_t(s.i("ds")));
                    for (int i = 0; i < clampi(s.i("nd", 1), 1, 4); ++i) damage(bytes, draw_damage(r, bin), src, bin);
                }
                if (fault == "cut") bytes.resize((size_t)place(s, (int64_t)bytes.size()));
                alloc_reset(0, false, 64u << 20);
                Obj f;
                f.kind = kind;
                std::istringstream is(bytes);
                auto rr = guarded([&] { f.load(is); });
                Bytes b;
                b.i(t_alloc.over_cap != 0);
                alloc_reset();
                b.i(!rr.threw);
                b.str(bytes);
                b.str(f.image());
                return b.b;
            });
        if (fr.crashed) g.discard("an undisturbed load crashed");
        Reader rd{fr.data};
        if (rd.i()) g.discard("damaged count asks for too much memory");
        Ref r;
        r.ok = rd.i();
        r.bytes = rd.str();
        r.image = rd.str();
        return r;
    }

    void exec05(const Plan& p)
    {
        Obj t;
        int failed_before = 0;
        char kind = 'c';
        std::vector<Ref> refs(p.steps.size());
        for (size_t i = 0; i < p.steps.size(); ++i)
        {
            if (p.steps[i].op == "target") kind = p.steps[i].s("kind", "c")[0];
            if (p.steps[i].op == "load") refs[i] = fresh05(p.steps[i], kind);
        }
        for (size_t si = 0; si < p.steps.size(); ++si)
        {
            auto& s = p.steps[si];
            if (s.op == "target")
            {
                t = Obj::from(s);
                if (s.i("fresh"))
                {
                    char k = t.kind;
                    t = Obj{};
                    t.kind = k;
                }
                continue;
            }
            if (s.op != "load") continue;
            bool bin = s.s("fmt", "b") == "b";
            bool path = s.s("src", "stream") == "path";
            std::string fault = s.s("fault", "none");
            const Ref& rf = refs[si];
            const std::string &bytes = rf.bytes, &ref = rf.image;
            bool ref_ok = rf.ok;
            std::string before = t.image();
            std::string where = std::string(t.kind == 'c' ? "curve " : "surface ") + fmtname(bin) + (path ? " path" : " stream");
            alloc_reset(fault == "oom" ? s.i("oom", 1) : 0, s.i("oomp") != 0);
            CallResult res;
            bool fired = false;
            if (path)
            {
                std::string file = file_path(s.i("fn"));
                spill(file, bytes);
                t_file = FileSim{};
                t_file.active = true;
                if (fault == "nofile") t_file.open_errno = ENOENT, fired = true;
                if (fault == "source") t_file.rd_limit = place(s, (int64_t)bytes.size());
                res = guarded([&] { t.load(file); });
                if (fault == "source" && t_file.rd_refused) fired = true;
                t_file.active = false;
            }
            else
            {
                SimIn in;
                in.data = bytes;
                if (fault == "source") in.fail_at = place(s, (int64_t)bytes.size());
                in.mode = s.i("mode") ? 1 : 0;
                in.setup();
                std::istream is(&in);
                in.owner = &is;
                if (fault == "ended") is.setstate(std::ios::eofbit), fired = true;
                res = guarded([&] { t.load(is); });
                fired = fired || in.fired;
            }
            if (t_alloc.refused) fired = true;
            alloc_reset();
            std::string after = t.image();
            g.count(std::string("loads ") + (res.threw ? "failed" : "succeeded"));
            g.count("fault " + (fired ? fault : ref_ok ? std::string("none") : "bad content: " + fault));
            g.ev(where + fault + res.text() + std::to_string(failed_before));
            g.evh(hash_str(after));
            g.sig(where + fault + res.text());
            if (res.threw && after != before)
                g.violate("a failed load changed the object: " + where + ", " + fault, res.what + "; " + summarise_diff(after, before));
            if (!res.threw && path && fault == "source" && fired)
                ; // a short text file, as far as the library can see
            else if (!res.threw && !ref_ok)
                g.violate("a load succeeds only because of what the object held before: " + where + ", " + fault, "a fresh object refuses the same bytes");
            else if (!res.threw && after != ref)
                g.violate("the loaded model depends on what the object held before: " + where + ", " + (fault == "oom" ? "oom" : "any"), summarise_diff(after, ref));
            if (res.threw && !fired && ref_ok)
                g.violate("a load fails because of what the object held before: " + where, res.what);
            failed_before += res.threw;
        }
    }
    Reg r05({"C05", gen05, exec05});
}

// ---- C06 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen06(Rng& r, uint64_t)
    {
        Plan p;
        int n = r.range(2, 8);
        for (int i = 0; i < n; ++i)
        {
            Step s("file");
            draw_model(r, s, true, r.chance(0.7));
            bool bin = r.chance(0.5);
            s.set("fmt", bin ? "b" : "t").set("src", r.chance(0.15) ? "path" : "stream");
            if (s.s("src") == "path") draw_name(r, s);
            if (r.chance(0.06)) s.set("swapkind", 1);
            if (bin && r.chance(0.1)) s.set("cm", 4);
            p.steps.push_back(s);
            int d = r.range(1, 3);
            for (int j = 0; j < d; ++j) p.steps.push_back(draw_damage(r, bin));
        }
        return p;
    }

    void exec06(const Plan& p)
    {
        for (size_t i = 0; i < p.steps.size(); ++i)
        {
            auto& s = p.steps[i];
            if (s.op != "file") continue;
            Obj o = Obj::from(s);
            bool bin = s.s("fmt", "b") == "b";
            bool path = s.s("src", "stream") == "path";
            std::string bytes = ref_bytes(o, bin);
            std::string how;
            for (size_t j = i + 1; j < p.steps.size() && p.steps[j].op == "mut"; ++j)
            {
                damage(bytes, p.steps[j], o, bin);
                how += p.steps[j].s("how") + " ";
                g.count("damage " + p.steps[j].s("how"));
            }
            Obj t;
            t.kind = s.i("swapkind") ? (o.kind == 'c' ? 's' : 'c') : o.kind;
            std::string where = std::string(t.kind == 'c' ? "curve " : "surface ") + fmtname(bin);
            alloc_reset(0, false, (1u << 20) + 256 * bytes.size());
            CallResult res;
            bool over = false;
            if (path)
            {
                std::string file = file_path(s.i("fn"));
                spill(file, bytes);
                t_file = FileSim{};
                t_file.active = true;
                res = guarded([&] { t.load(file); });
                t_file.active = false;
            }
            else
            {
                SimIn in;
                in.data = bytes;
                in.budget = (int64_t)bytes.size() + 4096;
                in.setup();
                std::istream is(&in);
                res = guarded([&] { t.load(is); });
                over = in.over_budget;
            }
            uint64_t cap = t_alloc.over_cap;
            alloc_reset();
            g.count(std::string("loads ") + (res.threw ? "refused" : "accepted"));
            g.ev(where + how + res.text());
            g.evh(hash_str(t.image()));
            g.sig(where + how + res.text());
            if (cap) g.violate("memory out of proportion: " + where, std::to_string(cap) + " bytes asked for with " + std::to_string(bytes.size()) + " bytes of input");
            if (over) g.violate("load runs on without input: " + where, how);
            if (res.threw) continue;
            if (t.kind == 's')
            {
                auto& c = t.s.ControlPoints;
                if (c.UCount <= 0 || c.VCount <= 0 || uint64_t(c.UCount) * uint64_t(c.VCount) != c.Values.size())
                    g.violate("grid dimensions do not match the control points: " + where,
                              std::to_string(c.UCount) + "x" + std::to_string(c.VCount) + " with " + std::to_string(c.Values.size()) + " points");
            }
            // it can be saved and loaded again
            std::string b2 = ref_bytes(t, true), im;
            if (!ref_load(t.kind, b2, im)) g.violate("an accepted model cannot be saved and loaded again: " + where, "");
            if (im != t.image()) g.violate("an accepted model changes when saved and loaded again: " + where, "");
            ref_bytes(t, false);
            g.count("accepted models saved and loaded again");
        }
    }
    Reg r06({"C06", gen06, exec06});
}
