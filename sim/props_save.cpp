// C01 (save delivers every byte), C03 (torn saves), C04 (round trips), C07 (locale and stream state).
#include "objects.hpp"
#include <algorithm>
#include <cerrno>
#include <clocale>
#include <unistd.h>

using namespace sim;

// ---- C01 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen01(Rng& r, uint64_t)
    {
        Plan p;
        if (r.chance(0.3)) p.steps.push_back(Step("cold"));
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i)
        {
            Step s("save");
            draw_model(r, s, true);
            s.set("fmt", r.chance(0.5) ? "b" : "t");
            bool path = r.chance(0.45);
            s.set("dst", path ? "path" : "stream");
            int kind = (int)r.below(12);
            if (!path)
            {
                s.set("buf", (int64_t)r.pick({0, 0, 0, 1, 2, 7, 64, 512, 4096})).set("bytewise", r.chance(0.3) ? 1 : 0);
                if (r.chance(0.3)) s.set("ex", r.range(1, 7));
                if (kind <= 7)
                {
                    s.set("lim", 1).set("throw", r.chance(0.35) ? 1 : 0).set("once", r.chance(0.35) ? 1 : 0);
                    draw_place(r, s);
                }
                else if (kind == 8) s.set("pre", r.range(1, 3));
                else if (kind == 9) s.set("syncfail", 1);
                else if (kind == 10) s.set("oom", r.range(1, 40)).set("oomp", r.chance(0.3) ? 1 : 0);
            }
            else
            {
                if (kind <= 5)
                {
                    s.set("lim", 1).set("once", r.chance(0.4) ? 1 : 0).set("errno", (int64_t)r.pick({ENOSPC, EIO, EINTR, EDQUOT}));
                    draw_place(r, s);
                }
                else if (kind <= 7) s.set("closefail", 1);
                else if (kind == 8) s.set("openerr", (int64_t)r.pick({ENOENT, EACCES, ENOSPC, EMFILE}));
                else if (kind == 9) s.set("renfail", 1).set("syncfail", 1);
                else if (kind == 10) s.set("oom", r.range(1, 40)).set("oomp", r.chance(0.3) ? 1 : 0);
            }
            s.set("file", r.range(0, 1));
            if (path) draw_name(r, s);
            p.steps.push_back(s);
            if (r.chance(0.15))
            {
                // the same model with one number changed, to the same place
                Step t = s;
                for (auto k : {"lim", "closefail", "openerr", "renfail", "syncfail", "oom", "pre", "throw"}) t.del(k);
                t.set("pk", (int64_t)(r.chance(0.5) ? r.range(0, 3) : (int)r.below(1 << 16)));
                p.steps.push_back(t);
            }
        }
        return p;
    }

    void exec01(const Plan& p)
    {
        Refs refs(p, {"save"}, "b");
        for (auto& s : p.steps)
        {
            if (s.op == "cold") continue;
            Obj o = Obj::from(s);
            if (s.has("pk")) o.tweak(s.i("pk"));
            bool bin = s.s("fmt", "b") == "b";
            bool path = s.s("dst", "stream") == "path";
            std::string ref = refs.get(s, "b").bytes;
            std::string before = o.image();
            std::string where = std::string(o.kind == 'c' ? "curve " : "surface ") + fmtname(bin) + (path ? " path" : " stream");
            alloc_reset(s.i("oom"), s.i("oomp") != 0);
            CallResult res;
            std::string got;
            bool fired = false;
            std::string fault = "none";
            if (!path)
            {
                SimOut out;
                out.bufsize = std::max<int64_t>(0, s.i("buf"));
                out.bytewise = s.i("bytewise") != 0;
                if (s.i("lim")) out.limit = place(s, (int64_t)ref.size());
                out.mode = s.i("throw") ? 1 : 0;
                out.oneshot = s.i("once") != 0;
                out.sync_fail = s.i("syncfail") != 0;
                out.setup();
                std::ostream os(&out);
                os.imbue(std::locale::classic());
                if (s.i("ex")) os.exceptions(exmask(s.i("ex")));
                if (s.i("pre"))
                {
                    try
                    {
                        os.setstate(s.i("pre") == 1 ? std::ios::badbit : s.i("pre") == 2 ? std::ios::failbit : std::ios::eofbit);
                    }
                    catch (const std::ios_base::failure&)
                    {
                    }
                    fired = true;
                    fault = "stream already failed";
                }
                res = guarded([&] { o.save(os, bin); });
                got = out.accepted();
                if (out.fired)
                {
                    fired = true;
                    fault = s.i("throw") ? "stream write throws" : out.oneshot ? "stream write refused once" : "stream write refused";
                }
                if (out.sync_refused)
                {
                    fired = true;
                    fault = "stream flush refused";
                    if (!res.threw) g.violate("refused flush reported as success: " + where, "the destination refused the flush and the save returned");
                }
            }
            else
            {
                std::string file = file_path(s.i("fn"), s.i("file"));
                auto& f = t_file;
                f = FileSim{};
                f.active = true;
                if (s.i("lim")) f.wr_limit = place(s, (int64_t)ref.size());
                f.wr_oneshot = s.i("once") != 0;
                f.wr_errno = (int)s.i("errno", ENOSPC);
                f.close_fail = s.i("closefail") != 0;
                f.open_errno = (int)s.i("openerr");
                f.rename_fail = s.i("renfail") != 0;
                f.sync_fail = s.i("syncfail") != 0;
                res = guarded([&] { o.save(file, bin); });
                if (f.refused)
                {
                    fired = true;
                    fault = "path " + f.last_refusal + " refused";
                    // a close that reports a failure must not be taken for success
                    if (f.close_refused && !res.threw)
                        g.violate("failed close reported as success: " + where, "the close of the file failed and the save returned");
                }
                f.active = false;
                bool exists;
                got = slurp(file, &exists);
                if (!res.threw && !exists) g.violate("no file: " + where, "the save returned and there is no file");
            }
            if (t_alloc.refused)
            {
                fired = true;
                fault = "out of memory";
            }
            g.count("fault " + fault);
            g.count("saves");
            g.ev(where + " " + fault + " " + res.text() + " " + std::to_string(got.size()));
            g.evh(hash_str(got));
            g.sig(where + fault + res.text() + std::to_string(std::min<size_t>(ref.size() ? got.size() * 16 / ref.size() : 0, 16)));
            if (!res.threw && got != ref)
                g.violate("save returned but data is missing or different: " + where + ", " + fault, summarise_diff(got, ref));
            if (res.threw && !fired)
                g.violate("save failed without a fault: " + where, res.what);
            if (o.image() != before) g.violate("save changed the model: " + where, fault);
            // once the fault is gone the save works
            alloc_reset();
            t_file = FileSim{};
            std::string again;
            CallResult r2;
            if (path)
            {
                std::string file = file_path(s.i("fn"), s.i("file"));
                t_file.active = true;
                r2 = guarded([&] { o.save(file, bin); });
                t_file.active = false;
                again = slurp(file);
            }
            else
            {
                SimOut out;
                out.setup();
                std::ostream os(&out);
                os.imbue(std::locale::classic());
                r2 = guarded([&] { o.save(os, bin); });
                again = out.accepted();
            }
            if (r2.threw) g.violate("save fails after the fault is gone: " + where, r2.what);
            if (again != ref) g.violate("save after a fault writes something else: " + where, summarise_diff(again, ref));
        }
    }
    Reg r01({"C01", gen01, exec01});
}

// ---- C03 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen03(Rng& r, uint64_t)
    {
        Plan p;
        int n = r.range(1, 4);
        bool curve = r.chance(0.5);
        for (int i = 0; i < n; ++i)
        {
            Step s("save");
            draw_model(r, s, true);
            if (i == 0) draw_name(r, s);
            if (r.chance(0.9))
            {
                // the same kind of model over and over in one file
                s.set("kind", curve ? "c" : "s");
                if (!curve && !s.has("q")) s.set("q", r.range(1, 3)).set("m", r.range(4, 6)).set("kqm", r.range(0, 3)).set("n", std::min<int64_t>(s.i("n"), 30));
            }
            s.set("fmt", r.chance(0.6) ? "b" : "t");
            switch (r.below(8))
            {
            case 0: s.set("crash", "open1"); break;
            case 1: s.set("crash", "open2"); break;
            case 2: s.set("crash", "close"); break;
            case 3: s.set("crash", "no"); break;
            default:
                s.set("crash", "byte");
                draw_place(r, s);
            }
            p.steps.push_back(s);
        }
        // prefixes of the last file, as a storage might keep them
        Step c("cuts");
        c.set("n", r.range(4, 24)).set("seed", (int64_t)r.below(1 << 30));
        p.steps.push_back(c);
        return p;
    }

    // Judges a load of `bytes` (what survived), where a complete save would have been `full`.
    void judge_torn(char kind, bool bin, const Obj& model, const std::string& full, const std::string& bytes, const CallResult& res,
                    const Obj& got, const std::string* old_image, const std::string& full_image, const std::string& what)
    {
        if (res.threw) return;
        std::string im = got.image();
        if (im == full_image) return;
        if (old_image && im == *old_image) return;
        std::string where = std::string(kind == 'c' ? "curve " : "surface ") + fmtname(bin);
        bool prefix = bytes.size() < full.size() && full.compare(0, bytes.size(), bytes) == 0;
        if (bin || !prefix)
            g.violate("a torn file loaded as a model: " + where, what + ", " + std::to_string(bytes.size()) + " of " + std::to_string(full.size()) + " bytes survived");
        // text: what the statement leaves open is the tail of the control point list
        if (bytes.find("*ControlPoints:") == std::string::npos)
            g.violate("a text file with missing sections loaded: " + where, what + ", " + std::to_string(bytes.size()) + " of " + std::to_string(full.size()) + " bytes survived");
        Obj ref;
        ref.kind = kind;
        {
            std::istringstream is(full);
            ref.load(is);
        }
        bool ok = true;
        std::string why;
        if (kind == 's')
        {
            const auto &a = got.s, &b = ref.s;
            Obj x = got, y = ref;
            if (a.ControlPoints.Values.size() != b.ControlPoints.Values.size()) ok = false, why = "control points missing";
            else if (!a.ControlPoints.Values.empty())
            {
                // only the last number may have lost digits
                x.s.ControlPoints.Values.back().w() = y.s.ControlPoints.Values.back().w() = 0;
                ok = x.image() == y.image();
                why = "contents differ";
            }
            else ok = x.image() == y.image();
        }
        else
        {
            const auto &a = got.c, &b = ref.c;
            ok = a.Degree == b.Degree && a.Knots.Values() == b.Knots.Values() && a.ControlPoints.size() <= b.ControlPoints.size();
            why = "degree, knots or point count differ";
            for (size_t i = 0; ok && i < a.ControlPoints.size(); ++i)
            {
                Vec4 u = a.ControlPoints[i], v = b.ControlPoints[i];
                if (i + 1 == a.ControlPoints.size()) u.w() = v.w() = 0;
                if (memcmp(u.data(), v.data(), 32) != 0) ok = false, why = "point " + std::to_string(i) + " differs";
            }
        }
        if (!ok) g.violate("a torn text file loaded with wrong contents: " + where, what + ", " + why + ", " + std::to_string(bytes.size()) + " of " + std::to_string(full.size()) + " bytes survived");
        g.count("torn text tail accepted (left open by the statement)");
    }

    struct Loaded
    {
        CallResult res;
        Obj obj;
    };
    Loaded load_in_fork(char kind, const std::string& path)
    {
        auto fr = in_fork(
            [&]
            {
                Obj o;
                o.kind = kind;
                alloc_reset();
                auto res = guarded([&] { o.load(path); });
                Bytes b;
                b.i(res.threw);
                b.str(res.what);
                b.b += o.image();
                return b.b;
            });
        if (fr.crashed) g.violate("crash while loading a torn file: " + fr.how.substr(0, fr.how.find(" | ")), fr.how);
        Loaded l;
        Reader rd{fr.data};
        l.res.threw = rd.i();
        l.res.what = rd.str();
        l.obj.kind = kind;
        if (kind == 'c') rd.curve(l.obj.c);
        else rd.surface(l.obj.s);
        return l;
    }

    void exec03(const Plan& p)
    {
        std::string file = file_path(p.steps.empty() ? 0 : p.steps[0].i("fn"));
        std::string last_full;
        Obj last_obj;
        bool last_bin = true;
        for (auto& s : p.steps)
        {
            if (s.op == "save")
            {
                Obj o = Obj::from(s);
                bool bin = s.s("fmt", "b") == "b";
                std::string full, full_image, old_image;
                bool have_old = false;
                {
                    // undisturbed: the bytes, what they load as, and what the file holds before this save
                    auto fr = in_fork(
                        [&]
                        {
                            Bytes b;
                            std::string bytes = ref_bytes(o, bin), im;
                            b.i(ref_load(o.kind, bytes, im));
                            b.str(bytes);
                            b.str(im);
                            Obj was;
                            was.kind = o.kind;
                            bool there;
                            slurp(file, &there);
                            b.i(there && !guarded([&] { was.load(file); }).threw);
                            b.str(was.image());
                            return b.b;
                        });
                    if (fr.crashed) g.discard("reference save or load crashed");
                    Reader rd{fr.data};
                    if (!rd.i()) g.discard("reference load failed");
                    full = rd.str();
                    full_image = rd.str();
                    have_old = rd.i();
                    old_image = rd.str();
                }
                std::string crash = s.s("crash", "no");
                int64_t at = place(s, (int64_t)full.size());
                auto fr = in_fork(
                    [&]
                    {
                        alloc_reset();
                        t_file = FileSim{};
                        auto& f = t_file;
                        f.active = true;
                        if (crash == "open1") f.crash_open = 1;
                        if (crash == "open2") f.crash_open = 2;
                        if (crash == "close") f.crash_close = true;
                        if (crash == "byte") f.crash_byte = at;
                        auto res = guarded([&] { o.save(file, bin); });
                        f.active = false;
                        return std::string(res.threw ? "T" : "R");
                    });
                bool died = fr.crashed && fr.exit_code == CRASH_EXIT;
                if (fr.crashed && !died) g.violate("crash while saving: " + fr.how.substr(0, fr.how.find(" | ")), fr.how);
                if (!died && fr.data == "T") g.violate("save failed without a fault", "");
                g.count(died ? "process death at " + crash : "saves completed");
                bool exists;
                std::string bytes = slurp(file, &exists);
                g.ev(std::string(1, o.kind) + fmtname(bin) + crash + (died ? " died " : " done ") + std::to_string(bytes.size()));
                g.evh(hash_str(bytes));
                g.sig(std::string(1, o.kind) + fmtname(bin) + crash + std::to_string(full.empty() ? 0 : bytes.size() * 32 / full.size()));
                if (exists)
                {
                    auto l = load_in_fork(o.kind, file);
                    std::string what = "process died at " + crash + (crash == "byte" ? " " + std::to_string(at) : "");
                    if (!died)
                    {
                        if (l.res.threw || l.obj.image() != full_image) g.violate("a completed save does not load back", l.res.what);
                    }
                    else
                    {
                        judge_torn(o.kind, bin, o, full, bytes, l.res, l.obj, have_old ? &old_image : nullptr, full_image, what);
                        g.ev(l.res.text());
                    }
                }
                last_full = full;
                last_obj = o;
                last_bin = bin;
            }
            else if (s.op == "cuts" && !last_full.empty())
            {
                // many cuts of the last file in one process
                int n = clampi(s.i("n", 8), 0, 200);
                Rng r(uint64_t(s.i("seed")));
                std::string full_image;
                if (!ref_load(last_obj.kind, last_full, full_image)) g.discard("reference load failed");
                for (int i = 0; i < n; ++i)
                {
                    size_t cut = s.has("cut") ? size_t(s.i("cut")) % last_full.size()
                                 : r.chance(0.3) ? last_full.size() - 1 - r.below(std::min<uint64_t>(last_full.size(), 80))
                                                 : r.below(last_full.size());
                    std::string bytes = last_full.substr(0, cut);
                    CallResult res;
                    Obj o;
                    o.kind = last_obj.kind;
                    std::istringstream is(bytes);
                    alloc_reset();
                    res = guarded([&] { o.load(is); });
                    judge_torn(o.kind, last_bin, last_obj, last_full, bytes, res, o, nullptr, full_image, "cut at " + std::to_string(cut));
                    g.count("cuts loaded");
                    g.ev("cut" + std::to_string(cut) + res.text());
                }
            }
        }
    }
    Reg r03({"C03", gen03, exec03});
}

// ---- C04 ------------------------------------------------------------------------------------------------
namespace
{
    Plan gen04(Rng& r, uint64_t)
    {
        Plan p;
        if (r.chance(0.5))
        {
            // one stream of records
            Step h("channel");
            h.set("buf", (int64_t)r.pick({0, 0, 1, 3, 64, 4096})).set("bytewise", r.chance(0.3) ? 1 : 0);
            h.set("chunk", r.chance(0.75) ? (int64_t)(1 + r.below(1 << 20)) : 0).set("max", (int64_t)r.pick({1, 2, 5, 16, 64, 1000, 4096}));
            p.steps.push_back(h);
            int n = r.range(1, 6);
            for (int i = 0; i < n; ++i)
            {
                if (r.chance(0.25))
                {
                    Step b("blob");
                    b.set("len", r.chance(0.3) ? r.range(1, 3) : r.range(1, 200)).set("seed", (int64_t)r.below(1000)).set("lead", r.range(0, 3));
                    p.steps.push_back(b);
                }
                else
                {
                    Step s("rec");
                    draw_model(r, s, true);
                    if (r.chance(0.1)) s.set("cm", 3);
                    s.set("dirty", r.chance(0.3) ? 1 : 0);
                    p.steps.push_back(s);
                }
            }
            if (r.chance(0.3))
            {
                Step s("text");
                draw_model(r, s, true);
                p.steps.push_back(s);
            }
        }
        else
        {
            int n = r.range(1, 4);
            for (int i = 0; i < n; ++i)
            {
                Step s(r.chance(0.5) ? "path" : "reform");
                draw_model(r, s, true);
                s.set("fmt", s.op == "reform" || r.chance(0.5) ? "t" : "b").set("file", r.range(0, 1));
                draw_name(r, s);
                if (s.op == "reform")
                    s.set("crlf", r.chance(0.5) ? 1 : 0).set("blank", r.chance(0.5) ? r.range(1, 5) : 0).set("pad", r.chance(0.5) ? r.range(1, 6) : 0)
                        .set("noeol", r.chance(0.3) ? 1 : 0).set("seed", (int64_t)r.below(100000)).set("chunk", r.chance(0.5) ? (int64_t)r.below(10000) : 0)
                        .set("max", (int64_t)r.pick({1, 3, 17, 300}));
                else s.set("rdchunk", (int64_t)r.pick({0, 0, 1, 7, 100}));
                s.set("dirty", r.chance(0.3) ? 1 : 0);
                // another model of the same shape over the same file
                if (i > 0 && s.op == "path" && p.steps.back().op == "path" && r.chance(0.5))
                {
                    s = p.steps.back();
                    s.set("os", (int64_t)r.below(100000));
                }
                p.steps.push_back(s);
            }
        }
        return p;
    }

    bool near(double a, double b) { return a == b || std::fabs(a - b) <= 1e-17; }

    // "" when equal under the statement's rule, otherwise what differs
    std::string compare(const Obj& a, const Obj& b, bool bin)
    {
        if (bin) return a.image() == b.image() ? "" : "not bit for bit equal: " + summarise_diff(a.image(), b.image());
        auto kn = [](const std::vector<double>& x, const std::vector<double>& y, const char* n) -> std::string
        {
            if (x.size() != y.size()) return std::string(n) + ": count " + std::to_string(x.size()) + " vs " + std::to_string(y.size());
            for (size_t i = 0; i < x.size(); ++i)
                if (!near(x[i], y[i])) return std::string(n) + "[" + std::to_string(i) + "] differs";
            return "";
        };
        auto pt = [](const std::vector<Vec4>& x, const std::vector<Vec4>& y) -> std::string
        {
            if (x.size() != y.size()) return "points: count " + std::to_string(x.size()) + " vs " + std::to_string(y.size());
            for (size_t i = 0; i < x.size(); ++i)
                for (int k = 0; k < 4; ++k)
                    if (!near(x[i][k], y[i][k])) return "point " + std::to_string(i) + " component " + std::to_string(k) + " differs";
            return "";
        };
        if (a.kind == 'c')
        {
            if (a.c.Degree != b.c.Degree) return "degree differs";
            if (auto k = kn(a.c.Knots.Values(), b.c.Knots.Values(), "knots"); !k.empty()) return k;
            return pt(a.c.ControlPoints, b.c.ControlPoints);
        }
        if (a.s.DegreeU != b.s.DegreeU || a.s.DegreeV != b.s.DegreeV) return "degree differs";
        if (auto k = kn(a.s.KnotsU.Values(), b.s.KnotsU.Values(), "knots u"); !k.empty()) return k;
        if (auto k = kn(a.s.KnotsV.Values(), b.s.KnotsV.Values(), "knots v"); !k.empty()) return k;
        if (a.s.ControlPoints.UCount != b.s.ControlPoints.UCount || a.s.ControlPoints.VCount != b.s.ControlPoints.VCount) return "grid size differs";
        return pt(a.s.ControlPoints.Values, b.s.ControlPoints.Values);
    }

    Obj target(const Step& s, char kind)
    {
        Obj t;
        t.kind = kind;
        if (s.i("dirty"))
        {
            // an object that already holds something else
            Step d;
            d.set("kind", std::string(1, kind)).set("p", 2).set("q", 1).set("n", 5).set("m", 3).set("cm", 1).set("os", 7);
            t = Obj::from(d);
        }
        return t;
    }
    std::string blob(const Step& s)
    {
        Rng r(uint64_t(s.i("seed")));
        std::string b;
        int n = clampi(s.i("len", 4), 1, 4000);
        for (int i = 0; i < n; ++i) b += char(r.next());
        // what a reader that goes a byte too far is likely to swallow
        int lead = clampi(s.i("lead"), 0, 3);
        for (int i = 0; i < lead && i < n; ++i) b[size_t(i)] = "\n\r \t\0*L#,;:\xff\x1a"[r.below(13)];
        return b;
    }

    void exec04(const Plan& p)
    {
        alloc_reset();
        t_file = FileSim{};
        SimOut out;
        Step chan("channel");
        for (auto& s : p.steps)
            if (s.op == "channel") chan = s;
        out.bufsize = std::max<int64_t>(0, chan.i("buf"));
        out.bytewise = chan.i("bytewise") != 0;
        out.setup();
        std::ostream os(&out);
        os.imbue(std::locale::classic());
        std::vector<size_t> ends;
        bool text_seen = false;
        std::vector<const Step*> recs;
        for (auto& s : p.steps)
        {
            if (text_seen) break;
            if (s.op == "rec" || s.op == "text")
            {
                Obj o = Obj::from(s);
                auto res = guarded([&] { o.save(os, s.op == "rec"); });
                if (res.threw) g.violate("save failed without a fault", res.what);
                if (s.op == "text") text_seen = true;
                if (s.op == "text" && out.accepted().size() < 3) g.violate("empty record", "");
            }
            else if (s.op == "blob")
            {
                auto b = blob(s);
                os.write(b.data(), (std::streamsize)b.size());
            }
            else continue;
            recs.push_back(&s);
            ends.push_back(out.accepted().size());
        }
        if (!recs.empty())
        {
            SimIn in;
            in.data = out.accepted();
            in.chunkseed = uint64_t(chan.i("chunk"));
            in.maxchunk = std::max<int64_t>(1, chan.i("max", 64));
            in.setup();
            std::istream is(&in);
            is.imbue(std::locale::classic());
            for (size_t i = 0; i < recs.size(); ++i)
            {
                auto& s = *recs[i];
                if (s.op == "blob")
                {
                    auto b = blob(s);
                    std::string got(b.size(), 0);
                    is.read(got.data(), (std::streamsize)got.size());
                    if (got != b) g.violate("foreign data between records was disturbed", "record " + std::to_string(i));
                    g.ev("blob");
                }
                else
                {
                    bool bin = s.op == "rec";
                    Obj want = Obj::from(s);
                    Obj t = target(s, want.kind);
                    auto res = guarded([&] { t.load(is); });
                    std::string where = std::string(want.kind == 'c' ? "curve " : "surface ") + fmtname(bin);
                    if (res.threw) g.violate("a saved model does not load back: " + where, res.what + " (record " + std::to_string(i) + ")");
                    if (auto d = compare(t, want, bin); !d.empty()) g.violate("a saved model loads back different: " + where, d);
                    if (bin && (!is.good() || in.consumed() != ends[i]))
                        g.violate("load does not stop at the end of its record: " + where,
                                  "stream at " + std::to_string(in.consumed()) + ", record ends at " + std::to_string(ends[i]));
                    g.ev(where + std::to_string(ends[i]));
                    g.evh(hash_str(t.image()));
                }
                g.sig(s.op + std::to_string(s.i("p")) + s.s("kind"));
                g.count("records read");
            }
            g.count("chunks handed out", (uint64_t)in.calls);
            g.sig(std::to_string(chan.i("max")) + " " + std::to_string(chan.i("buf")));
        }
        for (auto& s : p.steps)
        {
            if (s.op != "path" && s.op != "reform") continue;
            Obj o = Obj::from(s);
            bool bin = s.s("fmt", "t") == "b" && s.op == "path";
            std::string where = std::string(o.kind == 'c' ? "curve " : "surface ") + fmtname(bin) + (s.op == "path" ? " path" : " re-formatted");
            Obj t = target(s, o.kind);
            CallResult res;
            if (s.op == "path")
            {
                std::string file = file_path(s.i("fn"), s.i("file"));
                t_file = FileSim{};
                t_file.active = true;
                res = guarded([&] { o.save(file, bin); });
                if (res.threw) g.violate("save failed without a fault: " + where, res.what);
                t_file = FileSim{};
                t_file.active = true;
                t_file.rd_chunk = s.i("rdchunk");
                res = guarded([&] { t.load(file); });
                t_file.active = false;
            }
            else
            {
                std::string b = ref_bytes(o, false), m;
                Rng r(uint64_t(s.i("seed")));
                size_t q = 0;
                bool first = true;
                while (q < b.size())
                {
                    size_t e = b.find('\n', q);
                    if (e == std::string::npos) e = b.size();
                    std::string line = b.substr(q, e - q);
                    q = e + 1;
                    auto padding = [&]
                    {
                        std::string x;
                        int n = (int)r.below(uint64_t(s.i("pad")) + 1);
                        for (int i = 0; i < n; ++i) x += r.chance(0.5) ? ' ' : '\t';
                        return x;
                    };
                    if (!first && s.i("pad")) line = padding() + line + padding();
                    if (s.i("crlf")) line += '\r';
                    bool last = q >= b.size();
                    m += line;
                    if (!(last && s.i("noeol"))) m += '\n';
                    if (s.i("blank") && !last)
                        for (int i = (int)r.below(uint64_t(s.i("blank")) + 1); i > 0; --i) m += s.i("crlf") ? "\r\n" : "\n";
                    first = false;
                }
                SimIn in;
                in.data = m;
                in.chunkseed = uint64_t(s.i("chunk"));
                in.maxchunk = std::max<int64_t>(1, s.i("max", 64));
                in.setup();
                std::istream is(&in);
                res = guarded([&] { t.load(is); });
                g.count("files re-formatted");
            }
            if (res.threw) g.violate("a saved model does not load back: " + where, res.what);
            if (auto d = compare(t, o, bin); !d.empty()) g.violate("a saved model loads back different: " + where, d);
            g.ev(where);
            g.evh(hash_str(t.image()));
            g.sig(where + std::to_string(s.i("p")) + std::to_string(s.i("cm")) + std::to_string(s.i("km")) + (s.i("crlf") ? "r" : "") +
                  (s.i("pad") ? "p" : "") + (s.i("blank") ? "b" : ""));
        }
    }
    Reg r04({"C04", gen04, exec04});
}

// ---- C07 ------------------------------------------------------------------------------------------------
namespace
{
    struct Punct : std::numpunct<char>
    {
        char dp, ts;
        std::string gr, tn, fn;
        Punct(char d, char t, std::string g) : dp(d), ts(t), gr(std::move(g)), tn("ja"), fn("nein") {}
        char do_decimal_point() const override { return dp; }
        char do_thousands_sep() const override { return ts; }
        std::string do_grouping() const override { return gr; }
        std::string do_truename() const override { return tn; }
        std::string do_falsename() const override { return fn; }
    };
    constexpr int NLOC = 7;
    std::locale make_locale(int64_t i)
    {
        switch (uint64_t(i) % NLOC)
        {
        case 1: return std::locale(std::locale::classic(), new Punct(',', '.', "\3"));
        case 2: return std::locale(std::locale::classic(), new Punct('.', ',', "\3"));
        case 3: return std::locale(std::locale::classic(), new Punct(',', ' ', "\3"));
        case 4: return std::locale(std::locale::classic(), new Punct('\'', '\'', "\1"));
        case 5: return std::locale(std::locale::classic(), new Punct(';', '.', "\2\3"));
        case 6: return std::locale(std::locale::classic(), new Punct('.', '1', "\2"));
        default: return std::locale::classic();
        }
    }
    std::ios::fmtflags make_flags(int64_t v)
    {
        using F = std::ios;
        F::fmtflags f{};
        static const F::fmtflags all[] = {F::boolalpha, F::showbase, F::showpoint, F::showpos, F::skipws, F::unitbuf, F::uppercase, F::hex, F::oct,
                                          F::scientific, F::fixed, F::left, F::internal, F::right, F::dec};
        for (size_t i = 0; i < std::size(all); ++i)
            if (v & (1ll << i)) f |= all[i];
        return f;
    }

    Plan gen07(Rng& r, uint64_t)
    {
        Plan p;
        if (r.chance(0.5)) p.steps.push_back(Step("cold"));
        int n = r.range(2, 7);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(0.3))
            {
                Step s("global");
                s.set("loc", r.range(0, NLOC - 1));
                if (r.chance(0.5)) s.set("cloc", 1);
                p.steps.push_back(s);
                continue;
            }
            Step s(r.chance(0.55) ? "save" : "load");
            draw_model(r, s, true);
            if (r.chance(0.25)) s.set("n", s.i("n") + r.pick({997, 1200})).set("m", std::min<int64_t>(s.i("m"), 4));
            if (s.s("kind") == "s" && s.i("n") > 500 && !r.chance(0.2)) s.set("n", s.i("n") - 950);
            s.set("fmt", r.chance(0.25) ? "b" : "t");
            s.set("via", r.chance(0.25) ? "path" : "stream");
            if (s.s("via") == "path") draw_name(r, s);
            if (r.chance(0.2)) s.set("p", (int64_t)r.pick({1000, 12345, 1234567})).set("km", 4);
            s.set("loc", r.range(0, NLOC - 1));
            if (r.chance(0.6)) s.set("flags", (int64_t)r.below(1 << 15));
            if (r.chance(0.5)) s.set("prec", r.range(0, 25));
            if (r.chance(0.4)) s.set("width", r.range(1, 40));
            if (r.chance(0.4)) s.set("fill", (int64_t)r.pick({'0', '*', 'x', '-', ' '}));
            if (r.chance(0.3))
            {
                s.set("lim", 1).set("throw", r.range(0, 1));
                draw_place(r, s);
            }
            p.steps.push_back(s);
        }
        return p;
    }

    void exec07(const Plan& p)
    {
        std::locale::global(std::locale::classic());
        int64_t global = 0, cglobal = 0;
        alloc_reset();
        Refs refs(p, {"save", "load"}, "t");
        auto clocale = [](bool foreign) { return setlocale(LC_NUMERIC, foreign ? "comma" : "C") != nullptr; };
        // what the process-wide locale is, in C and in C++
        std::locale set_to;
        std::string cset_to;
        auto unchanged = [&](const std::string& where, const CallResult& r)
        {
            std::string how = r.threw ? " (failed)" : "";
            if (std::locale() != set_to) g.violate("the call changed the process-wide C++ locale: " + where + how, "");
            if (setlocale(LC_ALL, nullptr) != cset_to) g.violate("the call changed the process-wide C locale: " + where + how, "");
        };
        for (auto& s : p.steps)
        {
            if (s.op == "global")
            {
                global = s.i("loc");
                cglobal = s.i("cloc");
                continue;
            }
            if (s.op != "save" && s.op != "load") continue;
            Obj o = Obj::from(s);
            bool bin = s.s("fmt", "t") == "b";
            bool path = s.s("via", "stream") == "path";
            std::string where = std::string(o.kind == 'c' ? "curve " : "surface ") + fmtname(bin) + (path ? " path" : " stream");
            // reference in the classic locale with a fresh stream
            std::locale::global(std::locale::classic());
            clocale(false);
            auto one = refs.get(s, "t");
            std::string ref = one.bytes, ref_image = one.image;
            if (!one.ok) g.discard("reference load failed");
            std::locale::global(make_locale(global));
            if (cglobal && clocale(true)) g.count("calls under a foreign C locale");
            set_to = std::locale();
            cset_to = setlocale(LC_ALL, nullptr);
            auto cond = [&]
            {
                return "global locale " + std::to_string(global) + (cglobal ? ", C locale with decimal comma" : "") + ", stream locale " + std::to_string(s.i("loc")) + ", flags " +
                       std::to_string(s.i("flags", -1)) + ", precision " + std::to_string(s.i("prec", -1)) + ", width " +
                       std::to_string(s.i("width", -1)) + ", fill " + std::to_string(s.i("fill", -1));
            };
            g.sig(where + s.op + std::to_string(global) + "/" + std::to_string(s.i("loc")) + (s.has("flags") ? "f" : "") + (s.has("prec") ? "p" : "") +
                  (s.has("width") ? "w" : "") + (s.has("fill") ? "c" : ""));
            g.count(std::string("calls under ") + (global ? "a foreign global locale" : "the classic global locale"));
            if (s.i("loc") && !path) g.count("calls with a foreign stream locale");
            if (s.has("flags")) g.count("calls with foreign stream flags");
            if (s.op == "save")
            {
                if (path)
                {
                    std::string file = file_path(s.i("fn"));
                    t_file = FileSim{};
                    t_file.active = true;
                    auto res = guarded([&] { o.save(file, bin); });
                    t_file.active = false;
                    unchanged(where, res);
                    if (res.threw) g.violate("save failed: " + where, res.what);
                    auto got = slurp(file);
                    if (got != ref) g.violate("bytes depend on the locale or stream state: " + where, cond() + ": " + summarise_diff(got, ref));
                    g.ev(where + std::to_string(got.size()));
                    continue;
                }
                SimOut out;
                if (s.i("lim")) out.limit = place(s, (int64_t)ref.size());
                out.mode = s.i("throw") ? 1 : 0;
                out.setup();
                std::ostream os(&out);
                std::locale sl = make_locale(s.i("loc"));
                os.imbue(sl);
                if (s.has("flags")) os.flags(make_flags(s.i("flags")));
                if (s.has("prec")) os.precision(s.i("prec"));
                if (s.has("width")) os.width(s.i("width"));
                if (s.has("fill")) os.fill(char(s.i("fill")));
                auto fl = os.flags();
                auto pr = os.precision();
                auto fi = os.fill();
                auto res = guarded([&] { o.save(os, bin); });
                unchanged(where, res);
                auto got = out.accepted();
                if (res.threw && !out.fired) g.violate("save failed: " + where, cond() + ": " + res.what);
                if (!res.threw && got != ref) g.violate("bytes depend on the locale or stream state: " + where, cond() + ": " + summarise_diff(got, ref));
                if (res.threw && got != ref.substr(0, got.size()))
                    g.violate("bytes depend on the locale or stream state: " + where, cond() + ": " + summarise_diff(got, ref));
                std::string after = res.threw ? " after a failed save" : "";
                if (os.flags() != fl) g.violate("save changed the flags of the caller's stream: " + where + after, cond());
                if (os.precision() != pr) g.violate("save changed the precision of the caller's stream: " + where + after, cond());
                if (os.fill() != fi) g.violate("save changed the fill character of the caller's stream: " + where + after, cond());
                if (os.getloc() != sl) g.violate("save changed the locale of the caller's stream: " + where + after, cond());
                if (res.threw) g.count("fault stream write refused");
                g.ev(where + res.text() + std::to_string(got.size()));
            }
            else
            {
                Obj t;
                t.kind = o.kind;
                CallResult res;
                if (path)
                {
                    std::string file = file_path(s.i("fn"));
                    spill(file, ref);
                    t_file = FileSim{};
                    t_file.active = true;
                    res = guarded([&] { t.load(file); });
                    t_file.active = false;
                }
                else
                {
                    SimIn in;
                    in.data = ref;
                    if (s.i("lim")) in.fail_at = place(s, (int64_t)ref.size());
                    in.mode = s.i("throw") ? 0 : 1;
                    in.setup();
                    std::istream is(&in);
                    in.owner = &is;
                    is.imbue(make_locale(s.i("loc")));
                    if (s.has("flags")) is.flags(make_flags(s.i("flags")));
                    if (s.has("prec")) is.precision(s.i("prec"));
                    if (s.has("width")) is.width(s.i("width"));
                    if (s.has("fill")) is.fill(char(s.i("fill")));
                    auto fl = is.flags();
                    auto pr = is.precision();
                    auto fi = is.fill();
                    auto sl = is.getloc();
                    res = guarded([&] { t.load(is); });
                    if (is.flags() != fl) g.violate("load changed the flags of the caller's stream: " + where, cond());
                    if (is.precision() != pr) g.violate("load changed the precision of the caller's stream: " + where, cond());
                    if (is.fill() != fi) g.violate("load changed the fill character of the caller's stream: " + where, cond());
                    if (is.getloc() != sl) g.violate("load changed the locale of the caller's stream: " + where, cond());
                    if (in.fired)
                    {
                        unchanged(where, res);
                        g.count("fault source fails");
                        g.ev(where + "failing load");
                        continue;
                    }
                }
                unchanged(where, res);
                if (res.threw) g.violate("load depends on the locale or stream state: " + where, cond() + ": " + res.what);
                if (t.image() != ref_image)
                    g.violate("load depends on the locale or stream state: " + where, cond() + ": " + summarise_diff(t.image(), ref_image));
                g.ev(where + "load");
            }
        }
    }
    Reg r07({"C07", gen07, exec07});
}
