// Helpers shared by the property executors: one object of either kind, guarded library calls, damage.
#pragma once
#include "core.hpp"
#include "model.hpp"
#include "streams.hpp"
#include <fstream>
#include <locale>
#include <sstream>
#include <typeinfo>

namespace sim
{
    struct Obj
    {
        char kind = 'c';
        Curve c;
        Surface s;

        static Obj from(const Step& st)
        {
            Obj o;
            o.kind = st.s("kind", "c")[0];
            if (o.kind == 'c') o.c = make_curve(st);
            else o.s = make_surface(st);
            return o;
        }
        // changes one coordinate, counted from the end, keeping the number of characters it takes as text
        void tweak(int64_t n)
        {
            auto& v = kind == 'c' ? c.ControlPoints : s.ControlPoints.Values;
            if (v.empty()) return;
            size_t i = uint64_t(n) % (v.size() * 4);
            double& x = v[v.size() - 1 - i / 4][3 - i % 4];
            double t = std::trunc(x), f = std::abs(x - t);
            x = std::copysign(std::abs(t) + (f == 0.5 ? 0.25 : 0.5), x);
        }
        std::string image() const { return kind == 'c' ? img(c) : img(s); }
        void save(std::ostream& os, bool bin) const { kind == 'c' ? c.SaveToFile(os, bin) : s.SaveToFile(os, bin); }
        void save(const std::string& path, bool bin) const { kind == 'c' ? c.SaveToFile(path, bin) : s.SaveToFile(path, bin); }
        void load(std::istream& is)
        {
            if (kind == 'c') c.LoadFromFile(is);
            else s.LoadFromFile(is);
        }
        void load(const std::string& path)
        {
            if (kind == 'c') c.LoadFromFile(path);
            else s.LoadFromFile(path);
        }
    };

    struct CallResult
    {
        bool threw = false;
        bool oom = false;
        std::string type, what;
        std::string text() const { return threw ? type : "ok"; }
    };

    // Runs library code under the seams; the caller configures t_alloc / t_file first.
    template <typename F> CallResult guarded(F&& f)
    {
        CallResult r;
        Armed a;
        try
        {
            f();
        }
        catch (const std::bad_alloc& e)
        {
            Pause p;
            r.threw = r.oom = true;
            r.type = "bad_alloc";
            r.what = e.what();
        }
        catch (const std::exception& e)
        {
            Pause p;
            r.threw = true;
            r.type = "exception";
            r.what = e.what();
        }
        catch (...)
        {
            Pause p;
            r.threw = true;
            r.type = "other";
        }
        return r;
    }

    // Undisturbed save.
    inline std::string ref_bytes(const Obj& o, bool bin)
    {
        std::ostringstream os;
        os.imbue(std::locale::classic());
        o.save(os, bin);
        return os.str();
    }
    // Undisturbed load into a fresh object; empty optional-like flag when it throws.
    inline bool ref_load(char kind, const std::string& bytes, std::string& image)
    {
        Obj o;
        o.kind = kind;
        std::istringstream is(bytes);
        try
        {
            o.load(is);
        }
        catch (const std::exception&)
        {
            return false;
        }
        image = o.image();
        return true;
    }

    // The undisturbed saves and loads of the steps named `ops`, in order. In a plan with a step "cold" they happen in
    // another process, so that the first use of anything the library makes on first use happens under the faults of the plan.
    struct Refs
    {
        struct One
        {
            bool ok = false;
            std::string bytes, image;
        };
        bool cold = false;
        std::vector<One> v;
        size_t next = 0;

        static One make(const Step& s, const char* fmt)
        {
            Obj o = Obj::from(s);
            if (s.has("pk")) o.tweak(s.i("pk"));
            One r;
            r.bytes = ref_bytes(o, s.s("fmt", fmt) == "b");
            r.ok = ref_load(o.kind, r.bytes, r.image);
            return r;
        }
        Refs(const Plan& p, std::initializer_list<std::string> ops, const char* fmt)
        {
            for (auto& s : p.steps) cold |= s.op == "cold";
            if (!cold) return;
            g.count("faults come before the first undisturbed call");
            auto f = in_fork(
                [&]
                {
                    Bytes b;
                    for (auto& s : p.steps)
                        if (std::find(ops.begin(), ops.end(), s.op) != ops.end())
                        {
                            One o = make(s, fmt);
                            b.i(o.ok);
                            b.str(o.bytes);
                            b.str(o.image);
                        }
                    return std::move(b.b);
                });
            if (f.crashed) g.discard("undisturbed calls die");
            Reader d{f.data};
            for (auto& s : p.steps)
                if (std::find(ops.begin(), ops.end(), s.op) != ops.end())
                {
                    One o;
                    o.ok = d.i();
                    o.bytes = d.str();
                    o.image = d.str();
                    v.push_back(o);
                }
        }
        One get(const Step& s, const char* fmt) { return cold ? v.at(next++) : make(s, fmt); }
    };

    inline const char* fmtname(bool bin) { return bin ? "bin" : "txt"; }

    // Position of a fault inside `len` bytes: `at` counted from the start, or from the end with end=1.
    inline int64_t place(const Step& s, int64_t len)
    {
        int64_t at = s.i("at");
        if (at < 0) at = -at;
        at %= len + 1;
        return s.i("end") ? len - at : at;
    }
    inline void draw_place(Rng& r, Step& s)
    {
        switch (r.below(4))
        {
        case 0: s.set("at", r.range(0, 60)); break;
        case 1: s.set("at", r.range(0, 60)).set("end", 1); break;
        case 2: s.set("at", (int64_t)r.pick({4095, 4096, 4097, 8191, 8192, 8193, 12288, 1023, 1024})); break;
        default: s.set("at", (int64_t)r.below(1 << 20)); break;
        }
    }

    // Where the 32-bit fields of a saved binary record are.
    inline std::vector<size_t> bin_fields(const Obj& o, const std::string& b)
    {
        std::vector<size_t> f;
        size_t h = b.find('\n') + 1;
        if (o.kind == 'c')
        {
            f.push_back(h);
            f.push_back(h + 4);
            f.push_back(h + 8 + 8 * o.c.Knots.Values().size());
        }
        else
        {
            f.push_back(h);
            f.push_back(h + 4);
            f.push_back(h + 8);
            size_t p = h + 12 + 8 * o.s.KnotsU.Values().size();
            f.push_back(p);
            p += 4 + 8 * o.s.KnotsV.Values().size();
            f.push_back(p);
            f.push_back(p + 4);
        }
        return f;
    }

    // Damage: one mutation of the bytes of a saved file.
    inline const std::vector<int64_t>& int_table()
    {
        static const std::vector<int64_t> t{-1, 0, 1, 2, 3, 255, 256, 1024, 4096, 65535, 65536, 65537, 46340, 46341, 1 << 20, 1 << 24,
                                            1 << 28, 1 << 29, (1 << 29) + 1, 1 << 30, 2147483647, 2147483646, -2147483648ll, -2, 131072, 16777217,
                                            65538, 32768, 98304, 196608};
        return t;
    }
    inline const std::vector<std::string>& token_table()
    {
        static const std::vector<std::string> t{"nan",        "inf", "-inf", "1e999", "-1e999", "-",  "+",  ".",   "0x10", "99999999999999999999",
                                                "1.5.5",      "*Knots:", "*KnotsU:", "*Unknown: 1", "*ControlPoints:", ",", ",,", "-1", "0",
                                                "2147483647", "4294967297", "65536 65536", "65536 65536\n", "*", ":", "*:", "*Degree: 3", "1 2 3",
                                                "1 2 3 4 5",  "1e-400", "1e", "abc", "65537 65537", "1 1", "2 2", "0 0", "-1 -1", "\r", "\n", "\t",
                                                "46341 46341", "1 4294967297", "3,", "0.5;0.6", "16 268435456", "536870912 8"};
        return t;
    }
    inline void damage(std::string& b, const Step& m, const Obj& o, bool bin)
    {
        std::string k = m.s("how", "flip");
        auto posn = [&](const char* key = "pos") -> size_t { return b.empty() ? 0 : size_t(uint64_t(m.i(key)) % b.size()); };
        auto val32 = [&](const char* ki, const char* kr) -> int32_t
        { return m.has(ki) ? (int32_t)int_table()[uint64_t(m.i(ki)) % int_table().size()] : (int32_t)m.i(kr); };
        auto put32 = [&](size_t p, int32_t v)
        {
            if (p + 4 <= b.size()) memcpy(b.data() + p, &v, 4);
        };
        if (b.empty()) return;
        if (k == "flip") b[posn()] ^= char(1 << (m.i("bit") & 7));
        else if (k == "byte") b[posn()] = char(m.i("v"));
        else if (k == "ovw")
        {
            size_t p = posn(), n = size_t(m.i("len", 8)) & 255;
            Rng r(uint64_t(m.i("seed")));
            for (size_t i = p; i < p + n && i < b.size(); ++i) b[i] = char(r.next());
        }
        else if (k == "fld" && bin)
        {
            auto f = bin_fields(o, b);
            put32(f[uint64_t(m.i("f")) % f.size()], val32("vi", "v"));
        }
        else if (k == "add" && bin)
        {
            auto f = bin_fields(o, b);
            size_t p = f[uint64_t(m.i("f")) % f.size()];
            int32_t v = 0;
            if (p + 4 <= b.size()) memcpy(&v, b.data() + p, 4);
            put32(p, int32_t(uint32_t(v) + uint32_t(m.i("v", 1))));
        }
        else if (k == "dims" && bin)
        {
            auto f = bin_fields(o, b);
            put32(f[f.size() - 2], val32("vi", "v"));
            put32(f[f.size() - 1], val32("wi", "w"));
        }
        else if (k == "dimstail" && bin)
        {
            // dimensions whose 32-bit product is small, with enough points behind them
            auto f = bin_fields(o, b);
            put32(f[f.size() - 2], val32("vi", "v"));
            put32(f[f.size() - 1], val32("wi", "w"));
            b.append(size_t(m.i("len")) & 0xffff, '\1');
        }
        else if (k == "trunc") b.resize(posn());
        else if (k == "append")
        {
            Rng r(uint64_t(m.i("seed")));
            size_t n = size_t(m.i("len", 8)) & 1023;
            for (size_t i = 0; i < n; ++i) b += char(r.next());
        }
        else if (k == "del") b.erase(posn(), size_t(m.i("len", 1)) & 255);
        else if (k == "dup")
        {
            size_t p = posn();
            std::string part = b.substr(p, size_t(m.i("len", 16)) & 1023);
            b.insert(posn("to"), part);
        }
        else if (k == "swap")
        {
            size_t p = posn(), q = posn("to"), n = size_t(m.i("len", 8)) & 255;
            for (size_t i = 0; i < n && p + i < b.size() && q + i < b.size(); ++i) std::swap(b[p + i], b[q + i]);
        }
        else if (k == "tok")
        {
            // replace (or insert before) the n-th blank-separated token
            std::vector<std::pair<size_t, size_t>> toks;
            size_t p = 0;
            while (p < b.size() && toks.size() < 100000)
            {
                while (p < b.size() && isspace((unsigned char)b[p])) ++p;
                size_t q = p;
                while (q < b.size() && !isspace((unsigned char)b[q])) ++q;
                if (q > p) toks.push_back({p, q - p});
                p = q;
            }
            if (!toks.empty())
            {
                auto [tp, tn] = toks[uint64_t(m.i("n")) % toks.size()];
                auto& w = token_table()[uint64_t(m.i("w")) % token_table().size()];
                if (m.i("ins")) b.insert(tp, w + " ");
                else b.replace(tp, tn, w);
            }
        }
        else if (k == "ctl")
        {
            // control characters, blanks and separators in odd places: a line of their own, inside a line, at its end
            static const char cs[] = "\v\f\t\r\0 ,:*\n\x85\xa0;#";
            size_t n = 1 + (size_t(m.i("len")) & 7);
            Rng r(uint64_t(m.i("seed")));
            bool same = m.i("same") != 0;
            char c0 = cs[r.below(sizeof cs - 1)];
            std::string w;
            for (size_t i = 0; i < n; ++i) w += same ? c0 : cs[r.below(sizeof cs - 1)];
            std::vector<size_t> starts{0};
            for (size_t i = 0; i + 1 < b.size(); ++i)
                if (b[i] == '\n') starts.push_back(i + 1);
            size_t l = starts[uint64_t(m.i("n")) % starts.size()];
            size_t e = b.find('\n', l);
            if (e == std::string::npos) e = b.size();
            switch (m.i("do") % 5)
            {
            case 0: b.insert(l, w + "\n"); break;
            case 1: b.insert(l, w); break;
            case 2: b.insert(e, w); break;
            case 3: b.replace(l, e - l, w); break;
            default: b.insert(posn(), w); break;
            }
        }
        else if (k == "rep")
        {
            // a line, a token or a character many times over
            static const char* what[] = {" ", ",", "0", "0 0 0 1,", "0 0 0 1,\n", "\n", "*", ":", "\t", "1, ", "-", ", ,", "*Degree: 2\n", "\r", "9", "*Knots:\n0, 1\n", "a"};
            std::string w = what[uint64_t(m.i("w")) % std::size(what)];
            size_t n = size_t(m.i("len", 1)) % 200001 / w.size() + 1;
            std::string ins;
            ins.reserve(w.size() * n);
            for (size_t i = 0; i < n; ++i) ins += w;
            size_t l = posn();
            if (m.i("bol"))
            {
                std::vector<size_t> starts{0};
                for (size_t i = 0; i + 1 < b.size(); ++i)
                    if (b[i] == '\n') starts.push_back(i + 1);
                l = starts[uint64_t(m.i("pos")) % starts.size()];
            }
            b.insert(l, ins);
        }
        else if (k == "tdims")
        {
            // the grid dimensions of a text file
            size_t l = b.find("*ControlPoints");
            if (l == std::string::npos || (l = b.find('\n', l)) == std::string::npos) return;
            size_t e = b.find('\n', l + 1);
            if (e == std::string::npos) e = b.size();
            auto& t = int_table();
            b.replace(l + 1, e - l - 1, std::to_string(t[uint64_t(m.i("vi")) % t.size()]) + " " + std::to_string(t[uint64_t(m.i("wi")) % t.size()]));
        }
        else if (k == "line")
        {
            std::vector<std::string> lines;
            size_t p = 0;
            while (p < b.size())
            {
                size_t q = b.find('\n', p);
                if (q == std::string::npos) q = b.size();
                lines.push_back(b.substr(p, q - p));
                p = q + 1;
            }
            if (lines.empty()) return;
            size_t i = uint64_t(m.i("n")) % lines.size(), j = uint64_t(m.i("to")) % lines.size();
            switch (m.i("do") % 4)
            {
            case 0: lines.erase(lines.begin() + i); break;
            case 1: std::swap(lines[i], lines[j]); break;
            case 2: lines.insert(lines.begin() + j, lines[i]); break;
            default: lines[i] += lines[j]; break;
            }
            b.clear();
            for (auto& l : lines) b += l + "\n";
        }
    }
    inline Step draw_damage(Rng& r, bool bin)
    {
        Step m("mut");
        static const std::vector<std::string> tx{"flip", "byte", "ovw", "trunc", "append", "del", "dup", "swap", "tok", "tok", "tok", "tok", "line", "line", "line", "ctl", "ctl", "ctl", "tdims", "rep"};
        static const std::vector<std::string> bi{"flip", "byte", "ovw", "fld", "fld", "fld", "add", "add", "dims", "dimstail", "dims", "trunc", "append", "del", "dup", "swap", "rep"};
        auto k = bin ? r.of(bi) : r.of(tx);
        m.set("how", k);
        auto pos = [&](const char* key) { m.set(key, r.chance(0.5) ? r.range(0, 120) : (int64_t)r.below(1 << 20)); };
        if (k == "flip")
        {
            pos("pos");
            m.set("bit", r.range(0, 7));
        }
        else if (k == "byte")
        {
            pos("pos");
            m.set("v", r.range(0, 255));
        }
        else if (k == "ovw")
        {
            pos("pos");
            m.set("len", r.range(1, 40)).set("seed", (int64_t)r.below(1000));
        }
        else if (k == "fld") m.set("f", r.range(0, 5)).set("vi", (int64_t)r.below(int_table().size()));
        else if (k == "add") m.set("f", r.range(0, 5)).set("v", r.pick({-2, -1, 1, 2, 3}));
        else if (k == "ctl")
        {
            m.set("n", (int64_t)r.below(r.chance(0.7) ? 10 : 2000)).set("do", r.range(0, 4)).set("len", r.range(0, 4)).set("seed", (int64_t)r.below(10000)).set("same", r.range(0, 1));
            pos("pos");
        }
        else if (k == "dims" || k == "dimstail" || k == "tdims")
        {
            m.set("vi", (int64_t)r.below(int_table().size())).set("wi", (int64_t)r.below(int_table().size()));
            if (k == "dimstail") m.set("len", (int64_t)r.below(9000));
        }
        else if (k == "rep")
        {
            pos("pos");
            m.set("w", r.range(0, 40)).set("len", r.pick({100, 300, 5000, 70000, 200000})).set("bol", r.range(0, 1));
        }
        else if (k == "trunc") pos("pos");
        else if (k == "append") m.set("len", r.range(1, 300)).set("seed", (int64_t)r.below(1000));
        else if (k == "del")
        {
            pos("pos");
            m.set("len", r.range(1, 60));
        }
        else if (k == "dup" || k == "swap")
        {
            pos("pos");
            pos("to");
            m.set("len", r.range(1, 200));
        }
        else if (k == "tok") m.set("n", (int64_t)r.below(r.chance(0.5) ? 24 : 4000)).set("w", (int64_t)r.below(token_table().size())).set("ins", r.chance(0.3) ? 1 : 0);
        else if (k == "line") m.set("n", (int64_t)r.below(r.chance(0.5) ? 10 : 2000)).set("to", (int64_t)r.below(r.chance(0.5) ? 10 : 2000)).set("do", r.range(0, 3));
        return m;
    }

    // File names, as users have them. '#' stands for the number of the file.
    inline std::string file_path(int64_t fn, int64_t number = 0)
    {
        static const char* names[] = {"f#", "f#.txt", "f#.bin", "f#.TXT", "f#.nurbs", "f#.tmp", "f#.bak", "f#~", "my model #.txt", ".f#", "f#.", "fl\xc3\xa4" "che#.bin", "f#%s%n.bin", "-f#",
                                      "sub/f#.bin", "sub/../f#.txt", "sub.txt/f#", "f#,1.txt", "f#.part", "f#.bin.txt", "LONG#.bin", ".#", "=r#.txt", "=./r#.bin", "=sub/r#", "=LONG#"};
        std::string n = names[uint64_t(fn) % std::size(names)];
        if (auto l = n.find("LONG"); l != std::string::npos) n.replace(l, 4, std::string(180, 'l'));
        n.replace(n.find('#'), 1, std::to_string(number));
        if (n.find('/') != std::string::npos) make_dirs();
        if (n[0] == '=') return n.substr(1); // relative to the working directory, which is the scratch directory
        return scratch + "/" + n;
    }
    inline void draw_name(Rng& r, Step& s)
    {
        if (r.chance(0.4)) s.set("fn", r.range(1, 25));
    }

    // Stream exception masks by number.
    inline std::ios::iostate exmask(int64_t m)
    {
        std::ios::iostate s = std::ios::goodbit;
        if (m & 1) s |= std::ios::badbit;
        if (m & 2) s |= std::ios::failbit;
        if (m & 4) s |= std::ios::eofbit;
        return s;
    }
    inline std::string summarise_diff(const std::string& a, const std::string& b)
    {
        size_t i = 0;
        while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
        return std::to_string(a.size()) + " vs " + std::to_string(b.size()) + " bytes, first difference at " + std::to_string(i);
    }
}
