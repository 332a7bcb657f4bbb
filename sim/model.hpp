// Plain values of the library's types, and the generator of models from small specifications.
#pragma once
#include "util.hpp"
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <cmath>
#include <limits>

namespace sim
{
    using libnurbs::Curve;
    using libnurbs::Surface;
    using libnurbs::Vec3;
    using libnurbs::Vec4;

    // Flat byte image of values; used for all comparisons (bit for bit) and for transport between processes.
    struct Bytes
    {
        std::string b;
        void raw(const void* p, size_t n) { b.append(static_cast<const char*>(p), n); }
        void i(int64_t v) { raw(&v, 8); }
        void d(double v) { raw(&v, 8); }
        void str(std::string_view s)
        {
            i((int64_t)s.size());
            b.append(s);
        }
        void knots(const std::vector<double>& k)
        {
            i((int64_t)k.size());
            if (!k.empty()) raw(k.data(), k.size() * 8);
        }
        void v3(const Vec3& v) { raw(v.data(), 24); }
        void v4(const Vec4& v) { raw(v.data(), 32); }
        void points(const std::vector<Vec4>& p)
        {
            i((int64_t)p.size());
            for (auto& x : p) v4(x);
        }
        void curve(const Curve& c)
        {
            i(c.Degree);
            knots(c.Knots.Values());
            points(c.ControlPoints);
        }
        void surface(const Surface& s)
        {
            i(s.DegreeU);
            i(s.DegreeV);
            knots(s.KnotsU.Values());
            knots(s.KnotsV.Values());
            i(s.ControlPoints.UCount);
            i(s.ControlPoints.VCount);
            points(s.ControlPoints.Values);
        }
    };

    struct Reader
    {
        std::string_view b;
        size_t p = 0;
        void raw(void* o, size_t n)
        {
            if (p + n > b.size()) abort();
            memcpy(o, b.data() + p, n);
            p += n;
        }
        int64_t i()
        {
            int64_t v;
            raw(&v, 8);
            return v;
        }
        void knots(std::vector<double>& k)
        {
            k.resize((size_t)i());
            if (!k.empty()) raw(k.data(), k.size() * 8);
        }
        void points(std::vector<Vec4>& v)
        {
            v.resize((size_t)i());
            for (auto& x : v) raw(x.data(), 32);
        }
        std::string str()
        {
            std::string s((size_t)i(), 0);
            raw(s.data(), s.size());
            return s;
        }
        void curve(Curve& c)
        {
            c.Degree = (int)i();
            knots(c.Knots.Values());
            points(c.ControlPoints);
        }
        void surface(Surface& s)
        {
            s.DegreeU = (int)i();
            s.DegreeV = (int)i();
            knots(s.KnotsU.Values());
            knots(s.KnotsV.Values());
            s.ControlPoints.UCount = (int)i();
            s.ControlPoints.VCount = (int)i();
            points(s.ControlPoints.Values);
        }
    };

    inline std::string img(const Curve& c)
    {
        Bytes b;
        b.curve(c);
        return std::move(b.b);
    }
    inline std::string img(const Surface& s)
    {
        Bytes b;
        b.surface(s);
        return std::move(b.b);
    }

    inline int clampi(int64_t v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : (int)v; }

    // A round value, or one that is nearly round.
    inline double near_value(Rng& r, double v)
    {
        switch (r.below(4))
        {
        case 0: return v;
        case 1: return std::nextafter(v, r.chance(0.5) ? 1e9 : -1e9);
        case 2: return v + r.range(-40, 40) * 2.220446049250313e-16;
        default: return v + (r.chance(0.5) ? 1 : -1) * std::pow(10.0, -r.range(5, 16));
        }
    }

    inline double make_coord(Rng& r, int mode);
    // Knot modes: 0 uniform, 1 random, 2 with multiplicities, 3 dyadic, 4 raw (any doubles, any count; storage only).
    inline std::vector<double> make_knots(Rng& r, int p, int n, int mode)
    {
        std::vector<double> k;
        if (mode == 4)
        {
            int cnt = r.range(0, n + p + 3);
            bool near = r.chance(0.3);
            bool wild = r.chance(0.15);
            for (int i = 0; i < cnt; ++i) k.push_back(wild ? make_coord(r, 3) : near ? near_value(r, r.range(0, 2) * 0.5) : (r.unit() - 0.3) * 8);
            return k;
        }
        int inner = n - p - 1;
        std::vector<double> in;
        if (mode == 0)
            for (int i = 1; i <= inner; ++i) in.push_back(double(i) / (inner + 1));
        else if (mode == 1 || mode == 3)
        {
            // distinct values on a grid, so that no two knots are closer than 1/4096 and not equal
            int grid = mode == 3 ? 64 : 4096;
            while (grid <= inner * 2) grid *= 4;
            std::vector<char> used(grid, 0);
            for (int i = 0; i < inner; ++i)
            {
                int q = r.range(1, grid - 1);
                while (used[q]) q = q % (grid - 1) + 1;
                used[q] = 1;
            }
            for (int q = 1; q < grid; ++q)
                if (used[q]) in.push_back(double(q) / grid);
        }
        else
        {
            std::vector<int> vals;
            int q = 0;
            while ((int)in.size() < inner)
            {
                ++q;
                int m = r.range(1, p);
                for (int j = 0; j < m && (int)in.size() < inner; ++j) in.push_back(q);
            }
            for (auto& x : in) x = x / (q + 1);
        }
        for (int i = 0; i <= p; ++i) k.push_back(0.0);
        for (double x : in) k.push_back(x);
        for (int i = 0; i <= p; ++i) k.push_back(1.0);
        return k;
    }

    // Coordinate modes: 0 small integers, 1 uniform reals, 2 mixed magnitudes, 3 special finite values,
    // 4 including non-finite values (binary files only).
    inline double make_coord(Rng& r, int mode)
    {
        switch (mode)
        {
        case 0: return r.range(-9, 9);
        case 1: return (r.unit() - 0.5) * 20;
        case 2: return (r.unit() - 0.5) * std::pow(10.0, r.range(-12, 12));
        default:
            switch (r.below(mode == 4 ? 15 : 12))
            {
            case 12: return std::numeric_limits<double>::infinity();
            case 13: return std::numeric_limits<double>::quiet_NaN();
            case 14: return -std::numeric_limits<double>::infinity();
            case 0: return -0.0;
            case 1: return std::numeric_limits<double>::denorm_min();
            case 2: return r.chance(0.5) ? -1e300 : r.pick({1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 4503599627370497.5, 9007199254740993.0, 1e22});
            case 3: return 123456789.125;
            case 4: return 1.0 / 3;
            case 5: return std::nextafter(1.0, 2);
            case 6: return -1e-9;
            case 7: return 1e17 + 2;
            case 8: return r.range(-5, 5);
            case 9: return near_value(r, r.range(-3, 3));
            case 10: return near_value(r, r.range(-100, 100) * 0.125);
            default: return std::ldexp(r.unit() - 0.5, r.range(-60, 60));
            }
        }
    }

    inline double make_weight(Rng& r, int mode)
    {
        switch (mode)
        {
        case 0: return 1.0;
        case 1: return 0.5 + r.unit() * 1.5;
        case 2: return std::pow(10.0, r.range(-3, 3)) * (0.5 + r.unit());
        case 4: return near_value(r, r.chance(0.8) ? 1.0 : 0.5);
        case 5: return make_coord(r, 3); // zero, negative, huge: only storage does not care
        default: return 2.5;
        }
    }

    // A model specification is a handful of small integers inside a step:
    //   p q degrees, n m control point counts, km kqm knot modes, cm coordinate mode, wm weight mode, os seed
    // dup 1: some points repeat the one before them, 2: some repeat the one a row before, 3: few different coordinates
    inline void make_points(Rng& r, std::vector<Vec4>& pts, int row, int cm, int wm, int dup)
    {
        for (size_t i = 0; i < pts.size(); ++i)
        {
            double x = make_coord(r, cm), y = make_coord(r, cm), z = make_coord(r, cm);
            pts[i] = Vec4{x, y, z, make_weight(r, wm)};
            if (dup == 1 && i && r.chance(0.5)) pts[i] = pts[i - 1];
            if (dup == 2 && i >= size_t(row) && r.chance(0.5)) pts[i] = pts[i - row];
            if (dup == 3)
                for (int k = 0; k < 3; ++k)
                    if (r.chance(0.6)) pts[i][k] = r.pick({0.0, 0.0, 1.0, 0.5});
        }
    }
    inline Curve make_curve(const Step& s)
    {
        Rng r(mix(uint64_t(s.i("os")) ^ 0xC0));
        Curve c;
        int km = clampi(s.i("km"), 0, 4);
        int p = clampi(s.i("p", 2), 1, 40);
        int n = clampi(s.i("n", p + 1), km == 4 ? 0 : p + 1, 80000);
        c.Degree = km == 4 ? (int)s.i("p", 2) : p;
        c.Knots.Values() = make_knots(r, p, n, km);
        int cm = clampi(s.i("cm"), 0, 4), wm = clampi(s.i("wm"), 0, 5);
        c.ControlPoints.resize(n);
        make_points(r, c.ControlPoints, n, cm, wm, (int)s.i("dup"));
        return c;
    }

    inline Surface make_surface(const Step& s)
    {
        Rng r(mix(uint64_t(s.i("os")) ^ 0x50));
        Surface f;
        int km = clampi(s.i("km"), 0, 4), kqm = clampi(s.i("kqm"), 0, 4);
        int p = clampi(s.i("p", 2), 1, 40), q = clampi(s.i("q", 2), 1, 40);
        int n = clampi(s.i("n", p + 1), km == 4 ? 1 : p + 1, 2000);
        int m = clampi(s.i("m", q + 1), kqm == 4 ? 1 : q + 1, 2000);
        f.DegreeU = km == 4 ? (int)s.i("p", 2) : p;
        f.DegreeV = kqm == 4 ? (int)s.i("q", 2) : q;
        f.KnotsU.Values() = make_knots(r, p, n, km);
        f.KnotsV.Values() = make_knots(r, q, m, kqm);
        int cm = clampi(s.i("cm"), 0, 4), wm = clampi(s.i("wm"), 0, 5);
        f.ControlPoints.UCount = n;
        f.ControlPoints.VCount = m;
        f.ControlPoints.Values.resize(size_t(n) * m);
        make_points(r, f.ControlPoints.Values, n, cm, wm, (int)s.i("dup"));
        return f;
    }

    // Draws a model specification into a step. `storage`: also shapes only storage cares about.
    inline void draw_model(Rng& r, Step& s, bool storage, bool small = false)
    {
        bool curve = r.chance(0.5);
        s.set("kind", curve ? "c" : "s");
        int p = r.pick({1, 2, 2, 3, 3, 3, 4, 5}), q = r.pick({1, 1, 2, 2, 3, 3, 4});
        // degrees whose bytes look like blanks, line ends or control characters in a binary file
        if (storage && r.chance(0.15)) p = r.pick({0, 6, 7, 8, 9, 10, 11, 12, 13, 26, 32, 35, 42, 127, 128, 255, 256, 300, 70000});
        if (storage && r.chance(0.15)) q = r.pick({0, 6, 7, 8, 9, 10, 11, 12, 13, 26, 32, 35, 42, 127, 128, 255, 256, 300, 70000});
        int big = small ? 9 : (int)r.below(20);
        int extra = big == 0 && storage ? r.range(60, 900) : big == 1 ? r.range(10, 60) : r.range(0, 6);
        int extrav = big == 0 && storage ? r.range(4, 20) : big == 1 ? r.range(3, 12) : r.range(0, 4);
        if (storage && !small && r.chance(0.004)) extra = r.pick({1500, 4090, 8190, 20000, 66000});
        if (!curve) extra = extra > 40 ? extra / 20 + 4 : extra;
        int pc = p > 42 ? 3 : p, qc = q > 42 ? 3 : q;
        s.set("p", p).set("n", pc + 1 + extra).set("km", storage && (p == 0 || p > 40 || r.chance(0.15)) ? 4 : r.range(0, 3));
        if (!curve) s.set("q", q).set("m", qc + 1 + extrav).set("kqm", storage && (q == 0 || q > 40 || r.chance(0.15)) ? 4 : r.range(0, 3));
        if (storage && curve && s.i("km") == 4 && r.chance(0.2)) s.set("n", r.range(0, 2));
        // counts at and around the sizes blocks and buffers have: of points or of knots
        if (storage && !small && pc < 14 && qc < 14 && r.chance(0.1))
        {
            int t = r.pick({16, 32, 64, 64, 100, 128, 128, 256, 256, 512, 512, 1000, 1024, 2048}) + r.pick({-1, 0, 0, 0, 1});
            if (r.chance(0.3)) t -= pc + 1;
            if (!curve)
            {
                int m = r.pick({1, 2, 4, 8, 16});
                while (m < qc + 1) m *= 2;
                s.set("m", m);
                t = (t + m / 2) / m;
            }
            s.set("n", t < pc + 1 ? pc + 1 : t);
        }
        s.set("cm", storage ? r.range(0, 3) : r.range(0, 1)).set("wm", storage ? r.pick({0, 1, 2, 3, 4, 5}) : r.pick({0, 1, 1, 2, 3}));
        s.set("os", (int64_t)r.below(100000));
        if (r.chance(0.15)) s.set("dup", r.range(1, 3));
        if (!curve && r.chance(0.35))
            for (auto [a, b] : {std::pair{"p", "q"}, {"n", "m"}, {"km", "kqm"}})
            {
                int64_t t = s.i(a);
                s.set(a, s.i(b)).set(b, t);
            }
    }
}
