#include "ops.hpp"
#include <optional>

using namespace sim;
using libnurbs::BSplineBasis;
using libnurbs::GeomRect;
using libnurbs::GeomSegment;
using libnurbs::Grid;
using libnurbs::Mat3x3;
using libnurbs::MatX;
using libnurbs::VecX;

namespace sim
{
    std::string pack(const std::vector<std::string>& v)
    {
        Bytes b;
        b.i((int64_t)v.size());
        for (auto& s : v) b.str(s);
        return std::move(b.b);
    }
    std::vector<std::string> unpack(const std::string& s)
    {
        Reader r{s};
        std::vector<std::string> v((size_t)r.i());
        for (auto& x : v) x = r.str();
        return v;
    }

    static std::string img(const KnotVector& k)
    {
        Bytes b;
        b.knots(k.Values());
        return std::move(b.b);
    }
    static std::string img(const PGrid& g)
    {
        Bytes b;
        b.i(g.UCount);
        b.i(g.VCount);
        b.points(g.Values);
        return std::move(b.b);
    }
    std::string slot_name(int i)
    {
        if (i < NC) return "curve " + std::to_string(i);
        i -= NC;
        if (i < NS) return "surface " + std::to_string(i);
        i -= NS;
        if (i < NK) return "knot vector " + std::to_string(i);
        return "grid " + std::to_string(i - NK);
    }
    std::string Pool::slot_image(int i) const
    {
        if (i < NC) return sim::img(c[i]);
        i -= NC;
        if (i < NS) return sim::img(s[i]);
        i -= NS;
        if (i < NK) return img(k[i]);
        return img(g[i - NK]);
    }
    void Pool::slot_restore(int i, const std::string& im)
    {
        Reader r{im};
        if (i < NC) return r.curve(c[i]);
        i -= NC;
        if (i < NS) return r.surface(s[i]);
        i -= NS;
        if (i < NK) return r.knots(k[i].Values());
        i -= NK;
        g[i].UCount = (int)r.i();
        g[i].VCount = (int)r.i();
        r.points(g[i].Values);
    }
    std::vector<std::string> Pool::images() const
    {
        std::vector<std::string> v;
        for (int i = 0; i < NSLOT; ++i) v.push_back(slot_image(i));
        return v;
    }
    void Pool::restore(const std::vector<std::string>& im)
    {
        for (int i = 0; i < NSLOT && i < (int)im.size(); ++i) slot_restore(i, im[i]);
    }
    void Pool::drop()
    {
        for (auto& x : c) x = Curve{};
        for (auto& x : s) x = Surface{};
        for (auto& x : k) x = KnotVector{};
        for (auto& x : g) x = PGrid{};
    }
    std::string OpResult::flat() const
    {
        Bytes b;
        b.i(skipped);
        b.i(threw);
        b.i(args_changed);
        b.str(type);
        b.str(what);
        b.str(out);
        return std::move(b.b);
    }
}

namespace
{
    bool knots_ok(const std::vector<double>& k, int p, size_t n)
    {
        if (p < 1 || p > 8 || n < size_t(p) + 1 || n > 400 || k.size() != n + p + 1) return false;
        for (int i = 0; i <= p; ++i)
            if (k[i] != 0.0 || k[k.size() - 1 - i] != 1.0) return false;
        int mult = 0;
        for (size_t i = p + 1; i + p + 1 < k.size(); ++i)
        {
            if (!(k[i] > 1e-4 && k[i] < 1 - 1e-4) || k[i] < k[i - 1]) return false;
            mult = k[i] == k[i - 1] ? mult + 1 : 1;
            if (mult > p) return false;
            if (mult == 1 && k[i] - k[i - 1] < 1e-5) return false;
        }
        return true;
    }
    bool points_ok(const std::vector<Vec4>& p)
    {
        for (auto& v : p)
            for (int i = 0; i < 4; ++i)
                if (!(std::abs(v[i]) < 1e6) || (i == 3 && !(v[3] > 1e-6))) return false;
        return true;
    }
    bool usable(const Curve& c) { return knots_ok(c.Knots.Values(), c.Degree, c.ControlPoints.size()) && points_ok(c.ControlPoints); }
    bool usable(const Surface& s)
    {
        auto& g = s.ControlPoints;
        return g.UCount > 0 && g.VCount > 0 && (int64_t)g.Values.size() == (int64_t)g.UCount * g.VCount && knots_ok(s.KnotsU.Values(), s.DegreeU, g.UCount) &&
               knots_ok(s.KnotsV.Values(), s.DegreeV, g.VCount) && points_ok(g.Values);
    }
    bool usable(const KnotVector& k)
    {
        auto& v = k.Values();
        if (v.size() < 4 || v.size() > 400 || v.front() != 0.0 || v.back() != 1.0) return false;
        return std::is_sorted(v.begin(), v.end());
    }
    bool usable(const PGrid& g) { return g.UCount > 0 && g.VCount > 0 && (int64_t)g.Values.size() == (int64_t)g.UCount * g.VCount && g.Values.size() < 2000; }

    double par(const Step& s, const char* k, const std::vector<double>& knots)
    {
        int64_t v = s.i(k);
        if (v < 0) return knots.empty() ? 0.0 : knots[size_t(-v) % knots.size()];
        return double(v % 4097) / 4096.0;
    }
    double inner(const Step& s, const char* k, const std::vector<double>& knots)
    {
        double v = par(s, k, knots);
        if (v > 1e-3 && v < 1 - 1e-3) return v;
        return double(1 + uint64_t(s.i(k)) % 7) / 8.0;
    }
    int mult_of(const std::vector<double>& k, double v) { return (int)std::count(k.begin(), k.end(), v); }
    Vec3 point(const Step& s)
    {
        Rng r(mix(uint64_t(s.i("pt")) ^ 0x77));
        double x = (r.unit() - 0.5) * 12, y = (r.unit() - 0.5) * 12, z = (r.unit() - 0.5) * 12;
        return Vec3{x, y, z};
    }
    Mat3x3 matrix(const Step& s)
    {
        Rng r(mix(uint64_t(s.i("pt")) ^ 0x78));
        Mat3x3 m;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j) m(i, j) = r.range(-3, 3) * 0.5;
        return m;
    }
    double tol_of(const Step& s)
    {
        static const double t[]{1e-12, 1e-9, 1e-3, 1e3};
        return t[uint64_t(s.i("tol")) % 4];
    }
    int idx(const Step& s, const char* k, int n) { return n <= 0 ? 0 : int(uint64_t(s.i(k)) % uint64_t(n)); }
    int ord(const Step& s, const char* k, int degree) { return int(uint64_t(s.i(k)) % uint64_t(degree + 1)); }

    bool far_from_others(const std::vector<double>& k, double v)
    {
        for (double x : k)
            if (x != v && std::abs(x - v) < 2e-6) return false;
        return true;
    }
    // knots an insertion call may take, keeping every multiplicity within the degree
    std::vector<double> insert_list(const Step& s, const std::vector<double>& knots, int degree, int n)
    {
        std::vector<double> k = knots, out;
        for (int i = 0; i < n; ++i)
        {
            Step t = s;
            t.set("x", i == 0 ? s.i("x") : (int64_t)(mix(uint64_t(s.i("x")) + uint64_t(i)) % 4096));
            if (i > 0 && (s.i("pt") + i) % 3 == 0 && !out.empty()) t.set("x", s.i("x"));
            double v = inner(t, "x", knots);
            if (mult_of(k, v) >= degree || !far_from_others(k, v)) continue;
            k.insert(std::upper_bound(k.begin(), k.end(), v), v);
            out.push_back(v);
        }
        return out;
    }
    int spans_of(const std::vector<double>& k)
    {
        int n = 0;
        for (size_t i = 1; i < k.size(); ++i) n += k[i] != k[i - 1];
        return n;
    }
    int removable(const Step& s, const std::vector<double>& k, int degree, double& v)
    {
        int lo = degree + 1, hi = (int)k.size() - degree - 2;
        if (hi < lo) return 0;
        v = k[lo + idx(s, "x", hi - lo + 1)];
        if (!far_from_others(k, v)) return 0;
        return 1 + int(uint64_t(s.i("times")) % uint64_t(mult_of(k, v)));
    }

    struct Out : Bytes
    {
        void vx(const VecX& v)
        {
            i(v.size());
            raw(v.data(), size_t(v.size()) * 8);
        }
        void mx(const MatX& m)
        {
            i(m.rows());
            i(m.cols());
            raw(m.data(), size_t(m.size()) * 8);
        }
        void pair(const KnotVector::KnotPair& p)
        {
            i(p.Index);
            d(p.Value);
            i(p.Multiplicity);
        }
        void box(const libnurbs::BoundingBox& b)
        {
            v3(b.Min);
            v3(b.Max);
        }
        template <typename T> void grid(const Grid<T>& g)
        {
            i(g.UCount);
            i(g.VCount);
            i((int64_t)g.Values.size());
            for (auto& x : g.Values) raw(x.data(), sizeof(double) * size_t(x.size()));
        }
    };

    // What a call gave: exactly one of these is filled, inside the guarded region; it is released under the
    // memory seam too, so that live blocks balance.
    struct Val
    {
        std::optional<Curve> c;
        std::optional<Surface> s;
        std::optional<std::vector<Curve>> cs;
        std::optional<std::vector<Vec3>> v3s;
        std::optional<std::vector<Vec4>> v4s;
        std::optional<Grid<Vec3>> g3;
        std::optional<VecX> vx;
        std::optional<MatX> mx;
        std::optional<std::vector<KnotVector::KnotPair>> pairs;
        std::optional<KnotVector> k;
        std::string bytes; // harness owned
        double d[6];
        int nd = 0;
        int64_t n[4];
        int nn = 0;
        void D(double x) { d[nd++] = x; }
        void N(int64_t x) { n[nn++] = x; }
        void V(const Vec3& v)
        {
            D(v[0]);
            D(v[1]);
            D(v[2]);
        }
        void image(Out& o) const
        {
            for (int i = 0; i < nn; ++i) o.i(n[i]);
            for (int i = 0; i < nd; ++i) o.d(d[i]);
            if (c) o.curve(*c);
            if (s) o.surface(*s);
            if (cs)
            {
                o.i((int64_t)cs->size());
                for (auto& x : *cs) o.curve(x);
            }
            if (v3s)
            {
                o.i((int64_t)v3s->size());
                for (auto& x : *v3s) o.v3(x);
            }
            if (v4s) o.points(*v4s);
            if (g3) o.grid(*g3);
            if (vx) o.vx(*vx);
            if (mx) o.mx(*mx);
            if (pairs)
            {
                o.i((int64_t)pairs->size());
                for (auto& x : *pairs) o.pair(x);
            }
            if (k) o.knots(k->Values());
            o.str(bytes);
        }
        void release()
        {
            c.reset();
            s.reset();
            cs.reset();
            v3s.reset();
            v4s.reset();
            g3.reset();
            vx.reset();
            mx.reset();
            pairs.reset();
            k.reset();
        }
    };

    template <typename F> void call(OpResult& r, F&& f)
    {
        CallResult c = guarded(f);
        r.threw = c.threw;
        r.oom = c.oom;
        r.type = c.type;
        r.what = c.what;
    }

    // A destination that takes everything; its memory is not the library's.
    struct MemOut : std::streambuf
    {
        std::string got;
        size_t lim = SIZE_MAX; // bytes taken before everything is refused
        int overflow(int c) override
        {
            sim_yield(Y_STREAM);
            if (c == traits_type::eof()) return 0;
            if (got.size() >= lim) return traits_type::eof();
            Pause p;
            got += char(c);
            return c;
        }
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            sim_yield(Y_STREAM);
            Pause p;
            n = (std::streamsize)std::min((size_t)n, lim - std::min(lim, got.size()));
            got.append(s, size_t(n));
            return n;
        }
    };
    struct MemIn : std::streambuf
    {
        std::string data;
        void start() { setg(data.data(), data.data(), data.data() + std::min(piece, data.size())); }
        size_t piece = 512;
        size_t fail_at = SIZE_MAX; // the source breaks after this many bytes
        int underflow() override
        {
            sim_yield(Y_STREAM);
            char* end = data.data() + data.size();
            if (size_t(egptr() - data.data()) >= fail_at) throw std::ios_base::failure("read error");
            if (egptr() == end) return traits_type::eof();
            setg(data.data(), egptr(), std::min(end, egptr() + piece));
            return (unsigned char)*gptr();
        }
    };

    template <typename T> void save_stream(const T& o, const Step& st, OpResult& r, std::string& bytes)
    {
        bool bin = st.i("bin") != 0;
        MemOut buf;
        if (st.has("lim")) buf.lim = size_t(st.i("lim"));
        std::ostream os(&buf);
        call(r, [&] { o.SaveToFile(os, bin); });
        bytes = std::move(buf.got);
    }
    template <typename T> void load_stream(T& o, const std::string& bytes, OpResult& r, size_t piece, const Step& st)
    {
        MemIn buf;
        if (st.has("rf")) buf.fail_at = size_t(st.i("rf"));
        buf.data = bytes;
        buf.piece = piece;
        buf.start();
        std::istream is(&buf);
        call(r, [&] { o.LoadFromFile(is); });
    }

    // save `o`, optionally cut the bytes, load into `t`
    template <typename T> void round_trip(const Pool& P, const Step& st, const T& o, T& t, OpResult& r, Val& v)
    {
        bool bin = st.i("bin") != 0;
        if (st.i("path"))
        {
            std::string file = P.dir + "/p" + std::to_string(P.id) + "-" + std::to_string(st.i("path") % 4);
            if (st.has("fn")) file = file_path(st.i("fn"), 10 * P.id + st.i("path") % 4);
            t_file.active = true;
            call(r, [&] { o.SaveToFile(file, bin); });
            if (!r.threw)
            {
                if (st.has("cut"))
                {
                    std::string b = slurp(file);
                    b.resize(size_t(st.i("cut")) % (b.size() + 1));
                    spill(file, b);
                }
                call(r, [&] { t.LoadFromFile(file); });
            }
            t_file.active = false;
            if (auto at = r.what.find(P.dir); at != std::string::npos) r.what.replace(at, P.dir.size(), "$");
            v.bytes = slurp(file);
            v.N(t_file.open_handles);
            return;
        }
        std::string b;
        save_stream(o, st, r, b);
        if (r.threw) return;
        v.bytes = b;
        if (st.has("cut")) b.resize(size_t(st.i("cut")) % (b.size() + 1));
        load_stream(t, b, r, size_t(1 + st.i("piece", 511) % 4096), st);
    }

    void poke_value(Vec4& v, const Step& st)
    {
        int j = idx(st, "j", 4);
        double d = st.i("by", 1) / 16.0;
        if (j == 3) v[3] = v[3] > 4 ? v[3] / 2 : v[3] + std::abs(d) + 0.0625;
        else v[j] = std::abs(v[j]) > 100 ? d : v[j] + d;
    }
    void poke_points(std::vector<Vec4>& p, const Step& st)
    {
        if (!p.empty()) poke_value(p[idx(st, "i", (int)p.size())], st);
    }
    void poke_points(PGrid& g, const Step& st)
    {
        int n = (int)g.Values.size();
        if (n == 0) return;
        int i = idx(st, "i", n);
        if (g.UCount > 0 && int64_t(g.UCount) * g.VCount == n && st.i("by") % 2) poke_value(g.Get(i % g.UCount, i / g.UCount), st);
        else poke_value(g.Values[i], st);
    }
    void poke_knots(KnotVector& K, const Step& st)
    {
        // move one inner knot inside the gap between its neighbours
        auto& k = std::as_const(K).Values();
        size_t lo = 0, hi = k.size();
        while (lo < k.size() && k[lo] == k.front()) ++lo;
        while (hi > lo && k[hi - 1] == k.back()) --hi;
        if (hi <= lo) return;
        size_t i = lo + size_t(idx(st, "i", int(hi - lo)));
        double a = k[i - 1], b = k[i + 1];
        if (k[i] == a || k[i] == b || b - a < 1e-3) return;
        double f = (1 + idx(st, "by", 15)) / 16.0;
        double v = a + (b - a) * f;
        if (v == k[i]) v = a + (b - a) * 0.59375;
        if (st.i("j") % 2) K[int(i)] = v;
        else K.Values()[i] = v;
    }
}

namespace sim
{
    uint64_t may_modify(const Step& st)
    {
        uint64_t m = 0;
        const std::string& o = st.op;
        auto a = [&](int n) { return idx(st, "a", n); };
        auto d = [&](int n) { return idx(st, "dst", n); };
        if (o.rfind("poke.", 0) == 0 || o.rfind("copy.", 0) == 0)
        {
            bool poke = o[0] == 'p';
            switch (o[5])
            {
            case 'c': return 1ull << slot_c(poke ? a(NC) : d(NC));
            case 's': return 1ull << slot_s(poke ? a(NS) : d(NS));
            case 'k': return 1ull << slot_k(poke ? a(NK) : d(NK));
            default: return 1ull << slot_g(poke ? a(NG) : d(NG));
            }
        }
        if (o == "k.ins" || o == "k.rev" || o == "k.set") m |= 1ull << slot_k(a(NK));
        if (o == "g.insu" || o == "g.insv" || o == "g.setu" || o == "g.setv") m |= 1ull << slot_g(a(NG));
        if (o == "c.rt") m |= 1ull << slot_c(idx(st, "to", NC));
        if (o == "s.rt") m |= 1ull << slot_s(idx(st, "to", NS));
        if (st.has("dst"))
        {
            if (o == "geo.rect") m |= 1ull << slot_s(d(NS));
            else if (o == "geo.seg") m |= 1ull << slot_c(d(NC));
            else if (o[0] == 'c') m |= 1ull << slot_c(d(NC));
            else if (o[0] == 's') m |= 1ull << slot_s(d(NS));
            else if (o[0] == 'k') m |= 1ull << slot_k(d(NK));
        }
        return m;
    }

    OpResult run_op(Pool& P, const Step& st, bool store)
    {
        OpResult r;
        Val v;
        const std::string& o = st.op;
        auto skip = [&]
        {
            r.skipped = true;
            return r;
        };
        if (o.rfind("poke.", 0) == 0)
        {
            switch (o[5])
            {
            case 'c':
            {
                auto& x = P.c[idx(st, "a", NC)];
                if (st.i("what") % 2) poke_knots(x.Knots, st);
                else poke_points(x.ControlPoints, st);
                break;
            }
            case 's':
            {
                auto& x = P.s[idx(st, "a", NS)];
                if (st.i("what") % 3 == 1) poke_knots(x.KnotsU, st);
                else if (st.i("what") % 3 == 2) poke_knots(x.KnotsV, st);
                else poke_points(x.ControlPoints, st);
                break;
            }
            case 'k': poke_knots(P.k[idx(st, "a", NK)], st); break;
            default: poke_points(P.g[idx(st, "a", NG)], st); break;
            }
            return r;
        }
        if (o.rfind("copy.", 0) == 0)
        {
            bool mv = st.i("move") != 0;
            auto cp = [&](auto* arr, int n)
            {
                int a = idx(st, "a", n), d = idx(st, "dst", n);
                if (a == d) return;
                if (mv)
                {
                    auto t = arr[a];
                    arr[d] = std::move(t);
                }
                else arr[d] = arr[a];
            };
            switch (o[5])
            {
            case 'c': cp(P.c, NC); break;
            case 's': cp(P.s, NS); break;
            case 'k': cp(P.k, NK); break;
            default: cp(P.g, NG); break;
            }
            return r;
        }
        if (o[0] == 'c' || o[0] == 'b')
        {
            Curve& C = P.c[idx(st, "a", NC)];
            if (o == "c.rt")
            {
                if (C.ControlPoints.size() > 400) return skip();
                round_trip(P, st, C, P.c[idx(st, "to", NC)], r, v);
            }
            else
            {
                if (!usable(C)) return skip();
                auto& kn = std::as_const(C).Knots.Values();
                double x = par(st, "x", kn);
                int od = ord(st, "ord", C.Degree);
                if (o == "c.eval") call(r, [&] { v.V(C.Evaluate(x)); });
                else if (o == "c.der") call(r, [&] { v.V(C.EvaluateDerivative(x, od)); });
                else if (o == "c.all") call(r, [&] { v.v3s = C.EvaluateAll(x, od); });
                else if (o == "c.copy") call(r, [&] { v.c = C; });
                else if (o == "c.rat") call(r, [&] { v.N(C.IsRational()); });
                else if (o == "c.search")
                {
                    Vec3 q = point(st);
                    call(r, [&] { v.D(C.SearchParameter(q, x, 1e-8, 1 + st.i("it") % 8)); });
                }
                else if (o == "c.bsearch")
                {
                    Vec3 q = point(st);
                    call(r, [&] { v.D(C.BinarySearchParameter(q, 1e-6, 1 + int(st.i("it") % 12))); });
                }
                else if (o == "c.ins1" || o == "c.insN" || o == "c.insS")
                {
                    auto l = insert_list(st, kn, C.Degree, o == "c.insS" ? 1 + int(st.i("times") % 4) : 1);
                    if (l.empty()) return skip();
                    if (o == "c.ins1") call(r, [&] { v.c = C.InsertKnot(l[0]); });
                    else if (o == "c.insS")
                    {
                        auto l0 = l;
                        call(r, [&] { v.c = C.InsertKnot(std::span<double>(l)); });
                        r.args_changed = l != l0;
                    }
                    else
                    {
                        int t = 1 + int(uint64_t(st.i("times")) % uint64_t(C.Degree - mult_of(kn, l[0])));
                        call(r, [&] { v.c = C.InsertKnot(l[0], t); });
                    }
                }
                else if (o == "c.rem")
                {
                    double k;
                    int t = removable(st, kn, C.Degree, k);
                    if (!t) return skip();
                    double tol = tol_of(st);
                    call(r,
                         [&]
                         {
                             auto [c2, n] = C.RemoveKnot(k, t, tol);
                             v.c = std::move(c2);
                             v.N(n);
                         });
                }
                else if (o == "c.elev")
                {
                    int t = 1 + int(st.i("times") % 2), n = (int)C.ControlPoints.size() - 1;
                    if (C.Degree + t > 8 || t * spans_of(kn) + n + 1 > 2 * (n + t)) return skip();
                    call(r, [&] { v.c = C.ElevateDegree(t); });
                }
                else if (o == "c.xform")
                {
                    Mat3x3 m = matrix(st);
                    call(r, [&] { v.c = C.Transform(m); });
                }
                else if (o == "c.bez") call(r, [&] { v.cs = C.ExtractBezier(); });
                else if (o == "c.bbox")
                {
                    if (C.Degree > 5) return skip();
                    call(r,
                         [&]
                         {
                             auto b = C.GetBoundingBox(1.0);
                             v.V(b.Min);
                             v.V(b.Max);
                         });
                }
                else if (o == "c.save") save_stream(C, st, r, v.bytes);
                else if (o == "b.eval") call(r, [&] { v.vx = BSplineBasis::Evaluate(C.Degree, C.Knots, x); });
                else if (o == "b.der") call(r, [&] { v.vx = BSplineBasis::EvaluateDerivative(C.Degree, C.Knots, x, od); });
                else if (o == "b.all") call(r, [&] { v.mx = BSplineBasis::EvaluateAll(C.Degree, C.Knots, x, od); });
                else return skip();
            }
        }
        else if (o[0] == 's')
        {
            Surface& S = P.s[idx(st, "a", NS)];
            if (o == "s.rt")
            {
                if (!usable(S.ControlPoints)) return skip();
                round_trip(P, st, S, P.s[idx(st, "to", NS)], r, v);
            }
            else
            {
                if (!usable(S)) return skip();
                auto &ku = std::as_const(S).KnotsU.Values(), &kv = std::as_const(S).KnotsV.Values();
                double x = par(st, "x", ku), y = par(st, "y", kv);
                int ou = ord(st, "ord", S.DegreeU), ov = ord(st, "ord2", S.DegreeV);
                int dir = idx(st, "dir", 2);
                bool U = o.size() > 2 && o.back() == 'U';
                if (o == "s.eval") call(r, [&] { v.V(S.Evaluate(x, y)); });
                else if (o == "s.der") call(r, [&] { v.V(S.EvaluateDerivative(x, y, ou, ov)); });
                else if (o == "s.all") call(r, [&] { v.g3 = S.EvaluateAll(x, y, ou, ov); });
                else if (o == "s.copy") call(r, [&] { v.s = S; });
                else if (o == "s.rat") call(r, [&] { v.N(S.IsRational()); });
                else if (o == "s.search")
                {
                    Vec3 q = point(st);
                    call(r,
                         [&]
                         {
                             auto [a, b] = S.SearchParameter(q, x, y, 1e-8, 1 + st.i("it") % 4);
                             v.D(a);
                             v.D(b);
                         });
                }
                else if (o == "s.searchon" || o == "s.bsearchon")
                {
                    Vec3 q = point(st);
                    call(r,
                         [&]
                         {
                             auto [a, b] = o == "s.searchon" ? S.SearchParameterOn(q, dir, x, y, 1e-8, 1 + st.i("it") % 6)
                                                             : S.BinarySearchParameterOn(q, dir, x, 1e-6, 1 + st.i("it") % 8);
                             v.D(a);
                             v.D(b);
                         });
                }
                else if (o == "s.ins1U" || o == "s.ins1V" || o == "s.insNU" || o == "s.insNV" || o == "s.insSU" || o == "s.insSV")
                {
                    auto& kn = U ? ku : kv;
                    int deg = U ? S.DegreeU : S.DegreeV;
                    auto l = insert_list(st, kn, deg, o[5] == 'S' ? 1 + int(st.i("times") % 3) : 1);
                    if (l.empty()) return skip();
                    if (o[5] == '1') call(r, [&] { v.s = U ? S.InsertKnotU(l[0]) : S.InsertKnotV(l[0]); });
                    else if (o[5] == 'S')
                    {
                        auto l0 = l;
                        call(r, [&] { v.s = U ? S.InsertKnotU(std::span<double>(l)) : S.InsertKnotV(std::span<double>(l)); });
                        r.args_changed = l != l0;
                    }
                    else
                    {
                        int t = 1 + int(uint64_t(st.i("times")) % uint64_t(deg - mult_of(kn, l[0])));
                        call(r, [&] { v.s = U ? S.InsertKnotU(l[0], t) : S.InsertKnotV(l[0], t); });
                    }
                }
                else if (o == "s.remU" || o == "s.remV")
                {
                    double k;
                    int t = removable(st, U ? ku : kv, U ? S.DegreeU : S.DegreeV, k);
                    if (!t) return skip();
                    double tol = tol_of(st);
                    call(r,
                         [&]
                         {
                             auto [s2, n] = U ? S.RemoveKnotU(k, t, tol) : S.RemoveKnotV(k, t, tol);
                             v.s = std::move(s2);
                             v.N(n);
                         });
                }
                else if (o == "s.elevU" || o == "s.elevV")
                {
                    int t = 1 + int(st.i("times") % 2);
                    if (spans_of(U ? ku : kv) != 1 || (U ? S.DegreeU : S.DegreeV) + t > 7) return skip();
                    call(r, [&] { v.s = U ? S.ElevateDegreeU(t) : S.ElevateDegreeV(t); });
                }
                else if (o == "s.xform")
                {
                    Mat3x3 m = matrix(st);
                    call(r, [&] { v.s = S.Transform(m); });
                }
                else if (o == "s.align")
                {
                    auto a = Surface::AlignAxis(idx(st, "dir", 3)), b = Surface::AlignAxis(idx(st, "ord", 3));
                    call(r, [&] { v.s = S.AlignParameterDomain(a, b); });
                }
                else if (o == "s.save") save_stream(S, st, r, v.bytes);
                else return skip();
            }
        }
        else if (o[0] == 'k')
        {
            KnotVector& K = P.k[idx(st, "a", NK)];
            if (!usable(K)) return skip();
            auto& kn = std::as_const(K).Values();
            double x = par(st, "x", kn);
            int deg = 0;
            while (deg + 1 < (int)kn.size() && kn[deg + 1] == 0.0) ++deg;
            int tail = 0;
            while (tail + 1 < (int)kn.size() && kn[kn.size() - 2 - tail] == 1.0) ++tail;
            deg = std::min(deg, tail);
            if (o == "k.copy") call(r, [&] { v.k = K; });
            else if (o == "k.pairs") call(r, [&] { v.pairs = K.GetKnotPairs(); });
            else if (o == "k.q")
                call(r,
                     [&]
                     {
                         v.N(K.IsValid());
                         v.N(K.IsClamped());
                         v.N(K.IsUniform());
                         v.N(K.Count());
                     });
            else if (o == "k.deg") call(r, [&] { v.N(K.DetectDegree()); });
            else if (o == "k.span")
            {
                if ((int)kn.size() < 2 * deg + 2) return skip();
                call(r, [&] { v.N(K.FindSpanIndex(deg, x)); });
            }
            else if (o == "k.find")
                call(r,
                     [&]
                     {
                         auto s = K.FindSpan(x);
                         v.N(s.Index);
                         v.N(s.Left.Multiplicity);
                         v.N(s.Right.Multiplicity);
                         v.D(s.Left.Value);
                         v.D(s.Right.Value);
                     });
            else if (o == "k.mult") call(r, [&] { v.N(K.GetMultiplicity(x)); });
            else if (o == "k.ins")
            {
                double w = inner(st, "x", kn);
                int t = 1 + int(st.i("times") % 3);
                call(r, [&] { v.N(K.InsertKnot(w, t)); });
            }
            else if (o == "k.rev") call(r, [&] { K.Reverse(); });
            else if (o == "k.new")
            {
                auto vals = kn;
                if (st.i("bad")) vals[vals.size() / 2] = 2.0;
                call(r, [&] { v.k = KnotVector(vals); });
            }
            else if (o == "k.newp")
            {
                std::vector<KnotVector::KnotPair> ps;
                for (size_t i = 0; i < kn.size(); ++i)
                    if (i && kn[i] == kn[i - 1]) ++ps.back().Multiplicity;
                    else ps.emplace_back((int)i, kn[i], 1);
                if (st.i("bad")) ps.back().Value = 0.5;
                call(r, [&] { v.k = KnotVector(ps); });
            }
            else if (o == "k.uni")
            {
                int p = 1 + int(st.i("ord") % 4), n = 2 * p + 2 + int(st.i("times") % 6);
                call(r, [&] { v.k = KnotVector::Uniform(p, n); });
            }
            else return skip();
        }
        else if (o == "geo.seg")
        {
            GeomSegment s = GeomSegment::Make(point(st), matrix(st).col(0));
            s.Degree = 1 + int(st.i("ord") % 3);
            s.ControlPointCount = s.Degree + 1 + int(st.i("times") % 4);
            call(r, [&] { v.c = s.GetCurve(); });
        }
        else if (o == "geo.rect")
        {
            Mat3x3 m = matrix(st);
            GeomRect s = GeomRect::Make(point(st), m.col(0), m.col(1), m.col(2));
            s.DegreeU = 1 + int(st.i("ord") % 3);
            s.DegreeV = 1 + int(st.i("ord2") % 2);
            s.ControlPointCountU = s.DegreeU + 1 + int(st.i("times") % 3);
            s.ControlPointCountV = s.DegreeV + 1 + int(st.i("times") % 2);
            call(r, [&] { v.s = s.GetSurface(); });
        }
        else if (o[0] == 'g')
        {
            PGrid& G = P.g[idx(st, "a", NG)];
            if (!usable(G)) return skip();
            int iu = idx(st, "i", G.UCount), iv = idx(st, "j", G.VCount);
            Vec4 val;
            val.head<3>() = point(st);
            val[3] = 1;
            if (o == "g.get")
                call(r,
                     [&]
                     {
                         const PGrid& cg = G;
                         Vec4 q = cg.Get(iu, iv);
                         v.D(q[0]);
                         v.D(q[1]);
                         v.D(q[2]);
                         v.D(q[3]);
                         v.N(G.Count());
                     });
            else if (o == "g.getu") call(r, [&] { v.v4s = G.GetU(iu); });
            else if (o == "g.getv") call(r, [&] { v.v4s = G.GetV(iv); });
            else if (o == "g.insu" || o == "g.insv")
            {
                // the inserted value may be an element of the grid itself
                size_t e = st.has("self") ? size_t(idx(st, "self", (int)G.Values.size())) : 0;
                bool self = st.has("self");
                if (o == "g.insu") call(r, [&] { G.InsertU(iu, self ? G.Values[e] : val); });
                else call(r, [&] { G.InsertV(iv, self ? G.Values[e] : val); });
            }
            else if (o == "g.setu" || o == "g.setv")
            {
                std::vector<Vec4> vals(size_t(o == "g.setu" ? G.VCount : G.UCount), val);
                for (size_t i = 0; i < vals.size(); ++i) vals[i][0] += double(i);
                if (o == "g.setu") call(r, [&] { G.SetU(iu, vals); });
                else call(r, [&] { G.SetV(iv, vals); });
            }
            else return skip();
        }
        else return skip();

        if (!r.threw)
        {
            Out out;
            v.image(out);
            r.out = std::move(out.b);
            if (store && st.has("dst"))
            {
                if (v.c && v.c->ControlPoints.size() < 60) P.c[idx(st, "dst", NC)] = *v.c;
                if (v.s && v.s->ControlPoints.Values.size() < 160) P.s[idx(st, "dst", NS)] = *v.s;
                if (v.k && v.k->Values().size() < 60) P.k[idx(st, "dst", NK)] = *v.k;
            }
        }
        {
            Armed a;
            v.release();
        }
        return r;
    }

    void setup_slot(Pool& P, const Step& st)
    {
        int n = idx(st, "slot", NSLOT);
        if (n < NC) P.c[n] = make_curve(st);
        else if (n < NC + NS) P.s[n - NC] = make_surface(st);
        else if (n < NC + NS + NK) P.k[n - NC - NS] = make_curve(st).Knots;
        else P.g[n - NC - NS - NK] = make_surface(st).ControlPoints;
    }
    void draw_setup(Rng& r, Plan& p)
    {
        Step first;
        for (int i = 0; i < NSLOT; ++i)
        {
            Step s("obj");
            int pp = r.pick({1, 2, 2, 3, 3, 4}), q = r.pick({1, 1, 2, 2, 3});
            if (r.chance(0.08)) pp = r.pick({5, 6, 7, 8, 9, 11, 14});
            if (r.chance(0.08)) q = r.pick({4, 5, 6, 7, 8, 9});
            int extra = r.chance(0.1) ? r.range(8, 16) : r.chance(0.02) ? r.range(20, 140) : r.range(0, 5);
            if (i >= NC && i < NC + NS && extra > 40) extra /= 4;
            s.set("slot", i).set("p", pp).set("n", pp + 1 + extra).set("km", r.range(0, 3));
            s.set("q", q).set("m", q + 1 + r.range(0, 3)).set("kqm", r.range(0, 3));
            s.set("cm", r.range(0, 1)).set("wm", r.pick({0, 1, 1, 3})).set("os", (int64_t)r.below(100000));
            // near twins: same shape, other values
            bool kindstart = i == 0 || i == NC || i == NC + NS || i == NC + NS + NK;
            if (!kindstart && r.chance(0.45))
            {
                Step t = p.steps.back();
                t.set("slot", i);
                if (r.chance(0.7)) t.set("os", (int64_t)r.below(100000));
                s = t;
            }
            p.steps.push_back(s);
        }
    }

    Step draw_op(Rng& r, OpSet set, bool store)
    {
        static const std::vector<std::string> read{
            "c.eval",  "c.eval",  "c.der",     "c.all",     "c.rat",  "c.search", "c.bsearch", "c.ins1",  "c.insN",  "c.insS",   "c.rem",       "c.elev",
            "c.xform", "c.bez",   "c.bbox",    "c.save",    "s.eval", "s.eval",   "s.der",     "s.all",   "s.rat",   "s.search", "s.searchon",  "s.bsearchon",
            "s.ins1U", "s.ins1V", "s.insNU",   "s.insNV",   "s.insSU", "s.insSV", "s.remU",    "s.remV",  "s.elevU", "s.elevV",  "s.xform",     "s.align",
            "s.save",  "k.pairs", "k.q",       "k.deg",     "k.span", "k.find",   "k.mult",    "g.get",   "g.getu",  "g.getv",   "b.eval",      "b.der",
            "b.all",   "c.copy",  "s.copy",    "k.copy",   "k.new",   "k.newp",    "k.uni",     "geo.seg", "geo.rect"};
        static const std::vector<std::string> edit{"k.ins", "k.rev", "g.insu", "g.insv", "g.setu", "g.setv"};
        static const std::vector<std::string> io{"c.rt", "s.rt"};
        static const std::vector<std::string> user{"poke.c", "poke.s", "poke.c", "poke.s", "poke.k", "poke.g", "copy.c", "copy.s", "copy.k", "copy.g"};
        std::string o;
        double d = r.unit();
        if (set == OPS_READ) o = r.of(read);
        else if (set == OPS_CALL) o = d < 0.9 ? r.of(read) : r.of(edit);
        else o = d < 0.55 ? r.of(read) : d < 0.65 ? r.of(edit) : d < 0.8 ? r.of(io) : r.of(user);
        Step s(o);
        s.set("a", r.range(0, 2));
        auto par = [&](const char* k)
        {
            int64_t v = r.chance(0.15) ? r.pick({0, 4096}) : r.chance(0.25) ? -r.range(1, 12) : r.chance(0.3) ? 256 * r.range(0, 16) : r.range(0, 4096);
            s.set(k, v);
        };
        auto starts = [&](const char* p) { return o.rfind(p, 0) == 0; };
        if (starts("poke."))
        {
            s.set("what", r.range(0, 2)).set("i", r.range(0, 30)).set("j", r.range(0, 3)).set("by", r.range(1, 15));
            return s;
        }
        if (starts("copy."))
        {
            s.set("dst", r.range(0, 2));
            if (r.chance(0.3)) s.set("move", 1);
            return s;
        }
        if (o == "c.rt" || o == "s.rt")
        {
            s.set("to", r.range(0, 2)).set("bin", r.range(0, 1));
            if (r.chance(0.3))
            {
                s.set("path", r.range(1, 3));
                draw_name(r, s);
            }
            else s.set("piece", r.pick({1, 7, 63, 511, 4095}));
            if (r.chance(0.3)) s.set("cut", (int64_t)r.below(4000));
            return s;
        }
        if (o == "c.save" || o == "s.save")
        {
            s.set("bin", r.range(0, 1));
            return s;
        }
        bool isk = o[0] == 'k', isg = o[0] == 'g' && o[1] == '.';
        if (isg)
        {
            s.set("i", r.range(0, 9)).set("j", r.range(0, 9));
            if (o.size() > 5) s.set("pt", (int64_t)r.below(1000));
            if ((o == "g.insu" || o == "g.insv") && r.chance(0.3)) s.set("self", r.range(0, 30));
            return s;
        }
        if (o == "k.new" || o == "k.newp")
        {
            if (r.chance(0.3)) s.set("bad", 1);
        }
        if (o != "c.rat" && o != "s.rat" && o != "c.copy" && o != "s.copy" && o != "k.copy" && o != "c.bez" && o != "c.bbox" && o != "k.pairs" && o != "k.q" && o != "k.deg" && !starts("geo"))
        {
            par("x");
            if (o[0] == 's') par("y");
        }
        if (!isk || o == "k.uni") s.set("ord", r.range(0, 4)).set("ord2", r.range(0, 3));
        if (starts("c.ins") || starts("s.ins") || starts("c.rem") || starts("s.rem") || starts("c.elev") || starts("s.elev") || isk || starts("geo")) s.set("times", r.range(0, 5));
        if (o.find("search") != std::string::npos) s.set("it", r.range(0, 11));
        if (starts("s.searchon") || starts("s.bsearchon") || o == "s.align") s.set("dir", r.range(0, 2));
        if (starts("c.rem") || starts("s.rem")) s.set("tol", r.range(0, 3));
        if (!isk) s.set("pt", (int64_t)r.below(1000));
        if (store && r.chance(0.3) && (o == "c.ins1" || o == "c.insN" || o == "c.insS" || o == "c.rem" || o == "c.elev" || o == "c.xform" || starts("s.ins") || starts("s.rem") || starts("s.elev") || o == "s.xform" || o == "s.align" || o == "k.new" || o == "k.newp" || o == "k.uni" || starts("geo")))
            s.set("dst", r.range(0, 2));
        return s;
    }
}
