// Catalogue of library calls on a pool of objects at fixed addresses. A call is described by one plan step, its
// preconditions are taken from the object's state at the time of the call, its result is a byte image.
#pragma once
#include "objects.hpp"
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>

namespace sim
{
    using libnurbs::KnotVector;
    using PGrid = libnurbs::Grid<Vec4>;

    constexpr int NC = 3, NS = 3, NK = 2, NG = 2;
    struct Pool
    {
        Curve c[NC];
        Surface s[NS];
        KnotVector k[NK];
        PGrid g[NG];
        int id = 0;
        std::string dir; // scratch files of this pool

        std::string slot_image(int i) const;       // 0..NSLOT-1 over all slots
        void slot_restore(int i, const std::string& img);
        std::vector<std::string> images() const;
        void restore(const std::vector<std::string>& im);
        void drop();                               // empties everything, gives the memory back
    };
    constexpr int NSLOT = NC + NS + NK + NG;
    inline int slot_c(int i) { return i; }
    inline int slot_s(int i) { return NC + i; }
    inline int slot_k(int i) { return NC + NS + i; }
    inline int slot_g(int i) { return NC + NS + NK + i; }
    std::string slot_name(int i);

    std::string pack(const std::vector<std::string>& v);
    std::vector<std::string> unpack(const std::string& s);

    struct OpResult
    {
        bool skipped = false; // preconditions not met on the current state
        bool threw = false, oom = false;
        bool args_changed = false; // a by-reference argument was modified
        std::string type, what;
        std::string out;      // byte image of the result
        std::string flat() const;
        std::string text() const { return skipped ? "skip" : threw ? type : "ok"; }
    };

    // Executes one call under the memory seam (faults as configured by the caller in t_alloc).
    // `store`: also store the result into the slot named by `dst`.
    OpResult run_op(Pool& P, const Step& st, bool store = true);
    // slots the call is documented to modify
    uint64_t may_modify(const Step& st);

    // Fills the pool from `obj` steps (each with slot=<n>); unnamed slots get small defaults.
    void setup_slot(Pool& P, const Step& st);
    void draw_setup(Rng& r, Plan& p);

    enum OpSet { OPS_READ, OPS_CALL, OPS_ALL };
    Step draw_op(Rng& r, OpSet set, bool store);
}
