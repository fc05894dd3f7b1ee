// Rectilinear grids: every query about a point is compared with what the plain
// list of line positions says (linear scan), for random irregular grids.
#include "vf.h"
#include "geometry/Grid.h"
#include "geometry/coordinate/Coordinate.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"

using namespace SEMBA;
using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
typedef std::vector<double> V;
typedef Math::Constants::CartesianAxis Axis;

namespace {
struct G { V p[3]; Grid3 g; bool uniform; };
V line(vf::Ctx& c, bool uniform, double sc) {
    int n = c.rng.chance(0.04) ? c.rng.range(17, 70) : c.rng.range(1, 9);
    V p(1, sc * (c.rng.chance(0.3) ? 0.0 : c.rng.real(-3, 3)));
    double s = sc * c.rng.real(0.4, 2);
    if (!uniform && c.rng.chance(0.2)) { double r = 1 + c.rng.real(-0.009, 0.009); for (int i = 0; i < n; i++, s *= r) p.push_back(p.back() + s); c.cov("drifting"); return p; }   // steps that differ little from one to the next
    for (int i = 0; i < n; i++) p.push_back(p.back() + (uniform ? s : sc * c.rng.real(0.4, 2)));
    return p;
}
G make(vf::Ctx& c) {
    G r; int how = c.rng.range(0, 3); double sc = c.rng.chance(0.3) ? 1e-3 : c.rng.chance(0.2) ? 50.0 : 1.0; r.uniform = false;
    c.cov("ctor" + std::to_string(how)); c.note("ctor" + std::to_string(how));
    if (how == 0 || how == 3) { for (int d = 0; d < 3; d++) { r.p[d] = line(c, c.rng.chance(0.3), sc); }
        if (how == 0) r.g = Grid3(r.p); else { Grid3 t; t.setPos(r.p); r.g = Grid3(t); } }
    else { CVecR3 mn, st, mx; CVecI3 nn; 
        for (int d = 0; d < 3; d++) { mn(d) = sc * c.rng.real(-3, 3); st(d) = sc * c.rng.real(0.1, 2); nn(d) = c.rng.chance(0.03) ? c.rng.range(17, 70) : c.rng.range(1, 9); mx(d) = mn(d) + nn(d) * st(d); 
            if (how == 1 && c.rng.chance(0.5)) mx(d) -= st(d) * c.rng.real(0.1, 0.9);   // not a whole number of cells
            for (int k = 0; k <= nn(d); k++) r.p[d].push_back(mn(d) + k * (how == 1 ? st(d) : (mx(d) - mn(d)) / nn(d))); }
        r.uniform = true;
        if (how == 1) r.g = Grid3(BoxR3(mn, mx), st); else r.g = Grid3(BoxR3(mn, mx), nn); }
    for (int d = 0; d < 3; d++) for (double x : r.p[d]) c.noteV(x);
    return r;
}
// the cell [k,k+1) of a point strictly inside the grid
int cellOf(const V& p, double x) { int k = 0; while (k + 2 < int(p.size()) && x >= p[k + 1]) k++; return k; }
} // namespace

void vf_case(vf::Ctx& c) {
    G t = make(c); const Grid3& g = t.g;
    double tol = Grid3::tolerance;
    double minStep = 1e300; bool reg[3] = {true, true, true};
    long nPos = 1;
    for (int d = 0; d < 3; d++) {
        const V& p = t.p[d];
        V q = g.getPos(d);
        VF_CHECK(c, q.size() == p.size(), "line-count", "axis " << d << ": " << q.size() << " lines, expected " << p.size());
        if (q.size() != p.size()) return;
        VF_CHECK(c, g.getNumCells()(d) == long(p.size()) - 1, "cell-count", "axis " << d);
        VF_CHECK(c, vf::near(g.getOrigin()(d), p[0]), "origin", "axis " << d);
        V st = g.getStep(d); VF_CHECK(c, st.size() == p.size() - 1, "step-count", "axis " << d);
        for (std::size_t k = 0; k < p.size(); k++) {
            VF_CHECK(c, vf::near(q[k], p[k], 1e-12, 1e-12) && g.getPos(d, k) == q[k], "line", "axis " << d << " line " << k << " at " << q[k] << " expected " << p[k]);
            if (k + 1 < p.size()) { VF_CHECK(c, vf::near(st[k], p[k + 1] - p[k], 1e-9, 1e-12) && g.getStep(d, k) == st[k], "step", "axis " << d << " step " << k); 
                minStep = std::min(minStep, p[k + 1] - p[k]);
                double rel = std::fabs(p[k + 1] - p[k] - (p[1] - p[0])) / (p[1] - p[0]); if (rel > tol) reg[d] = false; }
        }
        VF_CHECK(c, g.isRegular(d) == reg[d], "regular", "axis " << d << " regular: " << g.isRegular(d));
        nPos *= p.size();
    }
    VF_CHECK(c, g.isRegular() == (reg[0] && reg[1] && reg[2]), "regular", "whole grid");
    VF_CHECK(c, vf::near(g.getMinimumSpaceStep(), minStep, 1e-9), "minimum-step", g.getMinimumSpaceStep() << " expected " << minStep);
    BoxR3 full = g.getFullDomainBoundingBox();
    for (int d = 0; d < 3; d++) VF_CHECK(c, vf::near(full.getMin()(d), t.p[d].front()) && vf::near(full.getMax()(d), t.p[d].back()), "domain-box", "axis " << d);
    VF_CHECK(c, long(g.getPos().size()) == nPos, "all-positions", g.getPos().size());
    c.interesting = true;

    for (int n = 0; n < (c.thorough ? 60 : 25); n++) {
        // a point, per axis one of: on a line, near a line, inside a cell, outside
        CVecR3 x; int kind[3]; int ref[3]; double off[3]; bool anyOut = false, allIn = true, onLines = true;
        for (int d = 0; d < 3; d++) {
            const V& p = t.p[d]; int N = p.size() - 1;
            int k = c.rng.range(0, N - 1); double st = p[k + 1] - p[k];
            kind[d] = c.rng.range(0, 9);
            if (kind[d] <= 2) { kind[d] = 0; ref[d] = c.rng.range(0, N); x(d) = g.getPos(d, ref[d]); off[d] = 0; }
            else if (kind[d] == 3) { // within the tolerance of an inner line away from zero
                kind[d] = 1; ref[d] = c.rng.range(0, N); double s = st; s = 1e300; if (ref[d] > 0) s = std::min(s, p[ref[d]] - p[ref[d] - 1]); if (ref[d] < N) s = std::min(s, p[ref[d] + 1] - p[ref[d]]);
                x(d) = g.getPos(d, ref[d]) + s * tol * c.rng.real(-0.8, 0.8); off[d] = 0;
                if (std::fabs(p[ref[d]]) < 1e-9 || std::fabs(x(d)) < 1e-9) { x(d) = g.getPos(d, ref[d]); kind[d] = 0; } }
            else if (kind[d] <= 8) { kind[d] = 2; off[d] = c.rng.chance(0.5) ? c.rng.real(0.08, 0.48) : c.rng.real(0.52, 0.92); ref[d] = k; x(d) = p[k] + off[d] * st; if (std::fabs(x(d)) < 1e-9) { kind[d] = 0; ref[d] = k; x(d) = g.getPos(d, k); off[d] = 0; } }
            else { kind[d] = 3; bool up = c.rng.chance(0.5); double s = up ? p[N] - p[N - 1] : p[1] - p[0]; off[d] = c.rng.real(0.05, 5) * (up ? 1 : -1); ref[d] = up ? N : 0; x(d) = (up ? p[N] : p[0]) + off[d] * s; anyOut = true; 
                if (std::fabs(x(d)) < 1e-9) { x(d) += 0.5 * s * (up ? 1 : -1); off[d] += up ? 0.5 : -0.5; } }
            c.cov("point" + std::to_string(kind[d])); c.ev("points");
            if (kind[d] >= 2) onLines = false;
        }
        std::ostringstream ws; ws << std::setprecision(17) << "point (" << x(0) << " " << x(1) << " " << x(2) << ") kinds " << kind[0] << kind[1] << kind[2]; std::string w = ws.str();
        for (int approx = 0; approx < 2; approx++) {
            bool err = !anyOut; auto pr = g.getCellPair(x, approx != 0, tol, &err);
            VF_CHECK(c, err == anyOut, "outside-flag", w << (approx ? " approx" : "") << ": flagged " << err);
            CVecI3 cl = g.getCell(x, approx != 0);
            for (int d = 0; d < 3; d++) {
                const V& p = t.p[d]; int N = p.size() - 1;
                bool e1 = false; auto p1 = g.getCellPair(d, x(d), approx != 0, tol, &e1);
                VF_CHECK(c, p1.first == pr.first(d) && p1.second == pr.second(d) && cl(d) == pr.first(d) && g.getCell(d, x(d), approx != 0) == cl(d), "axis-disagrees", w << " axis " << d);
                VF_CHECK(c, e1 == (kind[d] == 3), "outside-flag", w << " axis " << d);
                long wantCell; double wantOff;
                if (kind[d] <= 1) { wantCell = ref[d]; wantOff = 0; }
                else if (kind[d] == 3) { wantCell = ref[d]; wantOff = off[d]; }
                else { wantCell = ref[d]; wantOff = off[d]; if (approx && off[d] > 0.5) { wantCell++; wantOff -= 1.0; } }
                VF_CHECK(c, pr.first(d) == wantCell, "cell", w << " axis " << d << (approx ? " nearest line " : " cell ") << pr.first(d) << ", expected " << wantCell);
                VF_CHECK(c, vf::near(pr.second(d), wantOff, 1e-7, 1e-8), "offset", w << " axis " << d << " offset " << pr.second(d) << ", expected " << wantOff);
            }
        }
        VF_CHECK(c, g.isCell(x) == onLines, "on-grid", w << ": on grid " << g.isCell(x));
        VF_CHECK(c, CoordR3(x).isStructured(g) == onLines, "on-grid", w);
        std::unique_ptr<CoordI3> s(CoordR3(CoordId(5), x).toStructured(g));
        VF_CHECK(c, s->pos() == g.getCell(x) && s->getId() == CoordId(5), "to-structured", w);
        // where the point is, without tolerance
        bool in = true; for (int d = 0; d < 3; d++) { bool i1 = x(d) >= g.getPos(d, 0) && x(d) <= g.getPos(d, t.p[d].size() - 1); in = in && i1; VF_CHECK(c, g.isInto(d, x(d)) == i1, "into", w << " axis " << d); }
        VF_CHECK(c, g.isInto(x) == in, "into", w);
        bool strict = true; for (int d = 0; d < 3; d++) strict = strict && x(d) >= g.getPos(d, 0) && x(d) < g.getPos(d, t.p[d].size() - 1);
        for (int d = 0; d < 3; d++) {
            long i = -7; double rel = 0; V q = g.getPos(d); bool ok = g.getNaturalCell(Axis(d), x(d), i, rel);
            bool want = x(d) >= q.front() && x(d) < q.back();
            VF_CHECK(c, ok == want, "natural-flag", w << " axis " << d);
            if (ok && want) { int k = cellOf(q, x(d)); VF_CHECK(c, i == k && vf::near(rel, (x(d) - q[k]) / (q[k + 1] - q[k]), 1e-9, 1e-9), "natural-cell", w << " axis " << d << ": " << i << "+" << rel << ", expected " << k); }
            else VF_CHECK(c, i == (x(d) < q.front() ? 0 : long(q.size()) - 1), "natural-outside", w << " axis " << d << " " << i);
        }
        if (!anyOut) { bool isInto = false; auto f = g.getCVecI3Fractional(x, isInto); VF_CHECK(c, isInto == in, "fractional-flag", w);
            if (isInto && in) for (int d = 0; d < 3; d++) { V q = g.getPos(d); double rec = f(d) + 1 < long(q.size()) ? q[f(d)] + f.len_(d) * (q[f(d) + 1] - q[f(d)]) : q.back();
                VF_CHECK(c, vf::near(rec, x(d), 1e-9, 1e-9) && f.len_(d) >= 0 && f.len_(d) < 1, "fractional", w << " axis " << d << " gives " << rec); } }
        bool inner = strict; for (int d = 0; d < 3; d++) inner = inner && kind[d] != 1;
        if (inner) { BoxI3 bi = g.getBoxIContaining(x); BoxR3 br = g.getBoxRContaining(x);
            for (int d = 0; d < 3; d++) { V q = g.getPos(d); int k = cellOf(q, x(d));
                VF_CHECK(c, bi.getMin()(d) == k && bi.getMax()(d) == k + 1, "cell-box", w << " axis " << d);
                VF_CHECK(c, br.getMin()(d) == q[k] && br.getMax()(d) == q[k + 1], "cell-box", w << " axis " << d); } }
        if (inner && !anyOut) { // conversions there and back
            CoordRel rel(CoordId(9), CVecI3(cellOf(g.getPos(0), x(0)), cellOf(g.getPos(1), x(1)), cellOf(g.getPos(2), x(2))), CVecR3(0.25, 0.5, 0.0));
            std::unique_ptr<CoordR3> u(rel.toUnstructured(g));
            for (int d = 0; d < 3; d++) { int k = rel.pos()(d); double want = g.getPos(d, k) + (d == 0 ? 0.25 : d == 1 ? 0.5 : 0.0) * g.getStep(d, k); VF_CHECK(c, vf::near(u->pos()(d), want), "relative-position", w << " axis " << d); }
            VF_CHECK(c, u->getId() == CoordId(9), "relative-position", "id");
            CoordConf cf(CoordId(8), rel.pos(), Math::Constants::y, 0.75); std::unique_ptr<CoordR3> v(cf.toUnstructured(g));
            for (int d = 0; d < 3; d++) { int k = rel.pos()(d); double want = g.getPos(d, k) + (d == 1 ? 0.75 * g.getStep(d, k) : 0.0); VF_CHECK(c, vf::near(v->pos()(d), want), "conformal-position", w << " axis " << d); } }
    }
    // ranges
    for (int n = 0; n < 6; n++) {
        CVecR3 a, b; std::vector<V> in(3); std::size_t centers = 1; 
        for (int d = 0; d < 3; d++) { const V& p = t.p[d]; double L = p.back() - p.front(); double u, v; bool bad;
            do { u = p.front() + c.rng.real(-0.2, 1.2) * L; v = p.front() + c.rng.real(-0.2, 1.2) * L; if (c.rng.chance(0.3)) u = c.rng.pick(p); if (c.rng.chance(0.3)) v = c.rng.pick(p); if (v < u) std::swap(u, v);
                bad = false; for (std::size_t k = 0; k < p.size(); k++) for (double e : {u, v}) if (e != p[k] && std::fabs(e - p[k]) < 0.03 * (k + 1 < p.size() ? p[k + 1] - p[k] : p[k] - p[k - 1])) bad = true; } while (bad);
            a(d) = u; b(d) = v; V q = g.getPos(d); for (double y : q) if (y >= u - 1e-9 * L && y <= v + 1e-9 * L) in[d].push_back(y);
            V got = g.getPosInRange(d, u, v); VF_CHECK(c, got == in[d], "positions-in-range", "axis " << d << " [" << u << "," << v << "]: " << got.size() << " lines, expected " << in[d].size());
            centers *= in[d].empty() ? 0 : in[d].size() - 1; }
        auto ce = g.getCenterOfCellsInside(BoxR3(a, b));
        VF_CHECK(c, ce.size() == centers, "centers", ce.size() << " cell centres, expected " << centers);
        if (ce.size() == centers && centers) { std::size_t idx = 0; bool ok = true;
            for (std::size_t i = 1; i < in[0].size(); i++) for (std::size_t j = 1; j < in[1].size(); j++) for (std::size_t k = 1; k < in[2].size(); k++, idx++)
                ok = ok && vf::near(ce[idx](0), (in[0][i] + in[0][i - 1]) / 2) && vf::near(ce[idx](1), (in[1][j] + in[1][j - 1]) / 2) && vf::near(ce[idx](2), (in[2][k] + in[2][k - 1]) / 2);
            VF_CHECK(c, ok, "centers", "positions"); }
        CVecI3 lo, hi; for (int d = 0; d < 3; d++) { lo(d) = c.rng.range(0, t.p[d].size() - 1); hi(d) = c.rng.range(lo(d), t.p[d].size() - 1); }
        BoxR3 bb = g.getBoundingBox(BoxI3(lo, hi));
        for (int d = 0; d < 3; d++) VF_CHECK(c, bb.getMin()(d) == g.getPos(d, lo(d)) && bb.getMax()(d) == g.getPos(d, hi(d)) && g.getPos(lo)(d) == g.getPos(d, lo(d)), "bounding-box", "axis " << d);
    }
    Grid3 sc(g); double f = c.rng.real(0.1, 10); sc.applyScalingFactor(f);
    for (int d = 0; d < 3; d++) for (std::size_t k = 0; k < t.p[d].size(); k++) VF_CHECK(c, vf::near(sc.getPos(d, k), f * g.getPos(d, k)), "scaling", "axis " << d << " line " << k);
}

VF_PROBE("one-line-axis") {
    V p[3] = {{1.0}, {0.0, 1.0}, {0.0, 1.0, 3.0}}; Grid3 g; g.setPos(p);
    VF_CHECK(c, g.getNumCells() == CVecI3(1, 1, 2) && g.getPos(0) == (V{1.0, 1.0}), "cells", "flat axis");
    V q[3] = {{}, {0.0, 1.0}, {0.0, 1.0}}; Grid3 h;
    VF_CHECK(c, !vf::thrown([&] { h.setPos(q); }).empty(), "empty-accepted", "an axis without positions was accepted");
}
VF_PROBE("cartesian") {
    VF_CHECK(c, Grid3(BoxR3(CVecR3(0.0), CVecR3(3.0)), CVecR3(1.0)).isCartesian(), "cartesian", "cubic cells");
    VF_CHECK(c, !Grid3(BoxR3(CVecR3(0.0), CVecR3(4.0)), CVecR3(1.0, 2.0, 1.0)).isCartesian(), "cartesian", "not cubic");
    VF_CHECK(c, Grid3().hasZeroSize() && !Grid3(BoxR3(CVecR3(0.0), CVecR3(3.0)), CVecR3(1.0)).hasZeroSize(), "zero-size", "");
}
