// Axis-aligned boxes: containment, intersection, union, corners and chopping
// against definitions evaluated point by point.
#include "vf.h"
#include "geometry/Box.h"
#include "geometry/Grid.h"
using namespace SEMBA; using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
typedef Math::Constants::CartesianAxis Axis;
typedef Math::Constants::CartesianBound Bound;

namespace {
template <class T> struct Gen;
template <> struct Gen<Math::Real> { static double v(vf::Ctx& c) { double x = 0.25 * c.rng.range(-14, 14); if (c.rng.chance(0.1)) x += c.rng.pick(std::vector<double>{-1, 1}) * std::ldexp(1.0, -c.rng.range(4, 14)); else if (c.rng.chance(0.07)) x = c.rng.real(-3.5, 3.5); return x; } static const char* n() { return "real"; } };
template <> struct Gen<Math::Int> { static long v(vf::Ctx& c) { return c.rng.range(-7, 7); } static const char* n() { return "int"; } };

template <class T> void run(vf::Ctx& c) {
    typedef Math::Vector::Cartesian<T, 3> P; typedef Box<T, 3> B;
    P a, b, e, f; for (int d = 0; d < 3; d++) { a(d) = Gen<T>::v(c); b(d) = c.rng.chance(0.2) ? a(d) : Gen<T>::v(c); e(d) = c.rng.chance(0.2) ? a(d) : Gen<T>::v(c); f(d) = c.rng.chance(0.2) ? e(d) : Gen<T>::v(c); }
    for (const P* p : {&a, &b, &e, &f}) for (int d = 0; d < 3; d++) c.noteV((*p)(d));
    B x(a, b), y(e, f); B x2(std::make_pair(b, a)); c.cov(Gen<T>::n()); c.interesting = true;
    P xl = x.getMin(), xu = x.getMax(), yl = y.getMin(), yu = y.getMax();
    std::ostringstream ws; ws << Gen<T>::n() << " boxes " << x << " and " << y; std::string w = ws.str();
    VF_CHECK(c, x == x2 && x.getMin() == x2.getMin(), "order", w << ": the corners' order matters");
    int diff = 0; bool inter = true, leq = true, gt = true; double vol = 1;
    for (int d = 0; d < 3; d++) {
        VF_CHECK(c, xl(d) == std::min(a(d), b(d)) && xu(d) == std::max(a(d), b(d)), "bounds", w);
        VF_CHECK(c, x.getLength()(d) == xu(d) - xl(d), "length", w); VF_CHECK(c, x.getBound(Math::Constants::L)(d) == xl(d) && x.getBound(Math::Constants::U)(d) == xu(d), "bound", w);
        if (xl(d) != xu(d)) diff++;
        inter = inter && std::max(xl(d), yl(d)) <= std::min(xu(d), yu(d));
        leq = leq && xl(d) >= yl(d) && xu(d) <= yu(d); gt = gt && xl(d) < yl(d) && xu(d) > yu(d);
        vol *= xu(d) - xl(d);
    }
    c.cov(std::string(Gen<T>::n()) + std::to_string(diff) + (inter ? "i" : "d") + (leq ? "c" : "") + (gt ? "g" : ""));
    VF_CHECK(c, x.isPoint() == (diff == 0) && x.isLine() == (diff == 1) && x.isSurface() == (diff == 2) && x.isVolume() == (diff == 3), "dimension", w);
    VF_CHECK(c, x.isIntersected(y) == inter && y.isIntersected(x) == inter, "intersected", w << ": " << x.isIntersected(y) << "/" << y.isIntersected(x));
    VF_CHECK(c, (x <= y) == leq, "contained", w); VF_CHECK(c, (x > y) == gt && (y < x) == gt, "strictly-contains", w);
    VF_CHECK(c, (x == y) == (xl(0) == yl(0) && xl(1) == yl(1) && xl(2) == yl(2) && xu(0) == yu(0) && xu(1) == yu(1) && xu(2) == yu(2)), "equal", w);
    B i = x.intersect(y), u(x), v(x); u += y; v << y;
    for (int d = 0; d < 3; d++) {
        if (inter) VF_CHECK(c, i.getMin()(d) == std::max(xl(d), yl(d)) && i.getMax()(d) == std::min(xu(d), yu(d)), "intersection", w << " gives " << i);
        VF_CHECK(c, u.getMin()(d) == std::min(xl(d), yl(d)) && u.getMax()(d) == std::max(xu(d), yu(d)), "union", w << " gives " << u);
        VF_CHECK(c, v.getMin()(d) == u.getMin()(d) && v.getMax()(d) == u.getMax()(d), "grow", w);
    }
    { B z; P q[3]; for (int k = 0; k < 3; k++) { for (int d = 0; d < 3; d++) q[k](d) = Gen<T>::v(c); z << q[k]; }
      for (int d = 0; d < 3; d++) VF_CHECK(c, z.getMin()(d) == std::min({q[0](d), q[1](d), q[2](d)}) && z.getMax()(d) == std::max({q[0](d), q[1](d), q[2](d)}), "grow-from-empty", w); 
      for (int k = 0; k < 3; k++) VF_CHECK(c, z.isInnerPoint(q[k]), "inner", w); 
      B e; VF_CHECK(c, (e += x, e == x), "union-with-empty", w); }
    for (int k = 0; k < 8; k++) { P q; bool in = true; for (int d = 0; d < 3; d++) { q(d) = c.rng.chance(0.3) ? xl(d) : c.rng.chance(0.3) ? xu(d) : Gen<T>::v(c); in = in && q(d) >= xl(d) && q(d) <= xu(d); } VF_CHECK(c, x.isInnerPoint(q) == in, "inner", w); }
    if (diff == 1) { int k = 0; while (xl(k) == xu(k)) k++; VF_CHECK(c, x.getDirection() == k, "direction", w); } else VF_CHECK(c, !vf::thrown([&] { x.getDirection(); }).empty(), "direction-of-other", w);
    if (diff == 2) { int k = 0; while (xl(k) != xu(k)) k++; VF_CHECK(c, x.getNormal() == k, "normal", w); } else VF_CHECK(c, !vf::thrown([&] { x.getNormal(); }).empty(), "normal-of-other", w);
    // corners
    { auto ps = x.getPos(); std::set<std::vector<double>> got, want; for (auto& q : ps) got.insert({double(q(0)), double(q(1)), double(q(2))});
      for (int m = 0; m < 8; m++) want.insert({double(m & 1 ? xu(0) : xl(0)), double(m & 2 ? xu(1) : xl(1)), double(m & 4 ? xu(2) : xl(2))});
      VF_CHECK(c, ps.size() == want.size() && got == want, "corners", w << ": " << ps.size() << " corners");
      if (diff >= 2) for (int k = 0; k < 4; k++) { int ch = 0; for (int d = 0; d < 3; d++) ch += ps[k](d) != ps[(k + 1) % 4](d); VF_CHECK(c, ch == 1, "corner-order", w << ": corners " << k << " and the next do not share an edge"); }
      if (diff == 3) for (int k = 0; k < 4; k++) { bool up = ps[k](0) == ps[k + 4](0) && ps[k](1) == ps[k + 4](1); VF_CHECK(c, up, "corner-order", w << ": corner " << k + 4 << " is not over corner " << k); } }
    if (diff == 3) for (int d = 0; d < 3; d++) for (int s = 0; s < 2; s++) {
        auto ps = x.getPosOfBound(Axis(d), Bound(s)); std::set<std::vector<double>> got; bool on = ps.size() == 4; for (auto& q : ps) { on = on && q(d) == (s ? xu(d) : xl(d)) && x.isInnerPoint(q); got.insert({double(q(0)), double(q(1)), double(q(2))}); }
        VF_CHECK(c, on && got.size() == 4, "bound-corners", w); B bb = x.getBoundAsBox(Axis(d), Bound(s)); bool ok = true;
        for (int k = 0; k < 3; k++) ok = ok && bb.getMin()(k) == (k == d ? (s ? xu(d) : xl(d)) : xl(k)) && bb.getMax()(k) == (k == d ? (s ? xu(d) : xl(d)) : xu(k)); VF_CHECK(c, ok, "bound-box", w); }
    // tiling
    auto tile = [&](const std::vector<B>& parts, const std::string& how, std::function<bool(const B&)> fits) {
        double sum = 0; long dim = 0; bool inside = true, ok = true; std::map<std::vector<double>, int> seen;
        for (const B& p : parts) { double m = 1; int dd = 0; for (int d = 0; d < 3; d++) { double l = p.getMax()(d) - p.getMin()(d); if (xl(d) != xu(d)) { m *= l; if (l > 0) dd++; } inside = inside && p.getMin()(d) >= xl(d) && p.getMax()(d) <= xu(d); }
            sum += m; dim += dd != diff; ok = ok && fits(p); }
        double whole = 1; for (int d = 0; d < 3; d++) if (xl(d) != xu(d)) whole *= xu(d) - xl(d);
        bool over = false; for (std::size_t p = 0; p < parts.size() && p < 400; p++) for (std::size_t q = p + 1; q < parts.size() && q < 400; q++) { bool o = true; for (int d = 0; d < 3; d++) { double l = std::max(parts[p].getMin()(d), parts[q].getMin()(d)), h = std::min(parts[p].getMax()(d), parts[q].getMax()(d)); o = o && (xl(d) == xu(d) ? true : l < h); } over = over || o; }
        VF_CHECK(c, inside, "chop-outside", w << " " << how << ": a part lies outside the box"); VF_CHECK(c, dim == 0, "chop-degenerate", w << " " << how << ": " << dim << " degenerate parts");
        VF_CHECK(c, !over, "chop-overlap", w << " " << how << ": parts overlap"); VF_CHECK(c, vf::near(sum, whole, 1e-9), "chop-measure", w << " " << how << ": the parts measure " << sum << " of " << whole);
        VF_CHECK(c, ok, "chop-too-large", w << " " << how << ": a part is larger than a step or crosses a grid line"); c.ev("chopped-parts", parts.size()); };
    if (diff > 0) {
        P st; for (int d = 0; d < 3; d++) st(d) = std::is_floating_point<T>::value ? (c.rng.chance(0.2) ? c.rng.real(0.5, 4) : 0.25 * (1 << c.rng.range(2, 4))) : c.rng.range(1, 6);
        std::vector<B> parts = x.chop(st);
        tile(parts, "chopped in steps of " + vf::str(st), [&](const B& p) { bool k = true; for (int d = 0; d < 3; d++) k = k && p.getMax()(d) - p.getMin()(d) <= st(d) * (1 + 1e-12); return k; });
        std::vector<double> pos[3]; for (int d = 0; d < 3; d++) { std::set<double> s; int n = c.rng.range(2, 7); while (int(s.size()) < n) s.insert(std::is_floating_point<T>::value ? 0.25 * c.rng.range(-20, 20) : c.rng.range(-10, 10)); pos[d].assign(s.begin(), s.end()); }
        Grid3 g(pos); std::vector<B> pg = x.chop(g); std::string gs; for (int d = 0; d < 3; d++) { for (double q : pos[d]) gs += vf::str(q) + " "; gs += "| "; }
        tile(pg, "chopped by grid " + gs, [&](const B& p) { bool k = true; for (int d = 0; d < 3; d++) for (double q : pos[d]) k = k && !(p.getMin()(d) < q && q < p.getMax()(d)); return k; });
    }
    { B s(x); s.scale(2.0); for (int d = 0; d < 3; d++) if (std::is_floating_point<T>::value) VF_CHECK(c, s.getMin()(d) == 2 * xl(d) && s.getMax()(d) == 2 * xu(d), "scale", w); }
}
}
void vf_case(vf::Ctx& c) { if (c.index % 2) run<Math::Real>(c); else run<Math::Int>(c); }
VF_PROBE("inside-one-cell") { BoxR3 b(CVecR3(0.2), CVecR3(0.7)); Grid3 g(BoxR3(CVecR3(0.0), CVecR3(3.0)), CVecR3(1.0)); auto p = b.chop(g); VF_CHECK(c, p.size() == 1 && p[0] == b, "chop", "box inside one cell gives " << p.size()); }
VF_PROBE("convert") { BoxI3 i(CVecI3(1, 2, 3), CVecI3(4, 6, 9)); BoxR3 r(i); VF_CHECK(c, r.getMin() == CVecR3(1, 2, 3) && r.getMax() == CVecR3(4, 6, 9), "convert", ""); }
