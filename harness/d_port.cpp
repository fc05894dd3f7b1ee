// Ports: rectangular waveguides and coaxial lines, the field patterns they give to their surface and what happens when the surface changes.
#include "vf.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "math/function/Gaussian.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Triangle3.h"
#include "geometry/coordinate/Group.h"
using namespace SEMBA; using Math::CVecR3; using Math::CVecI3; using Math::Real;
namespace So = SEMBA::Source; typedef Geometry::Element::Group<const Geometry::Surf> Surfs; 
namespace {
const double pi = std::acos(-1.0);
struct Sheet { double lo[3], hi[3]; Geometry::CoordR3Group cr; Geometry::CoordI3Group ci; Geometry::Element::Group<Geometry::Surf> el; bool integer; int axis; std::string w;
    // a rectangle normal to one axis covered by quadrilaterals or triangles in random order
    Sheet(vf::Ctx& c, int ax = 2) : axis(ax) { integer = c.rng.chance(0.35); double u = integer ? 1 : std::pow(10, c.rng.range(-4, 3)) * c.rng.real(0.5, 2); int n[3]; for (int k = 0; k < 3; k++) { n[k] = k == ax ? 0 : c.rng.range(1, 4); lo[k] = integer ? c.rng.range(-9, 9) : u * c.rng.range(-9, 9) * 0.25; } bool centred = c.rng.chance(0.1); if (centred) lo[ax] = 0; int q0 = (ax + 1) % 3, q1 = (ax + 2) % 3; std::vector<double> t[2]; for (int d = 0; d < 2; d++) { int k = d ? q1 : q0; if (centred) { hi[k] = integer ? c.rng.range(1, 4) : u * c.rng.range(1, 9) * 0.25; lo[k] = -hi[k]; t[d].push_back(lo[k]); if (n[k] > 2) t[d].push_back(0); t[d].push_back(hi[k]); continue; } double x = lo[k]; t[d].push_back(x); for (int i = 0; i < n[k]; i++) { x += integer ? c.rng.range(1, 4) : u * c.rng.range(1, 9) * 0.25; t[d].push_back(x); } hi[k] = x; } hi[ax] = lo[ax];
        std::vector<std::pair<int, int>> cells; for (std::size_t i = 0; i + 1 < t[0].size(); i++) for (std::size_t j = 0; j + 1 < t[1].size(); j++) cells.push_back({i, j}); c.rng.shuffle(cells); std::size_t id = 1; for (auto p : cells) { CVecR3 v[4]; for (int s = 0; s < 4; s++) { v[s](ax) = lo[ax]; v[s](q0) = t[0][p.first + (s == 1 || s == 2)]; v[s](q1) = t[1][p.second + (s >= 2)]; }
            if (integer) { const Geometry::CoordI3* x[4]; for (int s = 0; s < 4; s++) x[s] = ci.addPos(CVecI3(int(v[s](0)), int(v[s](1)), int(v[s](2)))); el.add(new Geometry::QuaI4(Geometry::ElemId(id++), x)); }
            else { const Geometry::CoordR3* x[4]; for (int s = 0; s < 4; s++) x[s] = cr.addPos(v[s]); if (c.rng.chance(0.3)) { const Geometry::CoordR3* y[3] = {x[0], x[2], x[3]}; el.add(new Geometry::Tri3(Geometry::ElemId(id++), x)); el.add(new Geometry::Tri3(Geometry::ElemId(id++), y)); } else el.add(new Geometry::QuaR4(Geometry::ElemId(id++), x)); } }
        std::ostringstream o; o << std::setprecision(17) << (integer ? "integer" : "real") << " sheet normal to " << ax << " from (" << lo[0] << "," << lo[1] << "," << lo[2] << ") to (" << hi[0] << "," << hi[1] << "," << hi[2] << ") of " << el.size(); w = o.str(); }
    std::vector<const Geometry::Surf*> ptrs() { std::vector<const Geometry::Surf*> r; for (std::size_t i = 0; i < el.size(); i++) r.push_back(el(i)); return r; }
    Surfs surfs() { return Surfs(ptrs()); } Geometry::Element::Group<const Geometry::Elem> elems() { std::vector<const Geometry::Elem*> r; for (std::size_t i = 0; i < el.size(); i++) r.push_back(el(i)); return Geometry::Element::Group<const Geometry::Elem>(r); } };
So::Magnitude::Magnitude* mag() { return new So::Magnitude::Magnitude(new Math::Function::Gaussian(1, 2)); }
bool holds(const So::Base& s, Sheet& h) { auto g = s.elems(); auto v = h.ptrs(); if (g.size() != v.size()) return false; for (std::size_t i = 0; i < v.size(); i++) if (g(i) != v[i]) return false; return true; }
void normal(vf::Ctx& c, const So::Port::Port& p, Sheet& h, const std::string& w) { CVecR3 n = p.getNormal(); bool ok = std::fabs(std::fabs(n(h.axis)) - 1) < 1e-9; for (int k = 0; k < 3; k++) if (k != h.axis) ok = ok && std::fabs(n(k)) < 1e-9; VF_CHECK(c, ok, "normal", w << ": normal " << n); }
void pattern(vf::Ctx& c, const So::Port::WaveguideRectangular& p, Sheet& h, bool te, int a, int b, const std::string& w) {
    double W = h.hi[0] - h.lo[0], H = h.hi[1] - h.lo[1], s = std::max(std::max(W, H), std::max(std::fabs(h.lo[0]), std::fabs(h.lo[1]))); VF_CHECK(c, vf::near(p.getWidth(), W, 1e-9, 1e-12 * s) && vf::near(p.getHeight(), H, 1e-9, 1e-12 * s), "size", w << ": " << p.getWidth() << " by " << p.getHeight()); VF_CHECK(c, (p.getOrigin() - CVecR3(h.lo[0], h.lo[1], h.lo[2])).norm() <= 1e-12 * s, "origin", w << ": " << p.getOrigin()); VF_CHECK(c, (p.getExcitationMode() == So::Port::Waveguide::TE) == te && p.getMode() == std::make_pair(std::size_t(a), std::size_t(b)) && p.getName() == "Rectangular_waveguide_port" && holds(p, h), "fields", w); normal(c, p, h, w);
    auto at = [&](double x, double y) { return p.getWeight(CVecR3(h.lo[0] + x * W, h.lo[1] + y * H, h.lo[2])); }; const double tol = 1e-7; double most = 0;
    double m = pi * a / W, n = pi * b / H, N = std::max(m, n);
    for (int i = 0; i < 8; i++) { double x = c.rng.chance(0.2) ? 0.5 : c.rng.unit(), y = c.rng.chance(0.2) ? 0.5 : c.rng.unit(); CVecR3 e = at(x, y); double ex = te ? -n * std::cos(m * x * W) * std::sin(n * y * H) : -m * std::cos(m * x * W) * std::sin(n * y * H), ey = te ? m * std::sin(m * x * W) * std::cos(n * y * H) : -n * std::sin(m * x * W) * std::cos(n * y * H);
        VF_CHECK(c, std::fabs(e(0) - ex / N) < tol && std::fabs(e(1) - ey / N) < tol && e(2) == 0, "pattern", w << " at " << x << "," << y << " of the aperture: " << e << " expected " << ex / N << "," << ey / N); c.ev("positions");
        // Maxwell's equations in the aperture, whatever the sign: no charge (TE) or no axial magnetic field (TM)
        double d = 1e-4 / (1 + std::max(a, b)); CVecR3 dx = (at(x + d, y) - at(x - d, y)) * (1 / (2 * d * W)), dy = (at(x, y + d) - at(x, y - d)) * (1 / (2 * d * H)); double r = te ? dx(0) + dy(1) : dx(1) - dy(0), scale = (m + n); VF_CHECK(c, std::fabs(r) <= 1e-4 * scale, te ? "divergence" : "curl", w << " at " << x << "," << y << ": " << r << " of " << scale); c.ev("derivatives"); }
    // perfectly conducting walls: nothing tangential
    for (int i = 0; i < 4; i++) { double t = c.rng.unit(); for (int q : {0, 1}) VF_CHECK(c, std::fabs(at(t, q)(0)) < tol && std::fabs(at(q, t)(1)) < tol, "walls", w << " at " << t << ": " << at(t, q) << " " << at(q, t)); c.ev("walls", 4); }
    for (int i = 0; i <= 2 * std::max(a, 1); i++) for (int j = 0; j <= 2 * std::max(b, 1); j++) { CVecR3 e = at(i / (2.0 * std::max(a, 1)), j / (2.0 * std::max(b, 1))); most = std::max(most, std::max(std::fabs(e(0)), std::fabs(e(1)))); } bool live = te || (a && b); VF_CHECK(c, !live || std::fabs(most - 1) < tol, "normalised", w << ": greatest component " << most);
}
void guide(vf::Ctx& c) {
    bool te = c.rng.chance(0.5); int a = c.rng.range(0, 4), b = c.rng.range(0, 4); if (!te) { a = std::max(a, 1); b = std::max(b, 1); } auto ex = te ? So::Port::Waveguide::TE : So::Port::Waveguide::TM; Sheet h(c); auto mode = std::make_pair(std::size_t(a), std::size_t(b)); std::ostringstream ws; ws << (te ? "TE" : "TM") << a << b << " on " << h.w; std::string w = ws.str(); c.note(w); c.cov(std::string(te ? "TE" : "TM") + std::to_string(a) + std::to_string(b));
    if (a == 0 && b == 0) { auto* m = mag(); std::streambuf* o = std::cout.rdbuf(nullptr); std::string e = vf::thrown([&] { So::Port::WaveguideRectangular x(m, h.surfs(), ex, mode); }); std::cout.rdbuf(o); std::cout.clear(); VF_CHECK(c, e.find("logic_error") != std::string::npos, "no-mode", w << ": " << e); return; }
    std::unique_ptr<So::Port::WaveguideRectangular> p(new So::Port::WaveguideRectangular(mag(), h.surfs(), ex, mode)); pattern(c, *p, h, te, a, b, w); std::unique_ptr<So::Port::WaveguideRectangular> k(p->clone()); pattern(c, *k, h, te, a, b, w + " cloned");
    Sheet h2(c); k->set(h2.elems()); pattern(c, *k, h2, te, a, b, w + " moved to " + h2.w); pattern(c, *p, h, te, a, b, w + " after its clone moved"); p.reset(); So::Port::WaveguideRectangular z(*k); pattern(c, z, h2, te, a, b, w + " moved and copied");
    { Sheet bad(c, c.rng.range(0, 1)); auto* m = mag(); std::string e = vf::thrown([&] { So::Port::WaveguideRectangular x(m, bad.surfs(), ex, mode); }); VF_CHECK(c, e.find("logic_error") != std::string::npos, "wrong-plane", bad.w << ": " << e); m = mag(); e = vf::thrown([&] { So::Port::WaveguideRectangular x(m, Surfs(), ex, mode); }); VF_CHECK(c, e.find("logic_error") != std::string::npos, "no-surface", e);
      Geometry::CoordR3Group cg; const Geometry::CoordR3 *u[3], *v[3]; for (int i = 0; i < 3; i++) { u[i] = cg.addPos(CVecR3(i == 1, i == 2, 0)); v[i] = cg.addPos(CVecR3(i == 1, i == 2, 1)); } std::vector<const Geometry::Surf*> two{new Geometry::Tri3(Geometry::ElemId(1), u), new Geometry::Tri3(Geometry::ElemId(2), v)}; Surfs s2(two); m = mag(); e = vf::thrown([&] { So::Port::WaveguideRectangular x(m, s2, ex, mode); }); VF_CHECK(c, e.find("logic_error") != std::string::npos, "two-planes", e); c.ev("refused", 3); }
}
void line(vf::Ctx& c, const So::Port::TEMCoaxial& p, Sheet& h, const CVecR3& o, double ri, double ro, bool volt, const std::string& w) {
    VF_CHECK(c, (p.getOrigin() - o).norm() <= 1e-9 * (o.norm() + ro), "coaxial-origin", w << ": " << p.getOrigin() << " expected " << o); VF_CHECK(c, (p.getExcitationMode() == So::Port::TEM::voltage) == volt && p.getName() == "Coaxial_TEM_port" && holds(p, h), "coaxial-fields", w); normal(c, p, h, w);
    for (int i = 0; i < 6; i++) { double rho = c.rng.real(ri, ro), f = c.rng.chance(0.3) ? c.rng.range(0, 7) * pi / 4 : c.rng.real(0, 2 * pi); CVecR3 d(std::cos(f), std::sin(f), 0), e = p.getWeight(o + d * rho), x = volt ? d * (1 / (rho * std::log(ro / ri))) : CVecR3(-std::sin(f), std::cos(f), 0) * (1 / (2 * pi * rho)); VF_CHECK(c, (e - x).norm() <= 1e-6 * x.norm(), "coaxial-pattern", w << " at radius " << rho << " angle " << f << ": " << e << " expected " << x); c.ev("positions"); }
    // one volt from the inner to the outer conductor, or one ampere around the inner one
    double sum = 0, f = c.rng.real(0, 2 * pi); int n = 64; if (volt) for (int i = 0; i < n; i++) { double s = std::log(ro / ri) / n, r = ri * std::exp((i + 0.5) * s); CVecR3 e = p.getWeight(o + CVecR3(std::cos(f), std::sin(f), 0) * r); sum += (e(0) * std::cos(f) + e(1) * std::sin(f)) * r * 2 * std::sinh(s / 2); } else { double r = c.rng.real(ri, ro); for (int i = 0; i < n; i++) { double t = 2 * pi * (i + 0.5) / n; CVecR3 e = p.getWeight(o + CVecR3(std::cos(t), std::sin(t), 0) * r); sum += (-e(0) * std::sin(t) + e(1) * std::cos(t)) * r * 2 * pi / n; } } VF_CHECK(c, std::fabs(sum - 1) < 0.002, volt ? "one-volt" : "one-ampere", w << ": " << sum); c.ev("integrals");
}
void coaxial(vf::Ctx& c) {
    Sheet h(c); bool volt = c.rng.chance(0.5), empty = c.rng.chance(0.2); auto ex = volt ? So::Port::TEM::voltage : So::Port::TEM::current; double W = h.hi[0] - h.lo[0], H = h.hi[1] - h.lo[1], ro = (W + H) / 4 * c.rng.real(0.8, 1.2), ri = ro * c.rng.real(0.1, 0.8); CVecR3 o = c.rng.chance(0.5) ? CVecR3((h.lo[0] + h.hi[0]) / 2, (h.lo[1] + h.hi[1]) / 2, h.lo[2]) : CVecR3(h.lo[0] + W * c.rng.unit(), h.lo[1] + H * c.rng.unit(), h.lo[2]); std::ostringstream ws; ws << std::setprecision(17) << (volt ? "voltage" : "current") << " coaxial at " << o << " radii " << ri << " " << ro << (empty ? " first on nothing, then" : "") << " on " << h.w; std::string w = ws.str(); c.note(w); c.cov(volt ? "voltage" : "current");
    std::unique_ptr<So::Port::TEMCoaxial> p(new So::Port::TEMCoaxial(mag(), empty ? Surfs() : h.surfs(), ex, o, ri, ro)); if (empty) { VF_CHECK(c, p->getNormal() == CVecR3(), "no-normal", w); p->set(h.elems()); o = CVecR3((h.lo[0] + h.hi[0]) / 2, (h.lo[1] + h.hi[1]) / 2, h.lo[2]); } line(c, *p, h, o, ri, ro, volt, w);
    std::unique_ptr<So::Port::TEMCoaxial> k(p->clone()); Sheet h2(c); double s = (h2.hi[0] - h2.lo[0] + h2.hi[1] - h2.lo[1]) / (W + H); CVecR3 o2((h2.lo[0] + h2.hi[0]) / 2, (h2.lo[1] + h2.hi[1]) / 2, h2.lo[2]); k->set(h2.elems()); line(c, *k, h2, o2, ri * s, ro * s, volt, w + " moved to " + h2.w); line(c, *p, h, o, ri, ro, volt, w + " after its clone moved"); p.reset(); So::Port::TEMCoaxial z(*k); line(c, z, h2, o2, ri * s, ro * s, volt, w + " moved and copied"); z.set(h.elems()); line(c, z, h, CVecR3((h.lo[0] + h.hi[0]) / 2, (h.lo[1] + h.hi[1]) / 2, h.lo[2]), ri, ro, volt, w + " moved there and back");
    Sheet bad(c, c.rng.range(0, 1)); auto* m = mag(); std::string e = vf::thrown([&] { So::Port::TEMCoaxial x(m, bad.surfs(), ex, o, ri, ro); }); VF_CHECK(c, e.find("logic_error") != std::string::npos, "coaxial-wrong-plane", bad.w << ": " << e); e = vf::thrown([&] { k->set(bad.elems()); }); VF_CHECK(c, e.find("logic_error") != std::string::npos, "coaxial-wrong-plane", bad.w << ": " << e); line(c, *k, h2, o2, ri * s, ro * s, volt, w + " after a refused move"); c.ev("refused", 2);
}
}
void vf_case(vf::Ctx& c) { c.interesting = true; guide(c); coaxial(c); }
