// Sources of excitation: plane waves, generators, line sources and dipoles, their magnitudes and their tabulated form.
#include "vf.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/Dipole.h"
#include "math/function/Gaussian.h"
#include "math/function/LinearInterpolation.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Node.h"
#include "geometry/coordinate/Group.h"
using namespace SEMBA; using Math::CVecR3; using Math::Real;
namespace So = SEMBA::Source; namespace Mg = SEMBA::Source::Magnitude;
typedef Math::Function::LinearInterpolation<Real, Real> Lin;
namespace {
struct Hear { std::ostringstream o; std::streambuf *a, *b; Hear() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Hear() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
struct Fn { bool table; std::vector<std::pair<Real, Real>> xy; Real s, d, f, amp, period; std::string w;
    Math::FunctionRR* make() const { return table ? (Math::FunctionRR*)new Lin(xy) : new Math::Function::Gaussian(s, d, f); }
    Mg::Magnitude* mag() const { return new Mg::Magnitude(make()); }
    Real operator()(Real t) const { if (!table) return std::exp(-0.5 * (t - d) / s * (t - d) / s) * std::cos(2 * Math::Constants::pi * f * t); std::map<Real, Real> m(xy.begin(), xy.end()); if (t <= m.begin()->first) return m.begin()->second; if (t >= m.rbegin()->first) return m.rbegin()->second; auto u = m.upper_bound(t), l = std::prev(u); return l->second + (t - l->first) / (u->first - l->first) * (u->second - l->second); } };
Fn random(vf::Ctx& c) { Fn r; r.table = c.rng.chance(0.5); r.period = std::pow(10, c.rng.range(-9, 0)); r.amp = 1; std::ostringstream w; w << std::setprecision(17);
    if (r.table) { r.amp = std::pow(10, c.rng.range(-3, 3)); int n = c.rng.range(2, 8); Real x = c.rng.chance(0.5) ? 0 : c.rng.real(-0.2, 0.2) * r.period; for (int i = 0; i < n; i++) { r.xy.push_back({x, c.rng.chance(0.2) ? 0 : r.amp * c.rng.range(-8, 8) * 0.125}); x += c.rng.real(0.02, 0.4) * r.period; } w << "table"; for (auto& p : r.xy) w << " (" << p.first << "," << p.second << ")"; }
    else { r.s = c.rng.real(0.02, 0.4) * r.period; r.d = c.rng.real(0, 1) * r.period; r.f = c.rng.chance(0.5) ? 0 : c.rng.real(0.1, 5) / r.period; w << "pulse spread " << r.s << " delay " << r.d << " frequency " << r.f; }
    r.w = w.str(); return r; }
struct World { Geometry::CoordR3Group co; Geometry::Element::Group<Geometry::HexR8> vol; Geometry::Element::Group<Geometry::LinR2> lin; Geometry::Element::Group<Geometry::NodR> nod;
    World(vf::Ctx& c) { std::size_t id = 1; for (int i = c.rng.range(0, 3); i > 0; i--) { CVecR3 a(c.rng.range(-4, 4), c.rng.range(-4, 4), c.rng.range(-4, 4)), b = a + CVecR3(c.rng.range(1, 3), c.rng.range(1, 3), c.rng.range(1, 3)); vol.add(new Geometry::HexR8(co, Geometry::ElemId(id++), Geometry::BoxR3(a, b))); }
        for (int i = c.rng.range(0, 3); i > 0; i--) { const Geometry::CoordR3* v[2] = {co.addPos(CVecR3(i, 20, 0)), co.addPos(CVecR3(i, 21, 0))}; lin.add(new Geometry::LinR2(Geometry::ElemId(id++), v)); const Geometry::CoordR3* n[1] = {v[0]}; nod.add(new Geometry::NodR(Geometry::ElemId(id++), n)); } }
    template <class T, class U> static std::vector<T*> ptrs(Geometry::Element::Group<U>& v) { std::vector<T*> r; for (std::size_t i = 0; i < v.size(); i++) r.push_back(v(i)); return r; } };
template <class V> bool same(const So::Base& s, const V& v) { auto g = s.elems(); if (g.size() != v.size()) return false; for (std::size_t i = 0; i < v.size(); i++) if (g(i)->getId() != v[i]->getId()) return false; return true; }
bool nearV(const CVecR3& a, const CVecR3& b, Real scale) { for (int k = 0; k < 3; k++) if (!(std::fabs(a(k) - b(k)) <= 1e-9 * scale)) return false; return true; }
CVecR3 cross(const CVecR3& a, const CVecR3& b) { return CVecR3(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
void wave(vf::Ctx& c, World& W) {
    Fn f = random(c); std::string w; auto vols = World::ptrs<Geometry::Vol>(W.vol); Geometry::Element::Group<Geometry::Vol> g(vols); CVecR3 k, p; std::unique_ptr<So::PlaneWave> pw; std::ostringstream ws; ws << std::setprecision(17);
    if (c.rng.chance(0.5)) { // by vectors of any length
        for (int q = 0; q < 3; q++) k(q) = c.rng.chance(0.3) ? 0 : c.rng.real(-1, 1); if (k.norm() < 0.01) k = CVecR3(0, 0, 1); CVecR3 r(c.rng.real(-1, 1), c.rng.real(-1, 1), c.rng.real(-1, 1)); p = cross(k, r); if (p.norm() < 0.01) p = cross(k, CVecR3(0.3, -0.7, 1.1)); if (p.norm() < 0.003) return;
        Real lk = std::pow(10, c.rng.range(-6, 6)), lp = std::pow(10, c.rng.range(-6, 6)); k = k * lk; p = p * lp; ws << "direction " << k << " polarization " << p << " " << f.w; w = ws.str(); c.note(w); c.cov("vectors");
        pw.reset(new So::PlaneWave(f.mag(), g, k, p)); VF_CHECK(c, pw->getDirection() == k && pw->getPolarization() == p, "vectors", w);
        // what is not a plane wave is refused
        CVecR3 q = p * (1 / p.norm()) + k * (c.rng.pick(std::vector<Real>{1e-3, -0.01, 0.5, -3}) / k.norm()); q = q * lp; std::string e;
        auto* m = f.mag(); e = vf::thrown([&] { So::PlaneWave x(m, g, k, q); }); VF_CHECK(c, e.find("NotPerpendicular") != std::string::npos, "not-perpendicular", w << " with " << q << ": " << e);
        m = f.mag(); e = vf::thrown([&] { So::PlaneWave x(m, g, CVecR3(), p); }); VF_CHECK(c, e.find("ZeroMagnitude") != std::string::npos, "zero-direction", w << ": " << e);
        m = f.mag(); e = vf::thrown([&] { So::PlaneWave x(m, g, k, CVecR3()); }); VF_CHECK(c, e.find("ZeroPolarization") != std::string::npos, "zero-polarization", w << ": " << e); c.ev("refused", 3);
    } else { // by angles
        const Real pi = Math::Constants::pi; Real th = c.rng.chance(0.3) ? c.rng.range(0, 4) * pi / 4 : c.rng.real(0.02, pi - 0.02), ph = c.rng.chance(0.3) ? c.rng.range(-3, 4) * pi / 4 : c.rng.real(-pi, pi); CVecR3 u(std::cos(th) * std::cos(ph), std::cos(th) * std::sin(ph), -std::sin(th)), v(-std::sin(ph), std::cos(ph), 0); Real a = c.rng.real(0, 2 * pi); p = u * std::cos(a) + v * std::sin(a); Real al = std::acos(std::max(-1.0, std::min(1.0, p(2)))), be = std::atan2(p(1), p(0)); if (std::sin(al) < 1e-3) { al = c.rng.chance(0.5) ? 0 : pi; th = pi / 2; }
        k = CVecR3(std::sin(th) * std::cos(ph), std::sin(th) * std::sin(ph), std::cos(th)); p = CVecR3(std::sin(al) * std::cos(be), std::sin(al) * std::sin(be), std::cos(al)); ws << "angles " << th << " " << ph << ", " << al << " " << be << " " << f.w; w = ws.str(); c.note(w); c.cov("angles");
        if (std::fabs(k(0) * p(0) + k(1) * p(1) + k(2) * p(2)) > 2e-15) { c.ev("skipped-rounding"); return; }
        auto turns = c.rng.range(-1, 1) * 2 * pi; auto* m = f.mag(); std::string e = vf::thrown([&] { pw.reset(new So::PlaneWave(m, g, std::make_pair(th, ph), std::make_pair(al, be))); }); VF_CHECK(c, e.empty(), "angles-refused", w << ": " << e); if (!pw) return; (void)turns;
        VF_CHECK(c, nearV(pw->getDirection(), k, 1) && nearV(pw->getPolarization(), p, 1), "angles", w << " gives " << pw->getDirection() << " " << pw->getPolarization());
    }
    CVecR3 uk = k * (1 / k.norm()), up = p * (1 / p.norm()); auto polar = [](Real t, Real h) { return CVecR3(std::sin(t) * std::cos(h), std::sin(t) * std::sin(h), std::cos(t)); };
    auto look = [&](const So::PlaneWave& x, const char* how) {
        VF_CHECK(c, nearV(polar(x.getTheta(), x.getPhi()), uk, 100) && nearV(polar(x.getAlpha(), x.getBeta()), up, 100), "angles-of-vectors", w << " " << how << ": " << x.getTheta() << " " << x.getPhi() << " " << x.getAlpha() << " " << x.getBeta()); VF_CHECK(c, x.getTheta() >= 0 && x.getTheta() <= Math::Constants::pi && x.getAlpha() >= 0 && x.getAlpha() <= Math::Constants::pi, "angle-range", w);
        VF_CHECK(c, !x.isRandomic() && x.getNumberOfRandomPlanewaves() == 0 && x.getName() == "PlaneWave" && same(x, vols), "plane-wave-fields", w << " " << how);
        for (int i = 0; i < 4; i++) { Real t = c.rng.real(-0.3, 2) * f.period, e = f(t), ep = std::fabs(e) * p.norm() + 1e-9 * f.amp * p.norm(); CVecR3 E = x.getElectricField(t); auto EH = x.getElectromagneticField(t); VF_CHECK(c, nearV(E, p * e, p.norm() * f.amp) && EH.first == E, "electric-field", w << " " << how << " at " << t << ": " << E << " expected " << p * e);
            VF_CHECK(c, nearV(EH.second, cross(uk, p * e) * 2.65441873e-3, 1e-3 * ep + 1e-3 * p.norm() * f.amp), "magnetic-field", w << " " << how << " at " << t << ": " << EH.second << " expected " << cross(uk, p * e) * 2.65441873e-3); VF_CHECK(c, std::fabs(EH.second.norm() - E.norm() * 2.65441873e-3) <= 1e-9 * (E.norm() + p.norm() * f.amp), "field-ratio", w); c.ev("fields"); } };
    look(*pw, "itself"); std::unique_ptr<So::PlaneWave> cl(pw->clone()); { So::PlaneWave cp(*pw); look(cp, "copy"); { Hear h; cp.printInfo(); VF_CHECK(c, h.o.str().find("PlaneWave") != std::string::npos, "print", w); } }
    So::PlaneWave blank; { So::PlaneWave tmp(*pw); if (c.rng.chance(0.5)) { Geometry::Element::Group<Geometry::Vol> none; blank.~PlaneWave(); new (&blank) So::PlaneWave(random(c).mag(), none, 5, 0.25); VF_CHECK(c, blank.isRandomic() && blank.getNumberOfRandomPlanewaves() == 5 && blank.getRelativeVariationOfRandomDelay() == 0.25, "random-plane-wave", w); So::PlaneWave two(blank); VF_CHECK(c, two.isRandomic() && two.getNumberOfRandomPlanewaves() == 5 && two.getRelativeVariationOfRandomDelay() == 0.25, "random-plane-wave", w); } blank = tmp; } look(blank, "assigned"); { So::PlaneWave& self = blank; blank = self; } look(blank, "assigned to itself"); pw.reset(); look(*cl, "clone behind its original");
}
void others(vf::Ctx& c, World& W) {
    Fn f = random(c); auto nods = World::ptrs<const Geometry::Nod>(W.nod); auto lins = World::ptrs<const Geometry::Lin>(W.lin); auto vols = World::ptrs<Geometry::Vol>(W.vol); std::string w = f.w; bool none = c.rng.chance(0.15);
    auto mag = [&]() -> Mg::Magnitude* { return none ? nullptr : f.mag(); };
    auto magnitude = [&](const So::Base& s) { if (none) return s.getMagnitude() == nullptr; if (s.getMagnitude() == nullptr) return false; for (int i = 0; i < 4; i++) { Real t = c.rng.real(-0.3, 2) * f.period; if (std::fabs(s.getMagnitude()->evaluate(t) - f(t)) > 1e-9 * f.amp) return false; } return true; };
    auto text = [](const So::Base& s) { Hear h; s.printInfo(); return h.o.str(); };
    for (int t : {0, 1}) for (int hd : {0, 1}) {
        { auto ty = t ? So::Generator::voltage : So::Generator::current; So::Generator g(mag(), Geometry::Element::Group<const Geometry::Nod>(nods), ty, hd ? So::Generator::hard : So::Generator::soft); std::unique_ptr<So::Generator> k(g.clone()); So::Generator a; a = g; for (So::Generator* x : {&g, k.get(), &a}) { VF_CHECK(c, x->getType() == ty && x->getName() == "Generator" && same(*x, nods) && magnitude(*x), "generator", w << " type " << t); VF_CHECK(c, (text(*x).find("Voltage") != std::string::npos) == (t == 1), "generator-text", text(*x)); } c.ev("sources", 3); }
        { auto ty = t ? So::OnLine::electric : So::OnLine::magnetic; auto ha = hd ? So::OnLine::hard : So::OnLine::soft; So::OnLine g(mag(), Geometry::Element::Group<const Geometry::Lin>(lins), ty, ha); std::unique_ptr<So::OnLine> k(g.clone()); So::OnLine a(random(c).mag(), Geometry::Element::Group<const Geometry::Lin>(), So::OnLine::electric, So::OnLine::hard); a = g; for (So::OnLine* x : {&g, k.get(), &a}) { VF_CHECK(c, x->getType() == ty && x->getHardness() == ha && x->getName() == "OnLine" && same(*x, lins) && magnitude(*x), "on-line", w << " type " << t << " hardness " << hd); std::string s = text(*x); VF_CHECK(c, (s.find("Electric") != std::string::npos) == (t == 1) && (s.find("Hard\n") != std::string::npos) == (hd == 1), "on-line-text", s); } c.ev("sources", 3); } }
    { CVecR3 o(0, 0, 1), p(1, 2, 3); So::Dipole g(mag(), Geometry::Element::Group<Geometry::Vol>(vols), 0.75, o, p); std::unique_ptr<So::Dipole> k(g.clone()); VF_CHECK(c, k->getName() == "Dipole" && same(g, vols) && same(*k, vols) && magnitude(g) && magnitude(*k), "dipole", w); VF_CHECK(c, text(g) == text(*k) && text(g).find("0.75") != std::string::npos, "dipole-text", text(*k));
      // its elements can be replaced and added to
      std::vector<const Geometry::Elem*> el; for (auto* v : vols) el.push_back(v); c.rng.shuffle(el); if (el.size() > 1) el.pop_back(); Geometry::Element::Group<const Geometry::Elem> sel(el); k->set(sel); VF_CHECK(c, same(*k, el) && same(g, vols), "set-elements", w); So::Dipole d2(mag(), Geometry::Element::Group<Geometry::Vol>(), 1, o, p); d2.add(sel); VF_CHECK(c, same(d2, el), "add-elements", w); }
    // magnitudes by themselves
    Mg::Magnitude m(f.make()), e; Fn f2 = random(c); Mg::Magnitude m2(f2.make()); std::unique_ptr<Mg::Magnitude> k(m.clone()); VF_CHECK(c, m == *k && *k == m && e == Mg::Magnitude() && !(e == m) && !(m == e), "magnitude-equality", w); VF_CHECK(c, (m == m2) == (f.w == f2.w), "magnitude-equality", w << " and " << f2.w); m2 = m; VF_CHECK(c, m2 == m, "magnitude-assigned", w); m2 = *&m2; VF_CHECK(c, m2 == m, "magnitude-assigned", w); m2 = e; VF_CHECK(c, m2 == e && !(m2 == m), "magnitude-assigned", w); e = m; VF_CHECK(c, e == m, "magnitude-assigned", w);
}
void table(vf::Ctx& c) {
    Fn f = random(c); int n = c.thorough ? c.rng.range(2, 2000) : c.rng.range(2, 400); Real final = c.rng.real(0.3, 2) * f.period, step = final / (n + 0.5); bool zero = c.rng.chance(0.05); if (zero) { n = 1000; step = final / 1000; } std::string w = f.w + " every " + vf::str(step) + " up to " + vf::str(final); c.note(w); c.cov(zero ? "step zero" : f.table ? "tables" : "pulses");
    FileSystem::Project file(c.file("t" + std::to_string(c.rng.range(0, 9)) + ".num")); So::Generator g(f.mag(), Geometry::Element::Group<const Geometry::Nod>(), So::Generator::voltage, So::Generator::soft); VF_CHECK(c, !g.magnitudeIs<Mg::Numerical>() && g.getMagnitudeFilename().empty(), "plain-has-no-file", w);
    auto close = [&](const std::function<Real(Real)>& h, const char* how) { for (int i = 0; i < n - (zero ? 1 : 0); i++) { Real t = i * step; VF_CHECK(c, std::fabs(h(t) - f(t)) <= 1e-7 * f.amp * (1 + 1e-3 * n), "sample", w << " " << how << ": sample " << i << " of " << n << " is " << h(t) << " expected " << f(t)); } c.ev("samples", n); };
    std::unique_ptr<Mg::Numerical> x; { Hear h; x.reset(g.exportToFile(file, zero ? 0 : step, final)); } VF_CHECK(c, x && !g.magnitudeIs<Mg::Numerical>(), "export-changes-source", w); const Mg::Magnitude& xm = *x; VF_CHECK(c, x->getFilename() == file, "file-name", w << " " << x->getFilename()); close([&](Real t) { return xm.evaluate(t); }, "exported");
    { Lin l(file); close([&](Real t) { return l(t); }, "file"); std::ifstream in(file); Real t, v, last = -1e300; long rows = 0; while (in >> t >> v) { VF_CHECK(c, t > last, "table-order", w << ": " << t << " follows " << last); last = t; rows++; } VF_CHECK(c, rows >= 2 && rows <= n + 1 && in.eof(), "table-rows", w << ": " << rows << " rows"); c.ev("rows", rows); }
    { Hear h; g.convertToNumerical(file, zero ? 0 : step, final); } VF_CHECK(c, g.magnitudeIs<Mg::Numerical>() && g.getMagnitudeFilename() == file, "converted", w); close([&](Real t) { return g.getMagnitude()->evaluate(t); }, "converted"); std::unique_ptr<So::Generator> k(g.clone()); VF_CHECK(c, k->magnitudeIs<Mg::Numerical>() && k->getMagnitudeFilename() == file && *k->getMagnitude() == *g.getMagnitude(), "converted-copy", w); close([&](Real t) { return k->getMagnitude()->evaluate(t); }, "copy");
    std::string other = c.file("other.num"); { std::remove(other.c_str()); const Mg::Magnitude* before = k->getMagnitude(); k->convertToNumerical(FileSystem::Project(other), step * 2, final); VF_CHECK(c, k->getMagnitude() == before && !std::ifstream(other).good(), "converted-twice", w); std::unique_ptr<Mg::Numerical> y(k->exportToFile(FileSystem::Project(other), step * 2, final)); VF_CHECK(c, *y == *k->getMagnitude() && !std::ifstream(other).good(), "converted-twice", w); }
    { Mg::Numerical r((FileSystem::Project(file))), q; VF_CHECK(c, r == *x && r.getFilename() == file, "read-again", w); q = r; VF_CHECK(c, q == r, "numerical-assigned", w); Mg::Magnitude plain(f.make()); VF_CHECK(c, !(r == plain) && q == r, "numerical-equality", w); std::string twin = c.file("twin.num"); { std::ifstream in(file); std::ofstream(twin) << in.rdbuf(); } { Mg::Numerical u((FileSystem::Project(twin))); VF_CHECK(c, !(u == r) && !(r == u) && q == r && u == u, "numerical-equality", w << " in two files"); } std::remove(twin.c_str()); } std::remove(std::string(file).c_str()); VF_CHECK(c, !vf::thrown([&] { Mg::Numerical r((FileSystem::Project(file))); }).empty(), "absent-table", w);
}
}
void vf_case(vf::Ctx& c) { c.interesting = true; World W(c); wave(c, W); others(c, W); table(c); }
