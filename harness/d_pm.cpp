// C23: materials of every kind; what they were made from is kept as text and numbers beside them.
#include "problem.h"
#include <unistd.h>
using namespace SEMBA; namespace {
typedef std::unique_ptr<PM::PhysicalModel> P; typedef PM::Multiport::Multiport MP; typedef std::complex<double> Z; using Math::Axis::Local;
const double eps0 = Math::Constants::eps0, mu0 = Math::Constants::mu0;
struct Quiet { std::ostringstream o; std::streambuf *a, *b; Quiet() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
double num(vf::Ctx& c) { switch (c.rng.range(0, 5)) { case 0: return 0; case 1: return 1; case 2: return c.rng.range(1, 20); case 3: return -c.rng.unit(); default: return std::pow(10, c.rng.real(-12, 12)); } }
double pos(vf::Ctx& c) { switch (c.rng.range(0, 3)) { case 0: return 1; case 1: return c.rng.range(1, 20); default: return std::pow(10, c.rng.real(-12, 12)); } }
Z cplx(vf::Ctx& c) { return Z(num(c), c.rng.chance(0.5) ? 0 : num(c)); }
std::string z(const Z& x) { return ds::n(x.real()) + "+" + ds::n(x.imag()) + "i"; }
std::string name(vf::Ctx& c) { static const char* s[] = {"", "PEC", "air", "a b", "\xc3\xb1", "x@y", "Wire 1", "two\nlines"}; return s[c.rng.range(0, 7)]; }
CVecR3 vec(vf::Ctx& c, double r) { return CVecR3(c.rng.real(-r, r), c.rng.chance(0.3) ? 0 : c.rng.real(-r, r), c.rng.real(-r, r)); }
// A material, what it is, and a look at it that knows its numbers.
struct M { P p; std::string id, nm, want; std::function<void(vf::Ctx&, const PM::PhysicalModel*, const std::string&)> look; std::vector<std::string> says;
    std::string all() const { return id + " '" + nm + "' " + want; } };
bool nearM(const Math::MatR33& a, const CVecR3& x, const CVecR3& y, double scale) { for (int i = 0; i < 3; i++) { double s = 0; for (int j = 0; j < 3; j++) s += a(i, j) * x(j); if (!(std::fabs(s - y(i)) <= 1e-9 * scale)) return false; } return true; }
CVecR3 axis(const Local& l, int k) { CVecR3 e(0.0); e(k) = 1; Local o(l.getEulerAngles(), CVecR3(0.0)); return o.convertToGlobal(e); }
std::string multi(vf::Ctx& c, std::size_t id, const std::string& nm, std::unique_ptr<MP>& r, std::vector<std::string>& says) {
    static const std::pair<int, const char*> t[] = {{1, "Short circuit"}, {2, "Open circuit"}, {3, "Matched"}, {11, "Series RLC"}, {12, "Series RL Parallel C"}, {13, "Series RC Parallel L"}, {14, "Series R Parallel LC"}, {15, "Series LC Parallel R"}, {16, "Series L Parallel RC"}, {17, "Series C Parallel LR"}, {18, "Parallel RLC"}};
    int k = c.rng.range(0, 11); if (k == 11) { std::string f = "file of " + nm; r.reset(new PM::Multiport::Dispersive(MatId(id), nm, f)); says.push_back("Dispersive"); c.cov("multiport dispersive"); return "port100 file '" + f + "'"; }
    says.push_back(std::string("Type: ") + t[k].second); c.cov(std::string("multiport ") + t[k].second);
    if (k < 3) { r.reset(new PM::Multiport::Predefined(MatId(id), nm, MP::Type(t[k].first))); return "port" + std::to_string(t[k].first); }
    double R = num(c), L = num(c), C = num(c); r.reset(new PM::Multiport::RLC(MatId(id), nm, MP::Type(t[k].first), R, L, C)); return "rlc" + std::to_string(t[k].first) + " " + ds::n(R) + " " + ds::n(L) + " " + ds::n(C);
}
std::string wire(vf::Ctx& c, std::size_t id, const std::string& nm, std::unique_ptr<PM::Wire::Wire>& r) {
    double v[7]; for (auto& x : v) x = num(c); std::string w = "wire " + ds::n(v[0]) + " ";
    switch (c.rng.range(0, 2)) {
    case 0: r.reset(new PM::Wire::Wire(MatId(id), nm, v[0], v[1], v[2])); return w + "std " + ds::n(v[1]) + " " + ds::n(v[2]);
    case 1: r.reset(new PM::Wire::Wire(MatId(id), nm, v[0], v[1], v[2], v[3], v[4], v[5], v[6])); w += "sp"; for (int i = 1; i < 7; i++) w += " " + ds::n(v[i]); return w;
    default: r.reset(new PM::Wire::Wire(MatId(id), nm, v[0], "wire of " + nm)); return w + "dispersive 'wire of " + nm + "'"; }
}
void make(vf::Ctx& c, M& m, int kind) {
    std::size_t id = c.rng.range(0, 1000000000); m.id = std::to_string(id); m.nm = name(c); MatId i(id); m.says.clear(); m.look = nullptr;
    Quiet quiet; auto set = [&](PM::PhysicalModel* p, const std::string& w) { m.p.reset(p); m.want = w; };
    switch (kind) {
    case 0: if (c.rng.chance(0.5)) { m.nm = "PEC"; set(new PM::Predefined::PEC(i), "PEC"); } else set(new PM::Predefined::PEC(i, m.nm), "PEC"); break;
    case 1: if (c.rng.chance(0.5)) { m.nm = "PMC"; set(new PM::Predefined::PMC(i), "PMC"); } else set(new PM::Predefined::PMC(i, m.nm), "PMC"); break;
    case 2: if (c.rng.chance(0.5)) { m.nm = "SMA"; set(new PM::Predefined::SMA(i), "SMA"); } else set(new PM::Predefined::SMA(i, m.nm), "SMA"); break;
    case 3: { int k = c.rng.range(0, 6); static const char* s[] = {"PEC", "PMC", "PML", "SMA", "Mur1", "Mur2", "Periodic"}; namespace B = PM::Bound; m.nm = s[k]; set(k == 0 ? (PM::PhysicalModel*)new B::PEC(i) : k == 1 ? (PM::PhysicalModel*)new B::PMC(i) : k == 2 ? (PM::PhysicalModel*)new B::PML(i) : k == 3 ? (PM::PhysicalModel*)new B::SMA(i) : k == 4 ? (PM::PhysicalModel*)new B::Mur1(i) : k == 5 ? (PM::PhysicalModel*)new B::Mur2(i) : new B::Periodic(i), std::string("bound") + s[k]); break; }
    case 4: case 5: { double e = num(c), u = num(c), s = c.rng.chance(0.5) ? 0 : num(c), g = c.rng.chance(0.5) ? 0 : num(c); if (c.rng.chance(0.2)) e = u = 1; int given = c.rng.range(1, 4); if (given < 4) g = 0; if (given < 3) s = 0; if (given < 2) u = 1;
        set(given == 1 ? new PM::Volume::Classic(i, m.nm, e) : given == 2 ? new PM::Volume::Classic(i, m.nm, e, u) : given == 3 ? new PM::Volume::Classic(i, m.nm, e, u, s) : new PM::Volume::Classic(i, m.nm, e, u, s, g), "classic " + ds::n(e) + " " + ds::n(u) + " " + ds::n(s) + " " + ds::n(g));
        m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto* x = p->castTo<PM::Volume::Classic>(); const double inf = std::numeric_limits<double>::infinity();
            VF_CHECK(c, vf::near(x->getPermittivity(), e * eps0, 1e-12, 0) && vf::near(x->getPermeability(), u * mu0, 1e-12, 0), "absolute", w);
            VF_CHECK(c, x->isVacuum() == (e == 1 && u == 1 && s == 0 && g == 0), "vacuum", w);
            if (e <= 0) VF_CHECK(c, x->getImpedance() == inf, "impedance", w); else if (u >= 0) VF_CHECK(c, vf::near(x->getImpedance(), std::sqrt(u * mu0 / (e * eps0)), 1e-10, 0), "impedance", w << ": " << x->getImpedance());
            if (u <= 0) VF_CHECK(c, x->getAdmitance() == inf, "admittance", w); else if (e > 0) VF_CHECK(c, vf::near(x->getAdmitance(), std::sqrt(e * eps0 / (u * mu0)), 1e-10, 0), "admittance", w << ": " << x->getAdmitance()); }; break; }
    case 6: case 7: { double s = c.rng.chance(0.5) ? 0 : num(c); std::vector<PM::Volume::PoleResidue> in, all; for (int k = c.rng.chance(0.03) ? c.rng.range(17, 40) : c.rng.range(0, 4); k > 0; k--) in.push_back({c.rng.chance(0.2) ? Z(0) : cplx(c), cplx(c)}); if (s != 0) all.push_back({Z(0), Z(s / 2 / eps0)}); all.insert(all.end(), in.begin(), in.end());
        std::string w = "dispersive file '' poles"; for (auto& q : all) w += " " + z(q.first) + ":" + z(q.second);
        double g = c.rng.chance(0.9) ? 0 : 1 + c.rng.unit(); std::string e = vf::thrown([&] { set(in.empty() && c.rng.chance(0.5) ? new PM::Volume::Dispersive(i, m.nm, pos(c), pos(c), s, g) : new PM::Volume::Dispersive(i, m.nm, pos(c), pos(c), s, g, in), w); });
        VF_CHECK(c, e.empty() == (g == 0), "magnetic-dispersive", e); if (!e.empty()) { c.cov("refused magnetic conductivity"); set(new PM::Volume::Dispersive(i, m.nm, 1, 1, s, 0, in), w); }
        m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto* x = p->castTo<PM::Volume::Dispersive>(); Quiet q; double want = 0; for (auto& y : all) if (y.first == Z(0)) { want = y.second.real() * 2 * eps0; break; } VF_CHECK(c, x->getPoleNumber() == all.size() && vf::near(x->getElectricConductivity(), want, 1e-12, 0), "conductivity", w << ": " << x->getElectricConductivity() << " expected " << want); bool simple = all.empty() || (all.size() == 1 && all[0].first == Z(0)); VF_CHECK(c, x->isClassic() == simple && x->isSimplyConductive() == simple && x->isDispersive() == !all.empty(), "kind", w); }; break; }
    case 8: { std::string f = c.file("poles" + std::to_string(c.rng.range(0, 9)) + ".txt"); bool there = c.rng.chance(0.7); if (there) { std::ofstream o(f); o << "0 1\n"; } else unlink(f.c_str()); std::string e = vf::thrown([&] { set(new PM::Volume::Dispersive(i, m.nm, FileSystem::Project(f)), "dispersive file '" + f + "' poles"); }); VF_CHECK(c, e.empty() == there, "file", f << ": " << e); if (!there) { c.cov("refused file"); std::ofstream(f) << "x"; set(new PM::Volume::Dispersive(i, m.nm, FileSystem::Project(f)), "dispersive file '" + f + "' poles"); }
        m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto* x = p->castTo<PM::Volume::Dispersive>(); VF_CHECK(c, !x->isClassic() && !x->isSimplyConductive() && x->getElectricConductivity() == 0, "kind", w); }; break; }
    case 9: { CVecR3 a = vec(c, 7), o = vec(c, 10); Local l(a, o); set(new PM::Volume::PML(i, m.nm, l), "PML " + ds::local(a, o)); m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto zz = p->castTo<PM::Volume::PML>()->getGlobalZAxis(); VF_CHECK(c, (zz - axis(l, 2)).norm() < 1e-12 * (10 + o.norm()) * 10 && std::fabs(zz.norm() - 1) < 1e-9, "z-axis", w << ": " << ds::v(zz)); }; break; }
    case 10: { CVecR3 a = vec(c, 7), o = vec(c, 10), e(pos(c), pos(c), pos(c)); double u = pos(c); Local l(a, o); set(new PM::Volume::AnisotropicCrystal(i, m.nm, l, e, u), "crystal " + ds::local(a, o) + " " + ds::v(e) + " " + ds::n(u));
        m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto* x = p->castTo<PM::Volume::AnisotropicCrystal>(); double s = std::max({e(0), e(1), e(2)}); for (int k = 0; k < 3; k++) { auto g = axis(l, k); VF_CHECK(c, nearM(x->getRelPermittivityMatR(), g, g * e(k), s), "principal-axes", w << " axis " << k); VF_CHECK(c, nearM(x->getRelPermeabilityMatR(), g, g * u, u), "permeability", w << " axis " << k); VF_CHECK(c, nearM(x->getElectricConductivityMat(), g, CVecR3(0.0), 1e-9) && nearM(x->getMagneticConductivityMat(), g, CVecR3(0.0), 1e-9), "conductivity", w); } }; break; }
    case 11: { CVecR3 a = vec(c, 7), o = vec(c, 10); double k = num(c), u = pos(c), e = pos(c); Local l(a, o); m.p.reset(new PM::Volume::AnisotropicFerrite(i, m.nm, l, k, u, e)); m.want = "ferrite " + ds::local(a, o);
        m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto* x = p->castTo<PM::Volume::AnisotropicFerrite>(); CVecR3 g[3]; for (int q = 0; q < 3; q++) g[q] = axis(l, q); double s = std::max(1.0, u); for (int q = 0; q < 3; q++) { VF_CHECK(c, nearM(x->getRelPermittivityMatR(), g[q], g[q] * e, e), "permittivity", w); VF_CHECK(c, nearM(x->getRelPermeabilityMatR(), g[q], g[q] * (q == 2 ? 1.0 : u), s), "permeability", w << " axis " << q); VF_CHECK(c, nearM(x->getElectricConductivityMat(), g[q], CVecR3(0.0), 1e-9) && nearM(x->getMagneticConductivityMat(), g[q], CVecR3(0.0), 1e-9), "conductivity", w); }
            double t = std::fabs(k) + 1e-30; VF_CHECK(c, nearM(x->getRelPermeabilityMatI(), g[0], g[1] * -k, t) && nearM(x->getRelPermeabilityMatI(), g[1], g[0] * k, t) && nearM(x->getRelPermeabilityMatI(), g[2], CVecR3(0.0), t), "gyration", w << " kappa " << k); }; break; }
    case 12: case 13: { std::vector<PM::Surface::Multilayer::Layer> ls; std::string w = "layers"; std::vector<std::array<double, 4>> v; for (int k = c.rng.range(0, 5); k > 0; k--) { double t = pos(c), e = pos(c), u = pos(c), s = num(c); ls.push_back({t, e, u, s}); v.push_back({t, e, u, s}); w += " (" + ds::n(t) + " " + ds::n(e) + " " + ds::n(u) + " " + ds::n(s) + ")"; }
        for (int k = 0; k < 2; k++) VF_CHECK(c, !vf::thrown([&] { PM::Surface::Multilayer::Layer(1, k ? 1 : 0, k ? 0 : 1, 0); }).empty(), "null-layer", k);
        std::vector<PM::Surface::Multilayer::FittingOptions> fit; bool f = c.rng.chance(0.5); if (f) { double a = num(c), b = num(c); std::size_t n = c.rng.range(0, 30); fit.push_back({{a, b}, n}); w += " fit " + ds::n(a) + " " + ds::n(b) + " " + std::to_string(n); }
        if (f && c.rng.chance(0.1)) { auto two = fit; two.push_back(fit[0]); VF_CHECK(c, !vf::thrown([&] { PM::Surface::Multilayer(i, m.nm, ls, two); }).empty(), "two-fits", ""); c.cov("two fits"); }
        set(f || c.rng.chance(0.5) ? new PM::Surface::Multilayer(i, m.nm, ls, fit) : new PM::Surface::Multilayer(i, m.nm, ls), w);
        m.look = [=](vf::Ctx& c, const PM::PhysicalModel* p, const std::string& w) { auto* x = p->castTo<PM::Surface::Multilayer>(); VF_CHECK(c, x->hasFittingOptions() == f && vf::thrown([&] { x->getFittingOptions(); }).empty() == f, "fit", w); VF_CHECK(c, x->getNumberOfLayers() == v.size(), "layers", w);
            for (std::size_t k = 0; k < v.size(); k++) { auto y = x->getLayer(k); VF_CHECK(c, x->getThickness(k) == v[k][0] && y.getThickness() == v[k][0] && vf::near(x->getPermittivity(k), v[k][1] * eps0, 1e-12, 0) && vf::near(y.getPermittivity(), v[k][1] * eps0, 1e-12, 0) && vf::near(x->getPermeability(k), v[k][2] * mu0, 1e-12, 0) && vf::near(y.getPermeability(), v[k][2] * mu0, 1e-12, 0) && x->getElecCond(k) == v[k][3] && y.getElecCond() == v[k][3] && x->getMagnCond(k) == 0, "layer", w << " layer " << k);
                std::stringstream t(x->printLayer(k)); double a[4]; std::string more; t >> a[0] >> a[1] >> a[2] >> a[3]; VF_CHECK(c, t && !(t >> more) && vf::near(a[0], v[k][3], 1e-5, 0) && vf::near(a[1], v[k][1] * eps0, 1e-5, 0) && vf::near(a[2], v[k][2] * mu0, 1e-5, 0) && vf::near(a[3], v[k][0], 1e-5, 0), "printed-layer", w << " layer " << k << ": " << x->printLayer(k)); } }; break; }
    case 14: { auto mat = [&](std::string& w) { Math::MatC22 r; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { r(a, b) = cplx(c); w += " " + z(r(a, b)); } return r; }; std::string w; int n = c.rng.range(0, 4); std::vector<PM::Surface::SIBC::PoleResidue> q; std::string a; Math::MatC22 zi = mat(a), zl = mat(a); for (int k = 0; k < n; k++) { Z s = cplx(c); a += " pole " + z(s); Math::MatC22 r = mat(a); q.push_back({s, r}); } set(new PM::Surface::SIBC(i, m.nm, zi, zl, q), "sibc " + std::to_string(n) + a); break; }
    case 15: { static const char* s[] = {"a.mibc", "folder/b.mibc", "x y.mibc", "a.txt", "a.mibc.txt", "amibc"}; int k = c.rng.range(0, 5); std::string e; { Quiet q; e = vf::thrown([&] { set(new PM::Surface::SIBCFile(i, m.nm, FileSystem::Project(s[k])), std::string("sibc file '") + s[k] + "'"); }); } VF_CHECK(c, e.empty() == (k < 3), "extension", s[k] << ": " << e); if (k >= 3) { c.cov("refused extension"); set(new PM::Surface::SIBCFile(i, m.nm, FileSystem::Project("z.mibc")), "sibc file 'z.mibc'"); } break; }
    case 16: { double g = num(c); set(new PM::Gap::Gap(i, m.nm, g), "gap " + ds::n(g)); break; }
    case 17: { std::unique_ptr<MP> r; m.want = multi(c, id, m.nm, r, m.says); m.p = std::move(r); break; }
    case 18: { std::unique_ptr<PM::Wire::Wire> r; m.want = wire(c, id, m.nm, r); m.p = std::move(r); break; }
    default: { std::unique_ptr<PM::Wire::Wire> r; std::string w = wire(c, id, name(c), r), e[2]; std::unique_ptr<MP> q[2]; for (int k = 0; k < 2; k++) { e[k] = "none"; if (c.rng.chance(0.7)) { std::string nm = name(c); std::size_t qi = c.rng.range(1, 9); e[k] = multi(c, qi, nm, q[k], m.says); e[k] = std::to_string(qi) + " '" + nm + "' " + e[k]; } } m.p.reset(new PM::Wire::Extremes(m.nm, *r, q[0].get(), q[1].get())); m.want = w + " ends [" + e[0] + "] [" + e[1] + "]"; break; }
    }
    if (!m.p) throw std::runtime_error("nothing made"); { Quiet q; const auto& t = *m.p; c.cov(typeid(t).name()); }
}
void check(vf::Ctx& c, const M& m, const PM::PhysicalModel* p, const std::string& w0) {
    std::string w = w0 + ": " + m.all(), got = ds::pm(p); if (dynamic_cast<const PM::Volume::AnisotropicFerrite*>(p)) got = got.substr(0, got.find(" eps "));
    VF_CHECK(c, got == m.all(), "different", w << " is " << got);
    if (m.look) m.look(c, p, w);
    int kinds = p->is<PM::Predefined::Predefined>() + p->is<PM::Bound::Bound>() + p->is<PM::Volume::Volume>() + p->is<PM::Surface::Surface>() + p->is<PM::Gap::Gap>() + p->is<MP>() + p->is<PM::Wire::Wire>(); VF_CHECK(c, kinds == 1, "kinds", w << ": " << kinds);
    std::string s = p->str(); VF_CHECK(c, !s.empty(), "printed", w);
    if (!p->is<PM::Bound::Bound>() && !p->is<PM::Surface::SIBCFile>()) VF_CHECK(c, s.find("Id: " + m.id) != std::string::npos && s.find("Name: " + m.nm) != std::string::npos, "printed", w << " as " << s);
    for (auto& x : m.says) VF_CHECK(c, s.find(x) != std::string::npos, "printed", w << ": '" << x << "' is not in " << s);
    c.ev("materials seen"); c.state(vf::hashStr(m.all()));
}
template <class T> bool assigned(PM::PhysicalModel* a, const PM::PhysicalModel* b) { if (auto* x = dynamic_cast<T*>(a)) if (auto* y = dynamic_cast<const T*>(b)) if (typeid(*x) == typeid(T) && typeid(*y) == typeid(T)) { *x = *y; return true; } return false; }
bool assign(PM::PhysicalModel* a, const PM::PhysicalModel* b) { return assigned<PM::Volume::Classic>(a, b) || assigned<PM::Volume::Dispersive>(a, b) || assigned<PM::Volume::AnisotropicCrystal>(a, b) || assigned<PM::Volume::AnisotropicFerrite>(a, b) || assigned<PM::Surface::Multilayer>(a, b) || assigned<PM::Surface::SIBC>(a, b) || assigned<PM::Gap::Gap>(a, b) || assigned<PM::Multiport::RLC>(a, b) || assigned<PM::Multiport::Predefined>(a, b) || assigned<PM::Multiport::Dispersive>(a, b) || assigned<PM::Wire::Wire>(a, b) || assigned<PM::Wire::Extremes>(a, b) || assigned<PM::Predefined::PEC>(a, b); }
std::string ends(const std::string& a, const std::string& b) { return " ends [" + a + "] [" + b + "]"; }
}

// The ends of a wire as they are told in the text.
struct Ends { std::string head, e[2]; };
bool split(const std::string& s, Ends& r) { std::size_t a = s.find(" ends ["); if (a == std::string::npos) return false; std::size_t b = s.find("] [", a); r.head = s.substr(0, a); r.e[0] = s.substr(a + 7, b - a - 7); r.e[1] = s.substr(b + 3, s.size() - b - 4); return true; }
void vf_case(vf::Ctx& c) {
    std::vector<M> v(c.rng.range(2, 5)); int kind = c.rng.range(0, 21); auto any = [&]() -> M& { return v[c.rng.range(0, long(v.size()) - 1)]; };
    for (auto& m : v) { make(c, m, c.rng.chance(0.6) ? kind : c.rng.range(0, 21)); c.note(m.all()); check(c, m, m.p.get(), "made"); }
    for (int n = c.rng.range(1, c.thorough ? 30 : 12); n > 0; n--) {
        M &a = any(), &b = any(); Ends e; std::string w; auto* x = dynamic_cast<PM::Wire::Extremes*>(a.p.get());
        switch (c.rng.range(0, 6)) {
        case 0: { w = "clone"; P q(a.p->cloneTo<PM::PhysicalModel>()); VF_CHECK(c, q.get() != a.p.get() && typeid(*q) == typeid(*a.p), "clone", a.all()); check(c, a, q.get(), w); if (c.rng.chance(0.5)) a.p = std::move(q); else { q->setName("changed"); q->setId(MatId(77)); check(c, a, a.p.get(), "original of a changed clone"); } break; }
        case 1: w = "renamed"; a.nm = name(c); a.p->setName(a.nm); break;
        case 2: { w = "identity"; std::size_t i = c.rng.range(0, 99); a.id = std::to_string(i); a.p->setId(MatId(i)); break; }
        case 3: case 4: w = "assigned"; if (assign(a.p.get(), b.p.get())) { a.id = b.id; a.nm = b.nm; a.want = b.want; a.look = b.look; a.says = b.says; c.cov("assigned"); } break;
        case 5: if (x && split(a.want, e)) { w = "swapped"; x->swapExtremes(); a.want = e.head + ends(e.e[1], e.e[0]); c.cov("swapped"); } break;
        default: if (x && split(a.want, e)) { int k = c.rng.range(0, 1); w = "end"; a.says.clear(); b.says.clear();
            switch (c.rng.range(0, 3)) { case 0: x->setExtreme(k, nullptr); e.e[k] = "none"; break;
                case 1: { int j = c.rng.range(0, 1); x->setExtreme(k, x->getExtreme(j)); e.e[k] = e.e[j]; break; }
                case 2: { auto* y = dynamic_cast<PM::Wire::Extremes*>(b.p.get()); Ends f; if (y && y != x && split(b.want, f)) { x->setExtreme(k, y->getExtreme(k)); e.e[k] = f.e[k]; } break; }
                default: { std::unique_ptr<MP> q; std::string nm = name(c); std::vector<std::string> says; std::string s = multi(c, 5, nm, q, says); x->setExtreme(k, q.get()); e.e[k] = "5 '" + nm + "' " + s; } }
            a.want = e.head + ends(e.e[0], e.e[1]); c.cov("end"); } }
        for (auto& m : v) check(c, m, m.p.get(), "after " + w); c.ev("operations"); c.interesting = true;
    }
    for (auto& m : v) c.dig(m.all());
}
VF_PROBE("a dispersive material keeps its conductivity") { PM::Volume::Dispersive d(MatId(1), "d", 2, 1, 0.5, 0, {{Z(-1e9, 0), Z(3e9, 0)}}); VF_CHECK(c, d.getPoleNumber() == 2 && vf::near(d.getElectricConductivity(), 0.5, 1e-12, 0), "conductivity", d.getElectricConductivity()); }
VF_PROBE("a dispersive material without poles") { PM::Volume::Dispersive d(MatId(1), "d", 2, 1, 0, 0); VF_CHECK(c, d.isClassic() && d.getElectricConductivity() == 0, "kind", ""); }
VF_PROBE("an end replaced by itself") { PM::Wire::Wire w(MatId(1), "w", 1, 2, 3); PM::Multiport::RLC r(MatId(2), "r", MP::sRLC, 1, 2, 3); PM::Wire::Extremes e("e", w, &r, nullptr); e.setExtreme(0, e.getExtreme(0)); VF_CHECK(c, ds::pm(e.getExtreme(0)) == ds::pm(&r), "end", ""); PM::Wire::Extremes f("f", w, nullptr, nullptr); f = e; VF_CHECK(c, f.getExtreme(0) != e.getExtreme(0) && ds::pm(&f) == ds::pm(&e), "end", ""); }
