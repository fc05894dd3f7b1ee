// C24: domains of requests and the requests themselves, beside a plain record of what was asked.
#include "datasig.h"
using namespace SEMBA; using namespace SEMBA::Geometry; using Math::CVecR3; namespace O = SEMBA::OutputRequest; namespace PM = SEMBA::PhysicalModel; namespace {
typedef std::unique_ptr<O::Base> P; typedef O::Base::Type T;
struct Dm { bool t, f, log, tr; double v[6]; std::string file; };
double num(vf::Ctx& c) { switch (c.rng.range(0, 4)) { case 0: return 0; case 1: return c.rng.range(1, 3); default: return std::pow(10, c.rng.real(-12, 12)); } }
Dm dm(vf::Ctx& c) { Dm d; d.t = c.rng.chance(0.5); d.f = c.rng.chance(0.5); d.log = c.rng.chance(0.5); d.tr = c.rng.chance(0.5); for (auto& x : d.v) x = num(c); static const char* s[] = {"", "a.exc", "b c.exc", "folder/d"}; d.file = s[c.rng.range(0, 3)]; return d; }
O::Domain make(const Dm& d) { return O::Domain(d.t, d.v[0], d.v[1], d.v[2], d.f, d.v[3], d.v[4], d.v[5], d.log, d.tr, d.file); }
bool same(const Dm& a, const Dm& b) { for (int i = 0; i < 6; i++) if (a.v[i] != b.v[i]) return false; return a.t == b.t && a.f == b.f && a.log == b.log && a.tr == b.tr && (!a.tr || a.file == b.file); }
std::string show(const Dm& d) { std::ostringstream o; o << (d.t ? "time " : "") << (d.f ? "frequency " : "") << (d.log ? "log " : "") << (d.tr ? "transfer '" + d.file + "' " : ""); for (double x : d.v) o << " " << x; return o.str(); }
void check(vf::Ctx& c, const O::Domain& o, const Dm& d, const std::string& w0) {
    std::string w = w0 + ": " + show(d); VF_CHECK(c, o.isTimeDomain() == d.t && o.isFrequencyDomain() == d.f && o.isLogFrequencySweep() == d.log && o.isUsingTransferFunction() == d.tr, "kinds", w);
    VF_CHECK(c, o.getInitialTime() == d.v[0] && o.getFinalTime() == d.v[1] && o.getSamplingPeriod() == d.v[2] && o.getInitialFrequency() == d.v[3] && o.getFinalFrequency() == d.v[4] && o.getFrequencyStep() == d.v[5], "values", w);
    if (d.tr) VF_CHECK(c, o.getTransferFunctionFile() == d.file, "file", w << " file '" << o.getTransferFunctionFile() << "'"); else VF_CHECK(c, o.getTransferFunctionFile().empty(), "file", w);
    int k = d.t && d.f ? (d.tr ? 7 : 4) : d.t ? (d.tr ? 5 : 1) : d.f ? (d.tr ? 6 : 2) : d.tr ? 3 : 0; VF_CHECK(c, int(o.getDomainType()) == k, "type", w << ": type " << int(o.getDomainType())); VF_CHECK(c, o == make(d), "equal", w); c.ev("domains seen"); }
// Elements of every kind (0 node, 1 line, 2 surface, 3 volume), with and without material.
struct World { Coordinate::Group<CoordR3> co; Element::Group<Elem> all; std::vector<int> kind; std::vector<bool> mat; PM::Group<> pm; World() { pm.add(new PM::Volume::Classic(MatId(5), "air")); }
    void add(vf::Ctx& c, std::size_t id) { CVecR3 a(id * 10, 0, 0); auto at = [&](double x, double y, double z) -> const CoordR3* { CVecR3 p = a + CVecR3(x, y, z); if (auto* q = co.getPos(p)) return q; return co.addPos(p); }; int k = c.rng.range(0, 5); bool m = c.rng.chance(0.3); const Element::Model* mo = m ? pm(0) : nullptr; ElemId i(id);
        switch (k) { case 0: { const CoordR3* v[1] = {at(0, 0, 0)}; all.add(new NodR(i, v, nullptr, mo)); kind.push_back(0); break; } case 1: { const CoordR3* v[2] = {at(0, 0, 0), at(1, 0, 0)}; all.add(new LinR2(i, v, nullptr, mo)); kind.push_back(1); break; }
        case 2: { const CoordR3* v[3] = {at(0, 0, 0), at(1, 0, 0), at(0, 1, 0)}; all.add(new Tri3(i, v, nullptr, mo)); kind.push_back(2); break; } case 3: { const CoordR3* v[4] = {at(0, 0, 0), at(1, 0, 0), at(1, 1, 0), at(0, 1, 0)}; all.add(new QuaR4(i, v, nullptr, mo)); kind.push_back(2); break; }
        case 4: { const CoordR3* v[4] = {at(0, 0, 0), at(1, 0, 0), at(0, 1, 0), at(0, 0, 1)}; all.add(new Tet4(i, v, nullptr, mo)); kind.push_back(3); break; } default: { all.add(new HexR8(co, i, BoxR3(a, a + CVecR3(1, 1, 1)), nullptr, mo)); kind.push_back(3); } } mat.push_back(m); } };
struct R { P p; Dm d; int want, type, extra; std::string nm; std::vector<std::size_t> on; double far[6]; int dir; unsigned skip; };
bool fits(const World& w, const R& r, std::size_t i) { return r.want == 9 || w.kind[i] == r.want; }
Element::Group<Elem> pick(World& w, const std::vector<std::size_t>& on) { Element::Group<Elem> g; for (auto i : on) g.add(w.all(i)); return g; }
std::vector<std::size_t> some(vf::Ctx& c, const World& w) { std::vector<std::size_t> r; for (std::size_t i = 0; i < w.kind.size(); i++) if (c.rng.chance(0.5)) r.push_back(i); c.rng.shuffle(r); return r; }
const char* typeText[] = {"Electric field", "Magnetic field", "Electric field normals", "Magnetic field normals", "Surface current density", "Bulk current electric", "Bulk current magnetic", "Current", "Voltage", "Electric far field"};
template <class E> O::Base* plain(World& w, const R& r, const std::vector<std::size_t>& on) { Element::Group<Elem> g = pick(w, on); return new O::OutputRequest<E>(make(r.d), T(r.type), r.nm, Element::Group<E>(g)); }
bool form(vf::Ctx& c, World& w, R& r) {
    static const char* s[] = {"", "probe", "a b", "x@y", "two\nlines"}; r.nm = s[c.rng.range(0, 4)]; r.d = dm(c); auto on = some(c, w); r.extra = c.rng.range(0, 4); r.extra = r.extra > 2 ? 0 : r.extra; r.on.clear();
    if (r.extra == 1) { r.want = 9; r.type = c.rng.chance(0.5) ? 5 : 6; r.dir = c.rng.range(0, 2); r.skip = c.rng.range(0, 100); Element::Group<Elem> g = pick(w, on); Element::Group<const Elem> q(g); auto dir = Math::Constants::CartesianAxis(r.dir); bool def = r.type == 5 && c.rng.chance(0.5); r.p.reset(def ? new O::BulkCurrent(make(r.d), r.nm, q, dir, r.skip) : new O::BulkCurrent(make(r.d), r.nm, q, dir, r.skip, T(r.type))); r.on = on; c.cov("bulk"); return true; }
    if (r.extra == 2) { r.want = 3; r.type = 9; for (auto& x : r.far) x = num(c); Element::Group<Elem> g = pick(w, on); r.p.reset(new O::FarField(make(r.d), r.nm, Element::Group<Vol>(g), r.far[0], r.far[1], r.far[2], r.far[3], r.far[4], r.far[5])); for (auto i : on) if (fits(w, r, i)) r.on.push_back(i); c.cov("far"); return true; }
    static const int k[] = {0, 1, 2, 3, 9}; r.want = k[c.rng.range(0, 4)]; r.type = c.rng.range(0, 8); for (auto i : on) if (fits(w, r, i)) r.on.push_back(i); bool mat = false; for (auto i : r.on) mat |= w.mat[i]; bool refuse = mat && (r.type == 5 || r.type == 6); bool threw = false;
    try { r.p.reset(r.want == 0 ? plain<Nod>(w, r, on) : r.want == 1 ? plain<Lin>(w, r, on) : r.want == 2 ? plain<Surf>(w, r, on) : r.want == 3 ? plain<Vol>(w, r, on) : plain<Elem>(w, r, on)); } catch (const O::Error::Material& e) { threw = true; VF_CHECK(c, std::string(e.what()).find("no material") != std::string::npos, "message", e.what()); }
    VF_CHECK(c, threw == refuse, "bulk-material", "type " << r.type << " on " << r.on.size() << " elements" << (mat ? " with material" : "")); c.cov("plain " + std::to_string(r.want)); if (threw) c.cov("refused"); return !threw; }
std::string show(const World& w, const R& r) { std::ostringstream o; o << "'" << r.nm << "' type " << r.type << " of " << r.want << " extra " << r.extra << " on"; for (auto i : r.on) o << " " << w.all(i)->getId(); o << " in " << show(r.d); return o.str(); }
void check(vf::Ctx& c, const World& w, const R& r, const O::Base* p, const std::string& how) {
    std::string t = how + ": " + show(w, r); VF_CHECK(c, p->getName() == r.nm && int(p->getType()) == r.type, "identity", t << " is '" << p->getName() << "' type " << int(p->getType())); check(c, p->domain(), r.d, t);
    auto e = p->elems(); VF_CHECK(c, e.size() == r.on.size(), "elements", t << ": " << e.size()); for (std::size_t i = 0; i < r.on.size() && i < e.size(); i++) VF_CHECK(c, e(i) == static_cast<const Elem*>(w.all(r.on[i])), "elements", t << ": element " << i << " is " << e(i)->getId());
    auto* b = dynamic_cast<const O::BulkCurrent*>(p); auto* f = dynamic_cast<const O::FarField*>(p); VF_CHECK(c, (b != nullptr) == (r.extra == 1) && (f != nullptr) == (r.extra == 2), "kind", t);
    if (b) VF_CHECK(c, int(b->getDir()) == r.dir && b->getSkip() == r.skip, "bulk", t << ": " << int(b->getDir()) << " " << b->getSkip()); if (f) VF_CHECK(c, f->getInitialTheta() == r.far[0] && f->getFinalTheta() == r.far[1] && f->getStepTheta() == r.far[2] && f->getInitialPhi() == r.far[3] && f->getFinalPhi() == r.far[4] && f->getStepPhi() == r.far[5], "far", t);
    std::string s = p->str(); VF_CHECK(c, s.find("Name: " + r.nm) != std::string::npos && s.find(std::string("Type: ") + typeText[r.type] + "\n") != std::string::npos, "printed", t << " as " << s.substr(0, 300)); c.ev("requests seen"); c.state(vf::hashStr(t)); }

}
void vf_case(vf::Ctx& c) {
    World w; std::size_t id = 0; for (int n = c.rng.range(0, 8); n > 0; n--) w.add(c, id += c.rng.range(1, 4));
    Dm a = dm(c), b = c.rng.chance(0.5) ? a : dm(c); switch (c.rng.range(0, 11)) { case 0: b.t ^= 1; break; case 1: b.f ^= 1; break; case 2: b.log ^= 1; break; case 3: b.tr ^= 1; break; case 4: b.file += "x"; break; case 5: case 6: case 7: { double& x = b.v[c.rng.range(0, 5)]; x = x ? x * 1.5 : 1; break; } default: break; }
    O::Domain x = make(a), y = make(b), z(x); check(c, x, a, "made"); check(c, z, a, "copied"); VF_CHECK(c, (x == y) == same(a, b) && (y == x) == same(a, b), "equality", show(a) << " and " << show(b)); check(c, O::Domain(), Dm{false, false, false, false, {0, 0, 0, 0, 0, 0}, ""}, "default");
    z = y; Dm bz = b; if (c.rng.chance(0.5)) { z.setFinalTime(bz.v[1] = num(c)); z.setSamplingPeriod(bz.v[2] = num(c)); } check(c, z, bz, "assigned and set"); z = *&z; check(c, z, bz, "assigned itself"); check(c, x, a, "original"); check(c, y, b, "original");
    std::vector<R> v; for (int n = c.rng.range(1, 3); n > 0; n--) { R r; if (form(c, w, r)) { check(c, w, r, r.p.get(), "made"); c.note(show(w, r)); v.push_back(std::move(r)); } }
    for (int n = c.rng.range(1, c.thorough ? 20 : 8); n > 0 && !v.empty(); n--) {
        R& r = v[c.rng.range(0, long(v.size()) - 1)]; std::string how;
        switch (c.rng.range(0, 5)) {
        case 0: how = "renamed"; r.nm += "+"; r.p->setName(r.nm); break;
        case 1: { how = "set"; auto on = some(c, w); auto g = pick(w, on); r.p->set(Element::Group<const Elem>(g)); r.on.clear(); for (auto i : on) if (fits(w, r, i)) r.on.push_back(i); break; }
        case 2: { how = "added"; auto on = some(c, w); std::vector<std::size_t> fresh; for (auto i : on) if (std::find(r.on.begin(), r.on.end(), i) == r.on.end()) fresh.push_back(i); auto g = pick(w, fresh); r.p->add(Element::Group<const Elem>(g)); for (auto i : fresh) if (fits(w, r, i)) r.on.push_back(i); break; }
        case 3: how = "domain"; if (c.rng.chance(0.5)) { r.d = dm(c); r.p->domain() = make(r.d); } else r.p->domain().setFinalTime(r.d.v[1] = num(c)); break;
        case 4: { how = "cloned"; P q(r.p->cloneTo<O::Base>()); check(c, w, r, q.get(), "clone"); if (c.rng.chance(0.5)) std::swap(q, r.p); else { q->setName("changed"); q->set(Element::Group<const Elem>()); q->domain() = O::Domain(); } break; }
        default: { how = "in a group"; O::Group<> g; for (auto& k : v) g.add(k.p->cloneTo<O::Base>()); std::unique_ptr<O::Group<>> h(g.clone()); VF_CHECK(c, h->size() == v.size(), "group", h->size()); for (std::size_t i = 0; i < v.size() && i < h->size(); i++) { VF_CHECK(c, (*h)(i) != g(i), "group", i); check(c, w, v[i], (*h)(i), "in a cloned group"); } } }
        for (auto& k : v) check(c, w, k, k.p.get(), "after " + how); c.ev("operations"); c.cov(how); c.interesting = true; }
    for (auto& k : v) c.dig(show(w, k));
}
