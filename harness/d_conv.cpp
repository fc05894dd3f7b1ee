// Conversions between structured and unstructured meshes: what the converted mesh
// holds is predicted from the grid lines alone; the original is destroyed before
// the result is looked at, and round trips come back to the start.
#include "meshgen.h"
#include "physicalModel/predefined/SMA.h"
using namespace mg;
namespace {
PMGroup mats(const std::vector<std::size_t>& ids) { PMGroup g; for (auto i : ids) { if (i % 2) g.add(new PhysicalModel::Predefined::PEC(MatId(i))); else g.add(new PhysicalModel::Predefined::SMA(MatId(i))); } return g; }
std::size_t addCo(Desc& d, std::size_t& next, const int p[3], vf::Ctx& c, bool reuse) { if (reuse) for (auto& x : d.co) if (x.kind == 0 && x.p[0] == p[0] && x.p[1] == p[1] && x.p[2] == p[2]) return x.id; C x; x.id = next; next += c.rng.range(1, 3); for (int k = 0; k < 3; k++) x.p[k] = p[k]; d.co.push_back(x); return x.id; }
// a structured mesh over the grid of d
void structuredBody(vf::Ctx& c, Desc& d, const std::vector<std::size_t>& mids, bool special) {
    int n[3]; for (int k = 0; k < 3; k++) n[k] = d.g[k].size() - 1; std::size_t next = c.rng.range(1, 5), eid = c.rng.range(1, 5), lid = c.rng.range(1, 4); int nl = c.rng.range(1, 3); for (int i = 0; i < nl; i++) { d.la.push_back({lid, "lay" + std::to_string(i)}); lid += c.rng.range(1, 3); }
    int loose = c.rng.range(0, 4); for (int i = 0; i < loose; i++) { int p[3]; for (int k = 0; k < 3; k++) p[k] = c.rng.range(0, n[k]); addCo(d, next, p, c, false); if (special && c.rng.chance(0.6)) { C& x = d.co.back(); x.kind = c.rng.range(1, 2); x.dir = c.rng.range(0, 2); if (x.kind == 1) for (int k = 0; k < 3; k++) x.rel[k] = c.rng.chance(0.3) ? 0 : c.rng.real(0.05, 0.95); else { if (x.p[x.dir] == n[x.dir]) x.p[x.dir]--; x.rel[0] = c.rng.chance(0.2) ? 0 : c.rng.real(0.05, 0.95); } } }
    int ne = c.rng.range(0, 10); bool share = c.rng.chance(0.7);
    for (int i = 0; i < ne; i++) { E e; e.id = eid; eid += c.rng.range(1, 3); e.mat = mids.empty() || c.rng.chance(0.25) ? 0 : c.rng.pick(mids); e.lay = c.rng.chance(0.25) ? 0 : c.rng.pick(d.la).id; for (auto& q : e.n) q = c.rng.real(-1, 1);
        static const std::vector<int> T{kNod, kLin, kQua, kHex}; e.type = special && c.rng.chance(0.2) ? (c.rng.chance(0.5) ? kConf : kPol) : c.rng.pick(T);
        if (e.type == kConf) { int dir = c.rng.range(0, 2); for (int v = 0; v < 2; v++) { C x; x.id = next++; x.kind = 2; x.dir = c.rng.range(0, 2); for (int k = 0; k < 3; k++) x.p[k] = c.rng.range(0, n[k]); if (x.p[x.dir] == n[x.dir]) x.p[x.dir]--; x.rel[0] = c.rng.real(0.05, 0.95); d.co.push_back(x); e.v.push_back(x.id); } (void)dir; d.el.push_back(e); continue; }
        if (e.type == kPol) { int m = c.rng.range(2, 4); for (int v = 0; v < m; v++) { int p[3]; for (int k = 0; k < 3; k++) p[k] = c.rng.range(0, n[k]); e.v.push_back(addCo(d, next, p, c, share)); } d.el.push_back(e); continue; }
        int a[3], b[3]; int want = e.type == kNod ? 0 : e.type == kLin ? 1 : e.type == kQua ? 2 : 3; std::vector<int> ax{0, 1, 2}; c.rng.shuffle(ax); for (int k = 0; k < 3; k++) { a[k] = b[k] = c.rng.range(0, n[k]); } for (int q = 0; q < want; q++) { int k = ax[q]; a[k] = c.rng.range(0, n[k] - 1); b[k] = c.rng.range(a[k] + 1, n[k]); }
        int p[3]; auto add = [&](int m) { for (int k = 0; k < 3; k++) p[k] = a[k]; for (int q = 0; q < want; q++) if (m >> q & 1) p[ax[q]] = b[ax[q]]; e.v.push_back(addCo(d, next, p, c, share)); };
        std::vector<int> ord = want == 0 ? std::vector<int>{0} : want == 1 ? std::vector<int>{0, 1} : want == 2 ? std::vector<int>{0, 1, 3, 2} : std::vector<int>{0, 1, 3, 2, 4, 5, 7, 6}; if (want < 3 && c.rng.chance(0.5)) std::reverse(ord.begin(), ord.end()); if (want == 2 && c.rng.chance(0.5)) std::rotate(ord.begin(), ord.begin() + 1, ord.end()); for (int m : ord) add(m); d.el.push_back(e); }
    c.rng.shuffle(d.co); c.rng.shuffle(d.el);
}
Desc toReal(const Desc& s) { Desc d = s; for (auto& x : d.co) { for (int k = 0; k < 3; k++) { int i = int(x.p[k]); double q = s.g[k][i]; if (x.kind == 1 && i + 1 < int(s.g[k].size())) q += x.rel[k] * (s.g[k][i + 1] - q); if (x.kind == 2 && x.dir == k) q += x.rel[0] * (s.g[k][i + 1] - q); x.p[k] = q; } x.kind = 0; }
    d.el.clear(); for (auto e : s.el) if (e.type != kPol) { if (e.type == kConf) e.type = kLin; d.el.push_back(e); } for (auto& g : d.g) g.clear(); return d; }
}
void vf_case(vf::Ctx& c) {
    std::vector<std::size_t> mids; int nm = c.rng.range(0, 3); for (int i = 0; i < nm; i++) mids.push_back(10 + 7 * i + c.rng.range(0, 3)); PMGroup pg = mats(mids); Desc d; randomGrid(c, d, 6); c.interesting = true;
    if (c.rng.chance(0.4)) { c.cov("to-unstructured"); structuredBody(c, d, mids, true); c.note(show(d)); std::string w = show(d);
        std::unique_ptr<Mesh::Unstructured> u; { Coordinate::Group<CoordI3> cg; Element::Group<ElemI> eg; Layer::Group<> lg; fill<int>(d, cg, eg, lg, pg); Mesh::Structured s(makeGrid(d), cg, eg, lg); u.reset(s.getMeshUnstructured()); verify<int>(c, s.coords(), s.elems(), s.layers(), d, w + "original after conversion"); verifyGrid(c, s.grid(), d, w); }
        Desc r = toReal(d); verify<double>(c, u->coords(), u->elems(), u->layers(), r, w + "converted", 1e-12); for (auto& x : r.co) VF_CHECK(c, u->coords().getPos(CVecR3(x.p[0], x.p[1], x.p[2])) != nullptr || x.kind, "find-position", w << " coordinate " << x.id); c.ev("conversions");
        bool plain = true; for (auto& x : d.co) plain = plain && x.kind == 0; if (plain) { c.cov("round-trip"); Desc b = d; b.el.clear(); for (auto& e : d.el) if (e.type != kPol) b.el.push_back(e); std::unique_ptr<Mesh::Structured> s2; Grid3 g = makeGrid(d); if (c.rng.chance(0.5)) s2.reset(u->getMeshStructured(g)); else { Mesh::Geometric ge(g, u->coords(), u->elems(), u->layers()); s2.reset(ge.getMeshStructured()); } u.reset(); verify<int>(c, s2->coords(), s2->elems(), s2->layers(), b, w + "round trip"); verifyGrid(c, s2->grid(), d, w + "round trip"); }
        return; }
    c.cov("to-structured"); structuredBody(c, d, mids, false); Desc want = d, r = toReal(d); double tol = c.rng.pick(std::vector<double>{1e-2, 1e-2, 1e-3, 2e-2}); bool dflt = tol == 1e-2; 
    // lines are missed by the same amount everywhere, so that elements stay along the axes
    std::map<std::pair<int, int>, double> off; if (c.rng.chance(0.6)) { c.cov("off-lines"); for (int k = 0; k < 3; k++) for (std::size_t i = 0; i < d.g[k].size(); i++) if (d.g[k][i] != 0 && c.rng.chance(0.5)) { double st = i ? d.g[k][i] - d.g[k][i - 1] : 1e9; st = std::min(st, i + 1 < d.g[k].size() ? d.g[k][i + 1] - d.g[k][i] : 1e9); off[{k, int(i)}] = st * tol * c.rng.real(-0.9, 0.9); } for (auto& x : r.co) for (auto& y : d.co) if (x.id == y.id) for (int k = 0; k < 3; k++) { auto it = off.find({k, int(y.p[k])}); if (it != off.end()) x.p[k] += it->second; } }
    std::size_t next = 1, eid = 1; for (auto& x : r.co) next = std::max(next, x.id + 1); for (auto& e : r.el) eid = std::max(eid, e.id + 1);
    // elements that have no structured counterpart
    int extra = c.rng.range(0, 5);
    for (int i = 0; i < extra; i++) { int kind = c.rng.range(0, 5); E e; e.id = eid++; e.mat = mids.empty() ? 0 : c.rng.pick(mids); e.lay = 0; c.cov("dropped" + std::to_string(kind)); int n[3]; for (int k = 0; k < 3; k++) n[k] = d.g[k].size() - 1; 
        auto add = [&](double p0, double p1, double p2, int i0, int i1, int i2) { C x; x.id = next++; x.p[0] = p0; x.p[1] = p1; x.p[2] = p2; C y = x; y.p[0] = i0; y.p[1] = i1; y.p[2] = i2; r.co.push_back(x); want.co.push_back(y); e.v.push_back(x.id); };
        auto node = [&](int i0, int i1, int i2) { add(d.g[0][i0], d.g[1][i1], d.g[2][i2], i0, i1, i2); };
        if (kind == 0) { e.type = kTri; node(0, 0, 0); node(1, 0, 0); node(0, 1, 0); } else if (kind == 1) { e.type = kTet; node(0, 0, 0); node(1, 0, 0); node(0, 1, 0); node(0, 0, 1); } else if (kind == 2) { e.type = kLin; node(0, 0, n[2]); node(1, 1, n[2]); }      // diagonal
        else if (kind == 3) { e.type = kLin; node(0, 0, 0); double f = c.rng.pick(std::vector<double>{0.3, 0.4, 0.7}); add(d.g[0][0] + f * (d.g[0][1] - d.g[0][0]), d.g[1][0], d.g[2][0], f > 0.5, 0, 0); }                                  // ends inside a cell
        else if (kind == 4) { e.type = kPol; node(0, 0, 0); node(0, 1, 0); node(1, 1, 0); } else { e.type = kNod; double f = c.rng.pick(std::vector<double>{0.3, 0.4, 0.7}); add(d.g[0][n[0]], d.g[1][0] + f * (d.g[1][1] - d.g[1][0]), d.g[2][0], n[0], f > 0.5, 0); }
        r.el.push_back(e); }
    Desc rr = r; rr.g[0] = d.g[0]; rr.g[1] = d.g[1]; rr.g[2] = d.g[2]; std::string w = show(r) + " tol " + vf::str(tol) + " "; c.note(w); for (int k = 0; k < 3; k++) for (double x : d.g[k]) c.noteV(x);
    std::unique_ptr<Mesh::Structured> s; { Coordinate::Group<CoordR3> cg; Element::Group<ElemR> eg; Layer::Group<> lg; fill<double>(r, cg, eg, lg, pg); Grid3 g = makeGrid(d);
        if (c.rng.chance(0.5)) { c.cov("geometric"); Mesh::Geometric m(g, cg, eg, lg); s.reset(dflt ? m.getMeshStructured() : m.getMeshStructured(tol)); verify<double>(c, m.coords(), m.elems(), m.layers(), r, w + "original after conversion", 1e-14); verifyGrid(c, m.grid(), d, w); }
        else { Mesh::Unstructured m(cg, eg, lg); s.reset(dflt ? m.getMeshStructured(g) : m.getMeshStructured(g, tol)); verify<double>(c, m.coords(), m.elems(), m.layers(), r, w + "original after conversion", 1e-14); } }
    verify<int>(c, s->coords(), s->elems(), s->layers(), want, w + "converted"); verifyGrid(c, s->grid(), d, w + "converted"); c.ev("conversions");
}
VF_PROBE("missing-coordinate") { Grid3 g(BoxR3(CVecR3(0.0), CVecR3(4.0)), CVecR3(1.0)); CoordR3 a(CoordId(1), CVecR3(1, 1, 1)), b(CoordId(2), CVecR3(1, 2, 1)); const CoordR3* v[2] = {&a, &b}; LinR2 l(ElemId(1), v); Coordinate::Group<CoordI3> cg; cg.add(new CoordI3(CoordId(1), CVecI3(1, 1, 1)));
    VF_CHECK(c, vf::thrown([&] { delete l.toStructured(cg, g); }) != "", "missing-coordinate", "no error"); cg.add(new CoordI3(CoordId(2), CVecI3(1, 3, 1))); VF_CHECK(c, vf::thrown([&] { delete l.toStructured(cg, g); }) != "", "coordinate-elsewhere", "no error");
    CoordI3 ai(CoordId(1), CVecI3(1, 1, 1)), bi(CoordId(2), CVecI3(1, 2, 1)); const CoordI3* vi[2] = {&ai, &bi}; LinI2 li(ElemId(1), vi); Coordinate::Group<CoordR3> cr; cr.add(new CoordR3(CoordId(1), CVecR3(1, 1, 1))); VF_CHECK(c, vf::thrown([&] { delete li.toUnstructured(cr, g); }) != "", "missing-coordinate", "no error"); cr.add(new CoordR3(CoordId(2), CVecR3(1, 2.5, 1))); VF_CHECK(c, vf::thrown([&] { delete li.toUnstructured(cr, g); }) != "", "coordinate-elsewhere", "no error"); }
