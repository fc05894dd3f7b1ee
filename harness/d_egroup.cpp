// Collections of elements: filters, bounds, nearest vertex, relabelling and
// reassignment against a linear model of the members.
#include "vf.h"
#include "geometry/element/Group.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Hexahedron8.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"

using namespace SEMBA; using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
namespace {
struct El { ElemR* p; std::size_t id, mat, lay; std::vector<std::size_t> cs; std::vector<std::size_t> vs; int type; };
typedef Element::Group<ElemR> EG;
template <class G> std::vector<const void*> ptrs(const G& g) { std::vector<const void*> r; for (std::size_t i = 0; i < g.size(); i++) r.push_back(g(i)); return r; }
template <class F> std::vector<const void*> want(const std::vector<El>& m, F f) { std::vector<const void*> r; for (auto& e : m) if (f(e)) r.push_back(e.p); return r; }
// Meshes of any size, from nanometres to kilometres.
void anySize(vf::Ctx& c) {
    double s = std::pow(10.0, c.rng.real(-10, 5)); CVecR3 off(0, 0, 0); if (c.rng.chance(0.5)) for (int j = 0; j < 3; j++) off(j) = c.rng.range(-20, 20) * s;
    Coordinate::Group<CoordR3> cg; std::vector<const CoordR3*> v; for (int n = c.rng.range(3, 20), i = 0; i < n; i++) { CVecR3 p; for (int j = 0; j < 3; j++) p(j) = off(j) + c.rng.real(-2, 2) * s; auto* x = new CoordR3(CoordId(i + 1), p); cg.add(x); v.push_back(x); }
    EG g; std::set<const CoordR3*> used; std::ostringstream w; w << "size " << s << ":";
    for (int n = c.rng.range(1, 8), i = 0; i < n; i++) { c.rng.shuffle(v); for (int k = 0; k < 2; k++) { used.insert(v[k]); w << " " << v[k]->pos(); } if (c.rng.chance(0.5)) { const CoordR3* q[2] = {v[0], v[1]}; g.add(new LinR2(ElemId(i + 1), q)); } else { used.insert(v[2]); w << " " << v[2]->pos(); const CoordR3* q[3] = {v[0], v[1], v[2]}; g.add(new Tri3(ElemId(i + 1), q)); } }
    for (int t = 0; t < 6; t++) { CVecR3 p; for (int j = 0; j < 3; j++) p(j) = off(j) + c.rng.real(-3, 3) * s; double best = 1e300; for (auto* x : used) best = std::min(best, (x->pos() - p).norm()); const CoordR3* q = g.getClosestVertex(p); VF_CHECK(c, q && (q->pos() - p).norm() <= best * (1 + 1e-9), "closest-vertex", w.str() << " to " << p << " is " << (q ? vf::str(q->pos()) : "none") << " best distance " << best); }
    CVecR3 lo(1e300, 1e300, 1e300), hi(-1e300, -1e300, -1e300); for (auto* x : used) for (int j = 0; j < 3; j++) { lo(j) = std::min(lo(j), x->pos()(j)); hi(j) = std::max(hi(j), x->pos()(j)); }
    auto b = g.getBound(); for (int j = 0; j < 3; j++) VF_CHECK(c, b.getMin()(j) == lo(j) && b.getMax()(j) == hi(j), "bound", w.str() << " lies in " << b.getMin() << " " << b.getMax()); c.cov("size 1e" + vf::str(int(std::floor(std::log10(s))) / 5 * 5));
}
}

void vf_case(vf::Ctx& c) {
    anySize(c);
    int nc = c.rng.range(9, 30), nl = c.rng.range(1, 4), nm = c.rng.range(1, 5), ne = c.rng.range(0, 25);
    std::vector<std::size_t> ids; for (int i = 1; i < 200; i++) ids.push_back(i); c.rng.shuffle(ids);
    Coordinate::Group<CoordR3> cg; std::vector<const CoordR3*> co; std::vector<CVecR3> at; for (int i = 0; i < nc; i++) { CVecR3 p(c.rng.range(-20, 20) * 0.5 + i * 1e-3, c.rng.range(-20, 20) * 0.5, c.rng.range(-20, 20) * 0.5 + i * 2e-3); CoordR3* x = new CoordR3(CoordId(ids[i]), p); cg.add(x); co.push_back(x); at.push_back(p); }
    Layer::Group<> lg; std::vector<std::size_t> lids; for (int i = 0; i < nl; i++) { lids.push_back(ids[i + 40]); lg.add(new Layer::Layer(LayerId(lids[i]), "l" + std::to_string(i))); }
    PhysicalModel::Group<> pg; std::vector<std::size_t> mids; for (int i = 0; i < nm; i++) { mids.push_back(ids[i + 60]); if (i % 2) pg.add(new PhysicalModel::Predefined::PEC(MatId(mids[i]))); else pg.add(new PhysicalModel::Predefined::PMC(MatId(mids[i]))); }
    EG g; std::vector<El> m; std::vector<std::size_t> eids = ids; c.rng.shuffle(eids); std::ostringstream o;
    for (int i = 0; i < ne; i++) {
        El e; e.id = eids[i]; e.type = c.rng.range(0, 5); int n = e.type == 0 ? 1 : e.type == 1 ? 2 : e.type == 2 ? 3 : e.type == 3 ? 4 : e.type == 4 ? 4 : c.rng.range(2, 6); std::vector<int> k(nc); for (int j = 0; j < nc; j++) k[j] = j; c.rng.shuffle(k); k.resize(n); if (e.type == 5 && n >= 3 && c.rng.chance(0.4)) { k.back() = k.front(); c.cov("closed polyline"); }
        std::vector<const CoordR3*> v; for (int j : k) { v.push_back(co[j]); e.cs.push_back(ids[j]); } const Layer::Layer* l = nullptr; const PhysicalModel::PhysicalModel* mt = nullptr; e.lay = e.mat = 0;
        if (c.rng.chance(0.8)) { int j = c.rng.range(0, nl - 1); e.lay = lids[j]; l = lg.getId(LayerId(e.lay)); } if (c.rng.chance(0.8)) { int j = c.rng.range(0, nm - 1); e.mat = mids[j]; mt = pg.getId(MatId(e.mat)); }
        ElemId id(e.id); ElemR* p = nullptr; switch (e.type) { case 0: p = new NodR(id, &v[0], l, mt); break; case 1: p = new LinR2(id, &v[0], l, mt); break; case 2: p = new Tri3(id, &v[0], l, mt); break; case 3: p = new QuaR4(id, &v[0], l, mt); break; case 4: p = new Tet4(id, &v[0], l, mt); break; default: p = new PolylinR(id, v, l, mt); }
        e.p = p; e.vs = e.cs; if (e.type == 5) e.vs = {e.cs.front(), e.cs.back()}; g.add(p); m.push_back(e); o << e.id << ":" << e.type << "/" << e.mat << "/" << e.lay << " ";
    }
    std::string w = "elements " + o.str(); c.note(w); c.interesting = ne > 1; const EG& cgp = g; c.ev("elements", ne);
    auto look = [&](const std::string& when) {
        for (auto& e : m) { VF_CHECK(c, e.p->getMatId().toInt() == e.mat && e.p->getLayerId().toInt() == e.lay, "labels", w << when << ": element " << e.id); }
        std::vector<std::size_t> ml = mids, ll = lids; ml.push_back(0); ll.push_back(0); ml.push_back(9999); ll.push_back(9999);
        for (auto x : ml) { auto ex = want(m, [&](const El& e) { return e.mat == x; }); VF_CHECK(c, ptrs(g.getMatId(MatId(x))) == ex && ptrs(cgp.getMatId(MatId(x))) == ex, "by-material", w << when << ": material " << x); }
        for (auto x : ll) { auto ex = want(m, [&](const El& e) { return e.lay == x; }); VF_CHECK(c, ptrs(g.getLayerId(LayerId(x))) == ex && ptrs(cgp.getLayerId(LayerId(x))) == ex, "by-layer", w << when << ": layer " << x);
            for (auto y : ml) { auto e2 = want(m, [&](const El& e) { return e.lay == x && e.mat == y; }); VF_CHECK(c, ptrs(g.getMatLayerId(MatId(y), LayerId(x))) == e2 && ptrs(cgp.getMatLayerId(MatId(y), LayerId(x))) == e2, "by-material-and-layer", w << when); } }
        { std::vector<MatId> ms; std::set<std::size_t> s; for (auto x : ml) if (c.rng.chance(0.4)) { ms.push_back(MatId(x)); s.insert(x); if (c.rng.chance(0.2)) ms.push_back(MatId(x)); } c.rng.shuffle(ms); auto ex = want(m, [&](const El& e) { return s.count(e.mat) > 0; }); VF_CHECK(c, ptrs(g.getMatId(ms)) == ex && ptrs(cgp.getMatId(ms)) == ex, "by-materials", w << when); }
        { std::vector<LayerId> ms; std::set<std::size_t> s; for (auto x : ll) if (c.rng.chance(0.4)) { ms.push_back(LayerId(x)); s.insert(x); } auto ex = want(m, [&](const El& e) { return s.count(e.lay) > 0; }); VF_CHECK(c, ptrs(g.getLayerId(ms)) == ex && ptrs(cgp.getLayerId(ms)) == ex, "by-layers", w << when); }
        auto sep = g.separateByLayers(); std::size_t tot = 0; for (auto& s : sep) { std::vector<const void*> got(s.second.begin(), s.second.end()); tot += got.size(); VF_CHECK(c, got == want(m, [&](const El& e) { return e.lay == s.first.toInt(); }), "separate", w << when << ": layer " << s.first); } VF_CHECK(c, tot == m.size(), "separate", w << when << " covers " << tot);
    };
    look("");
    for (int i = 0; i < nc; i++) { auto ex = want(m, [&](const El& e) { return std::find(e.cs.begin(), e.cs.end(), ids[i]) != e.cs.end(); }); VF_CHECK(c, ptrs(cgp.getCoordId(CoordId(ids[i]))) == ex, "by-coordinate", w << ": coordinate " << ids[i]); } VF_CHECK(c, cgp.getCoordId(CoordId(ids[150])).size() == 0, "by-coordinate", w);
    { auto ty = [&](const std::vector<const void*>& g, std::set<int> t, const char* n) { VF_CHECK(c, g == want(m, [&](const El& e) { return t.count(e.type) > 0; }), "by-type", w << ": " << n << " finds " << g.size()); };
      ty(ptrs(cgp.getOf<Tri3>()), {2}, "triangles"); ty(ptrs(cgp.getOf<SurfR>()), {2, 3}, "surfaces"); ty(ptrs(cgp.getOfOnly<NodR>()), {0}, "nodes only"); ty(ptrs(cgp.getOf<LinR>()), {1, 5}, "lines"); ty(ptrs(cgp.getOf<VolR>()), {4}, "volumes"); ty(ptrs(cgp.getOf<ElemR>()), {0, 1, 2, 3, 4, 5}, "elements"); }
    std::map<std::size_t, CVecR3> posOf; for (int i = 0; i < nc; i++) posOf[ids[i]] = at[i];
    auto boundOf = [&](const El& e, CVecR3& lo, CVecR3& hi) { lo = hi = posOf[e.cs[0]]; for (auto k : e.cs) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), posOf[k](d)); hi(d) = std::max(hi(d), posOf[k](d)); } };
    if (ne) { CVecR3 lo, hi, a, b; boundOf(m[0], lo, hi); for (auto& e : m) { boundOf(e, a, b); for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), a(d)); hi(d) = std::max(hi(d), b(d)); } } BoxR3 bd = g.getBound(); bool ok = true; for (int d = 0; d < 3; d++) ok = ok && bd.getMin()(d) == lo(d) && bd.getMax()(d) == hi(d); VF_CHECK(c, ok, "bound", w << " bound " << bd.getMin() << bd.getMax()); }
    for (int t = 0; t < 4; t++) { CVecR3 a, b; for (int d = 0; d < 3; d++) { a(d) = c.rng.real(-13, 0); b(d) = c.rng.real(0, 13); } auto ex = want(m, [&](const El& e) { CVecR3 lo, hi; boundOf(e, lo, hi); for (int d = 0; d < 3; d++) if (lo(d) < a(d) || hi(d) > b(d)) return false; return true; }); VF_CHECK(c, ptrs(cgp.getInsideBound(BoxR3(a, b))) == ex, "inside-bound", w << " in " << a << b); if (!ex.empty()) c.ev("inside"); }
    { std::vector<Element::Face> fs; CVecR3 lo(1e9), hi(-1e9); for (auto& e : m) if (e.type == 4 && c.rng.chance(0.5)) { const VolR* v = e.p->castTo<VolR>(); int f = c.rng.range(0, 3); fs.push_back(Element::Face(v, f)); for (int i = 0; i < 3; i++) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), v->getSideV(f, i)->pos()(d)); hi(d) = std::max(hi(d), v->getSideV(f, i)->pos()(d)); } } if (!fs.empty()) { BoxR3 b = g.getBound(fs); VF_CHECK(c, b.getMin() == lo && b.getMax() == hi, "border-bound", w); } }
    for (int t = 0; t < 3; t++) { CVecR3 p(c.rng.real(-12, 12), c.rng.real(-12, 12), c.rng.real(-12, 12)); double best = 1e300; for (auto& e : m) for (auto k : e.cs) best = std::min(best, (posOf[k] - p).norm()); const CoordR3* q = g.getClosestVertex(p); VF_CHECK(c, ne == 0 ? q == nullptr : q && vf::near((q->pos() - p).norm(), best, 1e-12), "closest-vertex", w << " to " << p << " is " << (q ? vf::str(q->pos()) : "none") << " best distance " << best); }
    { auto ix = g.getIndexByVertexId(); for (auto& e : m) { auto v = e.vs; std::vector<CoordId> k; c.rng.shuffle(v); for (auto x : v) k.push_back(CoordId(x)); auto it = ix.find(k); auto s = e.vs; std::sort(s.begin(), s.end()); bool ok = it != ix.end(); if (ok) { ok = false; for (auto& f : m) if (f.p == it->second) { auto t = f.vs; std::sort(t.begin(), t.end()); ok = t == s; } } VF_CHECK(c, ok, "vertex-index", w << ": element " << e.id); }
      std::set<std::vector<std::size_t>> u; for (auto& e : m) { auto s = e.vs; std::sort(s.begin(), s.end()); u.insert(s); } VF_CHECK(c, ix.size() == u.size(), "vertex-index", w << " has " << ix.size() << " expected " << u.size()); }
    // reassignment to copies of the coordinates, the layers and the materials
    { Coordinate::Group<CoordR3> c2; std::vector<int> ord(nc); for (int i = 0; i < nc; i++) ord[i] = i; c.rng.shuffle(ord); for (int i : ord) c2.add(new CoordR3(CoordId(ids[i]), at[i])); Layer::Group<> l2(lg.cloneElems()); PhysicalModel::Group<> p2(pg.cloneElems());
      g.reassignPointers(c2); g.reassignPointers(l2); g.reassignPointers(SEMBA::Group::Identifiable<Element::Model, MatId>(p2));
      for (auto& e : m) { for (std::size_t j = 0; j < e.cs.size(); j++) VF_CHECK(c, e.p->getV(j) == c2.getId(CoordId(e.cs[j])) && e.p->getV(j)->pos() == posOf[e.cs[j]], "reassign-coordinates", w << ": element " << e.id << " coordinate " << j);
          VF_CHECK(c, e.lay ? e.p->getLayer() == l2.getId(LayerId(e.lay)) : e.p->getLayer() == nullptr, "reassign-layers", w << ": element " << e.id); VF_CHECK(c, e.mat ? (const void*)e.p->getModel() == (const void*)static_cast<const Element::Model*>(p2.getId(MatId(e.mat))) : e.p->getModel() == nullptr, "reassign-materials", w << ": element " << e.id); }
      look(" after reassignment"); c.ev("reassigned");
      // back, since these collections end here
      g.reassignPointers(cg); g.reassignPointers(lg); g.reassignPointers(SEMBA::Group::Identifiable<Element::Model, MatId>(pg)); }
    { Coordinate::Group<CoordR3> few; for (int i = 1; i < nc; i++) few.add(new CoordR3(CoordId(ids[i]), at[i])); bool uses = false; for (auto& e : m) for (auto k : e.cs) uses = uses || k == ids[0]; EG k(g.cloneElems()); std::string t = vf::thrown([&] { k.reassignPointers(few); }); VF_CHECK(c, t.empty() == !uses, "reassign-missing", w << " " << t); }
    // relabelling
    int steps = c.rng.range(1, 6); for (int t = 0; t < steps && !m.empty(); t++) { int op = c.rng.range(0, 4); int lj = c.rng.range(0, nl - 1), mj = c.rng.range(0, nm - 1), ej = c.rng.range(0, m.size() - 1); o.str("");
        if (op == 0) { g.setLayer(ElemId(m[ej].id), lg.getId(LayerId(lids[lj]))); m[ej].lay = lids[lj]; o << " set layer of " << m[ej].id; }
        else if (op == 1) { g.setModel(ElemId(m[ej].id), pg.getId(MatId(mids[mj]))); m[ej].mat = mids[mj]; o << " set material of " << m[ej].id; }
        else if (op == 2) { auto x = mids[mj]; std::vector<MatId> ms{MatId(x)}; std::size_t y = c.rng.chance(0.5) ? 0 : x; if (y != x) ms.push_back(MatId(y)); if (ms.size() == 1 && c.rng.chance(0.5)) g.removeMatId(ms[0]); else g.removeMatId(ms); std::vector<El> r; for (auto& e : m) if (e.mat != x && (e.mat != y)) r.push_back(e); m = r; o << " removed material " << x << " and " << y; std::vector<const void*> ex = want(m, [](const El&) { return true; }); VF_CHECK(c, ptrs(g) == ex, "remove-material", w << o.str()); }
        else if (op == 3 && c.rng.chance(0.3)) { g.setLayer(lg.getId(LayerId(lids[lj]))); for (auto& e : m) e.lay = lids[lj]; o << " set all layers"; }
        else if (op == 4 && c.rng.chance(0.3)) { auto s = g.getLayerId(LayerId(lids[lj])); s.setModel(pg.getId(MatId(mids[mj]))); for (auto& e : m) if (e.lay == lids[lj]) e.mat = mids[mj]; o << " set materials of a layer"; }
        c.cov("relabel" + std::to_string(op)); look(o.str()); }
    // a copy keeps the labels and is independent
    { EG k(g.cloneElems()); VF_CHECK(c, k.size() == g.size(), "copy", w); for (std::size_t i = 0; i < k.size(); i++) VF_CHECK(c, k(i) != g(i) && *k(i) == *g(i), "copy", w << " member " << i); k.setLayer(nullptr); k.setModel(nullptr); look(" after changing a copy"); }
}
