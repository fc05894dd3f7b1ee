// Graphs of elements through their vertices, and tables of neighbouring faces:
// compared with a brute-force look at the vertex lists of all members.
#include "vf.h"
#include "geometry/graph/Connectivities.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Hexahedron8.h"
#include <set>
#include <numeric>
using namespace SEMBA; using namespace SEMBA::Geometry; using Math::CVecR3;
typedef Graph::Vertices<ElemR, CoordR3> VG; typedef std::set<std::size_t> Ids;
namespace {
struct M { Coordinate::Group<CoordR3> cg; Element::Group<ElemR> eg; };
Ids vids(const ElemR* e) { Ids s; for (std::size_t k = 0; k < e->numberOfCoordinates(); k++) s.insert(e->getV(k)->getId().toInt()); return s; }
bool meet(const Ids& a, const Ids& b) { for (auto x : a) if (b.count(x)) return true; return false; }
// what the graph says, as plain data: element ids, their bounds, neighbours, neighbours through each bound
std::string dump(VG& g) { std::ostringstream o; for (std::size_t i = 0; i < g.numElems(); i++) { auto* e = g.elem(i); o << e->elem()->getId() << "["; for (std::size_t b = 0; b < e->numBounds(); b++) { o << e->getBound(b)->elem()->getId() << ":"; for (std::size_t j = 0; j < e->numBoundNeighbors(b); j++) o << e->getBoundNeighbor(b, j)->elem()->getId() << ","; } o << "]("; for (std::size_t j = 0; j < e->numNeighbors(); j++) o << e->getNeighbor(j)->elem()->getId() << ","; o << ")"; } o << "|"; for (std::size_t i = 0; i < g.numBounds(); i++) { auto* b = g.bound(i); o << b->elem()->getId() << "["; for (std::size_t j = 0; j < b->numBounds(); j++) { o << b->getBound(j)->elem()->getId() << ":"; for (std::size_t k = 0; k < b->numBoundNeighbors(j); k++) o << b->getBoundNeighbor(j, k)->elem()->getId() << ","; } o << "]("; for (std::size_t j = 0; j < b->numNeighbors(); j++) o << b->getNeighbor(j)->elem()->getId() << ","; o << ")"; } return o.str(); }
void verify(vf::Ctx& c, VG& g, const Element::Group<const ElemR>& eg, const std::string& w) {
    std::vector<Ids> v; for (std::size_t i = 0; i < eg.size(); i++) v.push_back(vids(eg(i))); Ids all; for (auto& s : v) all.insert(s.begin(), s.end());
    VF_CHECK(c, g.numElems() == eg.size() && g.numBounds() == all.size(), "graph-size", w << ": " << g.numElems() << " elements " << g.numBounds() << " vertices, expected " << eg.size() << " and " << all.size()); if (g.numElems() != eg.size()) return;
    std::map<std::size_t, std::size_t> pos; for (std::size_t i = 0; i < eg.size(); i++) pos[eg(i)->getId().toInt()] = i;
    for (std::size_t i = 0; i < eg.size(); i++) { auto* e = g.elem(i); VF_CHECK(c, e->elem() == eg(i) && e->numBounds() == eg(i)->numberOfCoordinates(), "graph-element", w << ": element " << i); Ids nb; for (std::size_t b = 0; b < e->numBounds(); b++) { auto* p = e->getBound(b); VF_CHECK(c, p->elem() == eg(i)->getV(b), "graph-vertex", w << ": vertex " << b << " of element " << eg(i)->getId()); Ids got, want; for (std::size_t j = 0; j < e->numBoundNeighbors(b); j++) got.insert(e->getBoundNeighbor(b, j)->elem()->getId().toInt()); for (std::size_t k = 0; k < eg.size(); k++) if (k != i && v[k].count(eg(i)->getV(b)->getId().toInt())) want.insert(eg(k)->getId().toInt()); VF_CHECK(c, got == want && e->numBoundNeighbors(b) == want.size(), "neighbours-through-vertex", w << ": vertex " << b << " of element " << eg(i)->getId()); Ids inc; for (std::size_t j = 0; j < p->numBounds(); j++) { inc.insert(p->getBound(j)->elem()->getId().toInt()); VF_CHECK(c, p->getBound(j) == g.elem(pos[p->getBound(j)->elem()->getId().toInt()]), "own-nodes", w << ": vertex " << p->elem()->getId() << " belongs to an element of another graph"); } want.insert(eg(i)->getId().toInt()); VF_CHECK(c, inc == want, "elements-of-vertex", w << ": vertex " << p->elem()->getId()); }
        Ids got, want; for (std::size_t j = 0; j < e->numNeighbors(); j++) { got.insert(e->getNeighbor(j)->elem()->getId().toInt()); VF_CHECK(c, e->getNeighbor(j) == g.elem(pos[e->getNeighbor(j)->elem()->getId().toInt()]), "own-nodes", w << ": a neighbour of element " << eg(i)->getId() << " belongs to another graph"); } for (std::size_t k = 0; k < eg.size(); k++) if (k != i && meet(v[i], v[k])) want.insert(eg(k)->getId().toInt()); VF_CHECK(c, got == want && e->numNeighbors() == want.size(), "neighbours", w << ": element " << eg(i)->getId() << " has " << e->numNeighbors() << " neighbours, expected " << want.size()); }
    // and seen from the vertices: the other vertices reached through each element, and through all of them
    for (std::size_t i = 0; i < g.numBounds(); i++) { auto* b = g.bound(i); std::size_t me = b->elem()->getId().toInt(); Ids all2;
        for (std::size_t j = 0; j < b->numBounds(); j++) { Ids want = v[pos[b->getBound(j)->elem()->getId().toInt()]], got; want.erase(me); all2.insert(want.begin(), want.end()); for (std::size_t k = 0; k < b->numBoundNeighbors(j); k++) got.insert(b->getBoundNeighbor(j, k)->elem()->getId().toInt()); VF_CHECK(c, got == want && b->numBoundNeighbors(j) == want.size(), "vertices-through-element", w << ": vertex " << me << " through element " << b->getBound(j)->elem()->getId() << " reaches " << got.size() << " vertices, expected " << want.size()); }
        Ids got; for (std::size_t k = 0; k < b->numNeighbors(); k++) got.insert(b->getNeighbor(k)->elem()->getId().toInt()); VF_CHECK(c, got == all2 && b->numNeighbors() == all2.size(), "neighbours-of-vertex", w << ": vertex " << me << " has " << b->numNeighbors() << " neighbours, expected " << all2.size()); }
    // components are the classes of the relation "share a vertex"
    std::vector<int> root(eg.size()); std::iota(root.begin(), root.end(), 0); for (bool ch = true; ch;) { ch = false; for (std::size_t i = 0; i < eg.size(); i++) for (std::size_t k = 0; k < eg.size(); k++) if (root[i] < root[k] && meet(v[i], v[k])) { root[k] = root[i]; ch = true; } }
    auto comps = g.getConnectedComponents(); std::size_t n = 0; std::set<int> seen; for (auto& cp : comps) { VF_CHECK(c, !cp.empty(), "components", w << ": empty component"); if (cp.empty()) continue; std::set<int> r; Ids once; for (auto* e : cp) { r.insert(root[pos[e->getId().toInt()]]); once.insert(e->getId().toInt()); } n += cp.size(); VF_CHECK(c, r.size() == 1 && once.size() == cp.size() && seen.insert(*r.begin()).second, "components", w << ": the component of element " << cp[0]->getId() << " mixes, repeats or splits classes"); }
    VF_CHECK(c, n == eg.size() && seen.size() == std::set<int>(root.begin(), root.end()).size(), "components", w << ": " << n << " elements in " << seen.size() << " components"); VF_CHECK(c, dump(g) == dump(g) && g.getConnectedComponents() == comps, "components-repeat", w << ": a second call answers differently"); c.ev("graphs");
}
void soup(vf::Ctx& c, M& m) { int nc = c.rng.range(8, 40); std::vector<const CoordR3*> co; std::size_t id = 0; std::vector<std::size_t> ids; for (int i = 0; i < nc; i++) ids.push_back(id += c.rng.range(1, 3)); c.rng.shuffle(ids); for (int i = 0; i < nc; i++) { m.cg.add(new CoordR3(CoordId(ids[i]), CVecR3(c.rng.real(-1, 1), c.rng.real(-1, 1), c.rng.real(-1, 1)))); co.push_back(m.cg(i)); }
    int ne = c.rng.chance(0.1) ? c.rng.range(20, 60) : c.rng.range(0, 14); if (ne > 14) c.cov("crowded"); id = 0; ids.clear(); for (int i = 0; i < ne; i++) ids.push_back(id += c.rng.range(1, 3)); c.rng.shuffle(ids); for (int i = 0; i < ne; i++) { c.rng.shuffle(co); ElemId e(ids[i]); switch (c.rng.range(0, 5)) { case 0: m.eg.add(new NodR(e, &co[0])); break; case 1: m.eg.add(new LinR2(e, &co[0])); break; case 2: m.eg.add(new Tri3(e, &co[0])); break; case 3: m.eg.add(new QuaR4(e, &co[0], nullptr, nullptr)); break; case 4: m.eg.add(new Tet4(e, &co[0])); break; default: m.eg.add(new HexR8(e, &co[0], nullptr, nullptr)); } } }
std::string show(const Element::Group<const ElemR>& eg) { std::ostringstream o; for (std::size_t i = 0; i < eg.size(); i++) { o << eg(i)->getId() << "("; for (std::size_t k = 0; k < eg(i)->numberOfCoordinates(); k++) o << eg(i)->getV(k)->getId() << " "; o << ")"; } return o.str(); }
// lines: splitting a vertex leaves its lines unconnected through it
void lines(vf::Ctx& c) { M m; int nc = c.rng.range(3, 12); for (int i = 0; i < nc; i++) m.cg.add(new CoordR3(CoordId(i + 1), CVecR3(i, 0, 0))); int ne = c.rng.range(1, 12); for (int i = 0; i < ne; i++) { int a = c.rng.range(1, nc), b = c.rng.range(1, nc - 1); if (b >= a) b++; const CoordR3* v[2] = {m.cg.getId(CoordId(a)), m.cg.getId(CoordId(b))}; m.eg.add(new LinR2(ElemId(i + 1), v)); }
    std::string w = "lines " + show(m.eg); c.note(w); VG g; g.init(m.eg); verify(c, g, m.eg, w); std::set<std::size_t> split; int ns = c.rng.range(0, 3); for (int k = 0; k < ns; k++) { std::size_t b = c.rng.range(0, g.numBounds() - 1); split.insert(g.bound(b)->elem()->getId().toInt()); g.splitBound(b); w += " split " + g.bound(b)->elem()->getId().toStr(); }
    auto look = [&](VG& h, const std::string& w) { for (std::size_t i = 0; i < m.eg.size(); i++) { Ids got, want; for (std::size_t j = 0; j < h.elem(i)->numNeighbors(); j++) got.insert(h.elem(i)->getNeighbor(j)->elem()->getId().toInt()); auto a = vids(m.eg(i)); for (std::size_t k = 0; k < m.eg.size(); k++) if (k != i) { auto b = vids(m.eg(k)); for (auto x : a) if (b.count(x) && !split.count(x)) want.insert(m.eg(k)->getId().toInt()); } VF_CHECK(c, got == want, "split-neighbours", w << ": line " << m.eg(i)->getId()); for (int q = 0; q < 2; q++) { VF_CHECK(c, h.elem(i)->getBound(q)->elem() == m.eg(i)->getV(q), "split-vertices", w << ": line " << m.eg(i)->getId()); if (split.count(m.eg(i)->getV(q)->getId().toInt())) VF_CHECK(c, h.elem(i)->getBound(q)->numBounds() == 1 && h.elem(i)->getBound(q)->getBound(0) == h.elem(i), "split-vertices", w << ": line " << m.eg(i)->getId()); } } };
    look(g, w); std::unique_ptr<VG> a(new VG(g)); look(*a, w + " copied"); VG b; if (c.rng.chance(0.5)) b.init(m.eg); b = *a; a.reset(); look(b, w + " assigned"); c.ev("splits", ns); }
// volumes and surfaces over a lattice of possibly warped cells
void cells(vf::Ctx& c) {
    M m; bool tets = c.rng.chance(0.6); int n[3]; for (int k = 0; k < 3; k++) n[k] = c.rng.range(1, 2); bool warp = c.rng.chance(0.5); double sc = c.rng.pick(std::vector<double>{1, 1, 1e-3, 37.3}); c.cov(tets ? "tetrahedra" : "hexahedra"); c.cov(warp ? "warped" : "straight"); std::map<std::vector<int>, const CoordR3*> at; std::vector<std::size_t> ids(64); std::iota(ids.begin(), ids.end(), 1); c.rng.shuffle(ids); std::size_t q = 0; double rot = c.rng.chance(0.5) ? c.rng.real(-3, 3) : 0;
    for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= n[1]; j++) for (int k = 0; k <= n[2]; k++) { double x = i, y = j, z = k; if (warp) { x += c.rng.real(-0.15, 0.15); y += c.rng.real(-0.15, 0.15); z += c.rng.real(-0.15, 0.15); } double X = x * std::cos(rot) - y * std::sin(rot), Y = x * std::sin(rot) + y * std::cos(rot); at[{i, j, k}] = m.cg.add(new CoordR3(CoordId(ids[q++]), CVecR3(sc * X, sc * Y, sc * z)))(0); }
    std::vector<std::vector<const CoordR3*>> vols; for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) for (int k = 0; k < n[2]; k++) {
        if (!tets) { std::vector<const CoordR3*> v; static const int H[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}}; for (auto& h : H) v.push_back(at[{i + h[0], j + h[1], k + h[2]}]); vols.push_back(v); continue; }
        int p[3] = {0, 1, 2}; do { std::vector<int> x{i, j, k}; std::vector<const CoordR3*> v{at[x]}; for (int s = 0; s < 3; s++) { x[p[s]]++; v.push_back(at[x]); } CVecR3 a = v[1]->pos() - v[0]->pos(), b = v[2]->pos() - v[0]->pos(), d = v[3]->pos() - v[0]->pos(); if ((a ^ b).dot(d) < 0) std::swap(v[1], v[2]); vols.push_back(v); } while (std::next_permutation(p, p + 3)); }
    c.rng.shuffle(vols); if (c.rng.chance(0.5)) vols.resize(c.rng.range(1, vols.size()));
    std::vector<std::size_t> eids(200); std::iota(eids.begin(), eids.end(), 1); c.rng.shuffle(eids); std::size_t ne = 0; std::vector<ElemR*> el; for (auto& v : vols) { ElemId id(eids[ne++]); if (tets) el.push_back(new Tet4(id, &v[0])); else el.push_back(new HexR8(id, &v[0], nullptr, nullptr)); }
    std::vector<const VolR*> vv; for (auto* e : el) vv.push_back(e->castTo<VolR>()); std::set<Ids> done; std::size_t nv = el.size(); bool loner = false;
    for (std::size_t i = 0; i < nv; i++) for (std::size_t f = 0; f < vv[i]->numberOfFaces(); f++) if (c.rng.chance(0.4)) { auto v = vv[i]->getSideCoordinates(f); Ids key; for (auto* x : v) key.insert(x->getId().toInt()); if (!done.insert(key).second) continue; if (c.rng.chance(0.5)) std::reverse(v.begin(), v.end()); std::rotate(v.begin(), v.begin() + c.rng.range(0, v.size() - 1), v.end()); ElemId id(eids[ne++]); if (tets) el.push_back(new Tri3(id, &v[0])); else el.push_back(new QuaR4(id, &v[0], nullptr, nullptr)); }
    if (c.rng.chance(0.4)) { loner = true; c.cov("surface-alone"); const CoordR3* v[3]; for (int k = 0; k < 3; k++) v[k] = m.cg.add(new CoordR3(CoordId(500 + k), CVecR3(k == 1, k == 2, 7)))(0); if (c.rng.chance(0.5)) v[0] = at[{0, 0, 0}]; el.push_back(new Tri3(ElemId(eids[ne++]), v)); } (void)loner;
    if (c.rng.chance(0.3)) { const CoordR3* v[2] = {at[{0, 0, 0}], at[{1, 0, 0}]}; el.push_back(new LinR2(ElemId(eids[ne++]), v)); }
    c.rng.shuffle(el); bool triple = tets && c.rng.chance(0.15) && vols.size() >= 2;
    for (auto* e : el) m.eg.add(e); std::string w = show(m.eg); c.note(w + vf::str(rot) + vf::str(sc));
    std::unique_ptr<Graph::Connectivities> cc(new Graph::Connectivities(m.eg)); Graph::Connectivities as; int how = c.rng.range(0, 3); Graph::Connectivities* cn = cc.get(); if (how == 1) { std::unique_ptr<Graph::Connectivities> o(new Graph::Connectivities(*cc)); cc = std::move(o); cn = cc.get(); c.cov("copied"); } if (how == 2) { as = *cc; cc.reset(); cn = &as; c.cov("assigned"); } if (how == 3) { as = Graph::Connectivities(m.eg); as = *cc; as = as; cc.reset(); cn = &as; c.cov("assigned-over"); }
    VF_CHECK(c, cn->size() == m.eg.size(), "table-size", w);
    std::map<std::pair<const VolR*, std::size_t>, Ids> sd; for (auto* v : vv) for (std::size_t f = 0; f < v->numberOfFaces(); f++) { Ids s; for (auto* x : v->getSideCoordinates(f)) s.insert(x->getId().toInt()); sd[{v, f}] = s; }
    auto side = [&](const VolR* v, std::size_t f) -> const Ids& { return sd.at({v, f}); }; auto sideSlow = [&](const VolR* v, std::size_t f) { Ids s; for (auto* x : v->getSideCoordinates(f)) s.insert(x->getId().toInt()); return s; }; (void)sideSlow;
    std::vector<const SurfR*> ss; for (std::size_t i = 0; i < m.eg.size(); i++) if (m.eg(i)->is<SurfR>()) ss.push_back(m.eg(i)->castTo<SurfR>());
    for (auto* v : vv) for (std::size_t f = 0; f < v->numberOfFaces(); f++) { Graph::Face want(nullptr, 0); for (auto* u : vv) if (u != v) for (std::size_t h = 0; h < u->numberOfFaces(); h++) if (side(u, h) == side(v, f)) want = Graph::Face(u, h); Graph::Face here(v, f), got = cn->getNeighFace(here); VF_CHECK(c, got == want, "neighbour-face", w << ": face " << f << " of volume " << v->getId()); VF_CHECK(c, cn->isDomainBoundary(here) == (want.first == nullptr), "boundary-face", w << ": face " << f << " of volume " << v->getId()); const SurfR* ws = nullptr; for (auto* s : ss) if (vids(s) == side(v, f)) ws = s; VF_CHECK(c, cn->getNeighSurf(here) == ws, "neighbour-surface", w << ": face " << f << " of volume " << v->getId()); c.ev("faces"); }
    for (auto* s : ss) { std::vector<Graph::Face> at2; for (auto* u : vv) for (std::size_t h = 0; h < u->numberOfFaces(); h++) if (side(u, h) == vids(s)) at2.push_back(Graph::Face(u, h)); Graph::Face in(nullptr, 0), out(nullptr, 0);
        if (at2.size() == 1) in = at2[0]; if (at2.size() == 2) { auto cen = [&](const VolR* v) { CVecR3 x(0.0); for (std::size_t k = 0; k < v->numberOfCoordinates(); k++) x = x + v->getV(k)->pos(); return x / double(v->numberOfCoordinates()); }; CVecR3 a = s->getV(0)->pos(), nn = (s->getV(1)->pos() - a) ^ (s->getV(2)->pos() - a); int i = nn.dot(cen(at2[0].first) - cen(at2[1].first)) < 0 ? 0 : 1; i = 1 - i; /* the faces of right-handed volumes look inwards */ in = at2[i]; out = at2[1 - i]; c.cov("surface-inside"); }
        VF_CHECK(c, cn->getInnerFace(s) == in, "inner-face", w << ": surface " << s->getId() << " between " << at2.size() << " volumes, normal " << s->getNormal()); VF_CHECK(c, cn->getOuterFace(s) == out, "outer-face", w << ": surface " << s->getId()); VF_CHECK(c, cn->isDomainBoundary(s) == (at2.size() < 2), "boundary-surface", w << ": surface " << s->getId()); c.ev("surfaces"); }
    VF_CHECK(c, cn->isDomainBoundary(Graph::Face(nullptr, 0)), "boundary-none", w); VF_CHECK(c, cn->existsReciprocity(), "reciprocity", w << ": denied although every face has one neighbour at most");
    if (triple) { // a third volume on a shared face
        for (auto* v : vv) for (std::size_t f = 0; f < v->numberOfFaces() && triple; f++) if (cn->getNeighFace(Graph::Face(v, f)).first) { auto s = v->getSideCoordinates(f); const CoordR3* far = m.cg.add(new CoordR3(CoordId(600), CVecR3(9 * sc, 9 * sc, 9 * sc)))(0); const CoordR3* t[4] = {s[0], s[1], s[2], far}; m.eg.add(new Tet4(ElemId(900), t)); Graph::Connectivities three(m.eg); VF_CHECK(c, !three.existsReciprocity(), "reciprocity", w << ": granted although three volumes share a face"); c.cov("three-volumes"); triple = false; } }
}
}
void vf_case(vf::Ctx& c) {
    c.interesting = true; int kind = c.rng.range(0, 4); c.cov("kind" + std::to_string(kind));
    if (kind <= 1) return cells(c); if (kind == 2) return lines(c);
    M m, m2; soup(c, m); soup(c, m2); std::string w = show(m.eg); c.note(w); { VG g; g.init(m.eg); verify(c, g, m.eg, w); std::string d0 = dump(g); if (kind == 3) { g.init(m2.eg); verify(c, g, m2.eg, w + "init again"); g.init(m.eg); verify(c, g, m.eg, w + "init again"); }
        std::unique_ptr<VG> cp(new VG(g)); verify(c, *cp, m.eg, w + "copy"); VF_CHECK(c, dump(*cp) == d0, "copy-same", w << ": " << dump(*cp) << " expected " << d0); VG as; if (c.rng.chance(0.5)) as.init(m2.eg); as = *cp; as = as; cp.reset(); verify(c, as, m.eg, w + "assigned"); g.init(m2.eg); verify(c, as, m.eg, w + "assigned, original changed"); }
}
VF_PROBE("build-again-leak") { M m; soup(c, m); for (int i = 0; i < 5; i++) { CVecR3 p(i, 0, 0); m.cg.add(new CoordR3(CoordId(1000 + i), p)); } for (int i = 0; i < 4; i++) { const CoordR3* v[2] = {m.cg.getId(CoordId(1000 + i)), m.cg.getId(CoordId(1001 + i))}; m.eg.add(new LinR2(ElemId(1000 + i), v)); } VG g, h; g.init(m.eg); h = g; long l0 = vf::liveBytes(); for (int i = 0; i < 200; i++) { g.init(m.eg); h = g; Graph::Connectivities a(m.eg), b(a); b = a; } long l1 = vf::liveBytes(); VF_CHECK(c, l1 - l0 < 20000, "graph-leak", "200 times built again and assigned: " << l1 - l0 << " bytes"); }
