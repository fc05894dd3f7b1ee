// Elements: numbering of vertices and sides, measures, planes, equality, copies;
// checked against the positions given.
#include "vf.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/element/Polygon.h"
#include "geometry/element/Polyhedron.h"
#include "physicalModel/predefined/PEC.h"

using namespace SEMBA; using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
typedef std::array<double, 3> V;
namespace {
V operator-(V a, V b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
V cross(V a, V b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
double len(V a) { return std::sqrt(dot(a, a)); }
V ar(const CVecR3& p) { return {{p(0), p(1), p(2)}}; }
V ar(const CVecI3& p) { return {{double(p(0)), double(p(1)), double(p(2))}}; }

// The things every element must get right, whatever its type.
template <class T> struct Common {
    typedef Coordinate::Coordinate<T, 3> Co; typedef Element::Element<T> El; typedef Math::Vector::Cartesian<T, 3> P;
    static void check(vf::Ctx& c, const El& e, const std::vector<const Co*>& v, std::size_t id, const Geometry::Layer::Layer* lay, const PhysicalModel::PhysicalModel* mat, const std::string& w) {
        VF_CHECK(c, e.getId().toInt() == id, "identity", w << " has id " << e.getId());
        VF_CHECK(c, e.getLayer() == lay && e.getLayerId().toInt() == (lay ? lay->getId().toInt() : 0), "layer", w << " layer " << e.getLayerId());
        VF_CHECK(c, e.getModel() == mat && e.getMatId().toInt() == (mat ? mat->getId().toInt() : 0), "material", w << " material " << e.getMatId());
        VF_CHECK(c, e.numberOfCoordinates() == v.size(), "coordinate-count", w << " has " << e.numberOfCoordinates() << " expected " << v.size());
        if (e.numberOfCoordinates() != v.size()) return;
        std::vector<const Co*> all = e.getCoordinates(), vs = e.getVertices();
        for (std::size_t i = 0; i < v.size(); i++) VF_CHECK(c, e.getV(i) == v[i] && all.size() == v.size() && all[i] == v[i], "coordinates", w << " coordinate " << i);
        VF_CHECK(c, vs.size() == e.numberOfVertices(), "vertices", w);
        for (std::size_t i = 0; i < e.numberOfVertices(); i++) VF_CHECK(c, vs[i] == e.getVertex(i) && std::find(v.begin(), v.end(), vs[i]) != v.end(), "vertices", w << " vertex " << i);
        { std::set<const Co*> u(vs.begin(), vs.end()); std::set<const Co*> uv(v.begin(), v.end()); VF_CHECK(c, u.size() == vs.size() || uv.size() < v.size(), "vertices-distinct", w); }
        for (std::size_t f = 0; f < e.numberOfFaces(); f++) {
            auto sc = e.getSideCoordinates(f), sv = e.getSideVertices(f);
            VF_CHECK(c, sc.size() == e.numberOfSideCoordinates(f) && sv.size() == e.numberOfSideVertices(f), "side-size", w << " side " << f << " has " << sc.size() << " and " << sv.size());
            for (std::size_t i = 0; i < sc.size(); i++) VF_CHECK(c, sc[i] == e.getSideV(f, i) && std::find(v.begin(), v.end(), sc[i]) != v.end(), "side-coordinates", w << " side " << f);
            for (std::size_t i = 0; i < sv.size(); i++) VF_CHECK(c, sv[i] == e.getSideVertex(f, i) && std::find(sc.begin(), sc.end(), sv[i]) != sc.end() && std::find(vs.begin(), vs.end(), sv[i]) != vs.end(), "side-vertices", w << " side " << f);
        }
        P lo = v[0]->pos(), hi = lo; for (auto* q : v) for (int d = 0; d < 3; d++) { lo(d) = std::min(lo(d), q->pos()(d)); hi(d) = std::max(hi(d), q->pos()(d)); }
        auto b = e.getBound(); for (int d = 0; d < 3; d++) VF_CHECK(c, b.getMin()(d) == lo(d) && b.getMax()(d) == hi(d), "bound", w << " bound " << b.getMin() << b.getMax());
        // Vertices lie on a coarse lattice, so that lexicographical order is exact.
        const Co* mn = vs[0]; const Co* mx = vs[0];
        auto less = [](const Co* a, const Co* q) { for (int d = 0; d < 3; d++) if (a->pos()(d) != q->pos()(d)) return a->pos()(d) < q->pos()(d); return false; };
        for (auto* q : vs) { if (less(q, mn)) mn = q; if (less(mx, q)) mx = q; }
        VF_CHECK(c, e.getMinV()->pos() == mn->pos() && e.getMaxV()->pos() == mx->pos(), "lowest-vertex", w << " lowest " << e.getMinV()->pos() << " highest " << e.getMaxV()->pos());
        for (auto* q : v) VF_CHECK(c, e.isCoordinate(q), "has-coordinate", w);
        { P far = hi; for (int d = 0; d < 3; d++) far(d) += 100; Co o(CoordId(999999), far); VF_CHECK(c, !e.isCoordinate(&o), "has-coordinate", w << " claims a foreign one"); }
    }
    // Copies are equal, share the coordinates, and changing one leaves the other alone.
    static void copies(vf::Ctx& c, El& e, const std::vector<const Co*>& v, const std::string& w, bool settable) {
        std::unique_ptr<El> k(dynamic_cast<El*>(e.clone()));
        VF_CHECK(c, *k == e && e == *k && typeid(*k) == typeid(e) && !(*k != e), "copy-equal", w);
        for (std::size_t i = 0; i < v.size(); i++) VF_CHECK(c, k->getV(i) == v[i], "copy-coordinates", w);
        VF_CHECK(c, k->getId() == e.getId() && k->getLayer() == e.getLayer() && k->getModel() == e.getModel(), "copy-attributes", w);
        k->setId(Geometry::ElemId(e.getId().toInt() + 1)); VF_CHECK(c, !(*k == e) && *k != e, "equal-other-id", w); k->setId(e.getId()); VF_CHECK(c, *k == e, "copy-equal", w);
        Layer::Layer l(LayerId(77), "other"); auto* ol = k->getLayer(); k->setLayer(&l); VF_CHECK(c, !(*k == e) && e.getLayer() == ol && k->getLayerId() == LayerId(77), "equal-other-layer", w); k->setLayer(ol);
        PhysicalModel::Predefined::PEC m(MatId(78)); auto* om = k->getModel(); k->setModel(&m); VF_CHECK(c, !(*k == e) && e.getModel() == om && k->getMatId() == MatId(78), "equal-other-material", w); k->setModel(om);
        if (settable) {
            std::size_t i = c.rng.range(0, v.size() - 1); P far = v[i]->pos(); far(c.rng.range(0, 2)) += 50; Co o(CoordId(12345), far);
            k->setV(i, &o); VF_CHECK(c, k->getV(i) == &o && e.getV(i) == v[i], "copy-independent", w); VF_CHECK(c, !(*k == e), "equal-other-coordinate", w << " coordinate " << i);
            VF_CHECK(c, k->isCoordinate(&o), "has-coordinate", w);
            auto kb = k->getBound(); bool in = true; for (int d = 0; d < 3; d++) in = in && kb.getMin()(d) <= far(d) && far(d) <= kb.getMax()(d); VF_CHECK(c, in, "bound", w << " after a change");
            k->setV(i, v[i]); VF_CHECK(c, *k == e, "copy-equal", w);
        }
    }
};
// The sides of a volume form a closed surface: every edge is run through once in each direction, all normals point the same way.
template <class T> double closed(vf::Ctx& c, const Element::Volume<T>& e, const std::string& w, bool planar) {
    std::map<std::pair<const void*, const void*>, int> edges; V cen{{0, 0, 0}}; for (std::size_t i = 0; i < e.numberOfVertices(); i++) for (int d = 0; d < 3; d++) cen[d] += ar(e.getVertex(i)->pos())[d] / e.numberOfVertices();
    int out = 0, in = 0; double vol = 0;
    for (std::size_t f = 0; f < e.numberOfFaces(); f++) {
        std::size_t n = e.numberOfSideVertices(f); V nm{{0, 0, 0}}, p0 = ar(e.getSideVertex(f, 0)->pos());
        for (std::size_t i = 0; i < n; i++) { edges[std::make_pair((const void*)e.getSideVertex(f, i), (const void*)e.getSideVertex(f, (i + 1) % n))]++;
            V x = cross(ar(e.getSideVertex(f, i)->pos()) - p0, ar(e.getSideVertex(f, (i + 1) % n)->pos()) - p0); for (int d = 0; d < 3; d++) nm[d] += x[d] / 2; }
        double s = dot(nm, p0 - cen); vol += s / 3; if (s > 0) out++; else in++;
        if (planar) { VF_CHECK(c, vf::near(e.getAreaOfFace(f), len(nm), 1e-9), "face-area", w << " face " << f << " has area " << e.getAreaOfFace(f) << " expected " << len(nm)); }
        auto fb = e.getBoundOfFace(f); for (int d = 0; d < 3; d++) { double lo = 1e300, hi = -1e300; for (std::size_t i = 0; i < e.numberOfSideCoordinates(f); i++) { lo = std::min(lo, double(e.getSideV(f, i)->pos()(d))); hi = std::max(hi, double(e.getSideV(f, i)->pos()(d))); }
            VF_CHECK(c, fb.getMin()(d) == lo && fb.getMax()(d) == hi, "face-bound", w << " face " << f); }
    }
    for (auto& x : edges) VF_CHECK(c, x.second == 1 && edges.count(std::make_pair(x.first.second, x.first.first)), "closed", w << ": an edge is not shared by two faces in opposite directions");
    VF_CHECK(c, out == 0 || in == 0, "orientation", w << ": " << out << " faces look outwards and " << in << " inwards");
    return std::fabs(vol);
}
struct World {
    std::vector<std::unique_ptr<CoordR3>> r; std::vector<std::unique_ptr<CoordI3>> i; std::vector<std::size_t> ids; std::size_t nx = 0;
    Geometry::Layer::Layer lay{LayerId(5), "lay"}; PhysicalModel::Predefined::PEC mat{MatId(6)};
    const Geometry::Layer::Layer* l; const PhysicalModel::PhysicalModel* m; std::size_t id;
    explicit World(vf::Ctx& c) { for (int k = 1; k < 420; k++) ids.push_back(k * 3); c.rng.shuffle(ids); l = c.rng.chance(0.7) ? &lay : nullptr; m = c.rng.chance(0.7) ? &mat : nullptr; id = c.rng.range(1, 9999); }
    const CoordR3* co(V p) { r.emplace_back(new CoordR3(CoordId(ids[nx++]), CVecR3(p[0], p[1], p[2]))); return r.back().get(); }
    const CoordI3* ci(const CVecI3& p) { i.emplace_back(new CoordI3(CoordId(ids[nx++]), p)); return i.back().get(); }
    std::vector<const CoordR3*> cos(const std::vector<V>& ps) { std::vector<const CoordR3*> o; for (auto& p : ps) o.push_back(co(p)); return o; }
};
V latt(vf::Ctx& c) { return {{c.rng.range(-8, 8) * 0.5, c.rng.range(-8, 8) * 0.5, c.rng.range(-8, 8) * 0.5}}; }
std::string show(const std::vector<const CoordR3*>& v) { std::ostringstream o; for (auto* p : v) o << p->pos(); return o.str(); }
double vol6(V a, V b, V d, V e) { return dot(cross(b - a, d - a), e - a); }
V lin(V a, double t, V b) { return {{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])}}; }

void surface(vf::Ctx& c, const SurfR& s, const std::string& w) {
    V n = cross(ar(s.getVertex(1)->pos()) - ar(s.getVertex(0)->pos()), ar(s.getVertex(2)->pos()) - ar(s.getVertex(0)->pos())); double l = len(n); V g = ar(s.getNormal());
    VF_CHECK(c, l < 1e-9 || len(g - V{{n[0] / l, n[1] / l, n[2] / l}}) < 1e-9, "normal", w << " has normal " << s.getNormal());
    bool any = false; for (int d = 0; d < 3; d++) { bool flat = true; for (std::size_t i = 1; i < s.numberOfCoordinates(); i++) flat = flat && s.getV(i)->pos()(d) == s.getV(0)->pos()(d);
        Math::Constants::CartesianPlane pl = d == 2 ? Math::Constants::xy : d == 0 ? Math::Constants::yz : Math::Constants::zx; VF_CHECK(c, s.isContainedInPlane(pl) == flat, "in-plane", w << " normal to axis " << d << " says " << s.isContainedInPlane(pl)); any = any || flat; }
    VF_CHECK(c, s.isContainedInPlane() == any, "in-plane", w);
    // the sides close a loop around the surface
    std::map<const void*, int> st, en; for (std::size_t f = 0; f < s.numberOfFaces(); f++) { st[s.getSideVertex(f, 0)]++; en[s.getSideVertex(f, 1)]++; VF_CHECK(c, s.getSideVertex(f, 1) == s.getSideVertex((f + 1) % s.numberOfFaces(), 0), "side-loop", w << " side " << f); }
    for (std::size_t i = 0; i < s.numberOfVertices(); i++) VF_CHECK(c, st[s.getVertex(i)] == 1 && en[s.getVertex(i)] == 1, "side-loop", w << " vertex " << i);
}
} // namespace

void vf_case(vf::Ctx& c) {
    World W(c); int kind = c.index % 12; c.cov("kind" + std::to_string(kind)); std::ostringstream o; c.interesting = true;
    auto common = [&](ElemR& e, const std::vector<const CoordR3*>& v, const std::string& w) { Common<double>::check(c, e, v, W.id, W.l, W.m, w); Common<double>::copies(c, e, v, w, !e.is<Element::Polyhedron>()); };
    bool flat = c.rng.chance(0.4); int fd = c.rng.range(0, 2); double fv = c.rng.range(-8, 8) * 0.5;
    auto P = [&] { V p = latt(c); if (flat) p[fd] = fv; return p; };
    if (kind == 0) {
        auto v = W.cos({P()}); std::string w = "node " + show(v); c.note(w); NodR e(ElemId(W.id), &v[0], W.l, W.m); common(e, v, w);
        auto l = W.cos({P(), P()}); w = "line " + show(l); c.note(w); LinR2 le(ElemId(W.id), &l[0], W.l, W.m); common(le, l, w);
        VF_CHECK(c, le.getSideV(0, 0) == l[0] && le.getSideV(1, 0) == l[1] && le.getSideVertex(0, 0) == l[0] && le.getSideVertex(1, 0) == l[1], "line-ends", w);
        std::array<const CoordR3*, 2> la{{l[0], l[1]}}; LinR2 l2(ElemId(W.id), la, W.l, W.m); VF_CHECK(c, l2 == le, "equal", w); LinR2 l3(&l[0]); VF_CHECK(c, l3.getV(0) == l[0] && l3.getV(1) == l[1] && l3.getLayer() == nullptr && l3.getModel() == nullptr, "coordinates", w);
        const CoordR3* rv[2] = {l[1], l[0]}; LinR2 rl(ElemId(W.id), rv, W.l, W.m); VF_CHECK(c, (rl == le) == (l[0]->getId() == l[1]->getId() && false), "equal-reversed", w);
        VF_CHECK(c, !(le == e) && !(e == le), "equal-other-type", w); VF_CHECK(c, (Element::Base::areSameCoords(le.getCoordinates(), rl.getCoordinates())) && !(Element::Base::areSameCoords(le.getCoordinates(), e.getCoordinates())), "same-coordinates", w);
        int n = c.rng.range(2, 9); std::vector<V> ps(n); for (auto& p : ps) p = P(); auto pv = W.cos(ps); w = "polyline " + show(pv); c.note(w); PolylinR pl(ElemId(W.id), pv, W.l, W.m); common(pl, pv, w);
        VF_CHECK(c, pl.getVertex(0) == pv[0] && pl.getVertex(1) == pv[n - 1] && pl.getSideV(0, 0) == pv[0] && pl.getSideV(1, 0) == pv[n - 1], "line-ends", w);
        auto shorter = pv; shorter.pop_back(); PolylinR ps2(ElemId(W.id), shorter, W.l, W.m); VF_CHECK(c, !(pl == ps2) && !(ps2 == pl), "equal-other-length", w);
    } else if (kind == 1) {
        auto ip = [&] { return CVecI3(c.rng.range(-5, 5), c.rng.range(-5, 5), c.rng.range(-5, 5)); };
        std::vector<const CoordI3*> v{W.ci(ip())}; NodI e(ElemId(W.id), &v[0], W.l, W.m); Common<int>::check(c, e, v, W.id, W.l, W.m, "integer node"); Common<int>::copies(c, e, v, "integer node", true);
        std::vector<const CoordI3*> l{W.ci(ip()), W.ci(ip())}; LinI2 le(ElemId(W.id), &l[0], W.l, W.m); Common<int>::check(c, le, l, W.id, W.l, W.m, "integer line"); Common<int>::copies(c, le, l, "integer line", true);
        // conformal lines
        CVecR3 nm(c.rng.real(-1, 1), c.rng.real(-1, 1), c.rng.real(-1, 1)); CVecI3 p = ip(); auto ax = Math::Constants::CartesianAxis(c.rng.range(0, 2));
        CoordConf a(CoordId(1), p, ax, c.rng.real(0.1, 0.9)), b(CoordId(2), p, ax, c.rng.real(0.1, 0.9)); const CoordI3* cv[2] = {&a, &b}; std::vector<const CoordI3*> cc{&a, &b};
        LinConf ce(ElemId(W.id), cv, nm, W.l, W.m); Common<int>::check(c, ce, cc, W.id, W.l, W.m, "conformal line"); VF_CHECK(c, ce.getNorm() == nm && ce.getV(0) == &a && ce.getV(1) == &b, "conformal-line", nm);
        LinConf c2(cv, nm, W.l, W.m); VF_CHECK(c, c2.getV(0) == &a && c2.getV(1) == &b && c2.getNorm() == nm, "conformal-line", nm); LinConf c3(ce); VF_CHECK(c, c3.getNorm() == nm && c3 == ce && c3.getV(1) == &b, "copy-equal", "conformal line");
        const CoordI3* bad[2] = {&a, l[0]}; VF_CHECK(c, !vf::thrown([&] { LinConf x(ElemId(1), bad, nm); }).empty(), "conformal-accepts-plain", "a conformal line with a plain coordinate"); LinConf def; VF_CHECK(c, def.getLayer() == nullptr, "default", "");
        c.note("int" + vf::str(p) + vf::str(nm));
    } else if (kind == 2 || kind == 3) {
        auto v = W.cos({P(), P(), P()}); std::string w = "triangle " + show(v); c.note(w); Tri3 t(ElemId(W.id), &v[0], W.l, W.m); common(t, v, w);
        if (len(cross(ar(v[1]->pos()) - ar(v[0]->pos()), ar(v[2]->pos()) - ar(v[0]->pos()))) > 1e-9) { surface(c, t, w); c.ev("triangles"); }
        VF_CHECK(c, vf::near(t.getArea(), 0.5 * len(cross(ar(v[1]->pos()) - ar(v[0]->pos()), ar(v[2]->pos()) - ar(v[0]->pos()))), 1e-12, 1e-12), "area", w << " has area " << t.getArea());
        std::unique_ptr<Tri3> li(t.linearize()); VF_CHECK(c, *li == t, "linearize", w); VF_CHECK(c, !t.isRectangular() && !t.isCurved() && !t.isQuadratic(), "kind", w);
        // quadratic triangle: nodes in the order of the reference element of order 2
        Math::Simplex::Triangle<2> g; std::vector<V> q(6); bool curved = false; for (int s = 0; s < 3; s++) { q[g.vertex(s)] = ar(v[s]->pos()); }
        for (int s = 0; s < 3; s++) { V mid = lin(q[g.sideNode(s, 0)], 0.5, q[g.sideNode(s, 2)]); if (c.rng.chance(0.15)) { int d = c.rng.range(0, 2); if (!(flat && d == fd)) { mid[d] += c.rng.chance(0.5) ? 0.25 : -0.01; curved = true; } } q[g.sideNode(s, 1)] = mid; }
        auto qv = W.cos(q); w = "quadratic triangle " + show(qv); Tri6 t6(ElemId(W.id), &qv[0], W.l, W.m); common(t6, qv, w); c.cov(curved ? "curved" : "straight");
        VF_CHECK(c, t6.isCurved() == curved && t6.isQuadratic(), "curved", w << " curved " << t6.isCurved()); std::unique_ptr<Tri3> l6(t6.linearize());
        for (int s = 0; s < 3; s++) VF_CHECK(c, l6->getV(s) == t6.getVertex(s) && t6.getVertex(s) == qv[g.vertex(s)], "linearize", w); VF_CHECK(c, l6->getId() == t6.getId() && l6->getLayer() == W.l && l6->getModel() == W.m, "linearize", w);
        for (int s = 0; s < 3; s++) VF_CHECK(c, t6.getSideV(s, 0) == t6.getSideVertex(s, 0) && t6.getSideV(s, 2) == t6.getSideVertex(s, 1), "side-vertices", w);
        if (len(cross(ar(v[1]->pos()) - ar(v[0]->pos()), ar(v[2]->pos()) - ar(v[0]->pos()))) > 1e-9) surface(c, t6, w);
    } else if (kind == 4 || kind == 5) {
        std::vector<V> p; bool rect = kind == 4; V a = latt(c); int n = c.rng.range(0, 2), u = (n + 1) % 3, x = (n + 2) % 3; double du = c.rng.range(1, 8) * 0.5 * (c.rng.chance(0.5) ? 1 : -1), dx = c.rng.range(1, 8) * 0.5 * (c.rng.chance(0.5) ? 1 : -1); V b = a, d = a, e = a; b[u] += du; d[u] += du; d[x] += dx; e[x] += dx; p = {a, b, d, e};
        if (!rect) { int wv = c.rng.range(0, 3), wd = c.rng.chance(0.7) ? (c.rng.chance(0.5) ? u : x) : n; p[wv][wd] += (c.rng.chance(0.5) ? 1 : -1) * 0.5 * (wd == u ? std::fabs(du) : wd == x ? std::fabs(dx) : 1); }
        int rot = c.rng.range(0, 3); std::rotate(p.begin(), p.begin() + rot, p.end()); auto v = W.cos(p); std::string w = "quadrilateral " + show(v); c.note(w); QuaR4 q(ElemId(W.id), &v[0], W.l, W.m); common(q, v, w); surface(c, q, w);
        VF_CHECK(c, q.isRectangular() == rect, "rectangular", w << " says " << q.isRectangular()); std::array<const CoordR3*, 4> va{{v[0], v[1], v[2], v[3]}}; QuaR4 q2(ElemId(W.id), va, W.l, W.m); VF_CHECK(c, q2 == q, "equal", w);
    } else if (kind == 6 || kind == 7) {
        std::vector<V> p(4); do { for (auto& x : p) x = latt(c); if (flat) { p[0][fd] = p[1][fd] = p[2][fd] = fv; } } while (std::fabs(vol6(p[0], p[1], p[2], p[3])) < 1); c.rng.shuffle(p);
        auto v = W.cos(p); std::string w = "tetrahedron " + show(v); c.note(w); Tet4 t(ElemId(W.id), &v[0], W.l, W.m); common(t, v, w); double vo = closed<double>(c, t, w, true), sv = vol6(p[0], p[1], p[2], p[3]) / 6; c.ev("tetrahedra");
        VF_CHECK(c, vf::near(std::fabs(t.getVolume()), std::fabs(sv), 1e-12) && vf::near(vo, std::fabs(sv), 1e-9), "volume", w << " has volume " << t.getVolume() << " expected " << sv);
        const CoordR3* sw[4] = {v[1], v[0], v[2], v[3]}; Tet4 ts(ElemId(W.id), sw); VF_CHECK(c, vf::near(ts.getVolume(), -t.getVolume(), 1e-12), "volume-sign", w);
        for (int k = 0; k < 8; k++) { double b[4], s = 0; for (auto& x : b) s += x = c.rng.real(0.02, 1); bool inside = c.rng.chance(0.5); for (auto& x : b) x /= s; if (!inside) { int j = c.rng.range(0, 3), h = (j + 1) % 4; double dl = b[j] + c.rng.real(0.02, 0.5); b[j] -= dl; b[h] += dl; }
            CVecR3 x; for (int d = 0; d < 3; d++) { double z = 0; for (int j = 0; j < 4; j++) z += b[j] * p[j][d]; x(d) = z; } VF_CHECK(c, t.isInnerPoint(x) == inside, "inner-point", w << " point " << x << " inside " << inside); c.cov(inside ? "inside" : "outside"); }
        for (int f = 0; f < 4; f++) { std::unique_ptr<Tri3> tf(t.getTri3Face(f)); for (int i = 0; i < 3; i++) VF_CHECK(c, tf->getV(i) == t.getSideVertex(f, i), "face", w); VF_CHECK(c, tf->getLayer() == W.l && tf->getModel() == W.m && !t.isCurvedFace(f), "face", w);
            VF_CHECK(c, t.getFaceNumber(tf.get()) == std::size_t(f), "face-number", w << " face " << f << " is found as " << t.getFaceNumber(tf.get())); const CoordR3* rv[3] = {tf->getV(2), tf->getV(1), tf->getV(0)}; Tri3 rt(ElemId(0), rv); VF_CHECK(c, t.getFaceNumber(&rt) == std::size_t(f), "face-number", w << " reversed face " << f);
            VF_CHECK(c, t.isLocalFace(f, *tf) && !t.isLocalFace(f, rt), "local-face", w << " face " << f); VF_CHECK(c, len(ar(t.getSideNormal(f)) - ar(tf->getNormal())) < 1e-9, "normal", w);
            for (auto pl : {Math::Constants::xy, Math::Constants::yz, Math::Constants::zx}) { int d = pl == Math::Constants::xy ? 2 : pl == Math::Constants::yz ? 0 : 1; bool fl = tf->getV(0)->pos()(d) == tf->getV(1)->pos()(d) && tf->getV(0)->pos()(d) == tf->getV(2)->pos()(d); VF_CHECK(c, t.isFaceContainedInPlane(f, pl) == fl, "face-plane", w << " face " << f); } }
        auto far = W.cos({{{50, 0, 0}}, {{0, 50, 0}}, {{0, 0, 50}}, {{50, 50, 50}}}); Tri3 ft(ElemId(9), &far[0]); VF_CHECK(c, !vf::thrown([&] { t.getFaceNumber(&ft); }).empty(), "face-number-foreign", w); QuaR4 fq(ElemId(9), &far[0]); VF_CHECK(c, !vf::thrown([&] { t.getFaceNumber(&fq); }).empty(), "face-number-foreign", w << " a quadrilateral");
        const CoordR3* mixq[4] = {t.getSideVertex(1, 0), t.getSideVertex(1, 1), t.getSideVertex(1, 2), far[0]}; QuaR4 mq(ElemId(9), mixq); VF_CHECK(c, !vf::thrown([&] { t.getFaceNumber(&mq); }).empty(), "face-number-foreign", w << " a quadrilateral over a face");
        // flat ones are refused
        std::vector<V> z = p; for (auto& x : z) x[fd] = fv; auto zv = W.cos(z); std::string th = vf::thrown([&] { Tet4 x(ElemId(1), &zv[0]); }); VF_CHECK(c, th.find("NullVolume") != std::string::npos, "flat-accepted", "flat tetrahedron " << show(zv) << ": " << th);
        // quadratic
        Math::Simplex::Tetrahedron<2> g; std::vector<V> q(10); for (int s = 0; s < 4; s++) q[g.vertex(s)] = p[s]; std::set<int> done; std::set<int> bent; for (int s = 0; s < 4; s++) done.insert(g.vertex(s));
        for (std::size_t i = 0; i < 10; i++) if (!done.count(i)) { std::vector<int> on; for (int s = 0; s < 4; s++) if (g.nodeIndex(i, s) == 1) on.push_back(s); VF_CHECK(c, on.size() == 2, "quadratic-node", i); if (on.size() != 2) return; q[i] = lin(p[on[0]], 0.5, p[on[1]]); if (c.rng.chance(0.12)) { q[i][c.rng.range(0, 2)] += 0.125; bent.insert(i); } }
        auto qv = W.cos(q); w = "quadratic tetrahedron " + show(qv); Tet10 t10(ElemId(W.id), &qv[0], W.l, W.m); common(t10, qv, w); VF_CHECK(c, t10.isCurved() == !bent.empty() && t10.isQuadratic(), "curved", w); c.cov(bent.empty() ? "straight10" : "curved10");
        for (int f = 0; f < 4; f++) { bool cf = false; for (int i = 0; i < 6; i++) for (int b : bent) cf = cf || t10.getSideV(f, i) == qv[b]; VF_CHECK(c, t10.isCurvedFace(f) == cf, "curved-face", w << " face " << f); Tri6 tf = t10.getTri6Face(f); for (int i = 0; i < 6; i++) VF_CHECK(c, tf.getV(i) == t10.getSideV(f, i), "face", w);
            for (int i = 0; i < 3; i++) { VF_CHECK(c, tf.getVertex(i) == t10.getSideVertex(f, i), "face", w << " vertex " << i << " of face " << f); V mid = lin(ar(tf.getSideV(i, 0)->pos()), 0.5, ar(tf.getSideV(i, 2)->pos())); if (!cf) VF_CHECK(c, len(mid - ar(tf.getSideV(i, 1)->pos())) < 1e-12, "face-midpoint", w << " side " << i << " of face " << f); } }
        std::unique_ptr<Tet4> l4(t10.linearize()); for (int i = 0; i < 4; i++) VF_CHECK(c, l4->getV(i) == qv[g.vertex(i)] && t10.getVertex(i) == qv[g.vertex(i)], "linearize", w); VF_CHECK(c, l4->getId() == t10.getId() && l4->getLayer() == W.l && l4->getModel() == W.m, "linearize", w);
    } else if (kind == 8 || kind == 9) {
        // built from a box: coordinates are shared with the collection
        V a = latt(c); V b = a; for (int d = 0; d < 3; d++) b[d] += c.rng.range(1, 8) * 0.5; Coordinate::Group<CoordR3> cg; std::vector<const CoordR3*> pre; for (int k = 0; k < 8; k++) if (c.rng.chance(0.4)) { CVecR3 x((k & 1 ? b : a)[0], (k & 2 ? b : a)[1], (k & 4 ? b : a)[2]); pre.push_back(cg.addPos(x)); }
        BoxR3 box(CVecR3(a[0], a[1], a[2]), CVecR3(b[0], b[1], b[2])); HexR8 h(cg, ElemId(W.id), box, W.l, W.m); std::string w = "hexahedron " + vf::str(box.getMin()) + vf::str(box.getMax()); c.note(w);
        VF_CHECK(c, cg.size() == 8, "shared-coordinates", w << ": the collection has " << cg.size()); for (auto* q : pre) VF_CHECK(c, h.isCoordinate(q) && [&] { for (int i = 0; i < 8; i++) if (h.getV(i) == q) return true; return false; }(), "shared-coordinates", w << " does not use " << q->pos());
        std::vector<const CoordR3*> v; for (int i = 0; i < 8; i++) v.push_back(h.getV(i)); Common<double>::check(c, h, v, W.id, W.l, W.m, w); Common<double>::copies(c, h, v, w, true);
        std::set<std::vector<double>> cs; for (auto* q : v) cs.insert({q->pos()(0), q->pos()(1), q->pos()(2)}); VF_CHECK(c, cs.size() == 8, "corners", w); double vo = closed<double>(c, h, w, true); VF_CHECK(c, vf::near(vo, (b[0] - a[0]) * (b[1] - a[1]) * (b[2] - a[2]), 1e-9), "volume", w << " encloses " << vo); VF_CHECK(c, h.isRegular(), "regular", w);
        { HexR8 k(h); CVecR3 mv = k.getV(3)->pos(); int mvd = c.rng.range(0, 2); mv(mvd) += 0.25; CoordR3 o2(CoordId(5000), mv); int vi = c.rng.range(0, 7); mv = k.getV(vi)->pos(); mv(mvd) += 0.25; CoordR3 o3(CoordId(5001), mv); k.setV(vi, &o3); VF_CHECK(c, !k.isRegular() && h.isRegular(), "regular", w << " with a moved vertex"); }
        QuaR4 face(ElemId(3), std::array<const CoordR3*, 4>{{h.getSideV(4, 0), h.getSideV(4, 1), h.getSideV(4, 2), h.getSideV(4, 3)}}, nullptr, nullptr); VF_CHECK(c, h.getFaceNumber(&face) == 4 && h.isLocalFace(4, face), "face-number", w);
        for (int f = 0; f < 6; f++) { int fl = 0; for (auto pl : {Math::Constants::xy, Math::Constants::yz, Math::Constants::zx}) { int d = pl == Math::Constants::xy ? 2 : pl == Math::Constants::yz ? 0 : 1; bool want = h.getSideV(f, 0)->pos()(d) == h.getSideV(f, 2)->pos()(d); VF_CHECK(c, h.isFaceContainedInPlane(f, pl) == want, "face-plane", w << " face " << f); fl += want; } VF_CHECK(c, fl == 1, "face-plane", w << " face " << f << " is flat in " << fl << " planes"); }
        Coordinate::Group<CoordI3> ig; CVecI3 ia(c.rng.range(-5, 5), c.rng.range(-5, 5), c.rng.range(-5, 5)), ib = ia; for (int d = 0; d < 3; d++) ib(d) += c.rng.range(1, 4); HexI8 hi(ig, ElemId(W.id), BoxI3(ia, ib), W.l, W.m); std::vector<const CoordI3*> iv; for (int i = 0; i < 8; i++) iv.push_back(hi.getV(i)); Common<int>::check(c, hi, iv, W.id, W.l, W.m, "integer " + w); Common<int>::copies(c, hi, iv, "integer " + w, true); VF_CHECK(c, hi.isRegular(), "regular", "integer " << w); double iw = closed<int>(c, hi, "integer " + w, true); VF_CHECK(c, vf::near(iw, double((ib(0) - ia(0)) * (ib(1) - ia(1)) * (ib(2) - ia(2))), 1e-9), "volume", "integer " << w);
        // lower dimensions
        for (int dim = 0; dim < 4; dim++) { CVecR3 lo(a[0], a[1], a[2]), up = lo; std::vector<int> ds{0, 1, 2}; c.rng.shuffle(ds); for (int k = 0; k < dim; k++) up(ds[k]) = b[ds[k]]; BoxR3 q(lo, up); std::size_t before = cg.size();
            std::string t0 = vf::thrown([&] { NodR e(cg, ElemId(1), q); VF_CHECK(c, e.getV(0)->pos() == lo, "corners", w); }), t1 = vf::thrown([&] { LinR2 e(cg, ElemId(1), q, W.l, W.m); LinR2 e2(cg, q); VF_CHECK(c, e.getV(0) == e2.getV(0) && e.getV(1) == e2.getV(1) && e.getLayer() == W.l && e.getModel() == W.m && e2.getLayer() == nullptr, "corners", w); VF_CHECK(c, std::min(e.getV(0)->pos().norm(), 1e9) >= 0 && e.getBound().getMin() == lo && e.getBound().getMax() == up, "corners", w << " line"); }),
                t2 = vf::thrown([&] { QuaR4 e(cg, ElemId(1), q); VF_CHECK(c, e.getBound().getMin() == lo && e.getBound().getMax() == up && e.isRectangular(), "corners", w << " quadrilateral"); surface(c, e, w); }), t3 = vf::thrown([&] { HexR8 e(cg, ElemId(1), q); });
            VF_CHECK(c, t0.empty() == (dim == 0) && t1.empty() == (dim == 1) && t2.empty() == (dim == 2) && t3.empty() == (dim == 3), "box-dimension", w << " dimension " << dim << " accepted as node " << t0.empty() << " line " << t1.empty() << " surface " << t2.empty() << " volume " << t3.empty()); VF_CHECK(c, cg.size() == before, "shared-coordinates", w << " dimension " << dim << " added coordinates"); }
    } else if (kind == 10) {
        int n = c.rng.range(5, 9); std::vector<V> p(n); double r = c.rng.real(1, 3); int d = c.rng.range(0, 2); V o3 = latt(c); for (int i = 0; i < n; i++) { double t = 2 * Math::Constants::pi * i / n; p[i] = o3; p[i][(d + 1) % 3] += r * std::cos(t); p[i][(d + 2) % 3] += r * std::sin(t); }
        auto v = W.cos(p); std::string w = "polygon " + show(v); c.note(w); Element::Polygon g(ElemId(W.id), v, W.l, W.m); Common<double>::copies(c, g, v, w, true); surface(c, g, w); VF_CHECK(c, g.numberOfFaces() == std::size_t(n) && g.numberOfVertices() == std::size_t(n) && !g.isRectangular(), "polygon", w);
        for (int i = 0; i < n; i++) VF_CHECK(c, g.getSideV(i, 0) == v[i] && g.getSideV(i, 1) == v[(i + 1) % n], "polygon", w);
    } else {
        // prism-like closed shells of pentagons and larger polygons
        int n = 5; std::vector<const Element::Polygon*> faces; std::vector<std::unique_ptr<Element::Polygon>> own; auto add = [&](std::vector<const CoordR3*> q) { own.emplace_back(new Element::Polygon(ElemId(own.size() + 1), q)); faces.push_back(own.back().get()); };
        std::string w; bool dodeca = c.rng.chance(0.5);
        if (dodeca) { // two rims of N sides and two rings of N pentagons: for N = 5, a dodecahedron
            int N = c.rng.chance(0.5) ? 5 : c.rng.range(5, c.rng.chance(0.2) ? 70 : 14); std::vector<V> p(4 * N); for (auto& x : p) x = latt(c); for (int i = 0; i < 4 * N; i++) p[i][0] += i * 16; auto v = W.cos(p); // top ring, the one below, lower, bottom
            add(std::vector<const CoordR3*>(v.begin(), v.begin() + N)); for (int i = 0; i < N; i++) { int j = (i + 1) % N; add({v[i], v[N + i], v[2 * N + i], v[N + j], v[j]}); add({v[2 * N + i], v[3 * N + i], v[3 * N + j], v[2 * N + j], v[N + j]}); } add(std::vector<const CoordR3*>(v.rbegin(), v.rbegin() + N)); w = "dodecahedron-like " + show(v); n = 4 * N; if (N > 14) c.cov("many-faces");
        } else { n = c.rng.range(5, 9); std::vector<V> p(n); for (int i = 0; i < n; i++) { p[i] = latt(c); p[i][0] += i * 16; } auto v = W.cos(p); add(v); std::rotate(v.begin(), v.begin() + c.rng.range(0, n - 1), v.end()); if (c.rng.chance(0.5)) std::reverse(v.begin(), v.end()); add(v); w = "two-sided polygon " + show(v); }
        c.note(w); c.rng.shuffle(faces); std::unique_ptr<Element::Polyhedron> ph; std::string t = vf::thrown([&] { ph.reset(new Element::Polyhedron(ElemId(W.id), faces, W.l, W.m)); }); VF_CHECK(c, t.empty(), "closed-refused", w << " " << t); if (!ph) return;
        VF_CHECK(c, ph->numberOfFaces() == faces.size() && ph->numberOfVertices() == std::size_t(n), "polyhedron", w << " has " << ph->numberOfVertices() << " vertices"); std::vector<const CoordR3*> pv; for (std::size_t i = 0; i < ph->numberOfCoordinates(); i++) pv.push_back(ph->getV(i)); common(*ph, pv, w);
        { std::set<const CoordR3*> want, got(pv.begin(), pv.end()); for (auto* f : faces) for (std::size_t i = 0; i < f->numberOfVertices(); i++) want.insert(f->getV(i)); VF_CHECK(c, want == got && got.size() == pv.size(), "polyhedron", w << ": vertices are not those of the faces"); Element::Polyhedron cp(*ph); bool same = cp.numberOfFaces() == ph->numberOfFaces() && cp.numberOfVertices() == ph->numberOfVertices(); for (std::size_t i = 0; same && i < cp.numberOfVertices(); i++) same = cp.getV(i) == ph->getV(i); for (std::size_t f = 0; same && f < cp.numberOfFaces(); f++) { same = cp.getFace(f) == ph->getFace(f) && cp.numberOfSideVertices(f) == faces[f]->numberOfVertices() && cp.numberOfSideCoordinates(f) == faces[f]->numberOfVertices(); for (std::size_t i = 0; same && i < cp.numberOfSideVertices(f); i++) same = cp.getSideV(f, i) == faces[f]->getV(i) && cp.getSideVertex(f, i) == faces[f]->getV(i); } VF_CHECK(c, same, "polyhedron-copy", w); }
        for (std::size_t f = 0; f < faces.size(); f++) { VF_CHECK(c, ph->getFace(f) == faces[f] && ph->getFaceNumber(faces[f]) <= f && !ph->isCurvedFace(f), "polyhedron", w); }
        if (faces.size() > 2) { auto open = faces; open.erase(open.begin() + c.rng.range(0, open.size() - 1)); t = vf::thrown([&] { Element::Polyhedron x(ElemId(1), open); }); VF_CHECK(c, !t.empty(), "open-accepted", w << " without a face"); c.ev("open"); }
        else { std::vector<const Element::Polygon*> one{faces[0]}; t = vf::thrown([&] { Element::Polyhedron x(ElemId(1), one); }); VF_CHECK(c, !t.empty(), "open-accepted", w << " with one face"); }
    }
}
