// Random meshes together with a plain description of what they hold.
#pragma once
#include "vf.h"
#include "geometry/mesh/Geometric.h"
#include "geometry/mesh/Structured.h"
#include "geometry/element/Line2.h"
#include "geometry/element/LineConformal.h"
#include "geometry/element/Polyline.h"
#include "geometry/element/Triangle3.h"
#include "geometry/element/Triangle6.h"
#include "geometry/element/Quadrilateral4.h"
#include "geometry/element/Tetrahedron4.h"
#include "geometry/element/Tetrahedron10.h"
#include "geometry/element/Hexahedron8.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"

namespace mg {
using namespace SEMBA; using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
struct C { std::size_t id; double p[3]; int kind = 0; double rel[3] = {0, 0, 0}; int dir = 0; };      // kind: 0 plain 1 relative 2 conformal
struct E { std::size_t id; int type; std::vector<std::size_t> v; std::size_t mat, lay; double n[3] = {0, 0, 0}; };
struct L { std::size_t id; std::string name; };
struct Desc { std::vector<C> co; std::vector<E> el; std::vector<L> la; std::vector<double> g[3]; std::vector<std::size_t> bound = std::vector<std::size_t>(6, 0); };
enum { kNod, kLin, kTri, kQua, kTet, kPol, kTri6, kTet10, kHex, kConf };
inline int nodes(int t, vf::Ctx& c) { static const int n[] = {1, 2, 3, 4, 4, 0, 6, 10, 8, 2}; return t == kPol ? int(c.rng.range(2, 6)) : n[t]; }

inline Grid3 makeGrid(const Desc& d) { std::vector<double> p[3] = {d.g[0], d.g[1], d.g[2]}; return Grid3(p); }
inline void randomGrid(vf::Ctx& c, Desc& d, int maxCells = 8) { for (int k = 0; k < 3; k++) { double x = c.rng.range(-20, 20) * 0.25; int n = c.rng.range(1, maxCells); d.g[k].clear(); d.g[k].push_back(x); bool reg = c.rng.chance(0.5); double s = c.rng.range(1, 8) * 0.125; for (int i = 0; i < n; i++) { x += reg ? s : c.rng.range(1, 8) * 0.125; d.g[k].push_back(x); } } }
inline std::vector<std::size_t> freshIds(vf::Ctx& c, int n) { std::vector<std::size_t> v; std::size_t x = 0; for (int i = 0; i < n; i++) v.push_back(x += c.rng.range(1, 3)); c.rng.shuffle(v); return v; }
inline std::string show(const Desc& d) { std::ostringstream o; o << d.co.size() << " coordinates "; for (auto& e : d.el) { o << e.id << ":" << e.type << "/" << e.mat << "/" << e.lay << "("; for (auto v : e.v) o << v << ","; o << ") "; } return o.str(); }

template <class T> struct Build;
template <> struct Build<double> {
    static CoordR3* co(const C& x) { return new CoordR3(CoordId(x.id), CVecR3(x.p[0], x.p[1], x.p[2])); }
    static ElemR* el(const E& e, std::vector<const CoordR3*> v, const Layer::Layer* l, const Element::Model* m) { ElemId id(e.id);
        switch (e.type) { case kNod: return new NodR(id, &v[0], l, m); case kLin: return new LinR2(id, &v[0], l, m); case kTri: return new Tri3(id, &v[0], l, m); case kQua: return new QuaR4(id, &v[0], l, m); case kTet: return new Tet4(id, &v[0], l, m); case kPol: return new PolylinR(id, v, l, m); case kTri6: return new Geometry::Tri6(id, &v[0], l, m); case kTet10: return new Geometry::Tet10(id, &v[0], l, m); default: return new HexR8(id, &v[0], l, m); } }
};
template <> struct Build<int> {
    static CoordI3* co(const C& x) { CVecI3 p(int(x.p[0]), int(x.p[1]), int(x.p[2])); CoordId id(x.id); if (x.kind == 1) return new CoordRel(id, p, CVecR3(x.rel[0], x.rel[1], x.rel[2])); if (x.kind == 2) return new CoordConf(id, p, Math::Constants::CartesianAxis(x.dir), x.rel[0]); return new CoordI3(id, p); }
    static ElemI* el(const E& e, std::vector<const CoordI3*> v, const Layer::Layer* l, const Element::Model* m) { ElemId id(e.id);
        switch (e.type) { case kNod: return new NodI(id, &v[0], l, m); case kLin: return new LinI2(id, &v[0], l, m); case kQua: return new QuaI4(id, &v[0], l, m); case kPol: return new PolylinI(id, v, l, m); case kConf: return new LinConf(id, &v[0], CVecR3(e.n[0], e.n[1], e.n[2]), l, m); default: return new HexI8(id, &v[0], l, m); } }
};
// Random coordinates (not on a grid), elements of any type over them.
inline void randomBody(vf::Ctx& c, Desc& d, bool real, const std::vector<std::size_t>& mats, int maxEl = 12) {
    // Now and then a mesh of hundreds of elements, most of them alike.
    bool large = c.rng.chance(c.thorough ? 0.02 : 0.008); if (large) c.cov("large mesh"); bool alike = large && c.rng.chance(0.7); int only = -1;
    auto ids = freshIds(c, 400); std::size_t k = 0; int nl = alike ? 1 : c.rng.range(1, 4); for (int i = 0; i < nl; i++) d.la.push_back({ids[k++], "layer" + std::to_string(i)});
    int nc = large ? c.rng.range(70, 300) : c.rng.range(11, 24), nf = real ? 0 : c.rng.range(0, 4) * 2; auto cids = freshIds(c, large ? 400 : 100);
    for (int i = 0; i < nc + nf; i++) { C x; x.id = cids[i]; for (int q = 0; q < 3; q++) x.p[q] = real ? c.rng.range(-40, 40) * 0.25 : c.rng.range(-9, 9); if (real) x.p[c.rng.range(0, 2)] += i * 1e-3; x.kind = i < nc ? (real ? 0 : c.rng.range(0, 9) == 0 ? 1 : 0) : 2; x.dir = c.rng.range(0, 2); for (int q = 0; q < 3; q++) x.rel[q] = c.rng.real(0.05, 0.95); d.co.push_back(x); }
    auto eids = freshIds(c, large ? 400 : 100); int ne = large ? c.rng.range(80, 300) : c.rng.range(0, maxEl);
    for (int i = 0; i < ne; i++) { E e; e.id = eids[i]; static const std::vector<int> R{kNod, kLin, kTri, kQua, kTet, kPol, kTri6, kTet10, kHex}, I{kNod, kLin, kQua, kPol, kHex, kConf}; e.type = c.rng.pick(real ? R : I); if (alike && c.rng.chance(0.9)) { if (only < 0) only = e.type; e.type = only; } if (e.type == kConf && nf == 0) e.type = kLin; int n = nodes(e.type, c);
        std::vector<std::size_t> pool; for (auto& x : d.co) if (e.type == kConf ? x.kind == 2 : true) pool.push_back(x.id); c.rng.shuffle(pool); pool.resize(n); e.v = pool;
        e.mat = mats.empty() || c.rng.chance(alike ? 0.05 : 0.25) ? 0 : alike ? mats[0] : c.rng.pick(mats); e.lay = c.rng.chance(alike ? 0.05 : 0.25) ? 0 : d.la[c.rng.range(0, nl - 1)].id; for (auto& q : e.n) q = c.rng.real(-1, 1); d.el.push_back(e); }
}
template <class T> void fill(const Desc& d, Coordinate::Group<Coordinate::Coordinate<T, 3>>& cg, Element::Group<Element::Element<T>>& eg, Layer::Group<>& lg, const PMGroup& pg) {
    for (auto& l : d.la) lg.add(new Layer::Layer(LayerId(l.id), l.name));
    for (auto& x : d.co) cg.add(Build<T>::co(x));
    for (auto& e : d.el) { std::vector<const Coordinate::Coordinate<T, 3>*> v; for (auto k : e.v) v.push_back(cg.getId(CoordId(k))); eg.add(Build<T>::el(e, v, e.lay ? lg.getId(LayerId(e.lay)) : nullptr, e.mat ? pg.getId(MatId(e.mat)) : nullptr)); }
}
template <class T> bool typeIs(const Element::Element<T>* e, int t);
template <> inline bool typeIs<double>(const ElemR* e, int t) { switch (t) { case kNod: return e->is<NodR>(); case kLin: return e->is<LinR2>(); case kTri: return e->is<Tri3>(); case kQua: return e->is<QuaR4>(); case kTet: return e->is<Tet4>(); case kPol: return e->is<PolylinR>(); case kTri6: return e->is<Geometry::Tri6>(); case kTet10: return e->is<Geometry::Tet10>(); default: return e->is<HexR8>(); } }
template <> inline bool typeIs<int>(const ElemI* e, int t) { switch (t) { case kNod: return e->is<NodI>(); case kLin: return e->is<LinI2>() && !e->is<LinConf>(); case kQua: return e->is<QuaI4>(); case kPol: return e->is<PolylinI>(); case kConf: return e->is<LinConf>(); default: return e->is<HexI8>(); } }
template <class T> void extraCoord(vf::Ctx& c, const Coordinate::Coordinate<T, 3>* p, const C& x, const std::string& w) {}
template <> inline void extraCoord<int>(vf::Ctx& c, const CoordI3* p, const C& x, const std::string& w) {
    VF_CHECK(c, p->is<CoordRel>() == (x.kind == 1) && p->is<CoordConf>() == (x.kind == 2), "coordinate-kind", w << ": coordinate " << x.id);
    if (x.kind == 1 && p->is<CoordRel>()) for (int k = 0; k < 3; k++) VF_CHECK(c, p->castTo<CoordRel>()->rel()(k) == x.rel[k], "coordinate-kind", w << ": coordinate " << x.id);
    if (x.kind == 2 && p->is<CoordConf>()) VF_CHECK(c, int(p->castTo<CoordConf>()->getDir()) == x.dir && p->castTo<CoordConf>()->getLength() == x.rel[0], "coordinate-kind", w << ": coordinate " << x.id);
}
template <class T> void extraElem(vf::Ctx& c, const Element::Element<T>* p, const E& x, const std::string& w) {}
template <> inline void extraElem<int>(vf::Ctx& c, const ElemI* p, const E& x, const std::string& w) { if (x.type == kConf && p->is<LinConf>()) for (int k = 0; k < 3; k++) VF_CHECK(c, p->castTo<LinConf>()->getNorm()(k) == x.n[k], "conformal-normal", w << ": element " << x.id); }
// Everything the mesh holds is what the description says, and its elements refer to the mesh's own members.
template <class T> void verify(vf::Ctx& c, const Coordinate::Group<Coordinate::Coordinate<T, 3>>& cg, const Element::Group<Element::Element<T>>& eg, const Layer::Group<>& lg, const Desc& d, const std::string& w, double tol = 0) {
    VF_CHECK(c, cg.size() == d.co.size() && eg.size() == d.el.size() && lg.size() == d.la.size(), "sizes", w << ": " << cg.size() << " coordinates, " << eg.size() << " elements, " << lg.size() << " layers; expected " << d.co.size() << ", " << d.el.size() << ", " << d.la.size());
    if (cg.size() != d.co.size() || eg.size() != d.el.size() || lg.size() != d.la.size()) return;
    for (std::size_t i = 0; i < d.co.size(); i++) { auto* p = cg(i); bool ok = p->getId().toInt() == d.co[i].id; for (int k = 0; k < 3; k++) ok = ok && std::fabs(p->pos()(k) - d.co[i].p[k]) <= tol * (1 + std::fabs(d.co[i].p[k])); VF_CHECK(c, ok, "coordinate", w << ": coordinate " << p->getId() << " at " << p->pos() << " expected " << d.co[i].id << " at " << d.co[i].p[0] << "," << d.co[i].p[1] << "," << d.co[i].p[2]); extraCoord<T>(c, p, d.co[i], w); }
    for (std::size_t i = 0; i < d.la.size(); i++) VF_CHECK(c, lg(i)->getId().toInt() == d.la[i].id && lg(i)->getName() == d.la[i].name, "layer", w << ": layer " << lg(i)->toStr());
    for (std::size_t i = 0; i < d.el.size(); i++) { auto* p = eg(i); const E& e = d.el[i]; VF_CHECK(c, p->getId().toInt() == e.id && typeIs<T>(p, e.type) && p->numberOfCoordinates() == e.v.size(), "element", w << ": element " << p->getId() << " expected " << e.id); if (p->numberOfCoordinates() != e.v.size()) continue;
        for (std::size_t k = 0; k < e.v.size(); k++) VF_CHECK(c, cg.existId(CoordId(e.v[k])) && p->getV(k) == cg.getId(CoordId(e.v[k])), "own-coordinates", w << ": coordinate " << k << " of element " << e.id << " is not the mesh's own");
        VF_CHECK(c, e.lay ? p->getLayer() == lg.getId(LayerId(e.lay)) : p->getLayer() == nullptr, "own-layers", w << ": the layer of element " << e.id << " is not the mesh's own"); VF_CHECK(c, p->getMatId().toInt() == e.mat, "element-material", w << ": element " << e.id << " has material " << p->getMatId()); extraElem<T>(c, p, e, w); }
    c.ev("meshes");
}
inline void verifyGrid(vf::Ctx& c, const Grid3& g, const Desc& d, const std::string& w, double tol = 0) { for (int k = 0; k < 3; k++) { auto p = g.getPos(k); VF_CHECK(c, p.size() == d.g[k].size(), "grid", w << ": axis " << k); if (p.size() == d.g[k].size()) for (std::size_t i = 0; i < p.size(); i++) VF_CHECK(c, std::fabs(p[i] - d.g[k][i]) <= tol * (1 + std::fabs(p[i])), "grid", w << ": line " << i << " of axis " << k << " at " << p[i] << " expected " << d.g[k][i]); } }
} // namespace mg
