// The sets of elements that an exported problem shows, and problems to export.
#pragma once
#include "problem.h"
namespace {
struct Cell { int type; std::vector<CVecR3> p; };
struct Set { std::string base; std::vector<Cell> cells; std::size_t points; bool exactPoints = true; };
int cellType(const ElemR* e, bool gid) { if (gid) return e->is<NodR>() ? 1 : e->is<LinR2>() ? 3 : e->is<Tri3>() ? 5 : e->is<QuaR4>() ? 9 : e->is<Tet4>() ? 10 : e->is<HexR8>() ? 12 : 0; return dynamic_cast<const Nod*>(e) ? 1 : dynamic_cast<const Lin*>(e) ? 3 : dynamic_cast<const Tri*>(e) ? 5 : dynamic_cast<const Qua*>(e) ? 9 : dynamic_cast<const Tet*>(e) ? 10 : dynamic_cast<const HexR8*>(e) ? 12 : 4; }
void put(Set& s, const std::vector<const ElemR*>& es, bool gid) { std::set<const void*> pts; for (auto* e : es) { Cell c; c.type = cellType(e, gid); for (std::size_t k = 0; k < e->numberOfVertices(); k++) { c.p.push_back(e->getVertex(k)->pos()); pts.insert(e->getVertex(k)); } s.cells.push_back(c); } s.points = pts.size(); }
std::vector<Set> expected(const Data& d, bool gid = false) {
    std::vector<Set> r; std::unique_ptr<Mesh::Unstructured> own; auto* st = dynamic_cast<const Mesh::Structured*>(d.mesh); const Mesh::Unstructured* m = dynamic_cast<const Mesh::Unstructured*>(d.mesh); std::string pre; if (st) { own.reset(st->getMeshUnstructured()); m = own.get(); pre = "str_"; }
    auto add = [&](const std::string& name, std::function<bool(const ElemR*)> f) { Set s; s.base = name; std::vector<const ElemR*> es; for (std::size_t i = 0; i < m->elems().size(); i++) if (f(m->elems()(i))) es.push_back(m->elems()(i)); if (es.empty()) return; put(s, es, gid); r.push_back(s); };
    for (std::size_t l = 0; l < m->layers().size(); l++) { auto* y = m->layers()(l); if (d.physicalModels->size() == 0) { if (!gid) add(pre + y->getName(), [&](const ElemR* e) { return e->getLayerId() == y->getId(); }); }
        else for (std::size_t k = 0; k < d.physicalModels->size(); k++) { auto* p = (*d.physicalModels)(k); add(pre + p->getName() + "@" + y->getName(), [&](const ElemR* e) { return e->getLayerId() == y->getId() && e->getMatId() == p->getId(); }); } }
    auto of = [&](const std::string& name, const Element::Group<const Elem>& g) { Ids ids; for (std::size_t i = 0; i < g.size(); i++) ids.insert(g(i)->getId().toInt()); add(name, [&](const ElemR* e) { return ids.count(e->getId().toInt()) > 0; }); };
    if (d.sources) for (std::size_t i = 0; i < d.sources->size(); i++) of(pre + "EMSource_" + (*d.sources)(i)->getName(), (*d.sources)(i)->elems());
    if (d.outputRequests) for (std::size_t i = 0; i < d.outputRequests->size(); i++) of(pre + "OutRq_" + (*d.outputRequests)(i)->getName(), (*d.outputRequests)(i)->elems());
    if (st) { std::vector<double> g[3]; for (int k = 0; k < 3; k++) g[k] = st->grid().getPos(k);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) if (gid || st->bounds()(i, j)) { Set s; s.base = (st->bounds()(i, j) ? dynamic_cast<const PM::PhysicalModel*>(st->bounds()(i, j))->getName() : "Undefined") + "@Boundary"; Cell q; q.type = 9; for (int a = 0; a < 4; a++) { CVecR3 p; p(i) = j ? g[i].back() : g[i].front(); p((i + 1) % 3) = a == 1 || a == 2 ? g[(i + 1) % 3].back() : g[(i + 1) % 3].front(); p((i + 2) % 3) = a > 1 ? g[(i + 2) % 3].back() : g[(i + 2) % 3].front(); q.p.push_back(p); } s.cells.push_back(q); s.points = 4; r.push_back(s); }
        Set s; s.base = "Grid"; s.points = 0; s.exactPoints = false; for (int k = 0; k < 3; k++) for (int i = 0; i < 2; i++) { int a = (k + 1 + i) % 3, b = 3 - k - a; for (double x : g[a]) { Cell q; q.type = 3; CVecR3 p; p(k) = g[k].front(); p(a) = x; p(b) = g[b].front(); q.p.push_back(p); p(b) = g[b].back(); q.p.push_back(p); s.cells.push_back(q); } } r.push_back(s); }
    return r;
}
bool at(const CVecR3& a, const CVecR3& b) { for (int k = 0; k < 3; k++) if (!(std::fabs(a(k) - b(k)) <= 1e-5 * std::fabs(b(k)) + 1e-12)) return false; return true; }
bool sameCell(const Cell& a, const Cell& b, bool anyOrder) { if (a.type != b.type || a.p.size() != b.p.size()) return false; if (!anyOrder) { for (std::size_t i = 0; i < a.p.size(); i++) if (!at(a.p[i], b.p[i])) return false; return true; } std::vector<bool> u(a.p.size(), false); for (auto& x : a.p) { bool f = false; for (std::size_t j = 0; j < b.p.size() && !f; j++) if (!u[j] && at(x, b.p[j])) u[j] = f = true; if (!f) return false; } return true; }
bool sameSet(const Set& got, const Set& want) { if (got.cells.size() != want.cells.size() || (want.exactPoints && got.points != want.points)) return false; bool any = want.base == "Grid" || want.base.find("@Boundary") != std::string::npos; std::vector<bool> u(want.cells.size(), false); for (auto& x : got.cells) { bool f = false; for (std::size_t j = 0; j < u.size() && !f; j++) if (!u[j] && sameCell(x, want.cells[j], any)) u[j] = f = true; if (!f) return false; } return true; }
std::string plain(const std::string& s) { std::string r; for (char ch : s) r += std::isalnum((unsigned char)ch) || std::string("@.-+ ").find(ch) != std::string::npos ? ch : '_'; return r; }
Data* built(vf::Ctx& c, std::string& w, int breaks = 0) {
    std::unique_ptr<Data> d(new Data); d->physicalModels = new PMGroup; d->sources = new SEMBA::Source::Group<>; d->outputRequests = new SEMBA::OutputRequest::Group<>; std::vector<std::size_t> mids; static const std::vector<std::string> names{"air", "air", "steel", "a<b>", "x&y", "up/down", "say \"hi\"", "PEC", "", "str_", "a_b_", "na\\me", "layer0", "air_2"};
    auto nameOf = [&] { return breaks == 1 && c.rng.chance(0.1) ? std::string("two\nlines") : breaks == 2 && c.rng.chance(0.1) ? std::string("od") + char(c.rng.range(1, 31)) + "d" : c.rng.pick(names); }; auto ids = mg::freshIds(c, 6); for (int i = c.rng.range(0, 4); i > 0; i--) { mids.push_back(ids[i]); if (c.rng.chance(0.2)) d->physicalModels->add(new PM::Predefined::PEC(MatId(ids[i]))); else d->physicalModels->add(new PM::Volume::Classic(MatId(ids[i]), nameOf(), 1.0 + i)); }
    mg::Desc b; bool st = c.rng.chance(0.6); mg::randomBody(c, b, !st, mids, 14); mg::randomGrid(c, b, 6); for (auto& l : b.la) if (c.rng.chance(0.6)) l.name = nameOf(); Element::Group<const Elem> all;
    if (st) { for (auto& x : b.co) for (int k = 0; k < 3; k++) x.p[k] = c.rng.range(0, long(b.g[k].size()) - 2); Coordinate::Group<CoordI3> cg; Element::Group<ElemI> eg; Layer::Group<> lg; mg::fill<int>(b, cg, eg, lg, *d->physicalModels); BoundTerminations3 bt; for (int i = 0; i < 6; i++) if (c.rng.chance(0.4)) { if (!mids.empty() && c.rng.chance(0.5)) bt.setBound(i / 2, i % 2, d->physicalModels->getId(MatId(c.rng.pick(mids)))); else bt.setBound(i / 2, i % 2, c.rng.chance(0.5) ? static_cast<const PM::Bound::Bound*>(new PM::Bound::PEC(MatId(900))) : new PM::Bound::PML(MatId(901))); } auto* m = new Mesh::Structured(mg::makeGrid(b), cg, eg, lg, bt); d->mesh = m; for (std::size_t i = 0; i < m->elems().size(); i++) all.add(static_cast<const Elem*>(m->elems()(i))); }
    else { Coordinate::Group<CoordR3> cg; Element::Group<ElemR> eg; Layer::Group<> lg; mg::fill<double>(b, cg, eg, lg, *d->physicalModels); Mesh::Unstructured* m = c.rng.chance(0.5) ? new Mesh::Geometric(mg::makeGrid(b), cg, eg, lg) : new Mesh::Unstructured(cg, eg, lg); d->mesh = m; for (std::size_t i = 0; i < m->elems().size(); i++) all.add(static_cast<const Elem*>(m->elems()(i))); }
    auto some = [&](std::function<bool(const Elem*)> f) { Element::Group<const Elem> r; for (std::size_t i = 0; i < all.size(); i++) if (f(all(i)) && c.rng.chance(0.6)) r.add(all(i)); return r; };
    auto mag = [&] { return new SEMBA::Source::Magnitude::Magnitude(new Math::Function::Gaussian(1, 2, 3)); };
    for (int i = c.rng.range(0, 4); i > 0; i--) { if (c.rng.chance(0.5)) { auto* s = new SEMBA::Source::Generator(mag(), Element::Group<const Nod>(), SEMBA::Source::Generator::voltage, SEMBA::Source::Generator::soft); s->set(some([](const Elem* e) { return dynamic_cast<const Nod*>(e) != nullptr; })); d->sources->add(s); } else { auto* s = new SEMBA::Source::PlaneWave(mag(), Element::Group<Vol>(), CVecR3(1, 0, 0), CVecR3(0, 1, 0)); s->set(some([](const Elem* e) { return dynamic_cast<const Vol*>(e) != nullptr; })); d->sources->add(s); } }
    namespace O = SEMBA::OutputRequest; for (int i = c.rng.range(0, 4); i > 0; i--) { std::string nm = nameOf(); O::Domain dom; if (c.rng.chance(0.5)) { auto* r = new O::OutputRequest<Lin>(dom, O::Base::electric, nm, Element::Group<Lin>()); r->set(some([](const Elem* e) { return dynamic_cast<const Lin*>(e) != nullptr; })); d->outputRequests->add(r); } else { auto* r = new O::OutputRequest<Surf>(dom, O::Base::magnetic, nm, Element::Group<Surf>()); r->set(some([](const Elem* e) { return dynamic_cast<const Surf*>(e) != nullptr; })); d->outputRequests->add(r); } }
    if (c.rng.chance(0.1)) { delete d->sources; d->sources = nullptr; } if (c.rng.chance(0.1)) { delete d->outputRequests; d->outputRequests = nullptr; }
    w = mg::show(b) + (st ? "structured" : "unstructured"); for (auto& l : b.la) w += " " + l.name; c.cov(st ? "structured" : "unstructured"); return d.release();
}}
