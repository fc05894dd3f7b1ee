// Meshes are deep copies: histories of copies, assignments, clones, scalings and
// changes over a pool of meshes, each checked against its own description, with
// the originals destroyed on the way.
#include "meshgen.h"
using namespace mg;
namespace {
struct U { std::unique_ptr<Mesh::Geometric> g; std::unique_ptr<Mesh::Unstructured> u; Desc d; bool geo; Mesh::Unstructured& m() { return geo ? *g : *u; } };
struct S { std::unique_ptr<Mesh::Structured> s; Desc d; };
void check(vf::Ctx& c, U& x, const std::string& w) { verify<double>(c, x.m().coords(), x.m().elems(), x.m().layers(), x.d, w, 1e-12); if (x.geo) verifyGrid(c, x.g->grid(), x.d, w, 1e-12);
    for (auto& q : x.d.co) { auto* p = x.m().coords().getPos(CVecR3(q.p[0], q.p[1], q.p[2])); VF_CHECK(c, p != nullptr, "find-position", w << ": position of coordinate " << q.id << " is not found"); }
    if (!x.d.el.empty()) { double lo[3], hi[3]; for (int k = 0; k < 3; k++) { lo[k] = 1e300; hi[k] = -1e300; } for (auto& e : x.d.el) for (auto v : e.v) for (auto& q : x.d.co) if (q.id == v) for (int k = 0; k < 3; k++) { lo[k] = std::min(lo[k], q.p[k]); hi[k] = std::max(hi[k], q.p[k]); } BoxR3 b = x.m().getBoundingBox(); for (int k = 0; k < 3; k++) VF_CHECK(c, vf::near(b.getMin()(k), lo[k], 1e-12, 1e-12) && vf::near(b.getMax()(k), hi[k], 1e-12, 1e-12), "bounding-box", w << ": box " << b.getMin() << b.getMax()); } }
void check(vf::Ctx& c, S& x, const std::string& w) { verify<int>(c, x.s->coords(), x.s->elems(), x.s->layers(), x.d, w); verifyGrid(c, x.s->grid(), x.d, w, 1e-12);
    for (int i = 0; i < 6; i++) { const Bound* b = x.s->bounds()(i / 2, i % 2); VF_CHECK(c, x.d.bound[i] ? b && b->getId().toInt() == x.d.bound[i] : b == nullptr, "bounds", w << ": bound " << i); }
    BoxR3 b = x.s->getBoundingBox(); double ms = 1e300; for (int k = 0; k < 3; k++) { VF_CHECK(c, vf::near(b.getMin()(k), x.d.g[k].front(), 1e-12, 1e-12) && vf::near(b.getMax()(k), x.d.g[k].back(), 1e-12, 1e-12), "bounding-box", w); for (std::size_t i = 1; i < x.d.g[k].size(); i++) ms = std::min(ms, x.d.g[k][i] - x.d.g[k][i - 1]); } VF_CHECK(c, vf::near(x.s->getMinimumSpaceStep(), ms, 1e-9), "minimum-step", w << ": " << x.s->getMinimumSpaceStep() << " expected " << ms); }
PMGroup mats(const std::vector<std::size_t>& ids) { PMGroup g; for (auto i : ids) { if (i % 2) g.add(new PhysicalModel::Predefined::PEC(MatId(i))); else g.add(new PhysicalModel::Predefined::PMC(MatId(i))); } return g; }
template <class M> void ownModels(vf::Ctx& c, const M& m, const PMGroup& pg, const Desc& d, const std::string& w) { for (std::size_t i = 0; i < d.el.size(); i++) VF_CHECK(c, d.el[i].mat ? (const void*)m.elems()(i)->getModel() == (const void*)static_cast<const Element::Model*>(pg.getId(MatId(d.el[i].mat))) : m.elems()(i)->getModel() == nullptr, "reassign-materials", w << ": element " << d.el[i].id); }
template <class X> void common(vf::Ctx& c, std::vector<X>& pool, const std::vector<std::size_t>& mids, const PMGroup& pg, std::ostringstream& h) {
    for (std::size_t i = 0; i < pool.size(); i++) check(c, pool[i], h.str() + "-> mesh " + std::to_string(i));
}
// changes in place, common to both kinds
template <class X, class M> void mutate(vf::Ctx& c, X& x, M& m, std::ostringstream& h, const std::vector<std::size_t>& mids, const PMGroup& pg) {
    int op = c.rng.range(0, 4); c.cov("mutate" + std::to_string(op));
    if (op == 0 && !x.d.el.empty()) { std::size_t i = c.rng.range(0, x.d.el.size() - 1), l = x.d.la[c.rng.range(0, x.d.la.size() - 1)].id; m.elems().setLayer(ElemId(x.d.el[i].id), m.layers().getId(LayerId(l))); x.d.el[i].lay = l; h << "layer "; }
    else if (op == 1 && !x.d.el.empty() && !mids.empty()) { std::size_t i = c.rng.range(0, x.d.el.size() - 1), k = c.rng.pick(mids); m.elems().setModel(ElemId(x.d.el[i].id), pg.getId(MatId(k))); x.d.el[i].mat = k; h << "material "; }
    else if (op == 2 && !x.d.el.empty()) { std::size_t i = c.rng.range(0, x.d.el.size() - 1); m.elems().remove(i); x.d.el.erase(x.d.el.begin() + i); h << "remove "; }
    else if (op == 3) { std::size_t id = 5000 + c.rng.range(0, 1000000); bool used = false; for (auto& l : x.d.la) used = used || l.id == id; if (!used) { m.layers().add(new Layer::Layer(LayerId(id), "added")); x.d.la.push_back({id, "added"}); h << "addlayer "; } }
}
}

void vf_case(vf::Ctx& c) {
    std::vector<std::size_t> mids; int nm = c.rng.range(0, 4); for (int i = 0; i < nm; i++) mids.push_back(10 + 7 * i + c.rng.range(0, 3)); PMGroup pg = mats(mids); std::ostringstream h; int steps = c.rng.range(2, c.thorough ? 16 : 8); c.interesting = true;
    if (c.rng.chance(0.5)) {
        std::vector<U> pool; auto fresh = [&] { U x; randomBody(c, x.d, true, mids, 8); x.geo = c.rng.chance(0.6); Coordinate::Group<CoordR3> cg; Element::Group<ElemR> eg; Layer::Group<> lg; fill<double>(x.d, cg, eg, lg, pg); if (x.geo) { randomGrid(c, x.d); x.g.reset(new Mesh::Geometric(makeGrid(x.d), cg, eg, lg)); } else x.u.reset(new Mesh::Unstructured(cg, eg, lg)); pool.push_back(std::move(x)); };
        fresh(); h << show(pool[0].d) << (pool[0].geo ? "geometric " : "unstructured "); common(c, pool, mids, pg, h);
        for (int t = 0; t < steps; t++) { std::size_t a = c.rng.range(0, pool.size() - 1); int op = c.rng.range(0, 7); c.cov("u" + std::to_string(op));
            if (op == 0 && pool.size() < 4) { U y; y.d = pool[a].d; y.geo = pool[a].geo; if (y.geo) y.g.reset(new Mesh::Geometric(*pool[a].g)); else y.u.reset(new Mesh::Unstructured(*pool[a].u)); pool.push_back(std::move(y)); h << "copy" << a << " "; }
            else if (op == 1 && pool.size() < 4) { U y; y.d = pool[a].d; y.geo = pool[a].geo; if (y.geo) y.g.reset(pool[a].g->cloneTo<Mesh::Geometric>()); else y.u.reset(pool[a].u->cloneTo<Mesh::Unstructured>()); pool.push_back(std::move(y)); h << "clone" << a << " "; }
            else if (op == 2) { std::size_t b = c.rng.range(0, pool.size() - 1); if (pool[a].geo && pool[b].geo) *pool[b].g = *pool[a].g; else { auto g0 = pool[b].d; if (pool[b].geo) { static_cast<Mesh::Unstructured&>(*pool[b].g) = pool[a].m(); pool[b].d = pool[a].d; for (int k = 0; k < 3; k++) pool[b].d.g[k] = g0.g[k]; h << "assignpart" << a << b << " "; common(c, pool, mids, pg, h); continue; } *pool[b].u = pool[a].m(); } pool[b].d = pool[a].d; h << "assign" << a << b << " "; }
            else if (op == 3 && pool.size() < 4) fresh(), h << "fresh ";
            else if (op == 4 && pool.size() > 1) { pool.erase(pool.begin() + a); h << "destroy" << a << " "; }
            else if (op == 5) { double f = c.rng.pick(std::vector<double>{0.001, 0.5, 2, 1000, 3.7}); Mesh::Mesh& bm = pool[a].m(); bm.applyScalingFactor(f); for (auto& q : pool[a].d.co) for (auto& z : q.p) z *= f; if (pool[a].geo) for (auto& g : pool[a].d.g) for (auto& z : g) z *= f; h << "scale" << a << "by" << f << " "; }
            else if (op == 6) { mutate(c, pool[a], pool[a].m(), h, mids, pg); }
            else if (op == 7) { std::size_t b = c.rng.range(0, pool.size() - 1); Element::Group<const Elem> in; std::vector<std::size_t> ids; bool missing = false; double keep = c.rng.chance(0.3) ? 0.97 : 0.5; for (std::size_t i = 0; i < pool[b].d.el.size(); i++) if (c.rng.chance(keep)) { ids.push_back(pool[b].d.el[i].id); in.add(static_cast<const Elem*>(pool[b].m().elems()(i))); bool f = false; for (auto& e : pool[a].d.el) f = f || e.id == ids.back(); missing = missing || !f; }
                std::string t2 = vf::thrown([&] { pool[a].m().reassign(in); }); VF_CHECK(c, t2.empty() == !missing, "reassign-missing", h.str() << " " << t2); if (!missing) { VF_CHECK(c, in.size() == ids.size(), "reassign", h.str()); for (std::size_t i = 0; i < ids.size() && i < in.size(); i++) VF_CHECK(c, in(i) == static_cast<const Elem*>(pool[a].m().elems().getId(ElemId(ids[i]))), "reassign", h.str() << " element " << ids[i]); } h << "reassign" << a << b << " ";
                PMGroup p2(pg.cloneElems()); if (!mids.empty()) { pool[a].m().reassignPointers(SEMBA::Group::Identifiable<Element::Model, MatId>(p2)); ownModels(c, pool[a].m(), p2, pool[a].d, h.str()); pool[a].m().reassignPointers(SEMBA::Group::Identifiable<Element::Model, MatId>(pg)); } pool[a].m().reassignPointers(); ownModels(c, pool[a].m(), pg, pool[a].d, h.str()); }
            common(c, pool, mids, pg, h); }
    } else {
        std::vector<S> pool; auto fresh = [&] { S x; randomBody(c, x.d, false, mids, 8); randomGrid(c, x.d); Coordinate::Group<CoordI3> cg; Element::Group<ElemI> eg; Layer::Group<> lg; fill<int>(x.d, cg, eg, lg, pg); BoundTerminations3 b; for (int i = 0; i < 6; i++) if (!mids.empty() && c.rng.chance(0.5)) { x.d.bound[i] = c.rng.pick(mids); b.setBound(i / 2, i % 2, pg.getId(MatId(x.d.bound[i]))); } x.s.reset(new Mesh::Structured(makeGrid(x.d), cg, eg, lg, b)); pool.push_back(std::move(x)); };
        fresh(); h << show(pool[0].d) << "structured "; common(c, pool, mids, pg, h);
        for (int t = 0; t < steps; t++) { std::size_t a = c.rng.range(0, pool.size() - 1); int op = c.rng.range(0, 8); c.cov("s" + std::to_string(op));
            if (op == 0 && pool.size() < 4) { S y; y.d = pool[a].d; y.s.reset(new Mesh::Structured(*pool[a].s)); pool.push_back(std::move(y)); h << "copy" << a << " "; }
            else if (op == 1 && pool.size() < 4) { S y; y.d = pool[a].d; y.s.reset(pool[a].s->cloneTo<Mesh::Structured>()); pool.push_back(std::move(y)); h << "clone" << a << " "; }
            else if (op == 2) { std::size_t b = c.rng.range(0, pool.size() - 1); *pool[b].s = *pool[a].s; pool[b].d = pool[a].d; h << "assign" << a << b << " "; }
            else if (op == 3 && pool.size() < 4) fresh(), h << "fresh ";
            else if (op == 4 && pool.size() > 1) { pool.erase(pool.begin() + a); h << "destroy" << a << " "; }
            else if (op == 5) { double f = c.rng.pick(std::vector<double>{0.001, 0.5, 2, 1000, 3.7}); Mesh::Mesh& bm = *pool[a].s; bm.applyScalingFactor(f); for (auto& g : pool[a].d.g) for (auto& z : g) z *= f; h << "scale" << a << "by" << f << " "; }
            else if (op == 6) mutate(c, pool[a], *pool[a].s, h, mids, pg);
            else if (op == 7) { std::size_t b = c.rng.range(0, pool.size() - 1); Element::Group<const Elem> in; std::vector<std::size_t> ids; bool missing = false; double keep = c.rng.chance(0.3) ? 0.97 : 0.5; for (std::size_t i = 0; i < pool[b].d.el.size(); i++) if (c.rng.chance(keep)) { ids.push_back(pool[b].d.el[i].id); in.add(static_cast<const Elem*>(pool[b].s->elems()(i))); bool f = false; for (auto& e : pool[a].d.el) f = f || e.id == ids.back(); missing = missing || !f; }
                std::string t2 = vf::thrown([&] { pool[a].s->reassign(in); }); VF_CHECK(c, t2.empty() == !missing, "reassign-missing", h.str() << " " << t2); if (!missing) { VF_CHECK(c, in.size() == ids.size(), "reassign", h.str()); for (std::size_t i = 0; i < ids.size() && i < in.size(); i++) VF_CHECK(c, in(i) == static_cast<const Elem*>(pool[a].s->elems().getId(ElemId(ids[i]))), "reassign", h.str() << " element " << ids[i]); } h << "reassign" << a << b << " ";
                PMGroup p2(pg.cloneElems()); if (!mids.empty()) { pool[a].s->reassignPointers(SEMBA::Group::Identifiable<Element::Model, MatId>(p2)); ownModels(c, *pool[a].s, p2, pool[a].d, h.str()); pool[a].s->reassignPointers(SEMBA::Group::Identifiable<Element::Model, MatId>(pg)); } pool[a].s->reassignPointers(); ownModels(c, *pool[a].s, pg, pool[a].d, h.str()); }
            else if (op == 8 && !mids.empty()) { int i = c.rng.range(0, 5); if (c.rng.chance(0.3)) { pool[a].s->bounds().setBound(i / 2, i % 2, nullptr); pool[a].d.bound[i] = 0; } else { pool[a].d.bound[i] = c.rng.pick(mids); pool[a].s->bounds().setBound(i / 2, i % 2, pg.getId(MatId(pool[a].d.bound[i]))); } h << "bound "; }
            common(c, pool, mids, pg, h); }
    }
    c.note(h.str());
}
