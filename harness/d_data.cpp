// C25: whole problems, copied, assigned, changed and destroyed in any order.
#include "tell.h"
#include <set>
namespace {
// Everything that a problem owns, and that all it refers to is its own.
typedef std::set<const void*> Owned;
template <class G> void take(Owned& o, const G& g) { for (std::size_t i = 0; i < g.size(); i++) o.insert(dynamic_cast<const void*>(g(i))); }
template <class Mesh> void refs(vf::Ctx& c, const Mesh& m, Owned& o, const std::string& w, bool models) {
    take(o, m.coords()); take(o, m.elems()); take(o, m.layers());
    for (std::size_t i = 0; i < m.elems().size(); i++) { auto* e = m.elems()(i); for (std::size_t k = 0; k < e->numberOfCoordinates(); k++) VF_CHECK(c, o.count(dynamic_cast<const void*>(e->getV(k))), "foreign-vertex", w << " element " << e->getId()); VF_CHECK(c, !e->getLayer() || o.count(dynamic_cast<const void*>(e->getLayer())), "foreign-layer", w << " element " << e->getId()); if (models) VF_CHECK(c, !e->getModel() || o.count(dynamic_cast<const void*>(e->getModel())), "foreign-material", w << " element " << e->getId()); } }
Owned owned(vf::Ctx& c, const Data& d, const std::string& w) {
    Owned o; if (d.physicalModels) take(o, *d.physicalModels); if (auto* m = dynamic_cast<const Mesh::Structured*>(d.mesh)) refs(c, *m, o, w, d.physicalModels != nullptr); else if (auto* m = dynamic_cast<const Mesh::Unstructured*>(d.mesh)) refs(c, *m, o, w, d.physicalModels != nullptr);
    auto on = [&](const Element::Group<const Elem>& g, const char* what) { for (std::size_t i = 0; i < g.size(); i++) VF_CHECK(c, o.count(dynamic_cast<const void*>(g(i))), "foreign-element", w << ": a " << what << " on an element that is not of its mesh"); };
    if (d.sources) for (std::size_t i = 0; i < d.sources->size(); i++) { auto* s = (*d.sources)(i); on(s->elems(), "source"); o.insert(dynamic_cast<const void*>(s)); if (s->getMagnitude()) o.insert(dynamic_cast<const void*>(s->getMagnitude())); }
    if (d.outputRequests) for (std::size_t i = 0; i < d.outputRequests->size(); i++) { auto* r = (*d.outputRequests)(i); on(r->elems(), "request"); o.insert(dynamic_cast<const void*>(r)); }
    if (d.solver) o.insert(d.solver); if (d.mesh) o.insert(dynamic_cast<const void*>(d.mesh)); return o; }
Data* random(vf::Ctx& c, std::string& w) {
    if (c.rng.chance(0.1)) { c.cov("empty"); w += "empty"; Data* d = new Data; if (c.rng.chance(0.3)) d->solver = new Solver::Info("solver"); if (c.rng.chance(0.3)) d->physicalModels = new PMGroup; return d; }
    if (c.rng.chance(0.3)) { Expect x; std::string t = problem(c, x, false); std::istringstream in(t); SEMBA::Parser::JSON::Parser p; c.cov("read"); w += t.substr(0, 400); Data* d = new Data(p.read(in)); for (const char* f : {"disp.dat", "mag.exc", "grid.txt"}) if (d->physicalModels == nullptr) std::remove(c.file(f).c_str()); return d; }
    Data* d = built(c, w); c.cov("built"); if (c.rng.chance(0.5)) { Argument::Object s; s("steps").setInt(c.rng.range(1, 9)); s("name").setString("x"); d->solver = new Solver::Info("fdtd", s); }
    if (c.rng.chance(0.1)) { delete d->sources; d->sources = nullptr; delete d->outputRequests; d->outputRequests = nullptr; delete d->mesh; d->mesh = nullptr; c.cov("without mesh"); }
    if (c.rng.chance(0.12) && d->physicalModels) { auto clear = [&](auto& m) { for (std::size_t i = 0; i < m.elems().size(); i++) m.elems()(i)->setModel(nullptr); }; if (auto* st = dynamic_cast<Mesh::Structured*>(d->mesh)) { clear(*st); for (int x = 0; x < 3; x++) for (int p = 0; p < 2; p++) st->bounds().setBound(x, p, nullptr); } else if (auto* un = dynamic_cast<Mesh::Unstructured*>(d->mesh)) clear(*un); delete d->physicalModels; d->physicalModels = nullptr; c.cov("without materials"); w += " without materials"; }
    return d; }
std::string change(vf::Ctx& c, Data& d) {
    auto st = dynamic_cast<Mesh::Structured*>(d.mesh); auto un = dynamic_cast<Mesh::Unstructured*>(d.mesh);
    switch (c.rng.range(0, 12)) {
    case 0: if (d.solver) d.solver->setName("other" + std::to_string(c.rng.range(0, 9))); return "solver renamed";
    case 1: if (d.solver) { Argument::Object s = d.solver->getSettings(); if (s.isNull() || s.isObject()) { s("new" + std::to_string(c.rng.range(0, 9))).setInt(1); d.solver->setSettings(s); } } return "solver set";
    case 2: if (d.physicalModels && d.physicalModels->size()) (*d.physicalModels)(c.rng.range(0, long(d.physicalModels->size()) - 1))->setName("renamed " + std::to_string(c.rng.range(0, 9))); return "material renamed";
    case 3: if (d.outputRequests && d.outputRequests->size()) { auto* r = (*d.outputRequests)(c.rng.range(0, long(d.outputRequests->size()) - 1)); r->setName("other " + std::to_string(c.rng.range(0, 9))); r->domain().setFinalTime(c.rng.range(1, 99)); r->domain().setSamplingPeriod(c.rng.range(1, 9)); } return "request changed";
    case 4: if (d.outputRequests && d.outputRequests->size()) (*d.outputRequests)(c.rng.range(0, long(d.outputRequests->size()) - 1))->set(Element::Group<const Elem>()); return "request emptied";
    case 5: if (d.sources && d.sources->size()) { auto* s = (*d.sources)(c.rng.range(0, long(d.sources->size()) - 1)); if (!dynamic_cast<SEMBA::Source::Port::WaveguideRectangular*>(s) && !dynamic_cast<SEMBA::Source::Port::TEMCoaxial*>(s)) s->set(Element::Group<const Elem>()); } return "source emptied";
    case 6: if (d.outputRequests && d.outputRequests->size()) d.outputRequests->remove(c.rng.range(0, long(d.outputRequests->size()) - 1)); return "request removed";
    case 7: if (d.sources && d.sources->size()) d.sources->remove(c.rng.range(0, long(d.sources->size()) - 1)); return "source removed";
    case 8: if (st) st->applyScalingFactor(2); else if (auto* g = dynamic_cast<Mesh::Geometric*>(un)) g->applyScalingFactor(0.5); else if (un) un->applyScalingFactor(4); if (d.mesh && d.sources) for (std::size_t i = 0; i < d.sources->size(); i++) { Element::Group<const Elem> g = (*d.sources)(i)->elems(); (*d.sources)(i)->set(g); } return "scaled";
    case 9: { auto f = [&](auto& m) { if (m.elems().size()) { auto* e = m.elems()(c.rng.range(0, long(m.elems().size()) - 1)); if (d.physicalModels && d.physicalModels->size()) e->setModel((*d.physicalModels)(c.rng.range(0, long(d.physicalModels->size()) - 1))); if (m.layers().size()) e->setLayer(m.layers()(c.rng.range(0, long(m.layers().size()) - 1))); } }; if (st) f(*st); else if (un) f(*un); return "element relabelled"; }
    case 10: { auto f = [&](auto& m) { if (m.elems().size()) { auto* e = m.elems()(c.rng.range(0, long(m.elems().size()) - 1)); if (c.rng.chance(0.5)) e->setModel(nullptr); else e->setLayer(nullptr); } }; if (st) f(*st); else if (un) f(*un); return "element changed"; }
    case 11: if (st) st->bounds().setBound(c.rng.range(0, 2), c.rng.range(0, 1), c.rng.chance(0.5) ? nullptr : static_cast<const PM::Bound::Bound*>(new PM::Bound::Mur1(MatId(905)))); return "bound changed";
    default: if (d.sources && d.sources->size()) { auto* s = (*d.sources)(c.rng.range(0, long(d.sources->size()) - 1)); if (s->getMagnitude() && !dynamic_cast<const SEMBA::Source::Magnitude::Numerical*>(s->getMagnitude())) { if (vf::thrown([&] { s->convertToNumerical(FileSystem::Project(c.file("tab.exc")), 0.5, 3); }).empty()) return "source tabulated"; } } return "nothing"; } }
}
void vf_case(vf::Ctx& c) {
    struct One { std::unique_ptr<Data> d; std::string t; }; std::vector<One> v(c.rng.range(1, 2)); std::string w; for (auto& x : v) { std::string s; x.d.reset(random(c, s)); x.t = tell(*x.d); w += s + " | "; } c.note(w.substr(0, 1500)); std::string ops;
    for (int k = c.rng.range(2, c.thorough ? 20 : 8); k > 0; k--) {
        std::size_t i = c.rng.range(0, long(v.size()) - 1), j = c.rng.range(0, long(v.size()) - 1); std::string op;
        switch (c.rng.range(0, 9)) {
        case 0: case 1: { op = "copy of " + std::to_string(i); One n; n.d.reset(c.rng.chance(0.5) ? new Data(*v[i].d) : v[i].d->cloneTo<Data>()); n.t = v[i].t; v.push_back(std::move(n)); break; }
        case 2: case 3: { op = std::to_string(i) + " assigned from " + std::to_string(j); Data& r = (*v[i].d = *v[j].d); VF_CHECK(c, &r == v[i].d.get(), "assigned", op); v[i].t = v[j].t; break; }
        case 4: if (v.size() > 1) { op = "destroyed " + std::to_string(i); v.erase(v.begin() + i); } break;
        default: { std::size_t at = i; op = change(c, *v[at].d) + " in " + std::to_string(at); v[at].t = tell(*v[at].d); break; } }
        ops += op + "; "; std::vector<Owned> o;
        for (std::size_t q = 0; q < v.size(); q++) { std::string t = tell(*v[q].d); if (t != v[q].t) { std::size_t b = 0; while (b < t.size() && b < v[q].t.size() && t[b] == v[q].t[b]) b++; b = b < 60 ? 0 : b - 60; VF_CHECK(c, false, "different", "problem " << q << " after " << ops << " is ..." << t.substr(b, 200) << "... expected ..." << v[q].t.substr(b, 200) << "... in " << w.substr(0, 400)); v[q].t = t; }
            o.push_back(owned(c, *v[q].d, "problem " + std::to_string(q) + " after " + ops)); c.state(vf::hashStr(t)); c.ev("problems seen"); }
        for (std::size_t a = 0; a < o.size(); a++) for (std::size_t b = a + 1; b < o.size(); b++) for (auto* p : o[a]) VF_CHECK(c, !o[b].count(p), "shared", "problems " << a << " and " << b << " share something after " << ops);
        c.ev("operations"); c.cov(op.substr(0, op.find_last_of(" 0123456789") == std::string::npos ? op.size() : std::min(op.size(), op.find(' ') + 8))); c.interesting = true; if (v.size() > 5) v.erase(v.begin());
    }
    { std::streambuf* b = std::cout.rdbuf(); std::ostringstream o; std::cout.rdbuf(o.rdbuf()); for (auto& x : v) { std::string t = tell(*x.d); x.d->printInfo(); VF_CHECK(c, tell(*x.d) == t, "different", "printed"); } std::cout.rdbuf(b); }
    for (auto& x : v) c.dig(x.t);
}
