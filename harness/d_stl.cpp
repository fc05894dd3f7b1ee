// Reading of triangulated surfaces: random solids written in several layouts against the
// triangles they were written from, and damaged copies of them.
#include "datasig.h"
#include "parser/stl/Parser.h"
using namespace ds; typedef std::array<double, 3> P3;
namespace {
std::string ws(vf::Ctx& c) { static const std::vector<std::string> w{" ", "  ", "\t", "      "}; return c.rng.pick(w); }
std::string num(vf::Ctx& c, double x) { char b[40]; int f = c.rng.range(0, 3); std::snprintf(b, sizeof b, f == 0 ? "%.6e" : f == 1 ? "%.17g" : f == 2 ? "%.9E" : "%.8g", x); return b; }
struct Facet { std::array<P3, 3> v; };
struct Solid { std::string name; std::vector<Facet> t; };
void whole(vf::Ctx& c, const Data& d, const std::string& w) {
    VF_CHECK(c, d.mesh && d.physicalModels && d.sources && d.outputRequests, "incomplete", w); auto* g = dynamic_cast<const Mesh::Geometric*>(d.mesh); VF_CHECK(c, g, "incomplete", w); if (!g) return; Ids ids;
    for (std::size_t i = 0; i < g->elems().size(); i++) { auto* e = g->elems()(i); VF_CHECK(c, e && e->is<Tri3>() && ids.insert(e->getId().toInt()).second && e->getId() != ElemId(0), "identity", w); if (!e) return;
        for (std::size_t k = 0; k < e->numberOfCoordinates(); k++) { auto* v = e->getV(k); VF_CHECK(c, v && g->coords().existId(v->getId()) && g->coords().getId(v->getId()) == v, "foreign-vertex", w); }
        VF_CHECK(c, e->getLayer() && g->layers().existId(e->getLayerId()) && g->layers().getId(e->getLayerId()) == e->getLayer(), "foreign-layer", w);
        VF_CHECK(c, e->getModel() && d.physicalModels->existId(e->getMatId()) && dynamic_cast<const PM::PhysicalModel*>(e->getModel()) == d.physicalModels->getId(e->getMatId()), "foreign-material", w); } }
void same(vf::Ctx& c, const Data& d, const std::vector<Solid>& S, const std::string& w, bool exact = true) {
    whole(c, d, w); auto* g = dynamic_cast<const Mesh::Geometric*>(d.mesh); if (!g) return; std::size_t n = 0; for (auto& s : S) n += s.t.size();
    VF_CHECK(c, d.physicalModels->size() == 1 && dynamic_cast<const PM::Predefined::PEC*>((*d.physicalModels)(0)), "material", w);
    VF_CHECK(c, g->layers().size() == S.size(), "layers", g->layers().size() << " layers of " << S.size() << " solids: " << w); VF_CHECK(c, g->elems().size() == n, "triangles", g->elems().size() << " triangles of " << n << ": " << w); if (g->layers().size() != S.size() || g->elems().size() != n) return; std::size_t k = 0;
    for (std::size_t i = 0; i < S.size(); i++) { auto* l = g->layers()(i); VF_CHECK(c, l->getName() == S[i].name, "layer-name", l->getName() << " for " << S[i].name << ": " << w);
        for (auto& t : S[i].t) { auto* e = g->elems()(k++); VF_CHECK(c, e->getLayer() == l, "layer-of-triangle", "triangle " << k << " " << w); for (int j = 0; j < 3; j++) { auto p = e->getV(j)->pos(); VF_CHECK(c, exact ? p(0) == t.v[j][0] && p(1) == t.v[j][1] && p(2) == t.v[j][2] : vf::near(p(0), t.v[j][0]) && vf::near(p(1), t.v[j][1]) && vf::near(p(2), t.v[j][2]), "vertex", "triangle " << k << " vertex " << j << ": " << w); } c.ev("triangles"); } }
    // triangles that meet, meet in the mesh
    if (!exact) return;
    std::map<P3, const CoordR3*> at; for (std::size_t i = 0; i < g->elems().size(); i++) for (int j = 0; j < 3; j++) { auto* v = g->elems()(i)->getV(j); P3 p{v->pos()(0) + 0.0, v->pos()(1) + 0.0, v->pos()(2) + 0.0}; auto r = at.insert({p, v}); VF_CHECK(c, r.first->second == v, "shared-vertex", "two vertices at one place: " << w); }
    c.ev("solids", S.size()); }
Data readText(const std::string& t) { std::istringstream i(t); SEMBA::Parser::STL::Parser p; return p.read(i); }
}
void vf_case(vf::Ctx& c) {
    std::vector<Solid> S; bool exact = c.rng.chance(0.8); std::vector<P3> pool; auto r6 = [](double x) { char b[40]; std::snprintf(b, sizeof b, "%.6e", x); return std::strtod(b, 0); }; int np = c.rng.chance(0.02) ? c.rng.range(60, 250) : c.rng.range(3, 25); for (int i = 0; i < np; i++) { if (c.rng.chance(0.5)) pool.push_back({double(c.rng.range(-5, 5)), c.rng.range(-40, 40) * 0.125, c.rng.range(-5, 5) * 1.0}); else pool.push_back({r6(c.rng.real(-3, 3)), r6(c.rng.real(-3, 3)), r6(c.rng.real(-1e-3, 1e-3))}); }
    if (!exact) { std::vector<P3> few(pool); pool.clear(); for (auto& p : few) { pool.push_back(p); for (int k = c.rng.range(0, 6); k > 0; k--) { P3 z = p; for (auto& x : z) x *= 1 + c.rng.real(-4e-10, 4e-10); pool.push_back(z); } } c.cov("vertices at the tolerance"); }   // neighbours that differ by about the tolerance
    std::string nl = c.rng.chance(0.7) ? "\n" : "\r\n", text; bool indent = c.rng.chance(0.8); auto in = [&](int k) { std::string r; if (indent) for (int i = 0; i < k; i++) r += c.rng.chance(0.9) ? "  " : "\t"; return r; }; std::vector<std::size_t> vline, facetEnd;
    int ns = c.rng.chance(0.5) ? 1 : c.rng.range(0, 5); static const std::vector<std::string> names{"part", "vertex", "single", "solid", "loop", "a-b_c", "facet7", "42", "", "endloop", "box.stl", "v1.2", "a/b:c", "\xc3\xa9t\xc3\xa9", "a_name_that_is_rather_long_for_a_solid_made_by_hand_0123456789"};
    for (int s = 0; s < ns; s++) { Solid o; o.name = c.rng.pick(names); bool more = !o.name.empty() && c.rng.chance(0.15); text += in(0) + "solid" + (o.name.empty() ? "" : " " + o.name) + (more ? c.rng.chance(0.5) ? " made by x" : " with one vertex" : "") + nl; int nt = c.rng.chance(0.1) ? 0 : c.rng.chance(0.01) ? c.rng.range(60, 200) : c.rng.range(1, 12);
        for (int k = 0; k < nt; k++) { Facet t; text += in(1) + "facet normal" + ws(c) + num(c, c.rng.real(-1, 1)) + " 0 1e0" + nl + in(2) + "outer loop" + nl; for (int j = 0; j < 3; j++) { P3 p = c.rng.pick(pool); std::string v; vline.push_back(text.size()); for (int d = 0; d < 3; d++) { std::string x = num(c, p[d]); p[d] = std::strtod(x.c_str(), 0); v += ws(c) + x; } t.v[j] = p; text += in(3) + "vertex" + v + nl; } text += in(2) + "endloop" + nl + in(1) + "endfacet" + nl; facetEnd.push_back(text.size()); o.t.push_back(t); }
        text += in(0) + "endsolid" + (o.name.empty() || c.rng.chance(0.3) ? "" : c.rng.chance(0.2) ? " " + c.rng.pick(names) : c.rng.chance(0.1) ? "  " + o.name + " \t" : " " + o.name) + (s + 1 < ns || c.rng.chance(0.8) ? nl : ""); S.push_back(o); if (c.rng.chance(0.1)) text += nl; }
    c.note(text); c.interesting = ns > 0; c.cov("solids " + std::to_string(ns)); std::string w = text.substr(0, 700); const Data d = readText(text); same(c, d, S, w, exact);
    if (c.rng.chance(0.3)) { const Data e(d); same(c, e, S, "copy of " + w, exact); }
    if (vline.empty()) return;
    // damage: error, or a mesh that holds together
    std::string bad = text, what; bool refuse = false; int kind = c.rng.range(0, 6); std::size_t at = c.rng.pick(vline), end = text.find('\n', at);
    if (kind == 0) { bad.erase(at, end + 1 - at); what = "a vertex removed"; refuse = true; } else if (kind == 1) { bad.insert(at, text.substr(at, end + 1 - at)); what = "a vertex repeated"; refuse = true; }
    else if (kind == 2) { std::size_t k = text.find_last_of(" \t", end - 1); bad.erase(k, end - k - (text[end - 1] == '\r' ? 1 : 0)); what = "a number removed"; refuse = true; } else if (kind == 3) { std::size_t k = text.find("vertex", at) + 6; bad.insert(k, " x"); what = "a word for a number"; refuse = true; }
    else if (kind == 4) { bad = text.substr(0, c.rng.range(at, end)); what = "truncated in a facet"; refuse = true; } else if (kind == 5) { bad = text.substr(0, c.rng.range(0, text.size())); what = "truncated"; }
    else { for (int k = c.rng.range(1, 4); k > 0; k--) { std::size_t i = c.rng.range(0, bad.size() - 1); static const std::string T = " \n\t\rxe.-7\xff"; if (c.rng.chance(0.5)) bad[i] = T[c.rng.range(0, T.size() - 1)]; else bad.erase(i, c.rng.range(1, 30)); if (bad.empty()) bad = " "; } what = "characters changed"; }
    c.cov("damage " + what); std::string err; try { const Data x = readText(bad); whole(c, x, what + ": " + bad.substr(0, 500)); c.ev("damaged accepted"); } catch (const std::exception& e) { err = typeid(e).name(); c.ev("damaged refused"); }
    if (refuse) { c.ev("refusals checked"); VF_CHECK(c, !err.empty(), "accepted", what << " was accepted: " << bad.substr(0, 700)); }
    if (c.rng.chance(0.3)) { const Data x = readText(text); same(c, x, S, "after a damaged file", exact); }
}
