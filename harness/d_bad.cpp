// Damaged problem files: random problems are damaged as text or member by member; reading must
// end in an error or in a problem that holds together, and leave later readings alone.
#include "problem.h"
#include "json.hpp"
using nlohmann::json;
namespace {
typedef std::vector<json*> Nodes;
void walk(json& j, std::vector<std::pair<json*, std::string>>& containers, Nodes& all) { all.push_back(&j); if (j.is_object()) { for (auto it = j.begin(); it != j.end(); ++it) { containers.push_back({&j, it.key()}); walk(it.value(), containers, all); } } else if (j.is_array()) for (auto& e : j) walk(e, containers, all); }
std::string token(vf::Ctx& c) { static const std::vector<std::string> t{"0", "-1", "1", "2", "7777", "-0.5", "3.75", "100", "x", "{", "}", "1e", "-", "--2", "0x10", "inf", "nan", ""}; return c.rng.pick(t); }
std::string badString(vf::Ctx& c, const std::string& s) {
    switch (c.rng.range(0, 6)) { case 0: { static const std::vector<std::string> t{"", "{", "}", "{}", "}{", "{1 2", "1 2}", "a b c", " ", "{{1 1 1} {2 2 2}}", "\n", "\xc3\xb1", "unknown"}; return c.rng.pick(t); }
    case 1: return s.substr(0, c.rng.range(0, s.size())); case 2: return s + " " + token(c); case 3: return " " + s + " ";
    default: { std::vector<std::string> w; std::istringstream i(s); std::string x; while (i >> x) w.push_back(x); if (w.empty()) return token(c); std::size_t k = c.rng.range(0, w.size() - 1); if (c.rng.chance(0.25)) w.erase(w.begin() + k); else if (c.rng.chance(0.2)) w.insert(w.begin() + k, token(c)); else w[k] = token(c); std::string r; for (auto& y : w) r += (r.empty() ? "" : " ") + y; return r; } } }
json badValue(vf::Ctx& c) { static const std::vector<std::string> t{"null", "true", "0", "-1", "7777", "2.5", "\"x\"", "\"\"", "\"7\"", "[]", "{}", "[1]", "[\"1 0 0\"]", "[null]", "{\"a\":1}", "[[]]", "[7777]"}; return json::parse(c.rng.pick(t)); }
// one damage inside the tree; true when it was done
bool damage(vf::Ctx& c, json& j, std::string& what) {
    std::vector<std::pair<json*, std::string>> m; Nodes all; walk(j, m, all); std::vector<json*> strs, nums, arrs; for (auto* n : all) { if (n->is_string()) strs.push_back(n); if (n->is_number() || n->is_boolean()) nums.push_back(n); if (n->is_array() && !n->empty()) arrs.push_back(n); }
    switch (c.rng.range(0, 8)) {
    case 0: { auto p = c.rng.pick(m); what += "removed " + p.second; p.first->erase(p.second); return true; }
    case 1: { auto p = c.rng.pick(m); what += "renamed " + p.second; (*p.first)[p.second + (c.rng.chance(0.5) ? "x" : " ")] = (*p.first)[p.second]; p.first->erase(p.second); return true; }
    case 2: { auto p = c.rng.pick(m); json v = badValue(c); what += p.second + " became " + v.dump(); (*p.first)[p.second] = v; return true; }
    case 3: case 4: case 5: { if (strs.empty()) return false; json* s = c.rng.pick(strs); std::string o = s->get<std::string>(); if (o == OPENSEMBA_VERSION) return false; std::string b = badString(c, o); what += "'" + o + "' became '" + b + "'"; *s = b; return true; }
    case 6: { if (nums.empty()) return false; json* s = c.rng.pick(nums); json v = badValue(c); what += s->dump() + " became " + v.dump(); *s = v; return true; }
    case 7: { if (arrs.empty()) return false; json* a = c.rng.pick(arrs); std::size_t k = c.rng.range(0, a->size() - 1); if (c.rng.chance(0.5)) { what += "removed an entry"; a->erase(k); } else { what += "repeated an entry"; json v = (*a)[k]; a->push_back(v); } return true; }
    default: { if (arrs.empty()) return false; json* a = c.rng.pick(arrs); std::size_t k = c.rng.range(0, a->size() - 1); json v = badValue(c); what += "an entry became " + v.dump(); (*a)[k] = v; return true; } } }
std::string damageText(vf::Ctx& c, const std::string& t, std::string& what) {
    std::string r = t; std::vector<std::size_t> at; for (std::size_t i = 0; i < t.size(); i++) if (!std::strchr("0123456789.eE+-", t[i])) at.push_back(i);
    for (int k = c.rng.range(1, 3); k > 0; k--) { std::size_t i = c.rng.pick(at); if (i >= r.size()) continue; static const std::string S = "{}[]\",: \\x\n\t\xff"; what += " char at " + std::to_string(i); if (c.rng.chance(0.4)) r[i] = S[c.rng.range(0, S.size() - 1)]; else if (c.rng.chance(0.5)) r.insert(i, 1, S[c.rng.range(0, S.size() - 1)]); else if (!std::strchr("0123456789.eE+-", r[i])) r.erase(i, 1); }
    return r; }
// what a reading gave: the kind of error, or the problem as text
std::string describe(const Data& d) {
    std::ostringstream o; if (d.solver) o << d.solver->getName() << settings(d.solver->getSettings()) << "\n"; for (std::size_t i = 0; d.physicalModels && i < d.physicalModels->size(); i++) o << pm((*d.physicalModels)(i)) << "\n";
    if (auto* g = dynamic_cast<const Mesh::Geometric*>(d.mesh)) { Ids own; o << grid(g->grid()) << "\n"; for (std::size_t i = 0; i < g->elems().size(); i++) { own.insert(g->elems()(i)->getId().toInt()); o << el(g->elems()(i)) << "\n"; }
        for (std::size_t i = 0; d.sources && i < d.sources->size(); i++) o << source((*d.sources)(i), own) << "\n"; for (std::size_t i = 0; d.outputRequests && i < d.outputRequests->size(); i++) o << request((*d.outputRequests)(i), own) << "\n"; }
    return o.str(); }
void whole(vf::Ctx& c, const Data& d, const std::string& w, const char* how) {
    VF_CHECK(c, d.physicalModels && d.sources && d.outputRequests, "incomplete", how << ": a collection is missing; " << w); if (!d.physicalModels || !d.sources || !d.outputRequests) return;
    for (std::size_t i = 0; i < d.physicalModels->size(); i++) VF_CHECK(c, (*d.physicalModels)(i) != nullptr, "null-member", w);
    if (!d.mesh) { c.ev("mesh refused"); VF_CHECK(c, d.sources->size() == 0 && d.outputRequests->size() == 0, "dangling", how << ": sources or requests of a problem without a mesh; " << w); return; }
    auto* g = dynamic_cast<const Mesh::Geometric*>(d.mesh); VF_CHECK(c, g, "incomplete", w); if (!g) return; std::set<const void*> in; Ids ids;
    for (std::size_t i = 0; i < g->elems().size(); i++) { auto* e = g->elems()(i); VF_CHECK(c, e, "null-member", how << " " << w); if (!e) return; in.insert(e); VF_CHECK(c, ids.insert(e->getId().toInt()).second, "identity", how << " " << w);
        for (std::size_t k = 0; k < e->numberOfCoordinates(); k++) { auto* v = e->getV(k); VF_CHECK(c, v && g->coords().existId(v->getId()) && g->coords().getId(v->getId()) == v, "foreign-vertex", how << ": vertex " << k << " of element " << e->getId() << "; " << w); }
        VF_CHECK(c, !e->getLayer() || (g->layers().existId(e->getLayerId()) && g->layers().getId(e->getLayerId()) == e->getLayer()), "foreign-layer", how << " " << w);
        VF_CHECK(c, !e->getModel() || (d.physicalModels->existId(e->getMatId()) && model(e) == d.physicalModels->getId(e->getMatId())), "foreign-material", how << " " << w); }
    auto all = [&](const Element::Group<const Elem>& es) { for (std::size_t i = 0; i < es.size(); i++) { auto* e = es(i); VF_CHECK(c, e && in.count(dynamic_cast<const ElemR*>(e)), "foreign-element", how << ": " << w); } };
    for (std::size_t i = 0; i < d.sources->size(); i++) all((*d.sources)(i)->elems()); for (std::size_t i = 0; i < d.outputRequests->size(); i++) all((*d.outputRequests)(i)->elems()); c.ev("accepted"); }
// refused: an error, or no mesh
struct Out { std::string text, error; bool mesh = false; };
Out attempt(vf::Ctx& c, const std::string& t, const std::string& w, bool look) {
    Out o; try { std::istringstream in(t); SEMBA::Parser::JSON::Parser p; const Data d = p.read(in); o.mesh = d.mesh != nullptr; if (look) whole(c, d, w, "read"); o.text = describe(d); if (look) { d.printInfo(); const Data e(d); whole(c, e, w, "copied");  } }
    catch (const std::exception& e) { o.error = std::string(typeid(e).name()) + " " + e.what(); } return o; }
void clean(vf::Ctx& c) { for (const char* f : {"disp.dat", "mag.exc", "grid.txt"}) std::remove(c.file(f).c_str()); }
}
// the problem is fine but a file beside it is cut, empty or gone; once it is back, the problem reads as written
void besides(vf::Ctx& c, const Expect& x, const std::string& t) {
    for (const char* n : {"grid.txt", "mag.exc", "disp.dat"}) { std::string f = c.file(n), old; { std::ifstream i(f); if (!i) continue; std::stringstream b; b << i.rdbuf(); old = b.str(); } int how = c.rng.range(0, 3); std::string cut = how == 0 ? "" : how == 1 ? old.substr(0, c.rng.range(0, old.size())) : how == 2 ? "x" + old : old + "}"; if (how == 3 && c.rng.chance(0.5)) std::remove(f.c_str()); else std::ofstream(f) << cut;
        std::string w = std::string(n) + " became '" + cut.substr(0, 60) + "'"; Out a = attempt(c, t, w, false); std::ofstream(f) << old; c.cov(std::string("beside ") + n + (a.error.empty() ? " read" : " refused")); c.ev("damaged side files");
        std::istringstream in(t); SEMBA::Parser::JSON::Parser p; std::string e = vf::thrown([&] { const Data d = p.read(in); inspect(c, d, x, "after " + w, "as read"); }); VF_CHECK(c, e.empty(), "unstable", "after " << w << " a sound problem is refused: " << e); } }
void vf_case(vf::Ctx& c) {
    Expect x; std::string t = problem(c, x, false), what, bad; if (c.rng.chance(0.15)) { c.note(t); c.interesting = true; besides(c, x, t); clean(c); return; } bool refuse = false; int kind = c.rng.range(0, 9);
    if (kind == 0) { std::size_t e = t.find_last_of('}'); bad = t.substr(0, c.rng.range(0, e)); what = "truncated"; refuse = true; c.cov("truncated"); }
    else if (kind <= 2) { bad = damageText(c, t, what); c.cov("characters"); }
    else if (kind <= 5) { json j = json::parse(t); bool done = false;
        auto pickArr = [&](const char* k) -> json* { auto it = j.find(k); return it != j.end() && it->is_array() && !it->empty() ? &(*it)[c.rng.range(0, it->size() - 1)] : nullptr; };
        auto elemLine = [&](int tok, const std::string& v) { static const std::vector<std::string> K{"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"}; auto e = j.find("elements"); if (e == j.end()) return; json& a = (*e)[c.rng.pick(K)]; if (a.empty()) return; json& l = a[c.rng.range(0, a.size() - 1)]; std::istringstream i(l.get<std::string>()); std::vector<std::string> w; std::string s; while (i >> s) w.push_back(s); if (tok >= 0) w[tok] = v; else w[c.rng.range(3, w.size() - 1)] = v; s.clear(); for (auto& y : w) s += y + " "; l = s; done = true; };
        int r = c.rng.range(0, 20); static const std::vector<std::string> sections{"layers", "coordinates", "elements", "grids", "sources", "outputRequests", "connectorOnPoint"};
        switch (r) {
        case 0: j["_version"] = c.rng.chance(0.5) ? "0.0" : "0.14.1"; done = true; break; case 1: j.erase("_version"); done = true; break;
        case 2: { auto k = c.rng.pick(sections); if (j.count(k)) { j.erase(k); done = true; what = k; } break; }
        case 3: elemLine(-1, "7777"); break; case 4: elemLine(1, "7777"); break; case 5: elemLine(2, "7777"); break; case 6: elemLine(-1, ""); break;
        case 7: for (const char* k : {"sources", "outputRequests"}) if (auto* s = pickArr(k)) if (s->count("elemIds")) { (*s)["elemIds"].push_back(777777); done = true; } break;
        case 8: if (auto* s = pickArr("sources")) if (s->count("coordIds")) { (*s)["coordIds"].push_back(777777); done = true; } if (auto* s = pickArr("connectorOnPoint")) { (*s)["coordIds"] = 777777; done = true; } break;
        case 9: if (auto* s = pickArr("materials")) { json v = *s; j["materials"].push_back(v); done = true; } break;
        case 10: for (const char* k : {"coordinates", "layers"}) if (auto* s = pickArr(k)) { json v = *s; j[k].push_back(v); done = true; } break;
        case 11: if (auto* s = pickArr("materials")) { (*s)["materialType"] = "Unobtainium"; done = true; } break;
        case 13: case 14: case 15: case 16: case 17: {   // a word that means nothing
            static const std::set<std::string> K{"materialType", "wireType", "surfaceType", "anisotropicModel", "connectorType", "sourceType", "shape", "excitationMode", "definitionMode", "type", "hardness", "gidOutputType", "direction", "gridType"};
            std::vector<std::pair<json*, std::string>> m, k; Nodes all; for (const char* s : {"materials", "connectorOnPoint", "sources", "outputRequests", "grids"}) if (j.count(s)) walk(j[s], m, all);
            for (auto& p : m) { if (!K.count(p.second) || !(*p.first)[p.second].is_string()) continue; auto& o = *p.first; if (o[p.second] == "other" || (p.second == "type" && o.count("gridType"))) continue; if (p.second == "gidOutputType" && o.value("type", "").find("bulk") != std::string::npos) continue; if (p.second == "hardness" && o.value("sourceType", "") == "generator") continue; k.push_back(p); }
            if (k.empty()) break; auto p = c.rng.pick(k); static const std::vector<std::string> B{"", "unheard", "Xtype", "0", "y z", "PECPEC", "Conn", "w"}; std::string b = c.rng.pick(B); (*p.first)[p.second] = b; what = p.second + " '" + b + "'"; c.cov("word " + p.second); done = true; break; }
        case 18: case 19: {   // no lines on an axis, or nothing between them
            if (!j.count("grids") || j["grids"].empty()) break; json& g = j["grids"][0]; std::string t = g.value("gridType", ""); int a = c.rng.range(0, 2);
            if (t == "nativeGiD") { static const char* N[] = {"xCoordinates", "yCoordinates", "zCoordinates"}; g[N[a]] = json::array(); if (c.rng.chance(0.5)) g[N[(a + 1 + c.rng.range(0, 1)) % 3]] = json::array(); done = true; }
            else if (t == "gridCondition" && g.value("type", "") == "Number_of_cells") { int k[3] = {3, 2, 4}; k[a] = -c.rng.range(0, 3); if (c.rng.chance(0.3)) k[(a + 1) % 3] = -2; g["numberOfCells"] = "{" + std::to_string(k[0]) + " " + std::to_string(k[1]) + " " + std::to_string(k[2]) + "}"; done = true; }
            else if (t == "gridCondition" && !g.count("boundaryPaddingType") && g.count("layerBox") && g.value("type", "") == "by_distance" && !g.value("fitSizeToBox", true)) { std::string b = g["layerBox"]; std::istringstream i(b.substr(1)); std::vector<std::string> w(6); for (auto& x : w) i >> x; g["layerBox"] = "{" + w[0] + " " + w[1] + " " + w[2] + " " + w[0] + " " + w[1] + " " + w[2] + "}"; done = true; }
            if (done) { what = "empty grid " + t; c.cov("empty grid " + t); } break; }
        default: if (auto* s = pickArr("sources")) { (*s)["sourceType"] = "sun"; done = true; } if (j.count("solverOptions") && j.count("elements") && c.rng.chance(0.5)) { j["solverOptions"].erase("geometryScalingFactor"); done = true; } }
        refuse = done; what += " case " + std::to_string(r); bad = j.dump(); if (done) c.cov("refusal " + std::to_string(r)); }
    else { json j = json::parse(t); for (int k = c.rng.range(1, 3); k > 0; k--) { what += "; "; damage(c, j, what); } bad = j.dump(c.rng.chance(0.5) ? -1 : 1); c.cov("members"); }
    c.note(what); c.note(bad); c.interesting = bad != t; std::string w = what + " in " + bad.substr(0, 500);
    Out a = attempt(c, bad, w, true); c.ev(a.error.empty() ? "returned" : "errors"); c.cov("outcome " + (a.error.empty() ? std::string(a.mesh ? "mesh" : "no mesh") : a.error.substr(0, a.error.find(" "))));
    if (refuse && x.mesh) { c.ev("refusals checked"); VF_CHECK(c, !a.error.empty() || !a.mesh, "accepted", "a damaged file was accepted: " << w); }
    if (refuse && kind == 0) VF_CHECK(c, !a.error.empty(), "accepted", "a truncated file was accepted: " << w);
    if (c.rng.chance(0.4)) { Out b = attempt(c, bad, w, false); VF_CHECK(c, a.text == b.text && a.error == b.error, "unstable", "reading twice differs: " << w << "\n" << a.error << " " << b.error << "\n" << bad.substr(std::max(0, std::atoi(what.c_str() + 9) - 100), 200) << "\n" << what); }
    if (c.rng.chance(0.2)) { std::istringstream in(t); SEMBA::Parser::JSON::Parser p; const Data d = p.read(in); inspect(c, d, x, "after a damaged file", "as read"); }
    clean(c);
}
