// Export to GiD: the mesh file is read back with a parser of our own and compared with the problem.
#include "viewsets.h"
#include "exporter/gid/Exporter.h"
#include <sys/stat.h>
typedef SEMBA::Exporter::GiD::Exporter GiD;
namespace {
typedef std::map<std::string, std::vector<Cell>> Shown;
std::string norm(const std::string& s) { std::string r; for (char ch : s) if (ch != '\n') r += ch; return plain(r); }
Shown want(const Data& d, double scale) { Shown r; for (auto& s : expected(d, true)) for (auto q : s.cells) { if (q.type == 0) continue; for (auto& p : q.p) for (int k = 0; k < 3; k++) p(k) /= scale; r[norm(s.base)].push_back(q); } return r; }
bool sameCells(const std::vector<Cell>& a, const std::vector<Cell>& b, bool any) { if (a.size() != b.size()) return false; std::vector<bool> u(b.size(), false); for (auto& x : a) { bool f = false; for (std::size_t j = 0; j < b.size() && !f; j++) if (!u[j] && sameCell(x, b[j], any)) u[j] = f = true; if (!f) return false; } return true; }
Shown readBack(vf::Ctx& c, const std::string& f, const std::string& w) {
    Shown r; std::ifstream in(f.c_str()); VF_CHECK(c, bool(in), "missing-file", w); std::string l; std::map<long, CVecR3> co; std::map<long, int> eids; std::string name; int type = 0, nn = 0, mode = 0; long lineNo = 0; std::set<long> pending; static const std::map<std::string, int> T{{"Point", 1}, {"Linear", 3}, {"Triangle", 5}, {"Quadrilateral", 9}, {"Tetrahedra", 10}, {"Hexahedra", 12}};
    auto bad = [&](const std::string& why) { VF_CHECK(c, false, "malformed", why << " in line " << lineNo << " '" << l << "': " << w); };
    while (std::getline(in, l)) { lineNo++; std::string t = l; while (!t.empty() && std::isspace((unsigned char)t.back())) t.pop_back(); std::size_t b = t.find_first_not_of(" \t"); if (b == std::string::npos) continue; t = t.substr(b); if (t[0] == '#') continue;
        if (mode == 0) { if (t.compare(0, 6, "MESH \"") == 0) { std::size_t q = t.find("\" dimension "); if (q == std::string::npos) return bad("no dimension"), r; name = t.substr(6, q - 6); std::istringstream i(t.substr(q + 1)); std::string a, k, et, e; int dim; i >> a >> dim >> k >> et >> e >> nn; if (!i || dim != 3 || k != "ElemType" || e != "Nnode" || !T.count(et)) return bad("unknown mesh"), r; type = T.at(et); static const std::map<int, int> N{{1, 1}, {3, 2}, {5, 3}, {9, 4}, {10, 4}, {12, 8}}; if (N.at(type) != nn) return bad("number of nodes"), r; mode = 1; c.ev("meshes"); } else return bad("unexpected line"), r; }
        else if (mode == 1 && t.compare(0, 11, "Coordinates") == 0) mode = 2; else if (mode == 1 && t.compare(0, 8, "Elements") == 0) mode = 3; else if (mode == 2 && (t == "end coordinates" || t == "End Coordinates" || t == "End coordinates")) mode = 1; else if (mode == 3 && (t == "end elements" || t == "End Elements" || t == "End elements")) { mode = 0; VF_CHECK(c, pending.empty(), "unused-points", pending.size() << " points of '" << name << "': " << w); pending.clear(); }
        else if (mode == 2) { std::istringstream i(t); long id; double x, y, z; i >> id >> x >> y >> z; if (!i || !i.eof()) return bad("coordinate"), r; VF_CHECK(c, id > 0 && co.insert({id, CVecR3(x, y, z)}).second, "repeated-identity", "point " << id << ": " << w); pending.insert(id); }
        else if (mode == 3) { std::istringstream i(t); long id; i >> id; Cell q; q.type = type; for (int k = 0; k < nn; k++) { long v; i >> v; if (!i || !co.count(v)) return bad("element"), r; pending.erase(v); q.p.push_back(co[v]); } long more; VF_CHECK(c, id > 0 && eids.insert({id, 1}).second, "repeated-identity", "element " << id << ": " << w); if (i >> more && i >> more) return bad("element"), r; r[norm(name)].push_back(q); c.ev("elements"); }
        else return bad("unexpected line"), r; }
    VF_CHECK(c, mode == 0, "malformed", "the file ends within a mesh: " << w); return r; }
void compare(vf::Ctx& c, const Shown& got, const Shown& w, const std::string& how) { for (auto& p : w) { VF_CHECK(c, got.count(p.first), "set", "'" << p.first << "' is not in the file: " << how); if (!got.count(p.first)) continue; bool any = p.first == "Grid" || p.first.find("@Boundary") != std::string::npos; VF_CHECK(c, sameCells(got.at(p.first), p.second, any), "elements", "'" << p.first << "' has " << got.at(p.first).size() << " elements in the file, " << p.second.size() << " in the problem; " << how); c.ev("sets"); } VF_CHECK(c, got.size() == w.size(), "sets", got.size() << " sets in the file, " << w.size() << " in the problem; " << how); }
bool identical(const Shown& a, const Shown& b) { if (a.size() != b.size()) return false; for (auto& p : a) { auto i = b.find(p.first); if (i == b.end() || i->second.size() != p.second.size()) return false; for (std::size_t k = 0; k < p.second.size(); k++) for (std::size_t j = 0; j < p.second[k].p.size(); j++) for (int q = 0; q < 3; q++) if (p.second[k].p[j](q) != i->second[k].p[j](q)) return false; } return true; }
}
void vf_case(vf::Ctx& c) {
    std::unique_ptr<Data> d; std::string w; double scale = 1; if (c.rng.chance(0.25)) { Expect x; w = problem(c, x, false); SEMBA::Parser::JSON::Parser p; std::istringstream in(w); d.reset(new Data(p.read(in))); if (!d->mesh) return; if (d->solver) scale = x.scale; c.cov("read from text"); w = w.substr(0, 900); }
    else { d.reset(built(c, w, 1)); if (c.rng.chance(0.8)) { static const std::vector<double> S{1, 0.001, 0.3, 7, 1000, 0}; SEMBA::Solver::Settings s; s.setObject(); if (c.rng.chance(0.8)) { scale = c.rng.pick(S); s("geometryScalingFactor").setReal(scale); if (scale == 0) scale = 1; } d->solver = new SEMBA::Solver::Info("solver", s); c.cov("scale " + vf::str(scale)); } else c.cov("no solver"); }
    c.note(w); c.interesting = true; Shown sh = want(*d, scale); static bool first = true; if (first) { GiD e(d.get(), "first"); first = false; }
    for (auto& s : expected(*d, true)) for (auto& q : s.cells) for (auto& p : q.p) c.dig(p(0));
    Shown before = want(*d, 1); std::size_t bytes = vf::liveBytes(); { GiD e(d.get(), "out"); } std::size_t after = vf::liveBytes(); VF_CHECK(c, bytes == after, "leak", long(after - bytes) << " bytes kept: " << w); compare(c, readBack(c, "out.post.msh", w), sh, w); VF_CHECK(c, identical(before, want(*d, 1)), "problem-changed", "the problem is not what it was before its export: " << w);
    int op = c.rng.range(0, 4); if (op == 0) { { GiD e(d.get(), "out"); } compare(c, readBack(c, "out.post.msh", w), sh, "second export: " + w); c.cov("exported twice"); }
    else if (op == 1) { { GiD a(d.get(), "a"); GiD b(d.get(), "b"); } compare(c, readBack(c, "a.post.msh", w), sh, "first of two at once: " + w); compare(c, readBack(c, "b.post.msh", w), sh, "second of two at once: " + w); c.cov("two at once"); }
    else if (op == 2) { std::string t = vf::thrown([&] { GiD e(d.get(), "nowhere" + std::to_string(c.index) + "/x", c.rng.chance(0.5) ? GiD_PostAscii : GiD_PostBinary); }); VF_CHECK(c, !t.empty(), "silent-failure", "no such folder and no error: " << w); { GiD e(d.get(), "out"); } compare(c, readBack(c, "out.post.msh", w), sh, "after a failed export: " + w); c.cov("refused"); }
    else if (op == 3) { { GiD e(d.get(), "bin", GiD_PostBinary); } struct stat s; VF_CHECK(c, !stat("bin.post.res", &s) && s.st_size > 0, "missing-file", "binary: " << w); c.cov("binary"); }
    else { GiD* e = new GiD(d.get(), "kept"); e->flushPostFile(); compare(c, readBack(c, "kept.post.msh", w), sh, "flushed while open: " + w); const Data cp(*d); d.reset(); delete e; { GiD f(&cp, "out"); } compare(c, readBack(c, "out.post.msh", w), sh, "export of a copy: " + w); }
}
