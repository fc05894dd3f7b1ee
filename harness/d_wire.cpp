// Lines grouped into wires: random networks of wire lines, connectors, junctions, rings
// and unrelated lines over integer or real coordinates; the expected wires come from the
// joining rule applied node by node to the plain description.
#include "meshgen.h"
#include "util/wire/Group.h"
#include "physicalModel/wire/Extremes.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/predefined/PEC.h"
#include "Data.h"
#include <numeric>
using namespace mg; namespace PW = PhysicalModel::Wire; namespace MP = PhysicalModel::Multiport;
namespace {
enum K { kWire, kExt, kCon, kOther, kNone };
struct Ln { std::size_t id; int a, b, mat; std::size_t lay; };   // a, b: index of coordinate; mat: index of material, -1 none
struct Mat { std::size_t id; K kind; std::string name; double x[3]; int con[2] = {-1, -1}; int flavour = 0; };
struct W { std::vector<int> co; std::vector<std::size_t> ids; std::set<std::size_t> rev; int mat, cl, cr; std::size_t lay; bool ring; };
std::string conStr(const MP::Multiport* m) { if (!m) return "-"; std::ostringstream o; o << m->getId() << "/" << m->getName() << "/" << int(m->getType()); if (auto* r = dynamic_cast<const MP::RLC*>(m)) o << "/" << r->getR() << "/" << r->getL() << "/" << r->getC(); if (auto* d = dynamic_cast<const MP::Dispersive*>(m)) o << "/" << d->getFilename(); return o.str(); }
MP::Multiport* newCon(const Mat& m) { switch (m.flavour) { case 0: return new MP::RLC(MatId(m.id), m.name, MP::Multiport::sRLC, m.x[0], m.x[1], m.x[2]); case 1: return new MP::Predefined(MatId(m.id), m.name, MP::Multiport::shortCircuit); case 2: return new MP::Predefined(MatId(m.id), m.name, MP::Multiport::matched); default: return new MP::Dispersive(MatId(m.id), m.name, m.name + ".dat"); } }
PW::Wire* newWire(const Mat& m) { switch (m.flavour) { case 0: return new PW::Wire(MatId(m.id), m.name, m.x[0], m.x[1], m.x[2]); case 1: return new PW::Wire(MatId(m.id), m.name, m.x[0], m.x[1], m.x[2], 3, 4, 5, 6); default: return new PW::Wire(MatId(m.id), m.name, m.x[0], m.name + ".dat"); } }
std::string wireStr(const PW::Wire& w) { std::ostringstream o; o << w.getRadius() << "/" << w.getSeriesResistance() << "/" << w.getSeriesInductance() << "/" << w.getSeriesCapacitance() << "/" << w.getParallelResistance() << "/" << w.getParallelInductance() << "/" << w.getParallelCapacitance() << "/" << w.isSeriesParallel() << w.isDispersive() << w.getFilename(); return o.str(); }
struct Net { std::vector<Ln> ln; std::vector<Mat> mats; int nc = 0; std::vector<std::array<int, 3>> pos; bool bad = false; };

Net generate(vf::Ctx& c) {
    Net n; std::size_t mid = 0; auto addMat = [&](K k, int i) { Mat m; mid += c.rng.range(1, 3); m.id = mid; m.kind = k; static const char* nm[] = {"wire", "ends", "con", "metal"}; m.name = std::string(nm[k]) + std::to_string(i); for (auto& x : m.x) x = c.rng.range(1, 100) * 0.125; m.flavour = c.rng.range(0, k == kCon ? 3 : 2); n.mats.push_back(m); return int(n.mats.size()) - 1; };
    std::vector<int> wires, exts, cons; for (int i = c.rng.range(1, 3); i > 0; --i) wires.push_back(addMat(kWire, i)); for (int i = c.rng.range(0, 3); i > 0; --i) cons.push_back(addMat(kCon, i)); for (int i = c.rng.range(0, 2); i > 0; --i) { int e = addMat(kExt, i); for (int q = 0; q < 2; q++) if (!cons.empty() && c.rng.chance(0.7)) n.mats[e].con[q] = c.rng.pick(cons); exts.push_back(e); } int pec = addMat(kOther, 0);
    std::vector<std::size_t> ids = freshIds(c, 300); std::size_t k = 0; std::vector<std::size_t> lays{11, 22};
    auto node = [&] { return n.nc++; };
    auto line = [&](int a, int b, int m, std::size_t l) { n.ln.push_back({ids[k++], a, b, m, l}); };
    int chains = c.rng.range(1, c.thorough ? 7 : 5); std::vector<int> junctions;
    for (int q = 0; q < chains; q++) { bool ext = !exts.empty() && c.rng.chance(0.3); int m = ext ? c.rng.pick(exts) : c.rng.pick(wires); std::size_t lay = c.rng.pick(lays); int len = c.rng.range(1, 6); std::vector<int> path;
        bool ring = c.rng.chance(0.12) && !ext; if (ring) len = std::max(len, 3);
        for (int i = 0; i <= len; i++) path.push_back(i == len && ring ? path[0] : node());
        if (!ring && !junctions.empty() && c.rng.chance(0.35)) path[c.rng.chance(0.5) ? 0 : len] = c.rng.pick(junctions);
        for (int i = 0; i < len; i++) { int mm = m; bool flip = false; if (!ext && !ring && i > 0 && c.rng.chance(0.12)) m = mm = c.rng.pick(wires); if (!ring && c.rng.chance(0.07)) flip = true; if (!ring && c.rng.chance(0.07)) lay = c.rng.pick(lays); line(flip ? path[i + 1] : path[i], flip ? path[i] : path[i + 1], mm, lay); }
        // connectors: directed into the wire, only at nodes of this chain that nothing else uses
        if (!ring && !cons.empty()) for (int e = 0; e < 2; e++) if (c.rng.chance(0.5)) { if (ext && !c.rng.chance(0.05)) continue; int at = e ? path[len] : path[0]; int cm = c.rng.pick(cons), segs = c.rng.chance(0.2) ? 2 : 1; std::size_t cl = c.rng.chance(0.04) ? c.rng.pick(lays) : n.ln.back().lay; if (e == 0) for (auto& l : n.ln) if (l.a == at || l.b == at) { if (!c.rng.chance(0.03)) cl = l.lay; } bool out = c.rng.chance(0.06); if (out && c.rng.chance(0.9)) cl = cl == 11 ? 22 : 11; for (int s = 0; s < segs; s++) { int b = node(); if (out) line(at, b, cm, cl); else line(b, at, cm, cl); at = b; } }
        if (!ring) for (int x : path) if (c.rng.chance(0.4)) junctions.push_back(x);
        if (ring && c.rng.chance(0.3)) junctions.push_back(path[0]); }
    for (int i = c.rng.range(0, 4); i > 0; --i) { int a = c.rng.range(0, n.nc - 1), b = c.rng.chance(0.5) ? node() : c.rng.range(0, n.nc - 1); if (a == b) b = node(); line(a, b, c.rng.chance(0.5) ? pec : -1, c.rng.pick(lays)); }
    std::set<std::array<int, 3>> used; for (int i = 0; i < n.nc; i++) { std::array<int, 3> p; do for (auto& x : p) x = c.rng.range(-20, 20); while (!used.insert(p).second); n.pos.push_back(p); }
    c.rng.shuffle(n.ln); return n;
}
// the rule: which of the two lines at a node go on as one wire
bool arrives(const Ln& l, int v) { return l.b == v; }
bool joined(const Net& n, const Ln& p, const Ln& q, int v) { K a = n.mats[p.mat].kind, b = n.mats[q.mat].kind; if (p.lay != q.lay) return false; if (a == kExt || b == kExt) return a == b && p.mat == q.mat && arrives(p, v) != arrives(q, v); if (a == kWire && b == kWire) return p.mat == q.mat && arrives(p, v) != arrives(q, v); if (a == kCon && b == kCon) return p.mat == q.mat && !(!arrives(p, v) && !arrives(q, v)); return arrives(a == kCon ? p : q, v); }
// empty when a group of lines holds no wire; ambiguous when the rule does not settle the network
std::vector<W> model(const Net& n, bool& error, bool& open) {
    std::vector<Ln> ln; for (auto& l : n.ln) if (l.mat >= 0 && n.mats[l.mat].kind <= kCon) ln.push_back(l);
    std::vector<std::vector<int>> at(n.nc); for (std::size_t i = 0; i < ln.size(); i++) { at[ln[i].a].push_back(i); at[ln[i].b].push_back(i); }
    // connectors that leave a wire are not settled by the rule
    for (int v = 0; v < n.nc; v++) if (at[v].size() == 2) { const Ln &p = ln[at[v][0]], &q = ln[at[v][1]]; bool pc = n.mats[p.mat].kind == kCon, qc = n.mats[q.mat].kind == kCon; if (p.lay == q.lay && pc != qc && !arrives(pc ? p : q, v)) open = true; if (p.lay == q.lay && pc && qc && p.mat != q.mat) open = true; if (at[v][0] == at[v][1]) open = true; }
    std::vector<std::vector<int>> nb(ln.size()); for (int v = 0; v < n.nc; v++) if (at[v].size() == 2 && joined(n, ln[at[v][0]], ln[at[v][1]], v)) { nb[at[v][0]].push_back(v); nb[at[v][1]].push_back(v); }
    std::vector<W> res; std::vector<bool> seen(ln.size()); error = false;
    auto other = [&](int i, int v) { return at[v][0] == i ? at[v][1] : at[v][0]; };
    for (int pass = 0; pass < 2; pass++) for (std::size_t s = 0; s < ln.size(); s++) { if (seen[s] || (pass == 0 && nb[s].size() == 2)) continue;
        W w; w.ring = pass == 1; w.mat = w.cl = w.cr = -1; std::vector<int> seq; int from = nb[s].empty() ? ln[s].a : nb[s][0] == ln[s].a ? ln[s].b : ln[s].a; if (pass == 1) from = ln[s].a; int i = s; w.co.push_back(from);
        while (true) { seen[i] = true; seq.push_back(i); int to = ln[i].a == from ? ln[i].b : ln[i].a; w.co.push_back(to); if (std::find(nb[i].begin(), nb[i].end(), to) == nb[i].end()) break; int j = other(i, to); if (seen[j]) break; i = j; from = to; }
        // orientation: that of the first wire line
        bool flip = false; for (std::size_t q = 0; q < seq.size(); q++) { auto& l = ln[seq[q]]; if (n.mats[l.mat].kind != kCon) { if (w.mat < 0) flip = l.a != w.co[q]; w.mat = l.mat; } }
        if (w.mat < 0) { error = true; continue; }
        if (flip) { std::reverse(w.co.begin(), w.co.end()); std::reverse(seq.begin(), seq.end()); }
        for (std::size_t q = 0; q < seq.size(); q++) { auto& l = ln[seq[q]]; w.ids.push_back(l.id); w.lay = l.lay; if (seq.size() > 1 && l.a != w.co[q]) w.rev.insert(l.id); if (n.mats[l.mat].kind == kCon) { bool before = true; for (std::size_t r = 0; r < q; r++) if (n.mats[ln[seq[r]].mat].kind != kCon) before = false; (before ? w.cl : w.cr) = l.mat; } }
        res.push_back(w); }
    return res;
}
template <class T> struct Typ; template <> struct Typ<double> { typedef Geometry::Mesh::Unstructured Mesh; static CVecR3 pos(const std::array<int, 3>& p) { return CVecR3(p[0] * 0.37, p[1] * 0.37, p[2] * 0.37); } }; template <> struct Typ<int> { typedef Geometry::Mesh::Structured Mesh; static CVecI3 pos(const std::array<int, 3>& p) { return CVecI3(p[0], p[1], p[2]); } };
void setMesh(Data& d, Coordinate::Group<CoordR3>& cg, Element::Group<ElemR>& eg, Layer::Group<>& lg) { d.mesh = new Geometry::Mesh::Unstructured(cg, eg, lg); }
void setMesh(Data& d, Coordinate::Group<CoordI3>& cg, Element::Group<ElemI>& eg, Layer::Group<>& lg) { std::vector<double> p[3]; for (auto& q : p) for (int i = 0; i < 5; i++) q.push_back(i); d.mesh = new Geometry::Mesh::Structured(Grid3(p), cg, eg, lg); }
std::string show(const Net& n) { std::ostringstream o; for (auto& l : n.ln) o << l.id << "(" << l.a + 1 << ">" << l.b + 1 << (l.mat < 0 ? std::string(" none") : " " + n.mats[l.mat].name) << " L" << l.lay << ") "; return o.str(); }

template <class T> void run(vf::Ctx& c, const Net& n, const std::string& w) {
    bool error = false, open = false; auto want = model(n, error, open); if (open) { c.ev("unsettled networks"); return; }
    std::unique_ptr<Util::Wire::Group<T>> g; std::unique_ptr<Data> d(new Data); auto* pm = new PMGroup; d->physicalModels = pm;
    std::map<int, std::string> conS; std::map<int, std::string> wireS; std::map<int, std::array<std::string, 2>> extS;
    for (std::size_t i = 0; i < n.mats.size(); i++) { auto& m = n.mats[i]; if (m.kind == kCon) { auto* x = newCon(m); conS[i] = conStr(x); pm->add(x); } else if (m.kind == kWire) { auto* x = newWire(m); wireS[i] = wireStr(*x); pm->add(x); } else if (m.kind == kExt) { std::unique_ptr<PW::Wire> base(newWire(m)); std::unique_ptr<MP::Multiport> e[2]; for (int q = 0; q < 2; q++) if (m.con[q] >= 0) e[q].reset(newCon(n.mats[m.con[q]])); auto* x = new PW::Extremes(m.name, *base, e[0].get(), e[1].get()); wireS[i] = wireStr(*base); for (int q = 0; q < 2; q++) extS[i][q] = conStr(e[q].get()); pm->add(x); } else pm->add(new PhysicalModel::Predefined::PEC(MatId(m.id))); }
    { Coordinate::Group<Coordinate::Coordinate<T, 3>> cg; Element::Group<Element::Element<T>> eg; Layer::Group<> lg; lg.add(new Layer::Layer(LayerId(11), "one")); lg.add(new Layer::Layer(LayerId(22), "two"));
        std::vector<std::size_t> order(n.nc); std::iota(order.begin(), order.end(), 0); c.rng.shuffle(order); for (auto i : order) cg.add(new Coordinate::Coordinate<T, 3>(CoordId(i + 1), Typ<T>::pos(n.pos[i])));
        for (auto& l : n.ln) { const Coordinate::Coordinate<T, 3>* v[2] = {cg.getId(CoordId(l.a + 1)), cg.getId(CoordId(l.b + 1))}; eg.add(new Element::Line2<T>(ElemId(l.id), v, lg.getId(LayerId(l.lay)), l.mat < 0 ? nullptr : pm->getId(MatId(n.mats[l.mat].id)))); if (c.rng.chance(0.15)) eg.add(new Element::Node<T>(ElemId(5000 + l.id), v, lg.getId(LayerId(l.lay)), pm->getId(MatId(n.mats[0].id)))); }
        setMesh(*d, cg, eg, lg); }
    std::string t = vf::thrown([&] { g.reset(new Util::Wire::Group<T>(*d)); });
    if (error) { VF_CHECK(c, t == std::string("std:") + typeid(std::logic_error).name(), "loose-connector-refused", w << " gave '" << t << "'"); c.ev("refused networks"); c.cov("loose connector"); return; }
    VF_CHECK(c, t.empty(), "grouping-throws", w << " " << t); if (!t.empty()) return;
    VF_CHECK(c, g->numberOfWires() == want.size(), "number-of-wires", w << ": " << g->numberOfWires() << " wires, expected " << want.size()); if (g->numberOfWires() != want.size()) return;
    std::map<std::size_t, std::size_t> byLine; for (std::size_t i = 0; i < want.size(); i++) for (auto id : want[i].ids) byLine[id] = i; std::map<std::string, std::set<std::string>> names; std::map<int, std::size_t> counts; std::set<std::size_t> done;
    for (std::size_t i = 0; i < g->numberOfWires(); i++) { auto* p = g->getWire(i); auto ids = g->getIdsOfWire(i); auto rev = g->getRevOfWire(i); VF_CHECK(c, !ids.empty() && byLine.count(ids[0].toInt()), "lines-of-wire", w << ": wire " << i); if (ids.empty() || !byLine.count(ids[0].toInt())) continue; std::size_t q = byLine[ids[0].toInt()]; const W& x = want[q]; VF_CHECK(c, done.insert(q).second, "wire-repeated", w << ": the wire of line " << ids[0]);
        std::vector<std::size_t> got; for (auto id : ids) got.push_back(id.toInt()); auto sorted = [](std::vector<std::size_t> v) { std::sort(v.begin(), v.end()); return v; }; VF_CHECK(c, sorted(got) == sorted(x.ids), "lines-of-wire", w << ": wire of line " << ids[0] << " has " << got.size() << " lines, expected " << x.ids.size());
        if (!x.ring && sorted(got) == sorted(x.ids)) { auto r = x.ids; std::reverse(r.begin(), r.end()); VF_CHECK(c, got == x.ids || got == r, "line-order", w << ": wire of line " << ids[0]); }
        VF_CHECK(c, rev.size() == ids.size(), "reversed-flags", w); if (rev.size() == ids.size()) for (std::size_t k = 0; k < ids.size(); k++) VF_CHECK(c, rev[k] == (x.rev.count(got[k]) > 0), "reversed-flags", w << ": line " << ids[k] << " of the wire " << p->getId());
        std::vector<int> co; for (std::size_t k = 0; k < p->numberOfCoordinates(); k++) { co.push_back(p->getV(k)->getId().toInt() - 1); } auto exp = x.co; if (x.ring && co.size() == exp.size() && co.front() == co.back()) { exp.pop_back(); auto it = std::find(exp.begin(), exp.end(), co[0]); if (it != exp.end()) std::rotate(exp.begin(), it, exp.end()); exp.push_back(exp[0]); }
        VF_CHECK(c, co == exp, "polyline", w << ": the polyline of line " << ids[0] << " starts at " << (co.empty() ? -1 : co[0] + 1) << " and has " << co.size() << " vertices, expected " << exp[0] + 1 << " and " << exp.size());
        VF_CHECK(c, p->getId().toInt() == i + 1 && p->getLayerId().toInt() == x.lay, "polyline-labels", w << ": wire " << i); VF_CHECK(c, p->getMatId().toInt() == i + 1 && p->getModel() == g->getMat(p->getMatId()), "polyline-material", w << ": wire " << i);
        auto* m = g->getMat(p->getMatId()); auto& mm = n.mats[x.mat]; VF_CHECK(c, wireStr(*m) == wireS[x.mat], "wire-parameters", w << ": wire " << i);
        std::string e[2] = {conStr(m->getExtreme(0)), conStr(m->getExtreme(1))}, f[2]; if (mm.kind == kExt) { f[0] = extS[x.mat][0]; f[1] = extS[x.mat][1]; } else { f[0] = x.cl < 0 ? "-" : conS[x.cl]; f[1] = x.cr < 0 ? "-" : conS[x.cr]; }
        VF_CHECK(c, e[0] == f[0] && e[1] == f[1], "extremes", w << ": the wire of line " << ids[0] << " ends in " << e[0] << " and " << e[1] << ", expected " << f[0] << " and " << f[1]);
        for (int k = 0; k < 2; k++) VF_CHECK(c, m->getExtreme(k) == nullptr || !pm->existId(m->getExtreme(k)->getId()) || m->getExtreme(k) != pm->getId(m->getExtreme(k)->getId()), "extremes-own", w);
        if (mm.kind == kExt) VF_CHECK(c, m->getName() == mm.name, "wire-name", w << ": " << m->getName()); else { counts[x.mat]++; names[mm.name].insert(m->getName()); }
        c.ev("wires"); c.ev("wire lines", ids.size()); c.cov(std::string(x.ring ? "ring" : "path") + (x.rev.empty() ? "" : " with reversed lines") + (x.cl >= 0 ? " L" : "") + (x.cr >= 0 ? " R" : "") + (mm.kind == kExt ? " own ends" : "") + (ids.size() > 1 ? "" : " single")); }
    for (auto& k : counts) { std::set<std::string> exp; for (std::size_t q = 1; q <= k.second; q++) exp.insert(n.mats[k.first].name + "_" + std::to_string(q)); VF_CHECK(c, names[n.mats[k.first].name] == exp, "wire-name", w << ": names of the wires made of " << n.mats[k.first].name); }
    c.interesting = true;
}
}
void vf_case(vf::Ctx& c) { Net n = generate(c); std::string w = show(n); c.note(w); bool real = c.rng.chance(0.5); if (real) run<double>(c, n, w); else run<int>(c, n, w); }
