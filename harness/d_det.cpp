// C30: the same work done several times in one process gives the same results, whatever the memory
// held before, in whatever order addresses are handed out, and whatever was done in between.
#include "tell.h"
#include "exporter/vtk/Exporter.h"
#include "exporter/gid/Exporter.h"
#include "parser/stl/Parser.h"
#include "geometry/graph/Connectivities.h"
#include "geometry/graph/Vertices.h"
#include "util/wire/Group.h"
#include "mesher/Options.h"
#include "solver/Options.h"
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <new>

// Every object made with new comes from here: blocks are handed out in an order and with a content
// that are chosen for each run.
namespace mem {
enum { kClasses = 65, kHead = 32 };
struct Class { void** v; std::size_t n, cap; };
Class cls[kClasses]; int order = 0; unsigned char fill = 0, after = 0; std::uint64_t rng = 1; long served = 0;
std::uint64_t next() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
void push(Class& k, void* p) { if (k.n == k.cap) { std::size_t c = k.cap ? 2 * k.cap : 256; void** w = static_cast<void**>(std::malloc(c * sizeof(void*))); if (!w) std::abort(); if (k.n) std::memcpy(w, k.v, k.n * sizeof(void*)); std::free(k.v); k.v = w; k.cap = c; } k.v[k.n++] = p; }
void* get(std::size_t n) {
    std::size_t q = (n + 15) / 16; char* p; served++;
    if (q < kClasses) { Class& k = cls[q]; std::size_t size = kHead + q * 16;
        if (!k.n) { char* s = static_cast<char*>(std::malloc(64 * size)); if (!s) std::abort(); for (int i = 0; i < 64; i++) push(k, s + (order == 2 ? 63 - i : i) * size); }
        std::size_t i = k.n - 1; if (order == 1) i = next() % k.n; else if (order == 3 && k.n > 1) i = next() % 2 ? k.n - 1 : 0; p = static_cast<char*>(k.v[i]); k.v[i] = k.v[--k.n];
    } else { p = static_cast<char*>(std::malloc(n + kHead + (order == 1 ? next() % 512 : 0))); if (!p) throw std::bad_alloc(); q = kClasses; }
    std::memcpy(p, &q, sizeof q); std::memset(p + kHead, fill, n); return p + kHead; }
void put(void* x) { if (!x) return; char* p = static_cast<char*>(x) - kHead; std::size_t q; std::memcpy(&q, p, sizeof q); if (q >= kClasses) { std::free(p); return; } std::memset(x, after, q * 16); push(cls[q], p); }
__attribute__((noinline, no_sanitize_address)) void paint(unsigned char b) { volatile char room[200000]; for (std::size_t i = 0; i < sizeof room; i++) room[i] = char(b); }
}
void* operator new(std::size_t n) { return mem::get(n); }
void* operator new[](std::size_t n) { return mem::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return mem::get(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return mem::get(n); }
void operator delete(void* p) noexcept { mem::put(p); }
void operator delete[](void* p) noexcept { mem::put(p); }
void operator delete(void* p, std::size_t) noexcept { mem::put(p); }
void operator delete[](void* p, std::size_t) noexcept { mem::put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mem::put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mem::put(p); }

namespace {
struct Said { std::ostringstream o; std::streambuf *a, *b; Said() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Said() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
void wipe(const std::string& d) { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; wipe(d + "/" + n); std::remove((d + "/" + n).c_str()); } closedir(h); } }
void gather(const std::string& d, const std::string& pre, std::map<std::string, std::string>& m) { if (DIR* h = opendir(d.c_str())) { while (dirent* e = readdir(h)) { std::string n = e->d_name, f = d + "/" + n; struct stat s; if (n == "." || n == ".." || stat(f.c_str(), &s)) continue; if (S_ISDIR(s.st_mode)) { m[pre + n] = "folder"; gather(f, pre + n + "/", m); continue; } std::ifstream i(f.c_str(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); m[pre + n] = o.str(); } closedir(h); } }
std::string files(const std::string& d) { std::map<std::string, std::string> m; gather(d, "", m); std::string r; for (auto& f : m) r += "file " + f.first + "\n" + f.second + "\n"; return r; }
// The numbers of points and elements in a file for GiD go on from the file before: they are counted from one here.
std::string fromOne(const std::string& t) { std::istringstream i(t); std::ostringstream o; std::string l; long c0 = -1, e0 = -1; int mode = 0; while (std::getline(i, l)) { std::istringstream w(l); long id; if (l.find("oordinates") != std::string::npos) mode = l[0] == 'e' || l[0] == 'E' ? 0 : 1; else if (l.find("lements") != std::string::npos) mode = l[0] == 'e' || l.compare(0, 4, "End ") == 0 ? 0 : 2; else if (mode && w >> id) { std::string rest; std::getline(w, rest); if (mode == 1) { if (c0 < 0) c0 = id - 1; o << id - c0 << rest << "\n"; } else { if (e0 < 0) e0 = id - 1; o << id - e0; std::istringstream q(rest); long v; while (q >> v) o << " " << v - c0; o << "\n"; } continue; } o << l << "\n"; } return o.str(); }
template <class F> void part(std::ostringstream& o, const char* what, F f) { o << "== " << what << "\n"; try { f(); } catch (const std::exception& e) { o << "refused: " << e.what() << "\n"; } }
template <class G> std::string graphText(G& g) { std::ostringstream o; for (std::size_t i = 0; i < g.numElems(); i++) { auto* e = g.elem(i); o << e->elem()->getId() << "["; for (std::size_t b = 0; b < e->numBounds(); b++) { o << e->getBound(b)->elem()->getId() << ":"; for (std::size_t j = 0; j < e->numBoundNeighbors(b); j++) o << e->getBoundNeighbor(b, j)->elem()->getId() << ","; } o << "]("; for (std::size_t j = 0; j < e->numNeighbors(); j++) o << e->getNeighbor(j)->elem()->getId() << ","; o << ")"; } o << "|"; for (std::size_t i = 0; i < g.numBounds(); i++) { auto* b = g.bound(i); o << b->elem()->getId() << "["; for (std::size_t j = 0; j < b->numBounds(); j++) o << b->getBound(j)->elem()->getId() << ","; o << "]"; } for (auto& k : g.getConnectedComponents()) { o << " {"; for (auto* e : k) o << e->getId() << ","; o << "}"; } return o.str(); }
// What is shown of a problem in every way the program has.
void showAll(vf::Ctx& c, std::ostringstream& o, Data& d, const std::string& dir) {
    part(o, "content", [&] { o << tell(d); });
    part(o, "printed", [&] { Said s; d.printInfo(); o << s.o.str(); });
    if (d.mesh && d.physicalModels) { part(o, "vtk", [&] { wipe(dir); { SEMBA::Exporter::VTK::Exporter e(&d, dir + "/out"); } o << files(dir); }); part(o, "gid", [&] { wipe(dir); { SEMBA::Exporter::GiD::Exporter e(&d, dir + "/out"); } o << fromOne(files(dir)); }); wipe(dir); c.ev("exports"); }
    part(o, "copy", [&] { Data e(d); o << tell(e); });
    Ids own;
    if (auto* m = dynamic_cast<Mesh::Structured*>(d.mesh)) part(o, "unstructured", [&] { std::unique_ptr<Mesh::Unstructured> u(m->getMeshUnstructured()); meshText(o, *u, own); });
    if (auto* m = dynamic_cast<Mesh::Geometric*>(d.mesh)) if (!m->grid().getPos(0).empty()) part(o, "structured", [&] { std::unique_ptr<Mesh::Structured> u(m->getMeshStructured()); meshText(o, *u, own); });
    if (auto* m = dynamic_cast<Mesh::Unstructured*>(d.mesh)) {
        part(o, "graph", [&] { Graph::Vertices<ElemR, CoordR3> g; g.init(m->elems()); o << graphText(g) << "\n"; });
        part(o, "areas", [&] { for (std::size_t i = 0; i < m->elems().size(); i++) { auto* e = m->elems()(i); BoxR3 b = e->getBound(); o << v(b.getMin()) << ".." << v(b.getMax()); if (auto* x = dynamic_cast<const SurfR*>(e)) o << " normal " << v(x->getNormal()); if (auto* x = dynamic_cast<const VolR*>(e)) o << " volume " << n(x->getVolume()); if (auto* l = e->getMinV()) o << " least " << l->getId() << " " << e->getMaxV()->getId(); o << "\n"; } });
        part(o, "filters", [&] { auto f = [&](const auto& g) { for (std::size_t i = 0; i < g.size(); i++) o << g(i)->getId() << " "; o << ";"; }; f(m->elems().getOf<Surf>()); f(m->elems().getOf<Vol>()); for (std::size_t i = 0; i < m->layers().size(); i++) f(m->elems().getLayerId(m->layers()(i)->getId())); if (d.physicalModels) for (std::size_t i = 0; i < d.physicalModels->size(); i++) f(m->elems().getMatId((*d.physicalModels)(i)->getId())); BoxR3 b = m->elems().getBound(); o << v(b.getMin()) << v(b.getMax()) << "\n"; }); }
    if (d.sources) part(o, "signals", [&] { for (std::size_t i = 0; i < d.sources->size(); i++) if ((*d.sources)(i)->getMagnitude()) for (double t : {0.0, 0.5, 3.0}) o << n((*d.sources)(i)->getMagnitude()->evaluate(t)) << " "; o << "\n"; });
}
// Lines joined at random: the wires they make, or that they are refused.
template <class T> struct At; template <> struct At<double> { static CVecR3 p(int i) { return CVecR3(i, i % 3, i % 5); } static void mesh(Data& d, Coordinate::Group<CoordR3>& cg, Element::Group<ElemR>& eg, Layer::Group<>& lg) { d.mesh = new Mesh::Unstructured(cg, eg, lg); } };
template <> struct At<int> { static CVecI3 p(int i) { return CVecI3(i, i % 3, i % 5); } static void mesh(Data& d, Coordinate::Group<CoordI3>& cg, Element::Group<ElemI>& eg, Layer::Group<>& lg) { std::vector<double> p[3]; for (auto& q : p) for (int i = 0; i < 30; i++) q.push_back(i); d.mesh = new Mesh::Structured(Grid3(p), cg, eg, lg); } };
template <class T> void wires(vf::Ctx& c, std::ostringstream& o) {
    Data d; auto* pg = new PMGroup; d.physicalModels = pg; std::vector<std::size_t> mids = mg::freshIds(c, 5); for (int i = 0; i < 2; i++) pg->add(new PM::Wire::Wire(MatId(mids[i]), "wire" + std::to_string(i), 1 + i, 2, 3)); pg->add(new PM::Multiport::RLC(MatId(mids[2]), "rlc", PM::Multiport::Multiport::sRLC, 1, 2, 3)); pg->add(new PM::Multiport::Predefined(MatId(mids[3]), "short", PM::Multiport::Multiport::shortCircuit)); { PM::Wire::Wire w(MatId(mids[4]), "ends", 5, 6, 7); pg->add(new PM::Wire::Extremes("ends", w, nullptr, nullptr)); }
    Coordinate::Group<Coordinate::Coordinate<T, 3>> cg; Element::Group<Element::Element<T>> eg; Layer::Group<> lg; lg.add(new Layer::Layer(LayerId(1), "one")); lg.add(new Layer::Layer(LayerId(2), "two")); int nc = c.rng.range(4, 24); for (int i = 0; i < nc; i++) cg.add(new Coordinate::Coordinate<T, 3>(CoordId(i + 1), At<T>::p(i)));
    auto ids = mg::freshIds(c, 60); int k = 0, lay = c.rng.range(1, 2); for (int at = 0; at + 1 < nc && k < 40;) { int len = c.rng.range(1, 6), mat = c.rng.chance(0.8) ? mids[c.rng.range(0, 1)] : mids[4]; bool con = c.rng.chance(0.4); for (int i = 0; i < len && at + 1 < nc; i++, at++) { int a = at, b = at + 1; if (c.rng.chance(0.1)) std::swap(a, b); if (c.rng.chance(0.07)) a = c.rng.range(0, nc - 1); if (a == b) continue; int m = con && i == 0 ? int(mids[c.rng.range(2, 3)]) : mat; const Coordinate::Coordinate<T, 3>* v[2] = {cg.getId(CoordId(a + 1)), cg.getId(CoordId(b + 1))}; eg.add(new Element::Line2<T>(ElemId(ids[k++]), v, lg.getId(LayerId(lay)), pg->getId(MatId(m)))); } if (c.rng.chance(0.5)) at++; if (c.rng.chance(0.3)) lay = c.rng.range(1, 2); }
    At<T>::mesh(d, cg, eg, lg); c.ev("networks");
    part(o, "wires", [&] { Util::Wire::Group<T> g(d); for (std::size_t i = 0; i < g.numberOfWires(); i++) { o << el(g.getWire(i)) << " lines"; for (auto id : g.getIdsOfWire(i)) o << " " << id; o << " reversed"; for (bool b : g.getRevOfWire(i)) o << " " << b; o << " of " << pm(g.getMat(g.getWire(i)->getMatId())) << "\n"; } });
}
void neighbours(vf::Ctx& c, std::ostringstream& o) {
    Coordinate::Group<CoordR3> cg; Element::Group<ElemR> eg; int nx = c.rng.range(1, 3), ny = c.rng.range(1, 2); auto ids = mg::freshIds(c, 200); std::size_t k = 0; std::map<std::vector<int>, const CoordR3*> at;
    for (int i = 0; i <= nx; i++) for (int j = 0; j <= ny; j++) for (int z = 0; z <= 1; z++) { auto* p = new CoordR3(CoordId(ids[k++]), CVecR3(i, j, z)); cg.add(p); at[{i, j, z}] = p; }
    std::vector<std::vector<const CoordR3*>> t; for (int i = 0; i < nx; i++) for (int j = 0; j < ny; j++) { int p[3] = {0, 1, 2}; do { std::vector<int> x{i, j, 0}; std::vector<const CoordR3*> q{at[x]}; for (int s = 0; s < 3; s++) { x[p[s]]++; q.push_back(at[x]); } t.push_back(q); } while (std::next_permutation(p, p + 3)); } c.rng.shuffle(t);
    std::size_t e = 0; for (auto& q : t) { eg.add(new Tet4(ElemId(ids[e++]), &q[0])); if (c.rng.chance(0.3)) { const CoordR3* w[3] = {q[0], q[1], q[2]}; eg.add(new Tri3(ElemId(ids[e++]), w)); } } c.ev("solids");
    part(o, "neighbours", [&] { Graph::Connectivities n(eg); auto face = [&](const Graph::Face& f) { if (f.first) o << f.first->getId() << "." << f.second; else o << "-"; o << " "; }; for (std::size_t i = 0; i < eg.size(); i++) { if (auto* x = dynamic_cast<const VolR*>(eg(i))) for (std::size_t f = 0; f < x->numberOfFaces(); f++) { face(n.getNeighFace(Graph::Face(x, f))); auto* s = n.getNeighSurf(Graph::Face(x, f)); if (s) o << "s" << s->getId(); } else if (auto* s = dynamic_cast<const SurfR*>(eg(i))) { face(n.getInnerFace(s)); face(n.getOuterFace(s)); } o << "\n"; } o << n.existsReciprocity() << "\n"; });
}
std::string num(double x) { return vf::str(x); }
void options(vf::Ctx& c, std::ostringstream& o) {
    part(o, "mesher", [&] { SEMBA::Mesher::Options m; Argument::Object s; s.setObject(); static const char* f[] = {"snap", "vtk", "postmsh", "postsmb", "contourRefinement"}; for (auto* k : f) if (c.rng.chance(0.3)) s(k).setBool(c.rng.chance(0.5)); m.set(s); Said p; m.printInfo(); m.printHelp(); o << p.o.str() << int(m.getMesher()) << int(m.getMode()) << m.isStructured() << m.isRelaxed() << m.isSnap() << m.isGridStepSet() << m.isVtkExport() << m.isPostmshExport() << m.isPostsmbExport() << m.isContourRefinement() << m.isUnwantedConnectionsInfo() << m.isStructuredCellsInfo() << m.isSlanted() << " " << m.getSubgridPoints() << " " << num(m.getForbiddenLength()) << " " << num(m.getScalingFactor()) << " " << num(m.getSlantedThreshold()) << " " << v(m.getGridStep()) << " '" << m.getOutputName() << "'"; for (int i = 0; i < 6; i++) o << pmAny(m.getBoundTermination(i / 2, i % 2)); SEMBA::Mesher::Options q(m), r; r = m; o << q.isSnap() << r.isSnap() << "\n"; });
    part(o, "solver", [&] { SEMBA::Solver::Options m; Argument::Object s; s.setObject(); static const char* f[] = {"finalTime", "timeStep", "cfl", "samplingPeriod"}; for (auto* k : f) if (c.rng.chance(0.4)) s(k).setReal(c.rng.range(1, 40) * 0.25); m.set(s); Said p; m.printInfo(); m.printHelp(); o << p.o.str() << m.toArgsStr() << m.toStr() << num(m.getFinalTime()) << " " << num(m.getSamplingPeriod()) << " " << num(m.getCFL()) << " " << num(m.getTimeStep()) << " " << num(m.getFlush()) << m.isForceRestarting() << m.isResumeSimulation() << m.isRunSimulation() << m.getAdditionalArguments() << "\n"; });
    part(o, "domain", [&] { SEMBA::OutputRequest::Domain d; o << d.isTimeDomain() << d.isFrequencyDomain() << d.isLogFrequencySweep() << d.isUsingTransferFunction() << int(d.getDomainType()) << " " << num(d.getInitialTime()) << num(d.getFinalTime()) << num(d.getSamplingPeriod()) << num(d.getInitialFrequency()) << num(d.getFinalFrequency()) << num(d.getFrequencyStep()) << "\n"; });
}
void surface(vf::Ctx& c, std::ostringstream& o, const std::string& dir) {
    std::ostringstream s; for (int k = c.rng.range(1, 3); k > 0; k--) { s << "solid part" << k << "\n"; for (int t = c.rng.range(0, 8); t > 0; t--) { s << "facet normal 0 0 1\nouter loop\n"; for (int i = 0; i < 3; i++) s << "vertex " << c.rng.range(0, 2) << " " << c.rng.range(0, 2) + 0.25 * i << " " << i + 0.5 * c.rng.range(0, 2) << "\n"; s << "endloop\nendfacet\n"; } s << "endsolid part" << k << "\n"; } c.ev("surfaces");
    part(o, "surface", [&] { std::istringstream i(s.str()); SEMBA::Parser::STL::Parser p; Data d(p.read(i)); showAll(c, o, d, dir); });
}
void grids(vf::Ctx& c, std::ostringstream& o) {
    mg::Desc d; mg::randomGrid(c, d, 6); CVecR3 pad(c.rng.range(0, 9), c.rng.range(0, 9), c.rng.range(0, 9)), size(c.rng.range(1, 4), c.rng.range(1, 4), c.rng.range(1, 4)); CVecR3 at(c.rng.real(-30, 30), c.rng.real(-30, 30), c.rng.real(-30, 30));
    part(o, "grid", [&] { Grid3 g = mg::makeGrid(d); auto show = [&] { o << ds::grid(g) << " " << v(g.getOrigin()) << g.getNumCells()(0) << "," << g.getNumCells()(1) << "," << g.getNumCells()(2) << g.isRegular() << g.isCartesian() << " in " << g.isInto(at); auto p = g.getCellPair(at, 1e-3); o << p.first(0) << "," << p.first(1) << "," << p.first(2) << "\n"; }; show(); g.enlarge(std::make_pair(pad, pad), std::make_pair(size, size)); show(); Grid3 h(g), e; e = h; show(); Said s; g.printInfo(); o << s.o.str(); });
}
std::string work(vf::Ctx& c, int kind, const std::string& dir) {
    std::ostringstream o; std::string w;
    switch (kind) {
    case 0: case 1: { Expect x; std::string t = problem(c, x, false); c.cov("read"); part(o, "read", [&] { std::istringstream in(t); SEMBA::Parser::JSON::Parser p; Data d(p.read(in)); showAll(c, o, d, dir); }); for (const char* f : {"disp.dat", "mag.exc", "grid.txt"}) std::remove(c.file(f).c_str()); break; }
    case 2: case 3: { std::unique_ptr<Data> d(built(c, w)); if (c.rng.chance(0.3)) { d->solver = new Solver::Info("fdtd", SEMBA::Solver::Settings()); } c.cov("built"); showAll(c, o, *d, dir); break; }
    case 4: c.cov("wires"); if (c.rng.chance(0.5)) wires<double>(c, o); else wires<int>(c, o); break;
    case 5: c.cov("neighbours"); neighbours(c, o); break;
    case 6: c.cov("options"); options(c, o); break;
    case 7: c.cov("surface"); surface(c, o, dir); break;
    default: c.cov("grids"); grids(c, o); }
    return o.str(); }
void world(int order, unsigned char fill, unsigned char after, std::uint64_t r) { mem::order = order; mem::fill = fill; mem::after = after; mem::rng = r * 2 + 1; }
}
void vf_case(vf::Ctx& c) {
    int kind = c.rng.range(0, 8); std::string dir = c.file("r"); mkdir(dir.c_str(), 0755); vf::Rng start = c.rng, other = c.rng; std::string first; int runs = c.thorough ? 6 : 4; static const unsigned char F[] = {0x00, 0xff, 0xaa, 0x01, 0x7f, 0x55};
    for (int i = 0; i < runs; i++) {
        // something else is done in between
        if (i && other.chance(0.5)) { vf::Rng r = other; other.next(); vf::Rng keep = c.rng; c.rng = r; std::string x = work(c, r.range(0, 8), dir); c.rng = keep; c.ev("work in between"); }
        world(i % 4, F[i % 6], F[(i + 1 + other.range(0, 4)) % 6], other.next()); long s0 = mem::served; c.rng = start; mem::paint(F[i % 6]); std::string t = work(c, kind, dir); c.ev("runs"); c.ev("blocks handed out", mem::served - s0); c.ev("bytes compared", t.size());
        world(0, 0, 0, 1); if (!i) { first = t; c.note(t.substr(0, 3000)); c.state(vf::hashStr(t)); continue; }
        if (t != first) { std::size_t b = 0; while (b < t.size() && b < first.size() && t[b] == first[b]) b++; std::size_t h = first.rfind("== ", b), e = first.find('\n', h); std::string key = h == std::string::npos ? "start" : first.substr(h + 3, e - h - 3); std::size_t a = b < 100 ? 0 : b - 100; VF_CHECK(c, false, "differs-" + key, "run " << i << " gives ..." << t.substr(a, 250) << "... and the first ..." << first.substr(a, 250) << "..."); break; }
        VF_CHECK(c, true, "differs", "");
    }
    c.interesting = true; c.dig(first);
}
