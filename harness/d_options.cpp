// C28: options of meshers and solvers; a record of what was asked for runs along.
#include "vf.h"
#include "mesher/Options.h"
#include "solver/Options.h"
#include "physicalModel/bound/SMA.h"
#include <map>
#include <memory>
#include <set>
using namespace SEMBA;
typedef Mesher::Options MO;
typedef Solver::Options SO;
typedef Argument::Object Obj;
namespace {
struct Quiet { std::stringstream o; std::streambuf* a; Quiet() { a = std::cout.rdbuf(o.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); } };
const char* bounds[] = {"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"};
const char* sides[3][2] = {{"lowerXBound", "upperXBound"}, {"lowerYBound", "upperYBound"}, {"lowerZBound", "upperZBound"}};
struct M { int mesher = 1, mode = 0; long sub = 0; double forb = 1, scale = 1, thr = 1; bool snap = false, vtk = false, msh = true, smb = false, con = false, unw = false, cells = false, sl = false; std::string out; Math::CVecR3 step = Math::CVecR3(0.0); std::string b[3][2]; };
struct S { bool run = true, force = false, resume = false, steps = false; double final = 0, sampling = 0, dt = 0, cfl = 0.8, flush = 0; std::size_t n = 0; std::string more; };
const char* meshers[] = {"AMesher", "DMesher", "HMesher"};
const char* modes[] = {"Structured", "Relaxed", "Slanted", "Conformal"};
std::string labelOf(const std::string& b) { return b.empty() ? "Undefined" : b; }
void look(vf::Ctx& c, const MO& o, const M& m, const std::string& w) {
    VF_CHECK(c, int(o.getMesher()) == m.mesher && int(o.getMode()) == m.mode, "mode", w << ": mesher " << int(o.getMesher()) << " mode " << int(o.getMode()) << " expected " << m.mesher << " " << m.mode);
    VF_CHECK(c, o.isStructured() == (m.mode == 0) && o.isRelaxed() == (m.mode == 1 || m.mode == 2), "mode-kind", w);
    VF_CHECK(c, o.getSubgridPoints() == m.sub && o.getForbiddenLength() == m.forb && o.getScalingFactor() == m.scale && o.getSlantedThreshold() == m.thr, "numbers", w << ": " << o.getSubgridPoints() << " " << o.getForbiddenLength() << " " << o.getScalingFactor() << " " << o.getSlantedThreshold() << " expected " << m.sub << " " << m.forb << " " << m.scale << " " << m.thr);
    VF_CHECK(c, o.isSnap() == m.snap, "snap", w << ": " << o.isSnap());
    VF_CHECK(c, o.isVtkExport() == m.vtk && o.isPostmshExport() == m.msh && o.isPostsmbExport() == m.smb, "exports", w << ": " << o.isVtkExport() << o.isPostmshExport() << o.isPostsmbExport());
    VF_CHECK(c, o.isContourRefinement() == m.con && o.isUnwantedConnectionsInfo() == m.unw && o.isStructuredCellsInfo() == m.cells && o.isSlanted() == m.sl, "flags", w << ": " << o.isContourRefinement() << o.isUnwantedConnectionsInfo() << o.isStructuredCellsInfo() << o.isSlanted());
    VF_CHECK(c, o.getOutputName() == m.out && o.getGridStep() == m.step && o.isGridStepSet() == (m.step != Math::CVecR3(0.0)), "grid-step", w);
    for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) { const PhysicalModel::Bound::Bound* b = o.getBoundTermination(d, p); VF_CHECK(c, MO::toStr(b) == labelOf(m.b[d][p]), "bound", w << ": bound " << d << p << " is " << MO::toStr(b) << " expected " << labelOf(m.b[d][p])); VF_CHECK(c, o.getBoundTerminations()(d, p) == b, "bound", w); }
    c.ev("options seen");
}
void printed(vf::Ctx& c, const MO& o, const M& m) { Quiet q; o.printInfo(); o.printHelp(); std::string s = q.o.str(); for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) { std::string l = std::string(p ? "Upper " : "Lower ") + "XYZ"[d] + " Bound: " + labelOf(m.b[d][p]) + "\n"; VF_CHECK(c, s.find(l) != std::string::npos, "printed", l << " is not in " << s); } VF_CHECK(c, (s.find("structured") != std::string::npos) == (m.mode == 0), "printed", s); }
bool whole(double x) { return std::fabs(x - std::round(x)) < 1e-6 * std::max(1.0, std::fabs(x)); }
void look(vf::Ctx& c, const SO& o, const S& m, const std::string& w) {
    double t = m.steps ? m.n * m.dt : m.final;
    VF_CHECK(c, o.isRunSimulation() == m.run && o.isForceRestarting() == m.force && o.isResumeSimulation() == m.resume, "flags", w);
    VF_CHECK(c, vf::near(o.getFinalTime(), t, 1e-12, 0), "final-time", w << ": " << o.getFinalTime() << " expected " << t);
    VF_CHECK(c, o.getTimeStep() == m.dt && o.getCFL() == m.cfl && o.getFlush() == m.flush && o.getSamplingPeriod() == m.sampling, "numbers", w << ": " << o.getTimeStep() << " " << o.getCFL() << " " << o.getFlush() << " " << o.getSamplingPeriod());
    std::size_t n = o.getNumberOfTimeSteps();
    if (m.steps) VF_CHECK(c, n == m.n, "steps", w << ": " << n << " steps expected " << m.n);
    else if (m.dt == 0) VF_CHECK(c, n == 0, "steps", w << ": " << n << " steps without time step");
    else if (m.final / m.dt < 1e15) { double e = m.final / m.dt; VF_CHECK(c, whole(e) ? std::fabs(n - std::round(e)) <= 1 : n == std::ceil(e), "steps", w << ": " << n << " steps of " << m.dt << " until " << m.final); VF_CHECK(c, n * m.dt >= m.final * (1 - 1e-9), "covers", w << ": " << n << " steps of " << m.dt << " do not reach " << m.final); }
    VF_CHECK(c, o.getAdditionalArguments() == m.more, "more", w);
    std::map<std::string, std::string> a; std::stringstream s(o.toArgsStr()); std::string x, last; while (s >> x) { if (x[0] == '-' && x.size() > 1 && isalpha(x[1])) { VF_CHECK(c, !a.count(x), "arguments", o.toArgsStr()); a[last = x] = ""; } else { VF_CHECK(c, !last.empty() && a[last].empty(), "arguments", o.toArgsStr()); a[last] = x; } }
    auto num = [&](const char* k, bool is, double v) { VF_CHECK(c, a.count(k) == is, "arguments", w << ": " << k << " in '" << o.toArgsStr() << "'"); if (is) VF_CHECK(c, vf::near(std::strtod(a[k].c_str(), nullptr), v, 1e-5, 0), "arguments", w << ": " << k << " " << v << " in '" << o.toArgsStr() << "'"); };
    num("-cfl", m.cfl != 0.8, m.cfl); num("-flush", m.flush != 0, m.flush); VF_CHECK(c, a.count("-s") == m.force && a.count("-r") == m.resume, "arguments", w << ": '" << o.toArgsStr() << "'"); VF_CHECK(c, a.size() == (m.cfl != 0.8) + (m.flush != 0) + m.force + m.resume, "arguments", o.toArgsStr());
    if (m.resume) { double r = std::strtod(a["-r"].c_str(), nullptr), e = m.steps ? double(m.n) : m.dt != 0 ? m.final / m.dt : m.final; if (e < 1e15) VF_CHECK(c, m.steps ? r == e : whole(e) ? std::fabs(r - std::round(e)) <= 1 : r == std::floor(e), "resume", w << ": -r " << a["-r"] << " expected " << e); }
    c.ev("options seen");
}
void printed(vf::Ctx& c, const SO& o, const S& m) {
    Quiet q; o.printInfo(); o.printHelp(); for (std::string s : {q.o.str(), o.toStr() + "\n"}) { std::map<std::string, std::string> v; std::stringstream in(s); std::string l; while (std::getline(in, l)) { std::size_t p = l.find(':'); if (p == std::string::npos) continue; std::string t = l.substr(p + 1); t.erase(0, t.find_first_not_of(' ') == std::string::npos ? t.size() : t.find_first_not_of(' ')); std::string k = l.substr(0, p); for (auto& ch : k) ch = tolower(ch); v[k] = t; }
        auto n = [&](const char* k, double x) { VF_CHECK(c, v.count(k) && vf::near(std::strtod(v[k].c_str(), nullptr), x, 1e-5, 0), "printed", k << " is '" << v[k] << "' expected " << x); };
        n("run simulation", m.run); n("cfl", m.cfl); n("time step", m.dt); n("flush", m.flush); n("force restarting", m.force); n("resume simulation", m.resume); n(v.count("ending") ? "ending" : "final time", m.steps ? m.n * m.dt : m.final); n(v.count("sampling period") ? "sampling period" : "default sampling period", m.sampling); VF_CHECK(c, m.more.find('\n') != std::string::npos || m.more != "" && m.more[0] == ' ' || v["additional arguments"] == m.more, "printed", v["additional arguments"]); }
}
double positive(vf::Ctx& c) { return c.rng.chance(0.3) ? c.rng.range(1, 50) : c.rng.chance(0.5) ? c.rng.range(1, 400) / 10.0 : c.rng.real(1, 10) * std::pow(10.0, c.rng.range(-12, 6)); }
}
void vf_case(vf::Ctx& c) {
    if (c.rng.chance(0.5)) {
        std::vector<std::unique_ptr<MO>> o; std::vector<M> m; std::size_t n0 = 2;
        for (std::size_t i = 0; i < n0; i++) { alignas(MO) char room[sizeof(MO)]; std::memset(room, c.rng.range(1, 255), sizeof room); MO* p = new (room) MO(); look(c, *p, M(), "in used memory"); p->~MO(); o.emplace_back(new MO()); m.push_back(M()); look(c, *o[i], m[i], "at first"); }
        for (int s = c.rng.range(2, 12); s--;) {
            int r = c.rng.range(0, n0 - 1); MO& a = *o[r]; M& b = m[r]; std::string w;
            if (c.rng.chance(0.5)) {        // by name
                Obj t; t.setObject(); M k = b; std::string bad; std::vector<std::string> names;
                for (int i = c.rng.range(0, 6); i--;) { bool f = c.rng.chance(0.5); double x = positive(c); int z;
                    auto put = [&](const std::string& s2) -> Obj& { w += s2 + " "; return t(s2); };
                    switch (c.rng.range(0, 15)) {
                    case 0: put("contourRefinement").setBool(k.con = f); break; case 1: put("snap").setBool(k.snap = f); break; case 2: put("unwantedConnectionsInfo").setBool(k.unw = f); break; case 3: put("structuredCellsInfo").setBool(k.cells = f); break;
                    case 4: put("vtkExport").setBool(k.vtk = f); break; case 5: put("postmshExport").setBool(k.msh = f); break; case 6: put("postsmbExport").setBool(k.smb = f); break; case 7: put("slantedWires").setBool(k.sl = f); break;
                    case 8: put("slantedThreshold").setReal(k.thr = x); break; case 9: put("mesher").setString(meshers[k.mesher = c.rng.range(0, 2)]); break; case 10: put("mode").setString(modes[k.mode = c.rng.range(0, 3)]); break; case 11: put("subgridPoints").setInt(k.sub = c.rng.range(0, 1000)); break;
                    case 12: put("forbiddenLength").setReal(k.forb = x); break; case 13: put("geometryScalingFactor").setReal(k.scale = x); break; case 14: z = c.rng.range(0, 5); put(sides[z % 3][z / 3]).setString(k.b[z % 3][z / 3] = bounds[c.rng.range(0, 5)]); break;
                    default: if (f) put("somethingElse").setReal(x); else { put("snap").setNull(); k.snap = b.snap; } }
                }
                if (c.rng.chance(0.1)) { const char* who[] = {"mesher", "mode", "lowerXBound", "upperZBound"}; const char* what[] = {"", "structured", "pec", "PECX", "None", "HMesher ", "SBC"}; t(bad = who[c.rng.range(0, 3)]).setString(what[c.rng.range(0, 6)]); }
                w = "after setting " + w; std::string e = vf::thrown([&] { a.set(t); });
                if (bad.empty()) { VF_CHECK(c, e.empty(), "refused", w << ": " << e); b = k; c.ev("settings"); }
                else { VF_CHECK(c, e.find("logic_error") != std::string::npos, "unknown-label", bad << " '" << t(bad).getString() << "': " << e); a = MO(); b = M(); c.ev("refused"); }
            } else {
                bool f = c.rng.chance(0.5); double x = positive(c); int z = c.rng.range(0, 16); w = "after setter " + vf::str(z);
                switch (z) {
                case 0: a.setMesher(MO::Mesher(b.mesher = c.rng.range(0, 2))); break; case 1: a.setMode(MO::Mode(b.mode = c.rng.range(0, 3))); break; case 2: a.setSubgridPoints(b.sub = c.rng.range(0, 99)); break; case 3: a.setForbiddenLength(b.forb = x); break;
                case 4: b.step = c.rng.chance(0.3) ? Math::CVecR3(0.0) : Math::CVecR3(x, c.rng.chance(0.5) ? 0 : x, 0); a.setGridStep(b.step); break; case 5: a.setSnap(b.snap = f); break; case 6: a.setPostmshExport(b.msh = f); break; case 7: a.setPostsmbExport(b.smb = f); break;
                case 8: a.setOutputName(b.out = "name" + vf::str(x)); break; case 9: a.setScalingFactor(b.scale = x); break; case 10: a.setVtkExport(b.vtk = f); break; case 11: a.setContourRefinement(b.con = f); break; case 12: a.setUnwantedConnectionsInfo(b.unw = f); break;
                case 13: a.setStructuredCellsInfo(b.cells = f); break; case 14: a.setSlanted(b.sl = f); break; case 15: a.setSlantedThreshold(b.thr = x); break;
                default: { int d = c.rng.range(0, 2), p = c.rng.range(0, 1); if (f) { a.setBoundTermination(d, p, nullptr); b.b[d][p] = ""; } else { a.setBoundTermination(d, p, new PhysicalModel::Bound::SMA(MatId(1))); b.b[d][p] = "SMA"; } } }
                c.ev("setters");
            }
            look(c, a, b, w); look(c, *o[1 - r], m[1 - r], "the others " + w);
            if (c.rng.chance(0.2)) { printed(c, a, b); }
            if (c.rng.chance(0.2)) { int to = 1 - r; if (c.rng.chance(0.5)) o[to].reset(new MO(a)); else *o[to] = a; m[to] = b; look(c, *o[to], b, "the copy"); c.cov("copied"); if (c.rng.chance(0.3)) { a = MO(); b = M(); look(c, *o[to], m[to], "the copy alone"); } }
            c.note(w); c.state(vf::hashStr(w));
        }
        c.interesting = true; c.cov("mesher");
    } else {
        SO a0, b0; SO* o[2] = {&a0, &b0}; S m[2]; look(c, a0, m[0], "at first");
        for (int s = c.rng.range(2, 12); s--;) {
            int r = c.rng.range(0, 1); SO& a = *o[r]; S& b = m[r]; std::string w;
            auto change = [&](int z, Obj* t) { bool f = c.rng.chance(0.5); double x = positive(c); w += (t ? "setting " : "setter ") + vf::str(z) + " ";
                switch (z) {
                case 0: b.run = f; t ? (void)(*t)("runSimulation").setBool(f) : a.setRunSimulation(f); break;
                case 1: if (t && t->existsName("numberOfTimeSteps")) break; b.steps = false; b.final = x; t ? (void)(*t)("finalTime").setReal(x) : a.setFinalTime(x); break;
                case 2: { std::size_t n = c.rng.range(0, 100000); b.steps = true; b.n = n; t ? (void)(*t)("numberOfTimeSteps").setInt(n) : a.setNumberOfTimeSteps(n); if (t) t->eraseMember("finalTime"); break; }
                case 3: b.dt = c.rng.chance(0.2) ? 0 : x; t ? (void)(*t)("timeStep").setReal(b.dt) : a.setTimeStep(b.dt); break;
                case 4: b.cfl = c.rng.chance(0.2) ? 0.8 : x; t ? (void)(*t)("cfl").setReal(b.cfl) : a.setCFL(b.cfl); break;
                case 5: b.sampling = x; t ? (void)(*t)("defaultSamplingPeriod").setReal(x) : a.setSamplingPeriod(x); break;
                case 6: b.force = f; t ? (void)(*t)("forceRestarting").setBool(f) : a.setForceRestarting(f); break;
                case 7: b.resume = f; t ? (void)(*t)("resumeSimulation").setBool(f) : a.setResumeSimulation(f); break;
                case 8: b.flush = c.rng.chance(0.2) ? 0 : x; t ? (void)(*t)("flush").setReal(b.flush) : a.setFlush(b.flush); break;
                case 9: b.more = c.rng.chance(0.3) ? "" : "--mpi " + vf::str(x) + " -x"; t ? (void)(*t)("additionalArguments").setString(b.more) : a.setAdditionalArguments(b.more); break;
                default: if (t) (*t)("unrelated").setReal(x); } };
            std::string e;
            if (c.rng.chance(0.5)) { Obj t; t.setObject(); for (int i = c.rng.range(0, 6); i--;) change(c.rng.range(0, 10), &t); e = vf::thrown([&] { a.set(t); }); c.ev("settings"); } else { change(c.rng.range(0, 9), nullptr); c.ev("setters"); }
            VF_CHECK(c, e.empty(), "refused", w << ": " << e);
            look(c, a, b, w); look(c, *o[1 - r], m[1 - r], "the other after " + w);
            if (c.rng.chance(0.2)) printed(c, a, b);
            if (c.rng.chance(0.2)) { *o[1 - r] = a; m[1 - r] = b; SO z(a); look(c, z, b, "copy"); }
            c.note(w); c.state(vf::hashStr(w));
        }
        c.interesting = true; c.cov("solver");
    }
    if (c.rng.chance(0.2)) { Argument::Parser p; MO().addArguments(p); SO().addArguments(p); Quiet q; const char* m = modes[c.rng.range(0, 3)]; Obj t = p.parse({"x", "--mode", m, "--gridstep", "1", "2.5", "3", "--vtkexport", "--length=0.5"}); VF_CHECK(c, t("Mode").getString() == m && t("VTK Export").getBool() && t("Forbidden length").getReal() == 0.5 && std::get<1>(t("gridstep").get<double, double, double>()) == 2.5, "command-line", t.size()); std::streambuf* er = std::cerr.rdbuf(nullptr); std::string e = vf::thrown([&] { p.parse({"x", "--mode", "Other"}); }); std::cerr.rdbuf(er); std::cerr.clear(); VF_CHECK(c, e.find("NotChoices") != std::string::npos, "command-line", e); }
}
VF_PROBE("steps of a resumed simulation") { for (int n = 1; n < 3000; n++) for (double dt : {0.1, 1e-12, 3.3e-11, 0.7}) { SO o; o.setTimeStep(dt); o.setNumberOfTimeSteps(n); o.setResumeSimulation(true); VF_CHECK(c, o.toArgsStr() == " -r " + vf::str(n), "resume", n << " steps of " << dt << ": " << o.toArgsStr()); } }
