// Random problems written as text in several layouts, with the plain description they were
// written from, and the comparison of that description with what was read.
#pragma once
#include "datasig.h"
#include "parser/json/Parser.h"
using namespace ds; typedef std::array<double, 3> P3;
namespace {
std::string num(vf::Ctx& c, double x) { char b[40]; int f = c.rng.range(0, 3); if (f == 0) std::snprintf(b, sizeof b, "%.6e", x); else if (f == 1 && x == std::floor(x) && std::fabs(x) < 1e6) std::snprintf(b, sizeof b, "%ld", long(x)); else if (f == 2) std::snprintf(b, sizeof b, "%.17g", x); else std::snprintf(b, sizeof b, "%.10g", x); return b; }
std::string ws(vf::Ctx& c) { static const std::vector<std::string> w{"", " ", "\n", "\t", "  \n   ", "\r\n"}; return c.rng.chance(0.6) ? "" : c.rng.pick(w); }
std::string q(const std::string& s) { std::string r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; } return r + "\""; }
typedef std::vector<std::pair<std::string, std::string>> KV;
std::string obj(vf::Ctx& c, KV kv) { c.rng.shuffle(kv); std::string r = "{"; for (std::size_t i = 0; i < kv.size(); i++) r += (i ? "," : "") + ws(c) + q(kv[i].first) + ws(c) + ":" + ws(c) + kv[i].second + ws(c); return r + "}"; }
std::string arr(vf::Ctx& c, const std::vector<std::string>& v) { std::string r = "[" + ws(c); for (std::size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + ws(c) + v[i] + ws(c); return r + "]"; }
std::string spaced(vf::Ctx& c, const std::vector<std::string>& v) { std::string r = c.rng.chance(0.3) ? "   " : ""; for (auto& s : v) r += s + (c.rng.chance(0.8) ? " " : "   "); return r; }
std::string vec(vf::Ctx& c, const P3& p, bool braces = true) { std::string r = spaced(c, {num(c, p[0]), num(c, p[1]), num(c, p[2])}); return q(braces && c.rng.chance(0.7) ? "{" + r + "}" : r); }
std::string box(vf::Ctx& c, P3 a, P3 b) { bool f = c.rng.chance(0.8); if (!f) std::swap(a, b); std::string r = "{"; for (auto* p : {&b, &a}) for (double x : *p) r += num(c, x) + " "; r.back() = '}'; return q(r); }   // upper corner first
std::string v3(const P3& p) { return n(p[0]) + "," + n(p[1]) + "," + n(p[2]); }
double val(vf::Ctx& c, int lo = -80, int hi = 80) { return c.rng.range(lo, hi) * 0.125; }
P3 pt(vf::Ctx& c) { return {val(c), val(c), val(c)}; }
std::string text(vf::Ctx& c, const char* base, int i) { static const std::vector<std::string> ex{"", " b", "-x", "_1", ".2", "\"q\"", "/s"}; return base + std::to_string(i) + c.rng.pick(ex); }

struct Expect { std::string solver, settings, grid; std::vector<std::string> mats, connectors, layers, coords, elems, nodes, sources, requests; bool mesh = false; Ids own; std::size_t nco = 0; double scale = 1; };
std::string sh(const char* k, std::vector<P3> p, double s) { std::vector<std::string> r; for (auto& x : p) r.push_back(v3({x[0] * s, x[1] * s, x[2] * s})); std::sort(r.begin(), r.end()); std::string o = k; for (auto& x : r) o += " (" + x + ")"; return o; }
std::string shBox(P3 a, P3 b, double s) { for (int k = 0; k < 3; k++) if (a[k] > b[k]) std::swap(a[k], b[k]); std::set<std::string> seen; std::vector<P3> p; for (int m = 0; m < 8; m++) { P3 x; for (int k = 0; k < 3; k++) x[k] = m >> k & 1 ? b[k] : a[k]; if (seen.insert(v3(x)).second) p.push_back(x); } return sh(p.size() == 8 ? "hex" : p.size() == 4 ? "qua" : p.size() == 2 ? "lin" : "nod", p, s); }

// one material: its text without identity, and what it is read as
std::string material(vf::Ctx& c, KV& kv, int i) {
    auto put = [&](const char* k, double x) { kv.push_back({k, num(c, x)}); return n(x); }; auto str = [&](const char* k, const std::string& s) { kv.push_back({k, q(s)}); };
    auto axes = [&] { P3 a{val(c), val(c), val(c)}, b{val(c), val(c), val(c)}; auto t = [&](const P3& p) { return "{" + num(c, p[0]) + " " + num(c, p[1]) + " " + num(c, p[2]) + "}"; }; str("localAxes", t(a) + " " + t(b)); return "axes(" + v3(a) + ";" + v3(b) + ")"; };
    double a = val(c, 1, 60), b = val(c, 1, 60), d = val(c, 0, 60), e = val(c, 0, 60); std::string pad = c.rng.chance(0.1) ? " " : "";
    switch (c.rng.range(0, 15)) {
    case 0: str("materialType", pad + "PEC"); return "PEC"; case 1: str("materialType", "PMC" + pad); return "PMC"; case 2: str("materialType", "SMA"); return "SMA";
    case 3: str("materialType", "PML"); return "PML " + axes();
    case 4: case 5: { str("materialType", "Classic"); std::string s = "classic " + put("permittivity", a); s += " " + put("permeability", b); s += " " + put("electricConductivity", d); return s + " " + put("magneticConductivity", e); }
    case 6: { str("materialType", "Wire"); std::string s = "wire " + put("radius", a * 1e-3); int k = c.rng.range(0, 2); if (k == 0) { str("wireType", "Dispersive"); str("filename", "wire" + std::to_string(i) + ".dat"); return s + " dispersive 'wire" + std::to_string(i) + ".dat'"; } str("wireType", k == 1 ? "Standard" : "SeriesParallel"); s += k == 1 ? " std " : " sp "; s += put("resistance", b); s += " " + put("inductance", d * 1e-9); if (k == 2) { s += " " + put("capacitance", e); s += " " + put("parallelResistance", a); s += " " + put("parallelInductance", b); s += " " + put("parallelCapacitance", d); } return s; }
    case 7: { str("materialType", "Thin_gap"); return "gap " + put("width", a); }
    case 8: case 9: case 10: { str("materialType", "Connector"); static const std::vector<std::pair<const char*, int>> T{{"Conn_short", 1}, {"Conn_open", 2}, {"Conn_matched", 3}, {"Conn_sRLC", 11}, {"Conn_pRLC", 18}, {"Conn_sLpRC", 16}, {"Conn_dispersive", 100}}; auto t = c.rng.pick(T); str("connectorType", t.first); if (t.second <= 3) return "port" + std::to_string(t.second); if (t.second == 100) { str("filename", "port.dat"); return "port100 file 'port.dat'"; } std::string s = "rlc" + std::to_string(t.second) + " " + put("resistance", a); s += " " + put("inductance", b * 1e-12); return s + " " + put("capacitance", 1e22); }
    case 11: { str("materialType", "Anisotropic"); str("anisotropicModel", "Crystal"); std::string s = "crystal " + axes(); P3 p{a, b, a + b}; kv.push_back({c.rng.chance(0.5) ? "relativePermittivityPrincipalAxes" : "relativePermittiviy", vec(c, p)}); return s + " " + v3(p) + " " + put("crystalRelativePermeability", d); }
    case 12: { str("materialType", "Anisotropic"); str("anisotropicModel", "Ferrite"); P3 eu{0, 0, 0}; str("localAxes", "{0 0 0} {0 0 0}"); put("kappa", a); put("ferriteRelativePermeability", b); put("ferriteRelativePermittivity", d); auto z = [&](double x) { return zero(x); }; std::string D = z(d), B = z(b), A = z(a), N = z(-a); return "ferrite axes(0,0,0;0,0,0) eps " + D + " 0 0 0 " + D + " 0 0 0 " + D + " mu " + B + " 0 0 0 " + B + " 0 0 0 1 mui 0 " + A + " 0 " + N + " 0 0 0 0 0"; }
    case 13: { str("materialType", "SIBC"); str("surfaceType", "File"); str("filename", "surf.mibc"); return "sibc file 'surf.mibc'"; }
    case 14: { str("materialType", "SIBC"); str("surfaceType", "Layers"); std::string s = "layers"; std::vector<std::string> L; int k = c.rng.range(1, 4); for (int j = 0; j < k; j++) { double th = val(c, 1, 60), ep = val(c, 1, 60), mu = val(c, 1, 60), si = val(c, 0, 60); L.push_back(obj(c, {{"thickness", num(c, th)}, {"permittivity", num(c, ep)}, {"permeability", num(c, mu)}, {"elecCond", num(c, si)}, {"magnCond", "0.0"}})); s += " (" + n(th) + " " + n(ep) + " " + n(mu) + " " + n(si) + ")"; } kv.push_back({"layers", arr(c, L)}); bool fit = c.rng.chance(0.5); kv.push_back({"useSembaVectorFitting", fit ? "true" : "false"}); double f0 = val(c, 1, 40), f1 = f0 + a; int np = c.rng.chance(0.2) ? c.rng.range(31, 400) : c.rng.range(1, 30); put("freqMin", f0); put("freqMax", f1); kv.push_back({"numberOfPoles", std::to_string(np)}); return fit ? s + " fit " + n(f0) + " " + n(f1) + " " + std::to_string(np) : s; }
    default: { str("materialType", "Dispersive"); std::ofstream(c.file("disp.dat")) << "1 2 3"; str("filename", "disp.dat"); return "dispersive file 'disp.dat' poles"; } }
}
std::string magnitude(vf::Ctx& c, std::string& ex) {
    int k = c.rng.range(0, 2); if (k == 0) { std::ofstream(c.file("mag.exc")) << "0 0\n1 2\n"; ex = "file 'mag.exc'"; return obj(c, {{"type", "\"File\""}, {"filename", "\"mag.exc\""}}); }
    double f = val(c, 4, 24); if (k == 1) { Math::Function::Gaussian g = Math::Function::Gaussian::buildFromMaximumFrequency(f); ex = "function" + fun([&](double t) { return std::exp(-0.5 * std::pow((t - g.getDelay()) / g.getSpread(), 2)); }, 0, 0.625); return obj(c, {{"type", "\"Gaussian\""}, {"frequencyMaximum", num(c, f)}}); }
    double f0 = f * 0.25; Math::Function::BandLimited b(f0, f); ex = "function" + fun([&](double t) { return b(t); }, 0, 0.625); return obj(c, {{"type", "\"Band_limited\""}, {"frequencyMinimum", num(c, f0)}, {"frequencyMaximum", num(c, f)}});
}
std::string dom(vf::Ctx& c, std::string& ex) {
    KV kv; ex.clear(); int t = c.rng.range(0, 3); bool tr = false; double a = val(c, 0, 40), b = a + val(c, 1, 40), s = val(c, 1, 9);
    if (t != 1) { kv.push_back({"initialTime", num(c, a)}); kv.push_back({"finalTime", num(c, b)}); kv.push_back({"samplingPeriod", num(c, s)}); ex += "time " + n(a) + " " + n(b) + " " + n(s) + " "; }
    if (t != 0) { bool lg = c.rng.chance(0.5); tr = c.rng.chance(0.4); kv.push_back({"initialFrequency", num(c, a + 1)}); kv.push_back({"finalFrequency", num(c, b + 2)}); kv.push_back({"frequencyStep", num(c, s)}); kv.push_back({"logFrequencySweep", lg ? "true" : "false"}); ex += "freq " + n(a + 1) + " " + n(b + 2) + " " + n(s) + (lg ? " log " : " lin "); if (tr) { kv.push_back({"transferFunctionFile", "\"transfer.txt\""}); ex += "transfer 'transfer.txt' "; } }
    ex += "type" + std::to_string(t == 0 ? 1 : t == 1 ? (tr ? 6 : 2) : (tr ? 7 : 4)); return obj(c, kv);
}
struct El { std::size_t id; std::string kind; std::vector<int> v; std::size_t mat, lay; };

std::string problem(vf::Ctx& c, Expect& x, bool corrupt) {
    KV top; top.push_back({"_version", q(OPENSEMBA_VERSION)}); if (c.rng.chance(0.5)) top.push_back({"_format", "\"Semba Data File in JSON format\""});
    bool mesh = c.rng.chance(0.9), solver = c.rng.chance(0.85); double s = 1; int B = c.rng.chance(0.02) ? 6 : 1; if (B > 1) c.cov("large problem");
    if (solver) { static const std::vector<double> S{1, 1, 0.5, 0.125, 2, 4, 0.25}; x.scale = s = c.rng.pick(S); KV so, mo; std::vector<std::pair<std::string, std::string>> e, m; x.solver = text(c, "solver", 0); e.push_back({"solver", "'" + x.solver + "'"}); so.push_back({"solver", q(x.solver)});
        so.push_back({"geometryScalingFactor", c.rng.chance(0.5) ? num(c, s) : q(vf::str(s))});
        auto any = [&](KV& k, std::vector<std::pair<std::string, std::string>>& ex, const std::string& name) { switch (c.rng.range(0, 3)) { case 0: { bool b = c.rng.chance(0.5); k.push_back({name, b ? "true" : "false"}); ex.push_back({name, b ? "'1'" : "'0'"}); break; } case 1: { int v = c.rng.range(-1000, 1000); k.push_back({name, std::to_string(v)}); ex.push_back({name, "'" + std::to_string(v) + "'"}); break; } default: { std::string t = text(c, "v", c.rng.range(0, 99)); k.push_back({name, q(t)}); ex.push_back({name, "'" + t + "'"}); } } };
        for (int i = c.rng.range(0, 6 * B); i > 0; i--) any(so, e, "option" + std::to_string(i)); if (c.rng.chance(0.5)) { for (int i = c.rng.range(0, 4); i > 0; i--) any(mo, m, "inner" + std::to_string(i)); so.push_back({"mesherOptions", obj(c, mo)}); std::sort(m.begin(), m.end()); std::string t = "{"; for (auto& p : m) t += p.first + "=" + p.second + ";"; e.push_back({"mesherOptions", t + "}"}); }
        std::vector<std::string> z; for (auto& p : e) z.push_back(p.first + "=" + p.second); std::sort(z.begin(), z.end()); x.settings = "{"; for (auto& t : z) x.settings += t + ";"; x.settings += "}"; top.push_back({"solverOptions", obj(c, so)}); }
    auto mids = mg::freshIds(c, 12 * B); int nm = c.rng.range(0, 8 * B); std::vector<std::string> M; for (int i = 0; i < nm; i++) { KV kv; std::string e = material(c, kv, i), name = text(c, "mat", i); kv.push_back({"materialId", std::to_string(mids[i])}); kv.push_back({"name", q(name)}); M.push_back(obj(c, kv)); x.mats.push_back(std::to_string(mids[i]) + " '" + name + "' " + e); c.cov("material " + e.substr(0, e.find_first_of(" 0123456789"))); c.ev("materials"); }
    if (nm > 0 || c.rng.chance(0.7)) top.push_back({"materials", arr(c, M)});
    if (mesh) { x.mesh = true;
        auto lids = mg::freshIds(c, 6 * B); int nl = c.rng.range(0, 5 * B); std::vector<std::string> L; for (int i = 0; i < nl; i++) { std::string name = text(c, "lay", i), kept = name; std::replace(kept.begin(), kept.end(), ' ', '_'); L.push_back(obj(c, {{"id", std::to_string(lids[i])}, {"name", q(name)}})); x.layers.push_back(std::to_string(lids[i]) + " '" + kept + "'"); } top.push_back({"layers", arr(c, L)});
        int nc = c.rng.range(8, 30 * B); auto cids = mg::freshIds(c, nc); std::vector<P3> pos; std::set<P3> used; std::vector<std::string> C; double z0 = val(c); for (int i = 0; i < nc; i++) { P3 p; do { p = pt(c); if (i < 6) p[2] = z0; } while (!used.insert(p).second); pos.push_back(p); C.push_back(q(spaced(c, {std::to_string(cids[i]), num(c, p[0]), num(c, p[1]), num(c, p[2])}))); x.coords.push_back(std::to_string(cids[i]) + " " + v3({p[0] * s, p[1] * s, p[2] * s})); } top.push_back({"coordinates", arr(c, C)}); x.nco = nc;
        auto eids = mg::freshIds(c, 60 * B); int k = 0; std::vector<El> E; static const char* K[] = {"hexahedra", "tetrahedra", "quadrilateral", "triangle", "line"}; static const char* T[] = {"hex", "tet", "qua", "tri", "lin"}; static const int N[] = {8, 4, 4, 3, 2}; KV ekv;
        auto volume6 = [&](const std::vector<int>& v) { double m[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = pos[v[i + 1]][j] - pos[v[0]][j]; return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); };
        for (int t = 0; t < 5; t++) { std::vector<std::string> S; int ne = c.rng.range(0, 5 * B); if (t == 3 || t == 4) ne++; for (int i = 0; i < ne; i++) { El e; e.id = eids[k++]; e.kind = T[t]; std::vector<int> pool; for (int j = 0; j < nc; j++) pool.push_back(j); bool flat = (t == 2 || t == 3) && c.rng.chance(0.4); if (flat) pool.resize(6); int tries = 0; do { c.rng.shuffle(pool); e.v.assign(pool.begin(), pool.begin() + N[t]); } while (t == 1 && volume6(e.v) == 0 && ++tries < 200); if (tries == 200) continue; e.mat = nm && c.rng.chance(0.7) ? mids[c.rng.range(0, nm - 1)] : 0; e.lay = nl && c.rng.chance(0.7) ? lids[c.rng.range(0, nl - 1)] : 0; std::vector<std::string> w{std::to_string(e.id), std::to_string(e.mat), std::to_string(e.lay)}; for (int v : e.v) w.push_back(std::to_string(cids[v])); S.push_back(q(spaced(c, w))); E.push_back(e); x.own.insert(e.id); std::string o = e.kind + " " + w[0] + " m" + w[1] + " l" + w[2] + ":"; for (int v : e.v) o += " (" + std::to_string(cids[v]) + "@" + v3({pos[v][0] * s, pos[v][1] * s, pos[v][2] * s}) + ")"; x.elems.push_back(o); c.ev("elements"); } ekv.push_back({K[t], arr(c, S)}); }
        top.push_back({"elements", obj(c, ekv)});
        // grid
        { KV g; std::vector<double> ln[3]; int kind = c.rng.range(0, 3); P3 a = pt(c), b; int nn[3]; double st[3]; for (int j = 0; j < 3; j++) { nn[j] = c.rng.range(1, 6 * B); st[j] = val(c, 1, 8); b[j] = a[j] + nn[j] * st[j]; }
          bool pad = false; if (kind <= 1) { g.push_back({"gridType", "\"gridCondition\""}); g.push_back({"layerBox", box(c, a, b)}); if (kind == 0) { g.push_back({"type", "\"Number_of_cells\""}); g.push_back({"numberOfCells", q("{" + std::to_string(nn[0]) + " " + std::to_string(nn[1]) + " " + std::to_string(nn[2]) + "}")}); } else { bool fit = c.rng.chance(0.5); g.push_back({"type", "\"by_distance\""}); g.push_back({"fitSizeToBox", fit ? "true" : "false"}); P3 sz{st[0], st[1], st[2]}; if (fit) for (int j = 0; j < 3; j++) { double f = std::min(0.05, 0.4 / nn[j]); sz[j] *= c.rng.real(1 - f, 1 + f); } g.push_back({"stepSize", vec(c, sz)}); }
            for (int j = 0; j < 3; j++) for (int i = 0; i <= nn[j]; i++) ln[j].push_back(a[j] + i * st[j]);
            if (c.rng.chance(0.4)) { pad = true; bool cells = c.rng.chance(0.5); P3 lo, up, ml, mu; for (int j = 0; j < 3; j++) { int cl = c.rng.range(0, 3), cu = c.rng.range(0, 3); ml[j] = st[j] * (c.rng.chance(0.3) ? 0.5 : 1); mu[j] = st[j] * (c.rng.chance(0.3) ? 0.5 : 1); lo[j] = cells ? cl : cl * st[j]; up[j] = cells ? cu : cu * st[j]; if (cells) { if (ml[j] < st[j]) cl = (cl + 1) / 2; if (mu[j] < st[j]) cu = (cu + 1) / 2; } for (int i = 1; i <= cl; i++) ln[j].insert(ln[j].begin(), a[j] - i * st[j]); for (int i = 1; i <= cu; i++) ln[j].push_back(b[j] + i * st[j]); } g.push_back({"boundaryPaddingType", cells ? "\"by_number_of_cells\"" : "\"by_distance\""}); g.push_back({"lowerPadding", vec(c, lo)}); g.push_back({"upperPadding", vec(c, up)}); g.push_back({"lowerPaddingMeshSize", vec(c, ml)}); g.push_back({"upperPaddingMeshSize", vec(c, mu)}); } }
          else { for (int j = 0; j < 3; j++) { double y = a[j]; for (int i = 0; i <= nn[j]; i++) { ln[j].push_back(y); y += val(c, 1, 8); } } std::vector<std::string> t[3]; for (int j = 0; j < 3; j++) for (double y : ln[j]) t[j].push_back(num(c, y)); if (kind == 2) { g.push_back({"gridType", "\"nativeGiD\""}); g.push_back({"corner", vec(c, a)}); g.push_back({"boxSize", vec(c, {1, 1, 1})}); g.push_back({"nGridPoints", "\"{3 3 3}\""}); g.push_back({"xCoordinates", arr(c, t[0])}); g.push_back({"yCoordinates", arr(c, t[1])}); g.push_back({"zCoordinates", arr(c, t[2])}); } else { g.push_back({"gridType", "\"positionsFromFile\""}); g.push_back({"filename", "\"grid.txt\""}); std::ofstream(c.file("grid.txt")) << (c.rng.chance(0.3) ? "\n" : c.rng.chance(0.2) ? " \r\n\t" : "") << "\"xs\": " << arr(c, t[0]) << ", \"ys\": " << arr(c, t[1]) << ", \"zs\": " << arr(c, t[2]); } }
          std::vector<std::string> G{obj(c, g)}; if (c.rng.chance(0.2)) G.push_back("{\"gridType\": \"other\"}"); top.push_back({"grids", arr(c, G)}); x.grid = "grid"; for (auto& l : ln) { x.grid += " |"; for (double y : l) x.grid += " " + zero(y * s); } c.cov("grid " + std::to_string(kind) + (pad ? " padded" : "")); }
        std::vector<std::string> J; for (int i = c.rng.range(0, 3 * B); i > 0; i--) { KV kv; std::string e; do { kv.clear(); e = material(c, kv, i); } while (kv[0].second != "\"Connector\""); int v = c.rng.range(0, nc - 1); kv.push_back({"coordIds", std::to_string(cids[v])}); J.push_back(obj(c, kv)); x.connectors.push_back(e + " at " + std::to_string(cids[v])); } top.push_back({"connectorOnPoint", arr(c, J)});
        auto ofKind = [&](std::set<std::string> ks, bool flat) { std::vector<El*> r; for (auto& e : E) if (ks.count(e.kind)) { bool f = true; for (int v : e.v) f = f && pos[v][2] == z0; if (!flat || f) r.push_back(&e); } return r; };
        auto list = [&](std::vector<El*> p, std::string& on) { c.rng.shuffle(p); p.resize(c.rng.range(1, p.size())); std::vector<std::string> t; on = "on"; for (auto* e : p) { t.push_back(std::to_string(e->id)); on += " [#" + t.back() + "]"; } return std::make_pair(arr(c, t), p); };
        auto points = [&](std::string& on) { std::vector<std::string> t; on = "on"; for (int i = c.rng.range(1, 3); i > 0; i--) { int v = c.rng.range(0, nc - 1); t.push_back(std::to_string(cids[v])); on += " [" + sh("nod", {pos[v]}, s) + "]"; } return arr(c, t); };
        auto rbox = [&](int dim, P3& a, P3& b) { a = pt(c); b = a; std::vector<int> ax{0, 1, 2}; c.rng.shuffle(ax); for (int i = 0; i < dim; i++) b[ax[i]] += val(c, 1, 16); };
        auto sp = [&](std::string t) { if (c.rng.chance(0.3)) t = " " + t; if (c.rng.chance(0.3)) t += c.rng.chance(0.5) ? " " : "  "; return "\"" + t + "\""; };
        static const double D = std::acos(-1.0) / 180; std::vector<std::string> S;
        for (int i = c.rng.range(0, 4 * B); i > 0; i--) { KV kv; std::string mg, on, e; kv.push_back({"magnitude", magnitude(c, mg)}); auto lins = ofKind({"lin"}, false); auto flats = ofKind({"qua", "tri"}, true);
            switch (c.rng.range(0, 5)) {
            case 0: { kv.push_back({"sourceType", "\"generator\""}); bool v = c.rng.chance(0.5); kv.push_back({"type", sp(v ? "voltage" : "current")}); if (c.rng.chance(0.5)) kv.push_back({"hardness", sp("soft")}); kv.push_back({"coordIds", points(on)}); e = std::string("Generator type") + (v ? "1" : "2"); break; }
            case 1: { kv.push_back({"sourceType", "\"sourceOnLine\""}); bool el = c.rng.chance(0.5), hd = c.rng.chance(0.5); kv.push_back({"type", sp(el ? "electricField" : "magneticField")}); kv.push_back({"hardness", sp(hd ? "hard" : "soft")}); kv.push_back({"elemIds", list(lins, on).first}); e = std::string("OnLine type") + (el ? "1" : "2") + " hardness" + (hd ? "1" : "2"); break; }
            case 2: if (!flats.empty()) { auto l = list(flats, on); P3 a{1e9, 1e9, 1e9}, b{-1e9, -1e9, -1e9}; for (auto* f : l.second) for (int v : f->v) for (int j = 0; j < 3; j++) { a[j] = std::min(a[j], pos[v][j]); b[j] = std::max(b[j], pos[v][j]); } if (b[0] == a[0] || b[1] == a[1]) continue; kv.push_back({"elemIds", l.first});
                if (c.rng.chance(0.5)) { bool te = c.rng.chance(0.5); int m = c.rng.range(0, 4), nn = c.rng.range(m == 0 ? 1 : 0, 4); kv.push_back({"sourceType", "\"waveguidePort\""}); kv.push_back({"shape", "\"Rectangular\""}); kv.push_back({"excitationMode", te ? "\"TE\"" : "\"TM\""}); kv.push_back({"firstMode", std::to_string(m)}); kv.push_back({"secondMode", std::to_string(nn)}); e = std::string("Rectangular_waveguide_port ") + (te ? "TE" : "TM") + std::to_string(m) + "," + std::to_string(nn) + " origin " + v3({a[0] * s, a[1] * s, a[2] * s}) + " size " + n((b[0] - a[0]) * s) + " " + n((b[1] - a[1]) * s); }
                else { bool vo = c.rng.chance(0.5); double ri = val(c, 1, 9), ro = ri + val(c, 1, 9); P3 o{(a[0] + b[0]) / 2, (a[1] + b[1]) / 2, a[2]}; kv.push_back({"sourceType", "\"temPort\""}); kv.push_back({"excitationMode", vo ? "\"Voltage\"" : "\"Current\""}); kv.push_back({"origin", vec(c, o)}); kv.push_back({"innerRadius", num(c, ri)}); kv.push_back({"outerRadius", num(c, ro)}); e = std::string("Coaxial_TEM_port ") + (vo ? "voltage" : "current") + " origin " + v3({o[0] * s, o[1] * s, o[2] * s}); for (auto p : {std::make_pair(1.0, 0.0), std::make_pair(0.5, 0.75)}) { double r2 = p.first * p.first + p.second * p.second, f = vo ? 1 / (r2 * std::log(ro / ri)) : 1 / (2 * std::acos(-1.0) * r2); double w0 = vo ? p.first * f : -p.second * f, w1 = vo ? p.second * f : p.first * f; e += " (" + zero(w0) + "," + zero(w1) + ",0)"; } } break; }   // fall through when there is no flat surface
            default: { kv.push_back({"sourceType", "\"planewave\""}); P3 a, b; rbox(3, a, b); kv.push_back({"layerBox", box(c, a, b)}); on = "on [" + shBox(a, b, s) + "]"; e = "PlaneWave "; auto dp = [&](const P3& d, const P3& p) { e += "dir"; for (double y : d) e += " " + zero(y); e += " pol"; for (double y : p) e += " " + zero(y); };
                switch (c.rng.range(0, 2)) { case 0: { P3 d{val(c), val(c), val(c) + 20}, p{-d[2], 0, d[0]}; kv.push_back({"definitionMode", "\"by_vectors\""}); kv.push_back({"directionVector", vec(c, d)}); kv.push_back({"polarizationVector", vec(c, p)}); dp(d, p); break; }
                case 1: { double th = c.rng.range(0, 180), ph = c.rng.range(0, 359); bool in = c.rng.chance(0.5); double al = in ? th + 90 : 90, be = in ? ph : ph + 90; kv.push_back({"definitionMode", "\"by_angles\""}); kv.push_back({"directionTheta", num(c, th)}); kv.push_back({"directionPhi", num(c, ph)}); kv.push_back({"polarizationAlpha", num(c, al)}); kv.push_back({"polarizationBeta", num(c, be)}); auto u = [&](double t, double f) { return P3{std::sin(t * D) * std::cos(f * D), std::sin(t * D) * std::sin(f * D), std::cos(t * D)}; }; dp(u(th, ph), u(al, be)); break; }
                default: { int np = c.rng.range(1, 500); double rv = val(c, 0, 8); kv.push_back({"definitionMode", "\"randomized_multisource\""}); kv.push_back({"numberOfRandomPlanewaves", std::to_string(np)}); kv.push_back({"relativeVariationOfRandomDelay", num(c, rv)}); e += "random " + std::to_string(np) + " " + n(rv); } } } }
            S.push_back(obj(c, kv)); x.sources.push_back(e + " magnitude " + mg + " " + on); c.ev("sources"); c.cov("source " + e.substr(0, e.find(' '))); }
        top.push_back({"sources", arr(c, S)});
        std::vector<std::string> R; for (int i = c.rng.range(0, 4 * B); i > 0; i--) { KV kv; std::string d, on, e, name = text(c, "request", i); kv.push_back({"name", q(name)}); kv.push_back({"domain", dom(c, d)}); P3 a, b; static const std::vector<std::pair<const char*, int>> T{{"electricField", 0}, {"magneticField", 1}, {"electricFieldNormals", 2}, {"magneticFieldNormals", 3}, {"surfaceCurrentDensity", 4}, {"bulkCurrentElectric", 5}, {"bulkCurrentMagnetic", 6}, {"current", 7}}; auto t = c.rng.pick(T); bool bulk = t.second == 5 || t.second == 6; e = "'" + name + "' type" + std::to_string(t.second) + " "; auto surfs = ofKind({"qua", "tri"}, false), lins = ofKind({"lin"}, false);
            if (bulk) { int dir = c.rng.range(0, 2), skip = c.rng.range(1, 5); kv.push_back({"direction", dir == 0 ? "\"x\"" : dir == 1 ? "\"y\"" : "\"z\""}); kv.push_back({"skip", std::to_string(skip)}); e += "bulk " + std::to_string(dir) + " skip " + std::to_string(skip) + " "; }
            int g = c.rng.range(0, bulk ? 4 : 5); if (g == 0) { kv.push_back({"gidOutputType", "\"OutRq_on_point\""}); kv.push_back({"elemIds", points(on)}); } else if (g == 1) { kv.push_back({"gidOutputType", "\"OutRq_on_line\""}); kv.push_back({"elemIds", list(lins, on).first}); } else if (g == 2) { kv.push_back({"gidOutputType", "\"OutRq_on_surface\""}); kv.push_back({"elemIds", list(surfs, on).first}); } else if (g <= 4) { rbox(c.rng.range(0, 3), a, b); kv.push_back({"gidOutputType", "\"OutRq_on_layer\""}); kv.push_back({"box", box(c, a, b)}); on = "on [" + shBox(a, b, s) + "]"; }
            else { rbox(3, a, b); t = {"farField", 9}; e = "'" + name + "' type9 far"; kv.push_back({"gidOutputType", "\"Far_field\""}); kv.push_back({"box", box(c, a, b)}); on = "on [" + shBox(a, b, s) + "]"; for (const char* l : {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"}) { double y = val(c, 0, 720); kv.push_back({l, num(c, y)}); e += " " + n(y * D); } e += " "; }
            kv.push_back({"type", c.rng.chance(0.1) ? q(std::string(" ") + t.first) : q(t.first)}); R.push_back(obj(c, kv)); x.requests.push_back(e + d + " " + on); c.ev("requests"); c.cov("request on " + std::to_string(g) + (bulk ? " bulk" : "")); }
        top.push_back({"outputRequests", arr(c, R)}); }
    if (c.rng.chance(0.2)) top.push_back({"unrelated", "[1, {\"a\": null}]"});
    return ws(c) + obj(c, top) + ws(c);
}
void compare(vf::Ctx& c, const std::string& key, const std::vector<std::string>& got, const std::vector<std::string>& want, const std::string& w) {
    VF_CHECK(c, got.size() == want.size(), key + "-count", got.size() << " read, " << want.size() << " written: " << w); if (got.size() == want.size()) for (std::size_t i = 0; i < got.size(); i++) VF_CHECK(c, got[i] == want[i], key, "read as   " << got[i] << "\nwritten as " << want[i]); }

const PM::PhysicalModel* model(const Elem* e) { return dynamic_cast<const PM::PhysicalModel*>(e->getModel()); }
void inspect(vf::Ctx& c, const Data& d, const Expect& x, const std::string& w, const char* how) {
    VF_CHECK(c, (d.solver != nullptr) == !x.solver.empty(), "solver", how); if (d.solver && !x.solver.empty()) { VF_CHECK(c, d.solver->getName() == x.solver, "solver", how << " " << d.solver->getName()); std::string g = settings(d.solver->getSettings()); auto k = g.find("geometryScalingFactor='"); VF_CHECK(c, k != std::string::npos, "settings", how << ": no scaling factor"); if (k != std::string::npos) { auto r = g.find(';', k); VF_CHECK(c, std::atof(g.c_str() + k + 23) == x.scale && d.solver->getSettings()("geometryScalingFactor").getReal() == x.scale, "settings", how << ": scaling " << g.substr(k, r - k)); g = g.substr(0, k) + g.substr(r + 1); } VF_CHECK(c, g == x.settings, "settings", how << " read as " << g << " written as " << x.settings); }
    VF_CHECK(c, d.physicalModels != nullptr, "materials", how); if (!d.physicalModels) return; std::vector<std::string> m, k; for (std::size_t i = 0; i < d.physicalModels->size(); i++) m.push_back(pm((*d.physicalModels)(i)));
    std::vector<std::string> conns(m.size() > x.mats.size() ? m.begin() + x.mats.size() : m.end(), m.end()); m.resize(std::min(m.size(), x.mats.size())); compare(c, "material", m, x.mats, w);
    VF_CHECK(c, (d.mesh != nullptr) == x.mesh, "mesh", how << ": " << (x.mesh ? "the mesh was not read" : "there is a mesh") << "; " << w); VF_CHECK(c, d.sources && d.outputRequests, "mesh", "no sources or requests"); if (!d.mesh || !x.mesh || !d.sources || !d.outputRequests) return;
    auto* g = dynamic_cast<const Mesh::Geometric*>(d.mesh); VF_CHECK(c, g, "mesh", "kind"); if (!g) return; VF_CHECK(c, grid(g->grid()) == x.grid, "grid", how << " read as " << grid(g->grid()) << " written as " << x.grid);
    std::vector<std::string> l; for (std::size_t i = 0; i < g->layers().size(); i++) l.push_back(std::to_string(g->layers()(i)->getId().toInt()) + " '" + g->layers()(i)->getName() + "'"); compare(c, "layer", l, x.layers, w);
    std::vector<std::string> co; for (std::size_t i = 0; i < x.nco && i < g->coords().size(); i++) co.push_back(std::to_string(g->coords()(i)->getId().toInt()) + " " + v(g->coords()(i)->pos())); compare(c, "coordinate", co, x.coords, w);
    std::vector<std::string> el; std::vector<const NodR*> nod; Ids ids; for (std::size_t i = 0; i < g->elems().size(); i++) { auto* e = g->elems()(i); VF_CHECK(c, ids.insert(e->getId().toInt()).second && e->getId() != ElemId(0), "element-identity", how); if (x.own.count(e->getId().toInt())) el.push_back(ds::el(e)); else if (e->is<NodR>() && e->getMatId() != MatId(0)) nod.push_back(e->castTo<NodR>()); for (auto& p : verts(e)) VF_CHECK(c, g->coords().existId(CoordId(p.first)), "element-vertices", how); VF_CHECK(c, e->getModel() == nullptr || (d.physicalModels->existId(e->getMatId()) && model(e) == d.physicalModels->getId(e->getMatId())), "element-material", how); } compare(c, "element", el, x.elems, w);
    std::vector<std::string> cn; for (auto* p : nod) { std::string t = pm(model(p)); cn.push_back(t.substr(t.find("'' ") == std::string::npos ? 0 : t.find("'' ") + 3) + " at " + std::to_string(p->getV(0)->getId().toInt())); } compare(c, "connector", cn, x.connectors, w); VF_CHECK(c, conns.size() == x.connectors.size(), "connector", how << ": " << conns.size() << " materials of connectors");
    auto inMesh = [&](const Element::Group<const Elem>& es) { for (std::size_t i = 0; i < es.size(); i++) VF_CHECK(c, g->elems().existId(es(i)->getId()) && g->elems().getId(es(i)->getId()) == es(i), "own-elements", how << ": an element of a source or request is not the mesh's"); };
    std::vector<std::string> so; for (std::size_t i = 0; i < d.sources->size(); i++) { so.push_back(source((*d.sources)(i), x.own)); inMesh((*d.sources)(i)->elems()); } compare(c, "source", so, x.sources, w);
    std::vector<std::string> rq; for (std::size_t i = 0; i < d.outputRequests->size(); i++) { rq.push_back(request((*d.outputRequests)(i), x.own)); inMesh((*d.outputRequests)(i)->elems()); } compare(c, "request", rq, x.requests, w); c.ev("problems");
}
}
