// Export to VTK: problems read from text and problems built in memory, exported, and the
// index and the files read back with a parser of our own and compared with the problem.
#include "viewsets.h"
#include "exporter/vtk/Exporter.h"
#include <sys/stat.h>
#include <sys/resource.h>
#include <csignal>
#include <fstream>
namespace {
std::string slurp(const std::string& f, bool& ok) { std::ifstream i(f.c_str(), std::ios::binary); ok = bool(i); std::ostringstream o; o << i.rdbuf(); return o.str(); }
// a minimal XML reader: elements, attributes, text; false when it is malformed
struct Node { std::string name, text; std::map<std::string, std::string> at; std::vector<Node> kids; const Node* kid(const std::string& n) const { for (auto& k : kids) if (k.name == n) return &k; return nullptr; } };
bool xml(const std::string& s, std::size_t& i, Node& n, bool top) {
    if (top) for (char x : s) if ((unsigned char)x < 32 && x != '\t' && x != '\n' && x != '\r') return false;  // never part of XML
    auto skip = [&] { while (i < s.size() && std::isspace((unsigned char)s[i])) i++; };
    if (top) { skip(); if (s.compare(i, 5, "<?xml") == 0) { i = s.find("?>", i); if (i == std::string::npos) return false; i += 2; skip(); } }
    if (i >= s.size() || s[i] != '<') return false; i++; while (i < s.size() && (std::isalnum((unsigned char)s[i]) || s[i] == '_')) n.name += s[i++]; if (n.name.empty()) return false;
    for (;;) { skip(); if (i >= s.size()) return false; if (s[i] == '/') { if (s.compare(i, 2, "/>")) return false; i += 2; return true; } if (s[i] == '>') { i++; break; } std::string k; while (i < s.size() && (std::isalnum((unsigned char)s[i]) || s[i] == '_')) k += s[i++]; if (k.empty() || s.compare(i, 2, "=\"")) return false; i += 2; std::string v; while (i < s.size() && s[i] != '"') { if (s[i] == '<' || (s[i] == '&' && s.compare(i, 5, "&amp;") && s.compare(i, 4, "&lt;") && s.compare(i, 4, "&gt;") && s.compare(i, 6, "&quot;"))) return false; v += s[i++]; } if (i >= s.size() || n.at.count(k)) return false; i++; n.at[k] = v; }
    for (;;) { while (i < s.size() && s[i] != '<') n.text += s[i++]; if (i >= s.size()) return false; if (s.compare(i, 2, "</") == 0) { i += 2; if (s.compare(i, n.name.size(), n.name)) return false; i += n.name.size(); skip(); if (i >= s.size() || s[i] != '>') return false; i++; if (top) { skip(); return i == s.size(); } return true; } Node k; if (!xml(s, i, k, false)) return false; n.kids.push_back(k); }
}
template <class T> std::vector<T> words(const std::string& t, bool& ok) { std::istringstream i(t); std::vector<T> r; T x; while (i >> x) r.push_back(x); ok = ok && i.eof(); return r; }
bool readSet(vf::Ctx& c, const std::string& f, Set& s, const std::string& w) {
    bool ok; std::string t = slurp(f, ok); VF_CHECK(c, ok, "missing-file", f << ": " << w); if (!ok) return false; Node n; std::size_t i = 0; ok = xml(t, i, n, true); VF_CHECK(c, ok && n.name == "VTKFile" && n.at["type"] == "UnstructuredGrid", "malformed", f << ": " << w); if (!ok) return false;
    const Node *u = n.kid("UnstructuredGrid"), *p = u ? u->kid("Piece") : nullptr; const Node* body = p ? p : u; const Node* pts = body ? body->kid("Points") : nullptr; const Node* cl = body ? body->kid("Cells") : nullptr; VF_CHECK(c, pts && cl && pts->kid("DataArray"), "malformed", f << ": " << w); if (!pts || !cl || !pts->kid("DataArray")) return false;
    auto num = [&](const char* k) { auto& a = (p && p->at.count(k) ? p : u)->at; auto it = a.find(k); return it == a.end() ? std::size_t(-1) : std::size_t(std::strtoul(it->second.c_str(), 0, 10)); };
    std::vector<double> x = words<double>(pts->kid("DataArray")->text, ok); std::map<std::string, std::vector<long>> a; for (auto& k : cl->kids) a[k.at.count("Name") ? k.at.at("Name") : ""] = words<long>(k.text, ok); auto &con = a["connectivity"], &off = a["offsets"], &ty = a["types"];
    ok = ok && x.size() % 3 == 0 && num("NumberOfPoints") == x.size() / 3 && num("NumberOfCells") == off.size() && ty.size() == off.size(); VF_CHECK(c, ok, "counts", f << " announces " << num("NumberOfPoints") << " points and " << num("NumberOfCells") << " cells, holds " << x.size() / 3.0 << " and " << off.size() << "; " << w); if (!ok) return false;
    s.points = x.size() / 3; long prev = 0; std::set<long> used; for (std::size_t k = 0; k < off.size(); k++) { ok = ok && off[k] > prev && off[k] <= long(con.size()); if (!ok) break; Cell q; q.type = ty[k]; for (long j = prev; j < off[k]; j++) { ok = ok && con[j] >= 0 && con[j] < long(s.points); if (!ok) break; used.insert(con[j]); q.p.push_back(CVecR3(x[3 * con[j]], x[3 * con[j] + 1], x[3 * con[j] + 2])); } s.cells.push_back(q); prev = off[k]; }
    ok = ok && prev == long(con.size()); VF_CHECK(c, ok, "connectivity", f << ": " << w); VF_CHECK(c, used.size() == s.points, "unused-points", f << ": " << w); c.ev("files read"); c.ev("cells", s.cells.size()); return ok;
}
void readBack(vf::Ctx& c, const std::string& name, const std::vector<Set>& want, const std::string& w, std::vector<std::string>* files = nullptr) {
    bool ok; std::string t = slurp(name + ".pvd", ok); VF_CHECK(c, ok, "missing-file", "no index: " << w); Node n; std::size_t i = 0; bool good = xml(t, i, n, true); VF_CHECK(c, good && n.name == "VTKFile" && n.at["type"] == "Collection" && n.kid("Collection"), "malformed", "index: " << t.substr(0, 600) << " of " << w); if (!good || !n.kid("Collection")) return;
    std::string folder = name.find('/') == std::string::npos ? "" : name.substr(0, name.rfind('/') + 1); std::vector<Set> got; std::set<std::string> names, fs; std::size_t part = 0; for (auto k : n.kid("Collection")->kids) { Set s; s.base = k.at["group"]; VF_CHECK(c, fs.insert(k.at["file"]).second, "same-file", "two sets in the file " << k.at["file"] << ": " << w); VF_CHECK(c, k.at["part"] == std::to_string(part), "part", k.at["part"] << " for part " << part << ": " << w); part++; if (!readSet(c, folder + k.at["file"], s, w)) return; if (files) files->push_back(folder + k.at["file"]); got.push_back(s); }
    VF_CHECK(c, got.size() == want.size(), "sets", got.size() << " sets in the index, " << want.size() << " in the problem; " << w); std::vector<bool> u(got.size(), false), done(want.size(), false);
    for (int pass = 0; pass < 2; pass++) for (std::size_t k = 0; k < want.size(); k++) { if (done[k]) continue; std::string b = plain(want[k].base); for (std::size_t j = 0; j < got.size() && !done[k]; j++) if (!u[j]) { std::string g = plain(got[j].base); if ((pass == 0 ? g == b : g.compare(0, b.size(), b) == 0) && sameSet(got[j], want[k])) u[j] = done[k] = true; } }
    for (std::size_t k = 0; k < want.size(); k++) { VF_CHECK(c, done[k], "set", "no file holds the " << want[k].cells.size() << " elements of '" << want[k].base << "': " << w); c.ev("sets"); } }
}
void vf_case(vf::Ctx& c) {
    std::unique_ptr<Data> d; std::string w; if (c.rng.chance(0.25)) { Expect x; w = problem(c, x, false); SEMBA::Parser::JSON::Parser p; std::istringstream in(w); d.reset(new Data(p.read(in))); if (!d->mesh) return; c.cov("read from text"); w = w.substr(0, 900); } else d.reset(built(c, w, 2));
    c.note(w); c.interesting = true; std::vector<Set> want = expected(*d); std::string dir = "v" + std::to_string(c.index % 7), name = dir + "/out"; mkdir(dir.c_str(), 0755); system(("rm -rf " + dir + "/*").c_str());
    std::size_t before = vf::liveBytes(); { SEMBA::Exporter::VTK::Exporter e(d.get(), name); } std::size_t after = vf::liveBytes(); VF_CHECK(c, before == after, "leak", long(after - before) << " bytes are kept after the export of " << w);
    std::vector<std::string> files; readBack(c, name, want, w, &files); std::vector<Set> again = expected(*d); bool same = again.size() == want.size(); for (std::size_t i = 0; same && i < want.size(); i++) same = again[i].base == want[i].base && sameSet(again[i], want[i]); VF_CHECK(c, same, "problem-changed", w);
    int op = c.rng.range(0, 5); if (op == 0) { { SEMBA::Exporter::VTK::Exporter e(d.get(), name); } readBack(c, name, want, "second export of " + w); c.cov("exported twice"); }
    else if (op == 1) { const Data cp(*d); d.reset(); { SEMBA::Exporter::VTK::Exporter e(&cp, name); } readBack(c, name, want, "export of a copy of " + w); c.cov("exported a copy"); }
    else if (op <= 3) { // no room for what has to be written: the export must not look complete
        std::size_t big = 0; files.push_back(name + ".pvd"); for (auto& f : files) { struct stat s; if (!stat(f.c_str(), &s)) big = std::max<std::size_t>(big, s.st_size); } system(("rm -rf " + dir + "/*").c_str()); rlimit lim, old; getrlimit(RLIMIT_FSIZE, &old); std::signal(SIGXFSZ, SIG_IGN); lim = old; lim.rlim_cur = c.rng.range(0, big * 1.2); setrlimit(RLIMIT_FSIZE, &lim); std::string t = vf::thrown([&] { SEMBA::Exporter::VTK::Exporter e(d.get(), name); }); setrlimit(RLIMIT_FSIZE, &old); c.ev("exports without room");
        if (lim.rlim_cur < big) VF_CHECK(c, !t.empty(), "incomplete-export", "files of up to " << big << " bytes with room for " << lim.rlim_cur << " and no error: " << w); else { VF_CHECK(c, t.empty(), "refused", t << ": " << w); readBack(c, name, want, "with little room: " + w); } }
    else if (op == 4) { system(("rm -rf " + dir + "/*").c_str()); mkdir((name + (c.rng.chance(0.5) ? ".pvd" : "z.vtk")).c_str(), 0755); bool blocked = !std::ifstream((name + ".pvd").c_str()).fail(); std::string t = vf::thrown([&] { SEMBA::Exporter::VTK::Exporter e(d.get(), name); }); struct stat s; blocked = !stat((name + ".pvd").c_str(), &s) && S_ISDIR(s.st_mode); VF_CHECK(c, blocked == !t.empty(), "incomplete-export", "the index cannot be written and " << (t.empty() ? "no error" : t) << ": " << w); c.cov(blocked ? "index blocked" : "not blocked"); }
    else { std::string t = vf::thrown([&] { SEMBA::Exporter::VTK::Exporter e(d.get(), "nowhere" + std::to_string(c.index) + "/x"); }); VF_CHECK(c, !t.empty(), "incomplete-export", "no such folder and no error: " << w); }
}
