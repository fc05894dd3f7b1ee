// C29: names of files and folders, and what is done to them, in a small tree of its own.
// Names never hold '~', '$H...' or a '/' after a blank: were they ever given to a shell bare, nothing outside could be meant.
#include "vf.h"
#include "filesystem/Project.h"
#include <algorithm>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <stdexcept>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
using SEMBA::FileSystem::Project;
namespace {
typedef std::map<std::string, std::string> Tree;    // path -> kind and content
void scan(const std::string& at, Tree& t) {
    DIR* d = opendir(at.empty() ? "." : at.c_str()); if (!d) return;
    std::vector<std::string> n; while (dirent* e = readdir(d)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") n.push_back(e->d_name); closedir(d);
    for (auto& x : n) { std::string p = at.empty() ? x : at + "/" + x; struct stat s; if (lstat(p.c_str(), &s)) continue; if (S_ISDIR(s.st_mode)) { t[p] = "folder"; scan(p, t); } else if (S_ISLNK(s.st_mode)) t[p] = "link"; else { std::ifstream f(p, std::ios::binary); std::stringstream b; b << f.rdbuf(); t[p] = "file" + std::string(s.st_mode & S_IXUSR ? "*" : "") + " " + b.str(); } }
}
Tree scan() { Tree t; scan("", t); return t; }
std::string show(const Tree& a, const Tree& b) { std::string s; for (auto& x : a) if (!b.count(x.first)) s += " -" + x.first; else if (b.at(x.first) != x.second) s += " ~" + x.first; for (auto& x : b) if (!a.count(x.first)) s += " +" + x.first; return s; }
void wipe(const std::string& p) { struct stat s; if (lstat(p.c_str(), &s)) return; if (S_ISDIR(s.st_mode)) { DIR* d = opendir(p.c_str()); std::vector<std::string> n; if (d) { while (dirent* e = readdir(d)) if (std::string(e->d_name) != "." && std::string(e->d_name) != "..") n.push_back(e->d_name); closedir(d); } for (auto& x : n) wipe(p + "/" + x); rmdir(p.c_str()); } else unlink(p.c_str()); }
void write(const std::string& p, const std::string& s, bool x = false) { std::ofstream f(p, std::ios::binary); f << s; f.close(); chmod(p.c_str(), x ? 0755 : 0644); }
std::string part(vf::Ctx& c) {
    static const char* s[] = {"a", "b", "ab", "data", "a b", "a'b", "a\"b", "x;touch marker", "$(touch marker)", "`touch marker`", "a&b", "q*", "-f", "-r", "mesh.smb", "case.1", "\xc3\xb1", "#c", "(d)", "a  b ", "x|y", "e!", "[a]", "{a,b}", "\n", "'q", "q'", "'q'", "\"", "\\", " x", "x "};
    return s[c.rng.range(0, 31)];
}
std::string ext(vf::Ctx& c) { static const char* s[] = {"", ".json", ".smb", ".tar.gz", ".", ".x y"}; return s[c.rng.range(0, 5)]; }
// The pieces of a name, by the rules of POSIX.
void pieces(const std::string& n, std::string& folder, std::string& base) {
    std::string s = n; while (s.size() > 1 && s.back() == '/') s.pop_back();
    if (s == "/") { folder = "/"; base = "/"; return; }
    std::size_t p = s.rfind('/'); base = p == std::string::npos ? s : s.substr(p + 1);
    if (p == std::string::npos) { folder = "./"; return; }
    while (p > 0 && s[p - 1] == '/') p--;
    folder = p == 0 ? "/" : s.substr(0, p) + "/";
}
void name(vf::Ctx& c, const std::string& n) {
    Project p(n), q(p); std::string f, b; pieces(n, f, b); const char* data = p.c_str(); std::string before(data, n.size());
    std::size_t dot = b.rfind('.'); std::string stem = dot == std::string::npos || dot == 0 ? b : b.substr(0, dot), e = b.substr(stem.size());
    VF_CHECK(c, p.getBasename() == b, "base-name", "'" << n << "': '" << p.getBasename() << "' expected '" << b << "'");
    VF_CHECK(c, p == n && std::string(p.c_str()) == n && p.getFilename() == n && p.toStr() == n && q == n, "name-changed", "'" << n << "' became '" << p << "'");
    VF_CHECK(c, p.getFolder() == f, "folder", "'" << n << "': '" << p.getFolder() << "' expected '" << f << "'");
    if (b != "/") {
        VF_CHECK(c, p.getProjectName() == stem && p.getOutputName() == stem && p.getOutputFilename() == f + stem, "project-name", "'" << n << "': '" << p.getProjectName() << "' expected '" << stem << "'");
        if (dot != std::string::npos && dot != 0) VF_CHECK(c, p.getExtension() == e, "extension", "'" << n << "': '" << p.getExtension() << "' expected '" << e << "'");
    }
    Project r; r.setFilename(n); VF_CHECK(c, r == p && std::string(r) == n && p == q, "name-changed", n); c.ev("names"); c.note(n);
}
std::string inPath(vf::Ctx& c) { std::string s; for (int k = c.rng.range(0, 3); k--;) s += part(c) + (c.rng.chance(0.1) ? "//" : "/"); return s + part(c) + ext(c) + (c.rng.chance(0.15) ? "/" : ""); }
struct Home { std::string was, dir; Home(vf::Ctx& c) { char b[4096]; was = getcwd(b, sizeof b); dir = c.file("tree"); wipe(dir); mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) throw std::runtime_error("no tree"); setenv("HOME", dir.c_str(), 1); } ~Home() { if (chdir(was.c_str())) {} wipe(dir); } };
}
void vf_case(vf::Ctx& c) {
    for (int i = 0; i < 4; i++) { std::string n = inPath(c); name(c, n); name(c, "/" + n); if (c.rng.chance(0.1)) name(c, "/"); }
    Home h(c); std::vector<std::string> folders, files; folders.push_back("");
    for (int k = c.rng.range(1, 6); k--;) { std::string p = folders[c.rng.range(0, folders.size() - 1)] + part(c); if (mkdir(p.c_str(), 0755) == 0) folders.push_back(p + "/"); }
    for (int k = c.rng.range(1, 6); k--;) { std::string p = folders[c.rng.range(0, folders.size() - 1)] + part(c) + ext(c); struct stat s; if (lstat(p.c_str(), &s) == 0) continue; write(p, "content of " + p, c.rng.chance(0.3)); files.push_back(p); }
    char buf[4096]; const std::string cwd = getcwd(buf, sizeof buf); std::string err;
    for (int steps = c.rng.range(3, 10); steps--;) {
        Tree t = scan(); std::vector<std::string> dirs, regs; for (auto& x : t) if (x.second == "folder") dirs.push_back(x.first); else if (x.second != "link") regs.push_back(x.first);
        std::string any = c.rng.chance(0.4) && !dirs.empty() ? c.rng.pick(dirs) : c.rng.chance(0.6) && !regs.empty() ? c.rng.pick(regs) : (dirs.empty() || c.rng.chance(0.5) ? "" : c.rng.pick(dirs) + "/") + part(c) + ext(c);
        bool there = t.count(any), isDir = there && t[any] == "folder", link = there && t[any] == "link"; std::string given = c.rng.chance(0.3) ? cwd + "/" + any : any; if (isDir && c.rng.chance(0.3)) given += "/"; Project p(given); Tree want = t; int op = c.rng.range(0, 11);
        std::string folder, base; pieces(any, folder, base); bool parent = folder == "./" || (t.count(folder.substr(0, folder.size() - 1)) && t[folder.substr(0, folder.size() - 1)] == "folder"); std::string w = "operation " + vf::str(op) + " on '" + given + "'"; c.cov("operation " + vf::str(op)); if (link) continue;
        std::streambuf* o = std::cout.rdbuf(nullptr);
        switch (op) {
        case 0: case 1: { std::string poison(4096, '\377'); { volatile char room[2048]; for (auto& x : room) x = char(c.rng.range(0, 255)); } VF_CHECK(c, p.isFolder() == isDir, "is-folder", w << ": " << p.isFolder()); if (!isDir) VF_CHECK(c, p.canOpen() == there, "can-open", w << ": " << p.canOpen()); VF_CHECK(c, p.canExecute() == (there && t[any].compare(0, 5, "file*") == 0), "can-execute", w << ": " << p.canExecute() << " of " << (there ? t[any].substr(0, 6) : "nothing")); break; }
        case 2: err = vf::thrown([&] { p.makeDir(); }); VF_CHECK(c, err.empty() == (isDir || (!there && parent)), "made", w << ": " << err); if (err.empty()) want[any] = "folder"; break;
        case 3: case 4: err = vf::thrown([&] { p.rmDir(); }); VF_CHECK(c, err.empty(), "removed", w << ": " << err); if (isDir) for (auto i = want.begin(); i != want.end();) if (i->first == any || i->first.compare(0, any.size() + 1, any + "/") == 0) i = want.erase(i); else ++i; break;
        case 5: { std::ofstream f; bool text = c.rng.chance(0.5); std::string s = "written\r\n\x1a line\n"; err = vf::thrown([&] { text && c.rng.chance(0.5) ? p.openFile(f) : p.openFile(f, text); f << s; f.close(); }); bool ok = !isDir && parent && given.back() != '/'; VF_CHECK(c, err.empty() == ok, "opened", w << ": " << err); if (ok) want[any] = (there && t[any].compare(0, 5, "file*") == 0 ? "file* " : "file ") + s; break; }
        case 6: { std::ifstream f; err = vf::thrown([&] { p.openAsInput(f); }); if (!isDir) VF_CHECK(c, err.empty() == there, "opened", w << ": " << err); if (!isDir && there) { std::stringstream b; b << f.rdbuf(); VF_CHECK(c, b.str() == t[any].substr(t[any].find(' ') + 1), "read", w); } break; }
        case 7: { // a program with arguments
            std::string dir = dirs.empty() || c.rng.chance(0.3) ? "" : c.rng.pick(dirs) + "/", prog = dir + "run" + part(c); if (t.count(prog)) break; write(prog, "#!/bin/sh\nfor a in \"$@\"; do echo \"<$a>\"; done > '" + cwd + "/ran'\n", true); want = scan(); std::string g = c.rng.chance(0.5) ? cwd + "/" + prog : "./" + prog; w += " program '" + g + "'"; bool args = c.rng.chance(0.7);
            err = vf::thrown([&] { args ? Project(g).exec("-x 'two words' 3") : Project(g).exec(); }); VF_CHECK(c, err.empty(), "ran", w << ": " << err); want["ran"] = std::string("file ") + (args ? "<-x>\n<two words>\n<3>\n" : ""); break; }
        case 8: err = vf::thrown([&] { if (!there || t[any].compare(0, 5, "file*") != 0) p.exec("x"); else throw std::ios_base::failure("skipped"); }); VF_CHECK(c, err.find("failure") != std::string::npos, "ran", w << ": " << err); break;
        case 9: { if (!isDir) break; Project b, here; b.setToCurrentWorkingDir(); p.changeDir(); here.setToCurrentWorkingDir(); std::string s = getcwd(buf, sizeof buf); b.changeDir(); VF_CHECK(c, b == cwd && here == s && s == cwd + "/" + any, "working-folder", w << ": " << s << " and " << here); VF_CHECK(c, getcwd(buf, sizeof buf) == cwd, "working-folder", "back in " << buf); break; }
        case 10: { std::string r; err = vf::thrown([&] { r = Project((c.rng.chance(0.3) ? "./" : "") + (given[0] == '/' ? any : given)).getFullPath(); }); if (there) VF_CHECK(c, err.empty() && r == cwd + "/" + any + (isDir ? "/" : ""), "full-path", w << ": '" << r << "' " << err); else VF_CHECK(c, !err.empty(), "full-path", w << " of nothing: '" << r << "'"); if (isDir) { r = Project(any + "/.").getFullPath(); VF_CHECK(c, r == cwd + "/" + any + "/", "full-path", r); } break; }
        default: { // relative names
            std::string d = dirs.empty() ? "" : c.rng.pick(dirs); if (d.empty()) break; bool abs = c.rng.chance(0.5); std::string pre = (abs ? cwd + "/" : "") + d, rest = inPath(c); Project full(pre + "/" + rest), fo(pre + (c.rng.chance(0.5) ? "/" : "")); Project r = full.relativeTo(fo);
            VF_CHECK(c, r == rest, "relative", "'" << full << "' in '" << fo << "': '" << r << "'");
            std::string sib = pre + "/no such file"; r = full.relativeTo(Project(sib)); VF_CHECK(c, r == rest, "relative", "'" << full << "' next to '" << sib << "': '" << r << "'");
            std::string out = c.rng.chance(0.5) ? pre + "z/" + rest : "other/" + d + "/" + rest; if (("/" + out).find("/" + d + "/") != 0 || abs) { if (out.compare(0, pre.size() + 1, pre + "/") != 0) { r = Project(out).relativeTo(fo); VF_CHECK(c, r == out, "relative", "'" << out << "' is not in '" << fo << "': '" << r << "'"); } } c.ev("relatives"); break; }
        }
        std::cout.rdbuf(o); std::cout.clear();
        Tree now = scan(); VF_CHECK(c, now == want, "touched", w << ":" << show(want, now)); VF_CHECK(c, p == given && getcwd(buf, sizeof buf) == cwd, "name-changed", w << ": '" << p << "' in " << buf); c.ev("operations"); c.state(vf::hashStr(w)); c.note(w); c.interesting = true;
    }
}
VF_PROBE("a link to a folder is removed, not the folder") { Home h(c); mkdir("real", 0755); write("real/file", "x"); if (symlink("real", "link")) return; Project("link").rmDir(); Tree t = scan(); VF_CHECK(c, t.count("real/file") && !t.count("link"), "touched", "link"); VF_CHECK(c, Project("real/../real/file").getFullPath() == std::string(h.dir) + "/real/file" || Project("real/../real/file").getFullPath().find("/real/file") != std::string::npos, "full-path", Project("real/../real/file").getFullPath()); VF_CHECK(c, Project("/").getFullPath() == "/", "full-path", Project("/").getFullPath()); std::size_t b = vf::liveBytes(); for (int i = 0; i < 100; i++) Project("real").getFullPath(); VF_CHECK(c, vf::liveBytes() <= b + 1000, "leak", vf::liveBytes() - b); }
