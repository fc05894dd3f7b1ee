// C27: command lines are written from the arguments they should give; a parser used over and over must give them back.
#include "vf.h"
#include "argument/Parser.h"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
using namespace SEMBA;
namespace A = SEMBA::Argument;
typedef std::list<std::string> Texts;
namespace {
enum Kind { SWITCH, COUNT, OPTION, MULTI, POSITION, MULTIPOS };
struct Arg { Kind kind; std::string name, lo, help; char sh = 0; int type = 0, group = 0; bool required = false, hasDef = false, flag = false; std::size_t count = 0; Texts def; std::vector<Texts> choices; };
struct Grp { int parent = -1; bool me = false, required = false; std::string name, desc; A::Group* g = nullptr; A::MEGroup* m = nullptr; };
bool positional(const Arg& a) { return a.kind >= POSITION; }
bool valued(const Arg& a) { return a.kind >= OPTION; }
std::string key(const Arg& a) { return a.sh ? std::string(1, a.sh) : a.lo; }
int width(int t) { return t == 3 || t == 4 ? 2 : 1; }
struct Spec { std::vector<Arg> args; std::vector<Grp> groups; std::string prefix, prog; bool abbrev; };
const char* words[] = {"step", "steps", "stepsize", "final", "finalTime", "fine", "flush", "output", "out", "mode", "model", "grid", "gridstep", "verbose", "version", "zz", "help", "helper"};
std::string intText(vf::Ctx& c) { return vf::str(c.rng.range(-99, 99)); }
std::string realText(vf::Ctx& c) { return vf::str(c.rng.range(-400, 400) / 8.0); }
std::string strText(vf::Ctx& c) { static const char* s[] = {"file", "a b", "x=1", "Relaxed", "/tmp/x", "p.json", "5", "-", "-7", "\xc3\xa9", "w", "a=b=c"}; return s[c.rng.range(0, 11)]; }
Texts value(vf::Ctx& c, int t) { switch (t) { case 0: return {intText(c)}; case 1: return {realText(c)}; case 2: return {strText(c)}; case 3: return {intText(c), intText(c)}; case 4: return {strText(c), realText(c)}; default: { Texts l; for (int n = c.rng.range(1, 4); n--;) l.push_back(realText(c)); return l; } } }
template <template <class...> class O, class... X> A::Argument* one(int t, X... x) {
    switch (t) { case 0: return new O<int>(x...); case 1: return new O<double>(x...); case 2: return new O<std::string>(x...); case 3: return new O<int, int>(x...); case 4: return new O<std::string, double>(x...); default: return new O<std::vector<double>>(x...); }
}
template <template <class...> class O> A::Argument* byId(const Arg& a) { if (a.sh && !a.lo.empty()) return a.name == a.lo ? one<O>(a.type, a.sh, a.lo) : one<O>(a.type, a.name, a.sh, a.lo); if (a.sh) return one<O>(a.type, a.name, a.sh); return a.name == a.lo ? one<O>(a.type, a.lo) : one<O>(a.type, a.name, a.lo); }
template <class S> S* sw(const Arg& a) { if (a.sh && !a.lo.empty()) return a.name == a.lo ? new S(a.sh, a.lo) : new S(a.name, a.sh, a.lo); if (a.sh) return new S(a.name, a.sh); return a.name == a.lo ? new S(a.lo) : new S(a.name, a.lo); }
template <class T> A::Argument* twin(A::Argument* a) { if (T* t = dynamic_cast<T*>(a)) { A::Argument* r = new T(*t); delete a; return r; } return a; }
A::Argument* make(vf::Ctx& c, const Arg& a) {
    A::Argument* r = nullptr;
    switch (a.kind) {
    case SWITCH: { A::Switch* s = sw<A::Switch>(a); if (a.hasDef) s->defaultVal(a.flag); r = s; break; }
    case COUNT: { A::MultiSwitch* s = sw<A::MultiSwitch>(a); if (a.hasDef) s->defaultVal(a.count); r = s; break; }
    case OPTION: r = byId<A::Option>(a); break;
    case MULTI: r = byId<A::MultiOption>(a); break;
    case POSITION: r = one<A::Position>(a.type, a.name); break;
    default: r = one<A::MultiPosition>(a.type, a.name);
    }
    if (a.required) r->required();
    r->help(a.help); if (valued(a)) { if (a.hasDef) r->defaultVal(a.def); if (!a.choices.empty()) r->choices(a.choices); }
    if (c.rng.chance(0.15)) { r = twin<A::Switch>(r); r = twin<A::MultiSwitch>(r); r = twin<A::Option<int>>(r); r = twin<A::MultiOption<std::string>>(r); r = twin<A::Position<int>>(r); r = twin<A::MultiPosition<double>>(r); }
    return r;
}
void add(A::Group* g, A::MEGroup* m, A::Argument* a, bool pos) { A::GroupBase* b = g ? static_cast<A::GroupBase*>(g) : m; if (pos) b->addPosition(dynamic_cast<A::PositionBase*>(a)); else b->addOption(dynamic_cast<A::OptionBase*>(a)); }
Spec spec(vf::Ctx& c) {
    Spec s; s.prefix = c.rng.chance(0.8) ? "-" : "-+"; s.prog = c.rng.chance(0.5) ? "semba" : "a.out"; s.abbrev = c.rng.chance(0.8); s.groups.push_back(Grp());
    for (int n = c.rng.range(0, 4); n--;) { Grp g; do g.parent = c.rng.range(0, s.groups.size() - 1); while (s.groups[g.parent].me); g.me = c.rng.chance(0.5); g.required = g.me && c.rng.chance(0.3); g.name = "group" + vf::str(s.groups.size()); if (!g.me && c.rng.chance(0.5)) g.desc = "about the group " + g.name; s.groups.push_back(g); }
    std::set<std::string> used; std::set<char> shorts; bool last = false;
    for (int n = c.rng.range(1, 9), i = 0; i < n; i++) {
        Arg a; a.kind = Kind(c.rng.range(0, 5)); if (a.kind == MULTIPOS && c.rng.chance(0.5)) a.kind = POSITION; a.group = c.rng.range(0, s.groups.size() - 1); bool me = s.groups[a.group].me; a.type = c.rng.range(0, 5);
        if (positional(a) && (me || last)) continue;
        if (positional(a)) { a.name = "pos" + vf::str(i); if (a.type == 5) last = true; }
        else { if (c.rng.chance(0.6)) { a.sh = "abcdefgxyzABV"[c.rng.range(0, 12)]; if (!shorts.insert(a.sh).second) continue; } if (!a.sh || c.rng.chance(0.6)) { a.lo = words[c.rng.range(0, 17)]; if (!used.insert(a.lo).second) { if (a.sh) shorts.erase(a.sh); continue; } } a.name = !a.lo.empty() && c.rng.chance(0.5) ? a.lo : "name " + vf::str(i); }
        if (!me) { a.required = c.rng.chance(0.2); a.hasDef = c.rng.chance(0.4); } if (positional(a)) a.required = true;
        a.flag = c.rng.chance(0.5); a.count = c.rng.range(0, 3);
        if (valued(a) && a.type != 5 && c.rng.chance(0.25)) { for (int k = c.rng.range(1, 3); k--;) a.choices.push_back(value(c, a.type)); if (width(a.type) == 2 && c.rng.chance(0.5)) a.choices.back().front() = "*"; if (c.rng.chance(0.3)) { Texts t = a.choices.back(); if (t.size() < 2 || c.rng.chance(0.5)) t.push_back("more"); else t.pop_back(); a.choices.insert(a.choices.begin() + c.rng.range(0, a.choices.size()), t); } }
        if (a.hasDef && valued(a)) a.def = value(c, a.type);
        static const char* helps[] = {"", "what it does", "one of ${CHOICES} or ${DEFAULT} for ${PROG} and ${PROG} again", "${DEFAULT}", "${CHOICES}!", "this is quite a long explanation of an argument that hardly fits in a line of the console, which is ${DEFAULT} by default, and ends here"};
        a.help = helps[c.rng.range(0, 5)];
        s.args.push_back(a);
    }
    return s;
}
// Builds the parser; in between, arguments that clash are refused and leave no trace.
void build(vf::Ctx& c, A::Parser& p, Spec& s) {
    p.prog(s.prog).prefixChars(s.prefix).allowAbbrev(s.abbrev).description("a program called ${PROG}").epilog("bye from ${PROG}");
    s.groups[0].g = &p;
    for (std::size_t i = 1; i < s.groups.size(); i++) { Grp& g = s.groups[i]; A::Group& up = *s.groups[g.parent].g; if (g.me) { g.m = &up.addMutuallyExclusiveGroup(); if (g.required) g.m->required(); VF_CHECK(c, g.m->isMutuallyExclusive() && g.m->isRequired() == g.required, "group", g.name); } else { g.g = &up.addGroup(g.name, g.desc); VF_CHECK(c, !vf::thrown([&] { up.addGroup(g.name); }).empty(), "repeated", "group " << g.name); g.g->required(); VF_CHECK(c, !g.g->isRequired() && g.g->getName() == g.name && g.g->getDescription() == g.desc, "group", g.name); } }
    for (std::size_t i = 0; i < s.args.size(); i++) {
        const Arg& a = s.args[i]; Grp& g = s.groups[a.group]; add(g.g, g.m, make(c, a), positional(a));
        if (c.rng.chance(0.25)) {   // clashes: same name in the same group, same identifier anywhere
            Arg b = s.args[c.rng.range(0, i)]; Grp& h = s.groups[b.group]; std::string e;
            if (positional(b) || c.rng.chance(0.4)) { Arg d = b; bool pos = c.rng.chance(0.5); if (pos) d.kind = POSITION; else { d.kind = SWITCH; d.sh = 0; d.lo = "other" + vf::str(i) + "q"; d.lo[5] = 'w'; } d.hasDef = false; d.choices.clear(); A::Argument* x = make(c, d); e = vf::thrown([&] { add(h.g, h.m, x, pos); }); }
            else { Arg d; d.kind = OPTION; d.type = 0; d.name = "new"; if (b.sh && (b.lo.empty() || c.rng.chance(0.5))) { d.sh = b.sh; d.lo = "fresh"; } else { d.lo = b.lo; d.sh = 'q'; } d.required = true; std::size_t k = 0; do k = c.rng.range(0, s.groups.size() - 1); while (s.groups[k].me); A::Argument* x = make(c, d); e = vf::thrown([&] { add(s.groups[k].g, s.groups[k].m, x, false); }); }
            VF_CHECK(c, e.find("Repeated") != std::string::npos, "repeated", "clash with " << b.name << ": " << e); c.ev("clashes"); c.cov("clash");
        }
    }
    VF_CHECK(c, !vf::thrown([&] { p.addOption(nullptr); }).empty() && !vf::thrown([&] { p.addPosition(nullptr); }).empty(), "null", "");
    for (std::size_t g = 0; g < s.groups.size(); g++) { A::GroupBase* b = s.groups[g].g ? static_cast<A::GroupBase*>(s.groups[g].g) : s.groups[g].m; std::size_t np = 0, no = 0, nc = 0; for (auto& a : s.args) if (a.group == int(g)) { if (positional(a)) { VF_CHECK(c, b->position(np).getName() == a.name && static_cast<const A::Argument&>(b->position(np)).getRequired() == a.required, "argument", a.name << " " << b->position(np).getName() << static_cast<const A::Argument&>(b->position(np)).getRequired() << a.required); np++; } else { const A::OptionBase& o = b->option(no); const A::Argument& g2 = o; VF_CHECK(c, o.getName() == a.name && o.hasShortIdentifier() == (a.sh != 0) && (!a.sh || o.getShortIdentifier() == a.sh) && o.hasLongIdentifier() == !a.lo.empty() && o.getLongIdentifier() == a.lo && g2.getRequired() == a.required && g2.getHelp() == a.help && g2.getChoices() == a.choices && g2.getDefault() == a.def, "argument", a.name); no++; } } for (auto& h : s.groups) nc += h.parent == int(g); VF_CHECK(c, b->numPositions() == np && b->numOptions() == no && b->numChilds() == nc, "members", g); }
}
std::string join(const Texts& l) { std::string s; for (auto& x : l) s += (s.empty() ? "" : " ") + x; return s; }
std::string squeeze(const std::string& s) { std::stringstream i(s); std::string w, r; while (i >> w) r += (r.empty() ? "" : " ") + w; return r; }
std::string all(std::string s, const std::string& a, const std::string& b) { for (std::size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b); return s; }
std::string usage(const Spec& s, int g) {
    std::vector<std::string> parts; bool me = s.groups[g].me;
    auto up = [](std::string n) { for (auto& ch : n) ch = toupper(ch); return n; };
    for (auto& a : s.args) if (a.group == g && positional(a)) parts.push_back(up(a.name) + (a.kind == MULTIPOS ? " [" + up(a.name) + " ...]" : ""));
    for (auto& a : s.args) if (a.group == g && !positional(a)) { std::string id = a.sh ? std::string("-") + a.sh : "--" + a.lo, r = id; if (a.kind == COUNT) r += " [" + id + " ...]"; if (valued(a)) { r += " " + up(a.name); if (a.kind == MULTI) r += " [" + up(a.name) + " ...]"; } parts.push_back(a.required || me ? r : "[" + r + "]"); }
    for (std::size_t h = 1; h < s.groups.size(); h++) if (s.groups[h].parent == g) { std::string r = usage(s, h); if (!r.empty()) parts.push_back(r); }
    std::string r; for (auto& x : parts) r += (r.empty() ? "" : me ? " | " : " ") + x;
    return me ? (s.groups[g].required ? "(" + r + ")" : "[" + r + "]") : r;
}
struct Quiet { std::stringstream o, e; std::streambuf *a, *b; Quiet() { a = std::cout.rdbuf(o.rdbuf()); b = std::cerr.rdbuf(e.rdbuf()); } ~Quiet() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
void help(vf::Ctx& c, A::Parser& p, const Spec& s) {
    std::string u, h; { Quiet q; p.printUsage(); u = q.o.str(); } { Quiet q; p.printHelp(); h = q.o.str(); }
    std::string x = squeeze("usage: " + s.prog + " " + usage(s, 0));
    VF_CHECK(c, squeeze(u) == x, "usage", squeeze(u) << " expected " << x);
    std::stringstream lines(u); std::string l; while (std::getline(lines, l)) { std::stringstream t(l); std::string w; int n = 0; while (t >> w) n++; VF_CHECK(c, l.size() <= 81 || n == 1, "wrapped", l); }
    std::string hs = squeeze(h); VF_CHECK(c, hs.find(x) == 0 && hs.find("a program called " + s.prog) != std::string::npos && hs.find("bye from " + s.prog) != std::string::npos, "help", hs);
    for (auto& a : s.args) { std::string t, ch; for (auto& l : a.choices) ch += (ch.empty() ? "" : ", ") + join(l); t = squeeze(all(all(all(a.help, "${PROG}", s.prog), "${DEFAULT}", valued(a) ? join(a.def) : ""), "${CHOICES}", ch)); VF_CHECK(c, hs.find(t) != std::string::npos, "help-of-argument", "'" << t << "' is not in '" << hs << "'"); c.ev("helps"); }
    for (std::string mark : {"what it does", " by default, and ends here", " again", "!"}) { std::size_t want = 0, got = 0; auto count = [&](const std::string& t) { std::size_t n = 0; for (std::size_t at = 0; (at = t.find(mark, at)) != std::string::npos; at++) n++; return n; }; for (auto& a : s.args) want += count(a.help); got = count(hs); VF_CHECK(c, got == want, "help-repeated", "'" << mark << "' appears " << got << " times, expected " << want << " in '" << hs << "'"); }
    for (auto& g : s.groups) VF_CHECK(c, hs.find(squeeze(g.desc)) != std::string::npos && (g.me || hs.find(g.name) != std::string::npos), "help", g.name << " " << g.desc << " is not in " << hs);
    std::size_t exclusive = 0, announced = 0; for (auto& g : s.groups) exclusive += g.me; for (std::size_t at = 0; (at = hs.find("mutually exclusive", at)) != std::string::npos; at++) announced++;
    VF_CHECK(c, announced == exclusive, "help-exclusive", exclusive << " groups of alternatives but " << hs);
}
// What a parsed tree should hold: path of groups + name -> text.
typedef std::map<std::string, std::string> Flat;
std::string flat(const Texts& l) { std::string s; for (auto& x : l) s += "<" + x + ">"; return s; }
void flatten(const A::Object& o, const std::string& at, Flat& f) { for (std::size_t i = 0; i < o.size(); i++) { const A::Object& m = o(i); std::string n = at + "/" + o.getName(i); if (m.isObject()) { f[n] = "group"; flatten(m, n, f); } else if (m.isArray()) { std::string s = "["; for (std::size_t k = 0; k < m.size(); k++) s += flat(m(k).getGenericString()) + ","; f[n] = s + "]"; } else f[n] = m.isNull() ? "null" : flat(m.getGenericString()); } }
std::string path(const Spec& s, int g) { if (g == 0) return ""; std::string up = path(s, s.groups[g].parent); return s.groups[g].me ? up : up + "/" + s.groups[g].name; }
bool fits(const Texts& v, const Arg& a) { if (a.choices.empty()) return true; for (auto& l : a.choices) { bool ok = l.size() == v.size(); auto i = l.begin(); auto j = v.begin(); for (; ok && i != l.end(); ++i, ++j) ok = *i == "*" || *i == *j; if (ok) return true; } return false; }
Texts good(vf::Ctx& c, const Arg& a) { if (a.choices.empty()) return value(c, a.type); Texts t; do t = a.choices[c.rng.range(0, a.choices.size() - 1)]; while (t.size() != width(a.type)); if (t.front() == "*") t.front() = value(c, a.type).front(); return t; }
struct Line { std::vector<std::string> argv; Flat want; std::vector<std::string> unknown; std::set<std::string> errors; std::string text; };
Line line(vf::Ctx& c, const Spec& s) {
    Line r; auto pre = [&] { return s.prefix[c.rng.range(0, s.prefix.size() - 1)]; };
    auto fault = [&] { static const char* f[] = {"", "Multiple", "Incorrect", "NotEnough", "NotChoices", "Required", "Excluded", "Ambiguous", "Surplus", "Strange"}; return std::string(c.rng.chance(0.5) ? "" : f[c.rng.range(0, 9)]); }();
    struct Block { std::vector<std::string> head; std::vector<std::string> tail; bool eats = false; };
    std::vector<Block> blocks; std::map<int, std::vector<Texts>> given;      // by argument, in order
    std::vector<int> order; bool stuck = false; std::map<int, int> meUsed; std::map<int, int> badAt;
    for (std::size_t g = 1; g < s.groups.size(); g++) if (s.groups[g].me) { std::vector<int> mine; for (std::size_t i = 0; i < s.args.size(); i++) if (s.args[i].group == int(g)) mine.push_back(i); c.rng.shuffle(mine); bool must = s.groups[g].required; std::size_t k = mine.empty() ? 0 : fault == "Excluded" && mine.size() > 1 ? 2 : fault == "Required" ? 0 : must || c.rng.chance(0.5) ? 1 : 0; if (k == 2) r.errors.insert("Excluded"); if (k == 0 && must) r.errors.insert("Required"); for (std::size_t i = 0; i < k; i++) meUsed[mine[i]] = 1; }
    std::vector<std::pair<int, Texts>> occ; bool injected = false;
    for (std::size_t i = 0; i < s.args.size(); i++) {
        const Arg& a = s.args[i]; if (positional(a)) continue; bool me = s.groups[a.group].me;
        int n = me ? meUsed.count(i) : a.required ? !(fault == "Required" && !injected && !a.hasDef) : c.rng.chance(0.5); if (!me && a.required && !n) { injected = true; r.errors.insert("Required"); }
        if (n && (a.kind == COUNT || a.kind == MULTI)) n = c.rng.chance(0.05) ? c.rng.range(17, 40) : c.rng.range(1, 3);
        if (n == 1 && fault == "Multiple" && !injected && (a.kind == SWITCH || a.kind == OPTION)) { n = 2; injected = true; r.errors.insert("Multiple"); }
        for (int k = 0; k < n; k++) { Texts v; if (valued(a)) { v = good(c, a); if (!injected && fault == "Incorrect" && a.type != 2 && a.type != 5) { v.back() = "oops"; injected = stuck = true; r.errors.insert("Incorrect"); } else if (!injected && fault == "NotEnough" && a.type != 5) { v.pop_back(); injected = stuck = true; r.errors.insert("NotEnough"); badAt[occ.size()] = 1; } else if (!injected && fault == "NotChoices" && !a.choices.empty()) { for (int t = 0; t < 20; t++) { Texts w = value(c, a.type); if (!fits(w, a)) { v = w; injected = true; r.errors.insert("NotChoices"); break; } } } }
            occ.push_back({int(i), v}); }
    }
    std::vector<int> perm; for (std::size_t i = 0; i < occ.size(); i++) perm.push_back(i); c.rng.shuffle(perm);
    auto longForm = [&](const Arg& a) { std::string id = a.lo; if (s.abbrev && c.rng.chance(0.4)) { for (std::size_t n = 2; n < a.lo.size(); n++) { std::string cut = a.lo.substr(0, n); int hits = 0; for (auto& b : s.args) if (!positional(b) && b.lo.compare(0, n, cut) == 0) hits++; if (hits == 1 && c.rng.chance(0.6)) { id = cut; c.cov("abbreviated"); break; } } } char p = pre(); return std::string(2, p) + id; };
    for (std::size_t q = 0; q < perm.size(); q++) {
        Block b; const Arg* a = &s.args[occ[perm[q]].first]; std::vector<int> members(1, perm[q]);
        if (a->sh && (a->lo.empty() || c.rng.chance(0.5))) {      // a cluster of short ones; only the last takes values
            std::string t = std::string(1, pre()) + a->sh;
            while (!valued(*a) && q + 1 < perm.size() && s.args[occ[perm[q + 1]].first].sh && c.rng.chance(perm.size() > 20 ? 0.97 : 0.5)) { q++; a = &s.args[occ[perm[q]].first]; t += a->sh; members.push_back(perm[q]); c.cov("cluster"); }
            Texts v = occ[perm[q]].second; if (!v.empty() && c.rng.chance(0.3) && v.front().find_first_not_of("-0123456789.") == std::string::npos) { t += v.front(); v.pop_front(); c.cov("attached"); }
            b.head.push_back(t); b.head.insert(b.head.end(), v.begin(), v.end());
        } else {
            std::string t = longForm(*a); Texts v = occ[perm[q]].second;
            if (valued(*a) && !v.empty() && c.rng.chance(0.4)) { t += "=" + v.front(); v.pop_front(); c.cov("equals"); }
            b.head.push_back(t); b.head.insert(b.head.end(), v.begin(), v.end());
        }
        if (b.head.size() == 3 && valued(*a) && a->type == 3 && c.rng.chance(0.2)) { b.head[1] += " " + b.head[2]; b.head.pop_back(); c.cov("quoted pair"); }
        b.eats = (valued(*a) && a->type == 5) || (stuck && badAt.count(perm[q]));
        for (int m : members) given[occ[m].first].push_back(occ[m].second);
        blocks.push_back(b);
    }
    // Options nobody knows, with what follows them.
    bool room = !stuck;
    if (c.rng.chance(0.2)) { Block b; if (c.rng.chance(0.5)) { b.head = {"--quux"}; r.unknown.push_back("--quux"); if (c.rng.chance(0.5)) { b.head[0] += "=v1"; r.unknown.push_back("v1"); } } else { b.head = {"-Q"}; r.unknown.push_back("-Q"); } if (c.rng.chance(0.5)) { b.head.push_back("v2"); r.unknown.push_back("v2"); } b.eats = true; blocks.insert(blocks.begin() + c.rng.range(0, blocks.size()), b); c.cov("unknown"); }
    if (fault == "Ambiguous" && s.abbrev) { std::vector<std::string> cuts; for (auto& a : s.args) if (!positional(a)) for (std::size_t n = 2; n < a.lo.size(); n++) { std::string cut = a.lo.substr(0, n); int hits = 0, exact = 0; for (auto& b : s.args) if (!positional(b)) { hits += b.lo.compare(0, n, cut) == 0; exact += b.lo == cut; } if (hits > 1 && !exact) cuts.push_back(cut); } if (!cuts.empty()) { Block b; b.head = {"--" + c.rng.pick(cuts)}; blocks.push_back(b); r.errors.insert("Ambiguous"); } }
    // Positional values for the positions in order, and perhaps some too many.
    std::vector<std::string> tokens; std::map<std::size_t, std::pair<int, std::size_t>> texts; bool stop = false;
    for (std::size_t i = 0; i < s.args.size(); i++) {
        const Arg& a = s.args[i]; if (!positional(a)) continue;
        if (!stop && a.hasDef && c.rng.chance(0.25)) stop = true;
        if (!stop && a.required && fault == "Required" && c.rng.chance(0.5)) stop = true;
        if (stop) { if (a.required && !a.hasDef) r.errors.insert("Required"); continue; }
        Texts v = good(c, a); if (!injected && fault == "Incorrect" && a.type != 2 && a.type != 5) { v.back() = "oops"; injected = true; r.errors.insert("Incorrect"); }
        else if (!injected && fault == "NotEnough" && a.type != 5 && v.size() == 2) { v.pop_back(); injected = stop = true; r.errors.insert("NotEnough"); for (auto& x : v) tokens.push_back(x); for (std::size_t j = i + 1; j < s.args.size(); j++) (void)j; break; }
        given[i].push_back(v); if (a.type == 2 && v.size() == 1 && a.choices.empty() && v.back() != "oops") texts[tokens.size()] = {int(i), given[i].size() - 1}; tokens.insert(tokens.end(), v.begin(), v.end());
        if (a.type == 5) stop = true;
    }
    if ((!stop || std::none_of(s.args.begin(), s.args.end(), positional)) && (fault == "Surplus" || c.rng.chance(0.05))) { std::size_t n = c.rng.range(1, 3); r.unknown.push_back("--"); for (std::size_t i = 0; i < n; i++) { tokens.push_back("more" + vf::str(i)); r.unknown.push_back(tokens.back()); } c.cov("surplus"); }
    // Spread them: before the options, after some of them, after the separator.
    std::size_t at = 0, beg = blocks.empty() && c.rng.chance(0.8) ? tokens.size() : c.rng.range(0, tokens.size()); bool sep = c.rng.chance(0.3); std::vector<std::string>& v = r.argv;
    v.push_back(c.rng.chance(0.3) ? "/usr/local/bin/" + s.prog : s.prog);
    while (at < beg) v.push_back(tokens[at++]);
    for (auto& b : blocks) { v.insert(v.end(), b.head.begin(), b.head.end()); if (!b.eats && room) for (int n = c.rng.range(0, 2); n-- && at < tokens.size();) { v.push_back(tokens[at++]); c.cov("in between"); } }
    if (at < tokens.size() || sep) { v.push_back(std::string(2, pre())); for (; at < tokens.size(); at++) {
            // After the separator everything is a value, whatever it looks like.
            if (c.rng.chance(0.3)) { static const char* k[] = {"--", "-x", "--out", "--quux=1", "-Q", "--help", "-ab"}; std::string t = k[c.rng.range(0, 6)]; auto f = texts.find(at); auto u = std::find(r.unknown.begin(), r.unknown.end(), tokens[at]);
                if (f != texts.end()) { given[f->second.first][f->second.second] = {t}; tokens[at] = t; c.cov("dashes as value"); } else if (tokens[at].compare(0, 4, "more") == 0 && u != r.unknown.end()) { *u = t; tokens[at] = t; c.cov("dashes as surplus"); } }
            v.push_back(tokens[at]); } c.cov("separator"); }
    if (v.size() == 1) r.errors = {"Empty"};
    for (std::size_t g = 1; g < s.groups.size(); g++) if (!s.groups[g].me) r.want[path(s, g)] = "group";
    for (std::size_t i = 0; i < s.args.size(); i++) {
        const Arg& a = s.args[i]; std::string n = path(s, a.group) + "/" + a.name; bool got = given.count(i); std::size_t k = got ? given[i].size() : 0;
        if (!got && !a.hasDef) continue;
        if (a.kind == SWITCH) r.want[n] = got == !(a.hasDef && a.flag) ? "<1>" : "<0>";
        else if (a.kind == COUNT) r.want[n] = "<" + vf::str((a.hasDef ? a.count : 0) + k) + ">";
        else if (!got) r.want[n] = flat(a.def);
        else if (a.kind == MULTI || a.kind == MULTIPOS) { std::string t = "["; for (auto& x : given[i]) t += flat(x) + ","; r.want[n] = t + "]"; }
        else r.want[n] = flat(given[i][0]);
    }
    for (auto& x : v) r.text += "'" + x + "' ";
    return r;
}
std::string kind(const std::string& e) { for (auto k : {"Multiple", "Incorrect", "NotEnough", "NotChoices", "Required", "Excluded", "Ambiguous", "Unknown", "Empty", "TooMany"}) if (e.find(k) != std::string::npos) return k; return e; }
std::string describe(const Spec& s) { std::string t = "{"; for (std::size_t i = 1; i < s.groups.size(); i++) t += (s.groups[i].me ? "exclusive " : "group ") + vf::str(i) + " in " + vf::str(s.groups[i].parent) + "; "; for (auto& a : s.args) { static const char* k[] = {"switch", "count", "option", "multi", "position", "multiposition"}; t += std::string(k[a.kind]) + ":" + vf::str(a.type) + " " + a.name + " " + (a.sh ? std::string("-") + a.sh : "") + " --" + a.lo + " in " + vf::str(a.group) + (a.required ? " required" : "") + (a.hasDef ? " default " + join(a.def) : "") + "; "; } return t + "}"; }
}
void vf_case(vf::Ctx& c) {
    Spec s = spec(c); std::unique_ptr<A::Parser> p(new A::Parser()); build(c, *p, s); std::string d = describe(s);
    help(c, *p, s);
    for (int n = c.rng.range(1, c.thorough ? 12 : 6); n--;) {
        Line l = line(c, s); bool known = c.rng.chance(0.5); std::vector<std::string> rest; A::Object o; std::string what, out, err;
        std::vector<const char*> argv; for (auto& x : l.argv) argv.push_back(x.c_str());
        if (!known && !l.unknown.empty() && l.errors.empty()) l.errors.insert("Unknown");
        std::string e; { Quiet q; e = vf::thrown([&] { try { int form = c.rng.range(0, 2); if (known) { auto r = form == 0 ? p->parseKnownArgs(l.argv) : form == 1 ? p->parseKnownArgs(argv.size(), argv.data()) : p->args(l.argv).parseKnownArgs(); o = r.first; rest = r.second; } else o = form == 0 ? p->parse(l.argv) : form == 1 ? p->parse(argv.size(), argv.data()) : p->args(l.argv).parse(); } catch (const std::exception& x) { what = x.what(); throw; } }); out = q.o.str(); err = q.e.str(); }
        std::string w = l.text + " for " + d; c.ev("lines"); c.note(l.text);
        if (!l.errors.empty()) {
            VF_CHECK(c, !e.empty(), "accepted", w << " expected " << *l.errors.begin());
            VF_CHECK(c, l.errors.size() > 1 || l.errors.count(kind(e)), "other-error", w << ": " << e << " expected " << *l.errors.begin());
            VF_CHECK(c, !what.empty() && squeeze(out).find("usage: " + s.prog) != std::string::npos, "silent", w << ": " << e << " says '" << what << "' " << out);
            VF_CHECK(c, e.find("Empty") != std::string::npos || err.find(s.prog + ": ") == 0 && err.find(what) != std::string::npos, "not-told", w << ": '" << what << "' is not in '" << err << "'");
            for (auto& x : l.errors) c.cov("error " + x); c.ev("refused");
        } else {
            VF_CHECK(c, e.empty(), "refused", w << ": " << e << " " << what);
            Flat f; flatten(o, "", f);
            for (auto& x : l.want) VF_CHECK(c, f.count(x.first) && f[x.first] == x.second, "value", w << ": " << x.first << " is " << (f.count(x.first) ? f[x.first] : "missing") << " expected " << x.second);
            for (auto& x : f) VF_CHECK(c, l.want.count(x.first), "invented", w << ": " << x.first << " is " << x.second);
            VF_CHECK(c, p->getProg() == s.prog, "program", p->getProg());
            if (known) { std::vector<std::string> x(1, s.prog); x.insert(x.end(), l.unknown.begin(), l.unknown.end()); VF_CHECK(c, rest == x, "unknown", w << ": " << rest.size() - 1 << " unknown '" << (rest.size() > 1 ? rest.back() : "") << "' expected " << x.size() - 1); }
            c.ev("accepted"); c.interesting = true; for (auto& x : f) c.dig(x.first + x.second);
        }
        c.state(vf::hashStr(d + l.text));
    }
}
VF_PROBE("a parser has a description") { A::Parser p; p.description("what it is for").prog("semba"); VF_CHECK(c, p.getDescription() == "what it is for", "help", p.getDescription()); }
VF_PROBE("a positional value wins over its default") { A::Parser p; p.addPosition(new A::Position<std::string>("input")).defaultVal({"none"}); Quiet q; A::Object o = p.parse({"x", "file"}); VF_CHECK(c, o("input").getString() == "file", "value", o("input").getString()); }
