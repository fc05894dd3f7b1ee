// C26: settings are a tree of values; a model of the tree runs along with it.
#include "vf.h"
#include "argument/Object.h"
#include "solver/Info.h"
#include <memory>
using namespace SEMBA;
typedef Argument::Object Obj;
namespace {
enum Kind { Null, Text, Arr, Dict };
struct Node { Kind k = Null; std::list<std::string> t; std::vector<std::pair<std::string, Node>> m; };
Node clean(Kind k) { Node n; n.k = k; return n; }
void setKind(Node& n, Kind k) { if (n.k != k) n = clean(k); }
Node* find(Node& n, const std::string& s) { if (n.k != Dict) return nullptr; for (auto& p : n.m) if (p.first == s) return &p.second; return nullptr; }
const Node* find(const Node& n, const std::string& s) { return find(const_cast<Node&>(n), s); }
Node& put(Node& n, const std::string& s) { setKind(n, Dict); if (Node* p = find(n, s)) return *p; n.m.push_back({s, Node()}); return n.m.back().second; }
bool there(const Node& n, const std::string& s) { const Node* p = find(n, s); return p && p->k != Null; }
Node merge(const Node& a, const Node& b) {
    if (a.k == Null) return b;
    if (b.k == Null) return a;
    if (a.k == Dict && b.k == Dict) {
        Node r = clean(Dict);
        for (auto& p : a.m) r.m.push_back({p.first, there(b, p.first) ? merge(p.second, *find(b, p.first)) : p.second});
        for (auto& p : b.m) { Node* q = find(r, p.first); if (!q) r.m.push_back(p); else if (q->k == Null) *q = p.second; }
        return r;
    }
    if (a.k == Dict) return a;
    return b;
}
const char* names[] = {"a", "b", "c", "finalTime", "x y", "", "\xc3\xb1", "a.b", "Null", "0"};
std::string name(vf::Ctx& c) { return names[c.rng.range(0, c.rng.chance(0.7) ? 3 : 9)]; }
std::string text(vf::Ctx& c) {
    static const char* some[] = {"", "true", "1", "0", "-3", "2.5", "1e3", "hello", "two words", " pad ", "12abc", "\n", "\"q\"", "{", "\xc3\xa9", "1 2", "."};
    if (c.rng.chance(0.6)) return some[c.rng.range(0, 16)];
    std::string s; for (int n = c.rng.range(1, 12); n--;) s += char(c.rng.range(32, 126)); return s;
}
std::string show(const Node& n) {
    if (n.k == Null) return "null";
    if (n.k == Text) { std::string s; for (auto& x : n.t) s += "'" + x + "'"; return s; }
    std::string s = n.k == Arr ? "[" : "{"; for (auto& p : n.m) s += (n.k == Dict ? p.first + ":" : "") + show(p.second) + ","; return s + (n.k == Arr ? "]" : "}");
}
std::string print(const Node& n, int d) {
    std::string s, in(d + 2, ' ');
    if (n.k == Null) return "null";
    if (n.k == Text) { for (auto& x : n.t) s += (s.empty() ? "\"" : " \"") + x + "\""; return s; }
    s = n.k == Arr ? "[\n" : "{\n";
    for (std::size_t i = 0; i < n.m.size(); i++) s += in + (n.k == Dict ? "\"" + n.m[i].first + "\" : " : "") + print(n.m[i].second, d + 2) + (i + 1 < n.m.size() ? ",\n" : "\n");
    return s + std::string(d, ' ') + (n.k == Arr ? "]" : "}");
}
void compare(vf::Ctx& c, const Obj& o, const Node& n, const std::string& w) {
    Obj::Type t = n.k == Null ? Obj::Type::Null : n.k == Text ? Obj::Type::String : n.k == Arr ? Obj::Type::Array : Obj::Type::Dictionary;
    VF_CHECK(c, o.getType() == t && o.isType(t) && o.isNull() == (n.k == Null) && o.isObject() == (n.k == Dict) && o.isArray() == (n.k == Arr) && o.isString() == (n.k == Text), "type", w << ": type " << Obj::getTypeStr(o.getType()) << " of " << show(n));
    VF_CHECK(c, o.size() == n.m.size(), "size", w << ": " << o.size() << " members of " << show(n));
    c.ev("values");
    if (n.k == Text) {
        VF_CHECK(c, o.getGenericString() == n.t, "text", w << ": text of " << show(n));
        std::string s; for (auto it = n.t.begin(); it != n.t.end(); ++it) s += (it == n.t.begin() ? "" : " ") + *it;
        VF_CHECK(c, o.getString() == s, "text", w << ": '" << o.getString() << "' of " << show(n));
    } else {
        VF_CHECK(c, o.getGenericString().empty() && !vf::thrown([&] { o.getReal(); }).empty() && !vf::thrown([&] { o.getBool(); }).empty() && !vf::thrown([&] { o.get<std::string>(); }).empty() && !o.isBool() && !o.isNumber(), "no-text", w << ": " << show(n));
    }
    for (std::size_t i = 0; i < n.m.size(); i++) {
        if (n.k == Dict) {
            const std::string& s = n.m[i].first;
            VF_CHECK(c, o.getName(i) == s, "names", w << ": name " << i << " is '" << o.getName(i) << "' in " << show(n));
            VF_CHECK(c, o.existsName(s) == there(n, s), "exists", w << ": " << s << " in " << show(n));
            VF_CHECK(c, &o(s) == &o(i), "by-name", w << ": " << s << " is not member " << i << " in " << show(n));
        }
        compare(c, o(i), n.m[i].second, w + "/" + (n.k == Dict ? n.m[i].first : vf::str(i)));
    }
    VF_CHECK(c, !vf::thrown([&] { o(n.m.size()); }).empty(), "beyond", w);
    for (auto s : names) if (!find(n, s)) VF_CHECK(c, !o.existsName(s) && !vf::thrown([&] { o(std::string(s)); }).empty(), "missing", w << ": '" << s << "' in " << show(n));
}
double number(vf::Ctx& c) { switch (c.rng.range(0, 5)) { case 0: return c.rng.range(-9, 9); case 1: return c.rng.real(-1, 1); case 2: { double m = c.rng.real(1, 10); return (c.rng.chance(0.5) ? -m : m) * std::pow(10.0, c.rng.range(-300, 300)); } case 3: return c.rng.range(-1000, 1000) / 10.0; case 4: { double v[] = {0.1, 1.0 / 3, 5e-324, 1.7976931348623157e308, 2147483648.0, -2147483649.0, 1e21, -0.0}; return v[c.rng.range(0, 7)]; } default: return std::nextafter(c.rng.range(-100, 100), 1e9); } }
int integer(vf::Ctx& c) { int v[] = {0, 1, -1, 2147483647, -2147483647 - 1, 1000000, -1234567}; return c.rng.chance(0.5) ? v[c.rng.range(0, 6)] : c.rng.range(-100000, 100000); }
Node textNode(const std::list<std::string>& t) { Node n = clean(Text); n.t = t; return n; }
template <class T> std::string asText(const T& v) { std::stringstream s; s << v; return s.str(); }
// Puts a value in and looks at what comes out.
void value(vf::Ctx& c, Obj& o, Node& n) {
    auto real = [&](double v, const std::string& w) { VF_CHECK(c, o.isNumber() && o.isReal() && o.getReal() == v && o.get<double>() == v, "real", w << ": " << vf::str(v) << " is kept as " << o.getString()); double f = std::floor(v); std::string e = vf::thrown([&] { int i = o.getInt(); VF_CHECK(c, i == f, "int-of-real", w << ": " << i << " of " << v); }); VF_CHECK(c, e.empty() == (f >= -2147483648.0 && f <= 2147483647.0), "int-range", w << ": integer of " << vf::str(v) << ": " << e); c.ev("numbers"); };
    switch (c.rng.range(0, 8)) {
    case 0: { bool b = c.rng.chance(0.5); int h = c.rng.range(0, 1); if (h) o.setBool(b); else if (b) o.setTrue(); else o.setFalse(); n = textNode({b ? "1" : "0"}); VF_CHECK(c, o.isBool() && o.getBool() == b && o.get<bool>() == b, "bool", b); break; }
    case 1: { int i = integer(c); c.rng.chance(0.5) ? o.setInt(i) : (o = i); n = textNode({vf::str(i)}); VF_CHECK(c, o.isInt() && o.getInt() == i && o.get<int>() == i, "int", i << " is kept as " << o.getString()); real(i, "integer"); break; }
    case 2: { double v = number(c); c.rng.chance(0.5) ? o.setReal(v) : (o = v); real(v, "real"); n = textNode(o.getGenericString()); VF_CHECK(c, n.t.size() == 1, "real", n.t.size() << " texts"); break; }
    case 3: { std::string s = text(c); o.setString(s); n = textNode({s}); if (!s.empty()) VF_CHECK(c, o.get<std::string>() == s, "string", "'" << s << "' is read '" << o.get<std::string>() << "'"); break; }
    case 4: { std::list<std::string> l; for (int k = c.rng.range(0, 4); k--;) l.push_back(text(c)); o.setGenericString(l); n = textNode(l); break; }
    case 5: { int i = integer(c); std::string s = text(c) + "t"; o.set(i, s); n = textNode({vf::str(i), s}); auto p = o.get<int, std::string>(); VF_CHECK(c, p.first == i && p.second == s, "pair", i << "," << s << " is read " << p.first << "," << p.second); break; }
    case 6: { double a = number(c), b = number(c), d = number(c); o.set(a, b, d); auto p = o.get<double, double, double>(); VF_CHECK(c, std::get<0>(p) == a && std::get<1>(p) == b && std::get<2>(p) == d, "triple", vf::str(a) << "," << vf::str(b) << "," << vf::str(d) << " is kept as " << o.getString()); VF_CHECK(c, !vf::thrown([&] { o.get<double, double>(); }).empty() && !vf::thrown([&] { o.get<double>(); }).empty(), "too-many", o.getString()); n = textNode(o.getGenericString()); VF_CHECK(c, n.t.size() == 3, "triple", n.t.size()); break; }
    default: {  // numbers, however they are grouped into texts
        std::vector<double> v; std::list<std::string> l; int k = c.rng.range(1, 6); std::string part; bool ints = c.rng.chance(0.5);
        for (int i = 0; i < k; i++) { double x = ints ? integer(c) % 100 : c.rng.range(-50, 50) / 8.0; v.push_back(x); if (!part.empty() || c.rng.chance(0.1)) part += c.rng.chance(0.2) ? "   " : " "; part += vf::str(x); if (i + 1 == k || c.rng.chance(0.5)) { if (c.rng.chance(0.1)) part += " "; l.push_back(part); part.clear(); } }
        o.setGenericString(l); n = textNode(l);
        std::vector<double> r; std::string e = vf::thrown([&] { r = o.get<std::vector<double>>(); });
        VF_CHECK(c, e.empty() && r == v, "list", show(n) << " is read as " << r.size() << " numbers " << e);
        if (k == 2) { std::pair<double, double> p; e = vf::thrown([&] { p = o.get<double, double>(); }); VF_CHECK(c, e.empty() && p.first == v[0] && p.second == v[1], "list", show(n) << " " << e); }
        if (k == 3) { std::tuple<double, double, double> p; e = vf::thrown([&] { p = o.get<double, double, double>(); }); VF_CHECK(c, e.empty() && std::get<0>(p) == v[0] && std::get<1>(p) == v[1] && std::get<2>(p) == v[2], "list", show(n) << " " << e); if (ints) { auto q = o.get<int, double, int>(); VF_CHECK(c, std::get<0>(q) == v[0] && std::get<2>(q) == v[2], "list", show(n)); } }
        if (k != 1) VF_CHECK(c, !o.isNumber() && !vf::thrown([&] { o.getReal(); }).empty(), "too-many", show(n));
        if (k != 4) VF_CHECK(c, (!vf::thrown([&] { o.get<double, double, double, double>(); }).empty()), "not-four", show(n));
        c.ev("lists"); break; }
    }
}
std::string printed(const Obj& o) { std::stringstream s; std::streambuf* b = std::cout.rdbuf(s.rdbuf()); o.printInfo(true); std::cout.rdbuf(b); return s.str(); }
}
void vf_case(vf::Ctx& c) {
    const int roots = 3; std::vector<std::unique_ptr<Obj>> o; std::vector<Node> n(roots);
    for (int i = 0; i < roots; i++) o.emplace_back(new Obj());
    int steps = c.rng.range(5, c.thorough ? 120 : 50); std::string did;
    auto walk = [&](int r, Obj*& p, Node*& q) { p = o[r].get(); q = &n[r]; while (!q->m.empty() && c.rng.chance(0.55)) { int i = c.rng.range(0, q->m.size() - 1); p = q->k == Dict && c.rng.chance(0.5) ? &(*p)(q->m[i].first) : &(*p)(std::size_t(i)); q = &q->m[i].second; } };
    for (int s = 0; s < steps; s++) {
        int r = c.rng.range(0, roots - 1), r2 = c.rng.range(0, roots - 1), op = c.rng.range(0, 18); Obj *p, *p2; Node *q, *q2; walk(r, p, q); walk(r2, p2, q2); Node copy = *q2; std::string nm = name(c);
        bool small = show(copy).size() < 400;
        did = "operation " + vf::str(op) + " on " + show(n[r]); c.cov("operation " + vf::str(op));
        switch (op) {
        case 0: { int k = c.rng.range(0, 2); if (k == 0) p->setNull(); else if (k == 1) p->setArray(); else p->setObject(); setKind(*q, k == 0 ? Null : k == 1 ? Arr : Dict); break; }
        case 1: case 2: value(c, *p, *q); break;
        case 3: case 4: value(c, (*p)(nm), put(*q, nm)); break;
        case 5: if (small) { p->addMember(nm, *p2); put(*q, nm) = copy; c.cov(p == p2 ? "added to itself" : "added"); } break;       // also a part of itself
        case 6: { Obj t; Node m; value(c, t, m); p->addMember(nm, std::move(t)); put(*q, nm) = m; break; }
        case 7: { std::string e = q->k == Dict && !q->m.empty() && c.rng.chance(0.8) ? q->m[c.rng.range(0, q->m.size() - 1)].first : nm; p->eraseMember(e); if (there(*q, e)) for (std::size_t i = 0; i < q->m.size(); i++) if (q->m[i].first == e) { q->m.erase(q->m.begin() + i); break; } break; }
        case 8: if (small) { p->addValue(*p2); setKind(*q, Arr); Node m = copy; q->m.push_back({"", m}); } break;
        case 9: { Obj t; Node m; value(c, t, m); p->addValue(std::move(t)); setKind(*q, Arr); q->m.push_back({"", m}); break; }
        case 10: if (q->k == Arr && !q->m.empty()) { int i = c.rng.range(0, q->m.size() - 1); p->eraseValue(i); q->m.erase(q->m.begin() + i); } else if (q->k != Arr) p->eraseValue(0); break;
        case 11: if (small) { *p = *p2; *q = copy; } break;                                                                // also its parent or child
        case 12: { Obj t(*p2); Obj u(std::move(t)); compare(c, u, copy, "copy"); if (r != r2) { *p = std::move(u); *q = copy; } break; }
        case 13: { Obj sum = *p + *p2; compare(c, sum, merge(*q, copy), "sum"); c.ev("sums"); break; }
        case 14: if (small) { *p += *p2; *q = merge(Node(*q), copy); } break;
        case 15: if (c.rng.chance(0.3)) { o[r].reset(new Obj(*o[r2])); if (r != r2) n[r] = n[r2]; else o[r].reset(new Obj()), n[r] = Node(); } break;
        case 16: { VF_CHECK(c, printed(*p) == print(*q, 0) + "\n", "printed", printed(*p) << " of " << show(*q)); break; }
        case 17: if (!q->m.empty()) { int i = c.rng.range(0, q->m.size() - 1); Node m = q->m[i].second; *p = std::move((*p)(std::size_t(i))); *q = m; c.cov("replaced by its part"); } break;   // by its own part
        default: { if (q->k == Text && !q->t.empty()) { if (c.rng.chance(0.5)) { std::string t = q->t.back(); p->setString(p->getGenericString().back()); *q = textNode({t}); } else p->setGenericString(p->getGenericString()); } else { Solver::Info a(nm, *o[r]), b(a); Solver::Info d = b + *p2; VF_CHECK(c, d.getName() == nm && b.getName() == nm, "info", d.getName()); compare(c, d.getSettings(), merge(n[r], copy), "info"); compare(c, a.getSettings(), n[r], "info"); a.setName("z"); a.setSettings(*p2); compare(c, a.getSettings(), copy, "info"); compare(c, b.getSettings(), n[r], "info"); } break; }
        }
        c.ev("operations"); c.state(vf::hashStr(show(n[r])));
        for (int i = 0; i < roots; i++) compare(c, *o[i], n[i], did + ", now " + show(n[i]) + ", at ");
        if (show(n[r]).size() > 3000) { o[r].reset(new Obj()); n[r] = Node(); }
    }
    for (int i = 0; i < roots; i++) c.dig(show(n[i]));
    for (auto& m : n) c.note(show(m));
    if (n[0].m.size() + n[1].m.size() + n[2].m.size() > 1) c.interesting = true;
}
VF_PROBE("numbers keep their value") { Obj o; double v[] = {0.1 + 0.2, 1.0 / 3, 1e-9 + 1e-17, 299792458.123456}; for (double x : v) { o.setReal(x); VF_CHECK(c, o.getReal() == x, "real", vf::str(x) << " is kept as " << o.getString()); } }
VF_PROBE("erasing the first member") { Obj o; o("a").setInt(1); o("b").setInt(2); o("c").setInt(3); o.eraseMember("a"); VF_CHECK(c, o.size() == 2 && o("b").getInt() == 2 && o("c").getInt() == 3, "by-name", "after erasing a"); }
