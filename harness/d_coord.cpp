// Coordinate collections: histories of additions, scalings, removals, copies and
// assignments, with the position search checked against a linear scan of a model.
#include "vf.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Relative.h"
#include "geometry/coordinate/Conformal.h"

using namespace SEMBA;
using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
typedef Coordinate::Group<> CG;

namespace {
struct M { const Coord* p; std::size_t id; bool real; double r[3]; long i[3]; };
typedef std::vector<M> Model;
const double S = 0.25;

CVecR3 rpos(vf::Ctx& c, int span) { CVecR3 v; for (int d = 0; d < 3; d++) v(d) = S * c.rng.range(-span, span); return v; }
CVecI3 ipos(vf::Ctx& c, int span) { CVecI3 v; for (int d = 0; d < 3; d++) v(d) = c.rng.range(-span, span); return v; }
bool at(const M& m, const CVecR3& p) { if (!m.real) return false; for (int d = 0; d < 3; d++) if (std::fabs(m.r[d] - p(d)) > 1e-9) return false; return true; }
bool at(const M& m, const CVecI3& p) { if (m.real) return false; for (int d = 0; d < 3; d++) if (m.i[d] != p(d)) return false; return true; }
template <class V> std::set<const Coord*> scan(const Model& m, const V& p) { std::set<const Coord*> r; for (auto& x : m) if (at(x, p)) r.insert(x.p); return r; }
M desc(const Coord* q) {
    M m; m.p = q; m.id = q->getId().toInt(); m.real = q->is<CoordR3>();
    for (int d = 0; d < 3; d++) { m.r[d] = 0; m.i[d] = 0; }
    if (m.real) { const CoordR3* r = q->castTo<CoordR3>(); for (int d = 0; d < 3; d++) m.r[d] = r->pos()(d); }
    else { const CoordI3* r = q->castTo<CoordI3>(); for (int d = 0; d < 3; d++) m.i[d] = r->pos()(d); }
    return m;
}
void check(vf::Ctx& c, const std::string& w, CG& g, const Model& m, int span) {
    VF_CHECK(c, g.size() == m.size(), "size", w << ": " << g.size() << " coordinates, expected " << m.size());
    if (g.size() != m.size()) return;
    for (std::size_t k = 0; k < m.size(); k++) {
        const Coord* q = static_cast<const CG&>(g)(k);
        VF_CHECK(c, m[k].p == nullptr || q == m[k].p, "order", w << " at " << k);
        VF_CHECK(c, q->getId().toInt() == m[k].id, "id", w << " at " << k << ": id " << q->getId() << " expected " << m[k].id);
        M n = desc(q); bool same = n.real == m[k].real;
        for (int d = 0; d < 3; d++) same = same && vf::near(n.r[d], m[k].r[d]) && n.i[d] == m[k].i[d];
        VF_CHECK(c, same, "position", w << ": the position of coordinate " << m[k].id << " is not the one expected");
        VF_CHECK(c, g.existId(CoordId(m[k].id)) && g.getId(CoordId(m[k].id)) == q, "lookup", w << " id " << m[k].id);
        if (m[k].real) { CVecR3 p(m[k].r[0], m[k].r[1], m[k].r[2]); const CoordR3* f = g.getPos(p);
            VF_CHECK(c, f != nullptr && scan(m, p).count(f), "present-not-found", w << ": coordinate " << m[k].id << " is not found at its position " << p); }
        else { CVecI3 p(m[k].i[0], m[k].i[1], m[k].i[2]); const CoordI3* f = g.getPos(p); auto ref = scan(m, p);
            VF_CHECK(c, f != nullptr && ref.count(f), "present-not-found", w << ": coordinate " << m[k].id << " is not found at its position");
            const CG& cg = g; auto all = cg.getAllInPos(p); std::set<const Coord*> got; for (std::size_t a = 0; a < all.size(); a++) got.insert(all(a));
            VF_CHECK(c, got == ref && all.size() == ref.size(), "all-in-position", w << ": " << all.size() << " coordinates found in one position, expected " << ref.size()); }
    }
    for (int t = 0; t < 12; t++) {
        CVecR3 p = rpos(c, span); auto ref = scan(m, p); const CoordR3* f = g.getPos(p);
        VF_CHECK(c, (f != nullptr) == !ref.empty() && (f == nullptr || ref.count(f)), "search", w << ": search at " << p << " " << (f ? "found" : "missed"));
        CVecI3 q = ipos(c, span); auto rei = scan(m, q); const CoordI3* h = g.getPos(q);
        VF_CHECK(c, (h != nullptr) == !rei.empty() && (h == nullptr || rei.count(h)), "search", w << ": structured search " << (h ? "found" : "missed"));
        c.ev(f || h ? "search-hit" : "search-miss");
    }
}
void adopt(Model& m, const CG& g) { for (std::size_t k = 0; k < m.size(); k++) m[k].p = g(k); }
} // namespace

// Coordinates alone: made, assigned and compared in every form.
template <class A> void one(vf::Ctx& c, const char* n, const A& a, const A& same, const std::vector<const Coord*>& others) {
    const Coord& b = a; VF_CHECK(c, b == a && a == same && same == b && !(b != same) && !(a != static_cast<const Coord&>(same)), "coordinate-equality", n);
    for (auto o : others) VF_CHECK(c, !(b == *o) && b != *o && !(*o == b) && *o != b, "coordinate-equality", n << " equals a different one");
    std::unique_ptr<A> k(static_cast<A*>(a.clone())); VF_CHECK(c, *k == b && typeid(*k) == typeid(a), "coordinate-clone", n); A t(same); A& r = (t = a); VF_CHECK(c, &r == &t && t == b, "coordinate-assign", n); t = t; VF_CHECK(c, t == b, "coordinate-assign", n << " to itself"); c.ev("single-coordinates");
    A u; u = a; VF_CHECK(c, u == b && u.getId() == a.getId() && u.pos() == a.pos(), "coordinate-assign", n << " to a new one");
}
void alone(vf::Ctx& c) {
    CoordId id(c.rng.range(1, 9)), id2(id.toInt() + 1); CVecR3 r = rpos(c, 4), rel(c.rng.unit(), 0.25, 0.75); CVecI3 i = ipos(c, 4); CVecI3 i2(i); i2(c.rng.range(0, 2)) += 1; CVecR3 r2(r); r2(c.rng.range(0, 2)) += 0.5; CVecR3 rel2(rel); rel2(c.rng.range(0, 2)) += 0.125; double len = 0.25 + 0.5 * c.rng.unit();
    auto dir = Math::Constants::CartesianAxis(c.rng.range(0, 2)), dir2 = Math::Constants::CartesianAxis((int(dir) + 1) % 3);
    CoordR3 R(id, r); CoordI3 I(id, i); CoordRel L(id, i, rel); CoordConf F(id, i, dir, len);
    CoordR3 Ra(id2, r), Rb(id, r2), Rc(r); CoordI3 Ia(id2, i), Ib(id, i2), Ic(i); CoordRel La(id2, i, rel), Lb(id, i2, rel), Lc(id, i, rel2); CoordConf Fa(id2, i, dir, len), Fb(id, i2, dir, len), Fc(id, i, dir2, len), Fd(id, i, dir, len / 2), Fe(dir, len);
    one(c, "real", R, CoordR3(id, r), {&Ra, &Rb, &Rc, &I, &L, &F}); one(c, "integer", I, CoordI3(id, i), {&Ia, &Ib, &Ic, &R, &L, &F}); one(c, "relative", L, CoordRel(id, i, rel), {&La, &Lb, &Lc, &I, &R, &F}); one(c, "conformal", F, CoordConf(id, i, dir, len), {&Fa, &Fb, &Fc, &Fd, &Fe, &I, &R, &L});
    VF_CHECK(c, Rc.getId() == CoordId(0) && Rc.pos() == r && Ic.getId() == CoordId(0) && Ic.pos() == i && Fe.getId() == CoordId(0) && Fe.getDir() == dir && Fe.getLength() == len && F.getDir() == dir && F.getLength() == len && L.rel() == rel, "coordinate-values", "");
    // a position in units of the grid is split in the cell and the place in it
    CVecR3 x(c.rng.real(-5, 5), c.rng.real(-5, 5), c.rng.chance(0.5) ? c.rng.range(-4, 4) : c.rng.real(-5, 5)); CoordRel s(x), t(id, x); VF_CHECK(c, s.getId() == CoordId(0) && t.getId() == id && s.pos() == t.pos() && s.rel() == t.rel(), "relative-split", x);
    for (int d = 0; d < 3; d++) VF_CHECK(c, std::fabs(s.pos()(d) + s.rel()(d) - x(d)) < 1e-12 && s.rel()(d) >= 0 && s.rel()(d) < 1, "relative-split", x << " gives " << s.pos() << " and " << s.rel());
}
void vf_case(vf::Ctx& c) {
    alone(c);
    CG g[2]; Model m[2];
    int span = c.rng.range(1, 4);
    int steps = c.rng.range(2, c.thorough ? 40 : 22);
    for (int s = 0; s < steps; s++) {
        int k = c.rng.range(0, 1); CG& G = g[k]; Model& R = m[k];
        int op = c.rng.range(0, 16);
        std::string w;
        auto tag = [&](const std::string& t) { c.cov(t.substr(0, t.find(' '))); c.note(std::to_string(k) + t); c.ev("op:" + t.substr(0, t.find(' '))); w = t + " step " + std::to_string(s) + " [" + (c.canonical.size() > 400 ? c.canonical.substr(c.canonical.size() - 400) : c.canonical) + "]"; };
        std::size_t top = 0; for (auto& x : R) top = std::max(top, x.id);
        switch (op) {
        case 0: case 1: case 2: { bool ov = c.rng.chance(0.3), re = c.rng.chance(0.6); CVecR3 p = rpos(c, span); CVecI3 q = ipos(c, span);
            tag(std::string(re ? "addPosR" : "addPosI") + (ov ? "O " : " ") + (re ? vf::str(p) : vf::str(q)));
            auto ref = re ? scan(R, p) : scan(R, q);
            const Coord* got = re ? G.addPos(p, ov) : G.addPos(q, ov);
            VF_CHECK(c, got != nullptr, "add-null", w);
            if (!ref.empty() && !ov) { VF_CHECK(c, ref.count(got), "reuse", w << ": adding an occupied position did not give the coordinate that is there"); }
            else { VF_CHECK(c, G.size() == R.size() + 1 && !ref.count(got), "add", w); 
                VF_CHECK(c, got->getId().toInt() > top, "fresh-id", w << ": id " << got->getId());
                M d = desc(got); bool ok = d.real == re; for (int x = 0; x < 3; x++) ok = ok && (re ? vf::near(d.r[x], p(x)) : d.i[x] == q(x));
                VF_CHECK(c, ok, "add-position", w); R.push_back(d); }
            break; }
        case 3: { std::vector<CVecR3> v; std::vector<CVecR3> uniq; int n = c.rng.range(0, 5); bool ov = c.rng.chance(0.5); std::string t = ov ? "addVO" : "addV";
            for (int a = 0; a < n; a++) { CVecR3 p = rpos(c, span); bool dup = false; for (auto& u : v) dup = dup || (std::fabs(u(0)-p(0)) + std::fabs(u(1)-p(1)) + std::fabs(u(2)-p(2)) < 1e-9);
                if (dup && !ov) continue; v.push_back(p); t += " " + vf::str(p); }
            tag(t); std::size_t before = G.size(); G.addPos(v, ov); std::size_t at0 = before;
            for (auto& p : v) { auto ref = scan(R, p); if (ov || ref.empty()) { if (at0 < G.size()) { M d = desc(static_cast<const CG&>(G)(at0));
                    VF_CHECK(c, at(d, p) && d.id > top, "add-position", w); top = std::max(top, d.id); d.p = static_cast<const CG&>(G)(at0); uniq.push_back(p); R.push_back(d); } at0++; } }
            VF_CHECK(c, at0 == G.size(), "add", w << ": " << G.size() - before << " added, expected " << at0 - before);
            break; }
        case 4: case 5: { std::size_t id; for (;;) { id = c.rng.range(1, 40) + (c.rng.chance(0.1) ? 1000 : 0); bool u = false; for (auto& x : R) u = u || x.id == id; if (!u) break; if (R.size() > 35) { id = top + 1; break; } }
            Coord* q; int kind = c.rng.range(0, 3); tag("add " + std::to_string(kind));
            if (kind == 0) q = new CoordR3(CoordId(id), rpos(c, span)); else if (kind == 1) q = new CoordI3(CoordId(id), ipos(c, span));
            else if (kind == 2) q = new CoordRel(CoordId(id), ipos(c, span), CVecR3(0.5, 0.25, 0.0)); else q = new CoordConf(CoordId(id), ipos(c, span), Math::Constants::y, 0.5);
            R.push_back(desc(q)); G.add(q); break; }
        case 6: case 7: { if (R.empty()) break; std::size_t p = c.rng.range(0, R.size() - 1); tag("remove " + std::to_string(p)); G.remove(p); R.erase(R.begin() + p); break; }
        case 8: { if (R.empty()) break; std::vector<CoordId> ids; std::set<std::size_t> q; for (int a = c.rng.range(1, 4); a > 0; a--) { std::size_t id = c.rng.pick(R).id; ids.push_back(CoordId(id)); q.insert(id); }
            tag("removeId " + std::to_string(q.size()) + "_" + std::to_string(*q.begin())); G.removeId(ids); Model r; for (auto& x : R) if (!q.count(x.id)) r.push_back(x); R = r; break; }
        case 9: { static const double F[] = {2.0, 0.5, -1.0, 1.0, 0.0, -0.5}; double f = F[c.rng.range(0, 5)];
            // shared members are scaled in every collection that holds them; only scale unshared ones
            bool shared = false; for (auto& x : m[0]) for (auto& y : m[1]) shared = shared || x.p == y.p; if (shared) break;
            tag("scale " + vf::str(f)); G.applyScalingFactor(f); for (auto& x : R) for (int d = 0; d < 3; d++) x.r[d] *= f; break; }
        case 10: { tag("clone"); CG cp(G.cloneElems()); Model r = R; for (auto& x : r) x.p = nullptr;
            for (std::size_t a = 0; a < cp.size(); a++) VF_CHECK(c, cp(a) != G(a), "clone-shares", w);
            for (std::size_t a = 0; a < cp.size() && a < R.size(); a++) { r[a].p = cp(a); VF_CHECK(c, *cp(a) == *G(a), "clone-differs", w); }
            check(c, w + " (copy)", cp, r, span); g[1 - k] = cp; m[1 - k] = r; break; }
        case 11: { tag("assign"); g[1 - k] = G; m[1 - k] = R; break; }
        case 12: { tag("move"); CG tmp(static_cast<Group::Group<Coord>&>(G)); G.clear(); g[1 - k] = std::move(tmp); m[1 - k] = R; R.clear(); break; }
        case 13: { if (!c.rng.chance(0.3)) break; tag("clear"); G.clear(); R.clear(); break; }
        case 14: { tag("readd"); // members of the other collection that have no id clash
            bool clash = false; for (auto& x : m[1 - k]) for (auto& y : R) clash = clash || x.id == y.id;
            std::string t = vf::thrown([&] { G.add(g[1 - k]); });
            VF_CHECK(c, t.empty() == !clash, "merge", w); if (!clash) for (auto& x : m[1 - k]) R.push_back(x); break; }
        case 15: { if (R.empty()) break; std::size_t p = c.rng.range(0, R.size() - 1); bool bad = c.rng.chance(0.2) && R.size() > 1; std::size_t id = bad ? R[(p + 1) % R.size()].id : c.rng.chance(0.5) ? R[p].id : top + 1;
            Coord* q; int kind = c.rng.range(0, 2); tag("set " + std::to_string(p) + "_" + std::to_string(id)); if (kind == 0) q = new CoordR3(CoordId(id), rpos(c, span)); else if (kind == 1) q = new CoordI3(CoordId(id), ipos(c, span)); else q = new CoordRel(CoordId(id), ipos(c, span), CVecR3(0.5, 0.25, 0.0));
            M d = desc(q); std::string t = vf::thrown([&] { G.set(p, q); }); VF_CHECK(c, t.empty() != bad, "set", w << " " << t); if (!bad) R[p] = d; break; }
        case 16: { bool mv = c.rng.chance(0.5); tag(std::string("assign-base") + (mv ? "M" : "")); Group::Group<Coord> plain(static_cast<Group::Group<Coord>&>(G)); if (mv) g[1 - k] = std::move(plain); else g[1 - k] = plain; m[1 - k] = R; break; }
        }
        if (w.empty()) continue;
        c.interesting = true;
        for (int q = 0; q < 2; q++) check(c, w, g[q], m[q], span);
        std::string st; for (auto& x : m[0]) { st += std::to_string(x.id); for (int d = 0; d < 3; d++) st += "," + std::to_string(x.r[d]) + "," + std::to_string(x.i[d]); }
        c.state(vf::hashStr(st)); c.dig(st);
    }
}

VF_PROBE("position-vectors") {
    std::vector<CVecR3> v{CVecR3(0, 0, 0), CVecR3(1, 0, 0), CVecR3(0, 0, 0)};
    CoordR3Group g(v);
    VF_CHECK(c, g.size() == 3 && g.getPos(CVecR3(1, 0, 0)) == g(1) && g.getPos(CVecR3(0, 0, 1)) == nullptr, "build", "from positions");
    std::vector<CVecI3> w{CVecI3(0, 0, 0), CVecI3(1, 2, 3), CVecI3(0, 0, 0)};
    CoordI3Group h(w); const CoordI3Group& ch = h;
    VF_CHECK(c, h.size() == 3 && ch.getAllInPos(CVecI3(0, 0, 0)).size() == 2 && ch.getAllInPos(CVecI3(1, 2, 3)).size() == 1 && ch.getAllInPos(CVecI3(9, 9, 9)).empty(), "build", "from structured positions");
}
VF_PROBE("scale-negative") {
    CoordR3Group g; for (int i = 0; i < 40; i++) g.addPos(CVecR3(i, -i * 0.5, 2 * i));
    g.applyScalingFactor(-3.0);
    bool ok = true; for (int i = 0; i < 40; i++) ok = ok && g.getPos(CVecR3(-3.0 * i, 1.5 * i, -6.0 * i)) == g(i);
    VF_CHECK(c, ok, "search", "after scaling by -3");
    g.remove(std::vector<std::size_t>{0, 39}); VF_CHECK(c, g.size() == 38 && g.getPos(CVecR3(-3, 1.5, -6)) == g(0) && !g.getPos(CVecR3(0, 0, 0)), "search", "after removal");
}
VF_PROBE("large") {
    CoordR3Group g; for (int i = 0; i < 20; i++) for (int j = 0; j < 20; j++) g.addPos(CVecR3(i * 1e-3, j * 1e-3, 0.7));
    for (int i = 0; i < 20; i++) for (int j = 0; j < 20; j++) g.addPos(CVecR3(i * 1e-3, j * 1e-3, 0.7));
    VF_CHECK(c, g.size() == 400, "reuse", "positions added twice gave " << g.size());
}
