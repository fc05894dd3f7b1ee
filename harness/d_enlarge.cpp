// Grid padding: what is added at a bound, for random grids, paddings and sizes.
#include "vf.h"
#include "geometry/Grid.h"
using namespace SEMBA; using namespace SEMBA::Geometry;
using Math::CVecR3; using Math::CVecI3;
typedef std::vector<double> V;
typedef Math::Constants::CartesianAxis Axis;
typedef Math::Constants::CartesianBound Bound;

namespace {
void checkBound(vf::Ctx& c, const std::string& w, const V& before, const V& after, bool upper, double pad, double siz) {
    std::size_t n0 = before.size();
    VF_CHECK(c, after.size() >= n0, "lines-lost", w); if (after.size() < n0) return;
    std::size_t add = after.size() - n0, at = upper ? 0 : add;
    for (std::size_t k = 0; k < n0; k++) VF_CHECK(c, after[at + k] == before[k], "line-moved", w << ": line " << k << " of the original grid moved from " << before[k] << " to " << after[at + k]);
    for (std::size_t k = 1; k < after.size(); k++) VF_CHECK(c, after[k] > after[k - 1], "not-increasing", w << ": line " << k << " at " << after[k] << " after " << after[k - 1]);
    double s = upper ? before[n0 - 1] - before[n0 - 2] : before[1] - before[0];
    double ext = upper ? after.back() - before.back() : before.front() - after.front();
    if (pad == 0 || siz > pad) { VF_CHECK(c, add == 0, "padding-not-ignored", w << ": " << add << " lines added"); c.ev("ignored"); return; }
    V st; for (std::size_t k = 0; k < add; k++) st.push_back(upper ? after[n0 + k] - after[n0 + k - 1] : after[add - k] - after[add - k - 1]);  // outwards
    if (siz == 0 || siz <= s) {
        c.ev("uniform");
        for (double x : st) VF_CHECK(c, vf::near(x, s, 1e-6), "uniform-step", w << ": added step " << x << ", the step at the bound is " << s);
        VF_CHECK(c, ext >= pad - 0.0101 * s && ext < pad + s * 1.0001, "extent", w << ": extends " << ext << " for a padding of " << pad << " and steps of " << s);
    } else {
        c.ev("growing");
        VF_CHECK(c, add >= 1, "nothing-added", w); if (!add) return;
        VF_CHECK(c, vf::near(st.back(), siz, 1e-6), "outer-size", w << ": the outermost step is " << st.back() << ", requested " << siz);
        VF_CHECK(c, std::fabs(ext - pad) <= siz * 1.0001, "extent", w << ": extends " << ext << " for a padding of " << pad << ", step " << s << ", size " << siz);
        for (double x : st) VF_CHECK(c, x >= s * 0.9999 && x <= siz + s, "step-range", w << ": added step " << x << " outside [" << s << "," << siz << "]");
        for (std::size_t k = 1; k + 1 < st.size(); k++) VF_CHECK(c, st[k] >= st[k - 1] * 0.9999, "shrinks", w << ": step " << k << " is smaller than the one before");
        for (std::size_t k = 2; k + 1 < st.size(); k++) VF_CHECK(c, vf::near(st[k] / st[k - 1], st[k - 1] / st[k - 2], 1e-5), "not-geometric", w << " at " << k);
    }
}
}
void vf_case(vf::Ctx& c) {
    V p[3]; double sc = c.rng.chance(0.3) ? 1e-3 : c.rng.chance(0.3) ? 20 : 1;
    for (int d = 0; d < 3; d++) { int n = c.rng.range(1, 6); p[d].push_back(sc * c.rng.real(-3, 3)); double s = sc * c.rng.real(0.1, 2); bool u = c.rng.chance(0.4);
        for (int k = 0; k < n; k++) p[d].push_back(p[d].back() + (u ? s : sc * c.rng.real(0.1, 2))); for (double x : p[d]) c.noteV(x); }
    Grid3 g(p);
    auto draw = [&](double s, double& pad, double& siz) {
        int k = c.rng.range(0, 9);
        if (k == 0) { pad = 0; siz = 0; } else if (k == 1) { siz = s * c.rng.real(1, 4); pad = siz * c.rng.real(0.1, 0.9); }
        else if (k <= 3) { siz = 0; pad = s * c.rng.real(0.05, 12); } else if (k <= 5) { siz = s * c.rng.real(0.2, 0.9); pad = siz + s * c.rng.real(0, 9); }
        else if (k == 6) { siz = 0; pad = s * 0.004; }
        else { siz = s * c.rng.real(1.05, 12); pad = c.rng.chance(0.2) ? siz : siz * c.rng.real(1, 25); }
        c.noteV(pad); c.noteV(siz); c.cov("kind" + std::to_string(k)); };
    c.interesting = true;
    if (c.rng.chance(0.6)) { // one bound
        int d = c.rng.range(0, 2), b = c.rng.range(0, 1); double pad, siz; draw(b ? p[d].back() - p[d][p[d].size() - 2] : p[d][1] - p[d][0], pad, siz);
        std::string w = "axis " + std::to_string(d) + (b ? " upper" : " lower") + " pad " + vf::str(pad) + " size " + vf::str(siz); c.note(w);
        g.enlargeBound(Axis(d), Bound(b), pad, siz);
        for (int e = 0; e < 3; e++) if (e == d) checkBound(c, w, p[d], g.getPos(d), b, pad, siz); else VF_CHECK(c, g.getPos(e) == p[e], "other-axis", w << " changed axis " << e);
    } else {
        std::pair<CVecR3, CVecR3> pad, siz; 
        for (int d = 0; d < 3; d++) { draw(p[d][1] - p[d][0], pad.first(d), siz.first(d)); draw(p[d].back() - p[d][p[d].size() - 2], pad.second(d), siz.second(d)); }
        g.enlarge(pad, siz);
        for (int d = 0; d < 3; d++) { V a = g.getPos(d); auto it = std::find(a.begin(), a.end(), p[d].front());
            VF_CHECK(c, it != a.end(), "line-moved", "axis " << d << ": the first line of the original grid is gone"); if (it == a.end()) continue;
            std::size_t lo = it - a.begin(); V lower(a.begin(), a.begin() + std::min(a.size(), lo + p[d].size())); V upper(it, a.end());
            checkBound(c, "lower bound of axis " + std::to_string(d), p[d], lower, false, pad.first(d), siz.first(d));
            checkBound(c, "upper bound of axis " + std::to_string(d), p[d], upper, true, pad.second(d), siz.second(d)); }
    }
    { Grid3 h(p); int d = c.rng.range(0, 2); bool up = c.rng.chance(0.5); V st; int n = c.rng.range(0, 4); for (int k = 0; k < n; k++) st.push_back(sc * c.rng.real(0.1, 3));
      h.setAdditionalSteps(Axis(d), up ? Math::Constants::U : Math::Constants::L, st);
      V want = p[d]; for (double s : st) if (up) want.push_back(want.back() + s); else want.insert(want.begin(), want.front() - s);
      VF_CHECK(c, h.getPos(d) == want, "additional-steps", "axis " << d << (up ? " upper" : " lower") << " " << n << " steps"); }
}
