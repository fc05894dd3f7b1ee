// Vectors, spherical coordinates, local axes, fractional positions and
// tolerant comparison, against componentwise definitions.
#include "vf.h"
#include "math/vector/Cartesian.h"
#include "math/vector/Spherical.h"
#include "math/vector/CVecI3Fractional.h"
#include "math/axis/Local.h"
using namespace SEMBA; using namespace SEMBA::Math;
typedef std::complex<double> Cx;
namespace {
double realValue(vf::Ctx& c) {
    switch (c.rng.range(0, 5)) { case 0: return c.rng.range(-3, 3); case 1: return c.rng.real(-1, 1); case 2: return c.rng.real(-1, 1) * 1e-6; case 3: return c.rng.real(-1, 1) * 1e6; case 4: return 0; default: return c.rng.real(-10, 10); }
}
template <class T> struct G;
template <> struct G<double> { static double v(vf::Ctx& c) { return realValue(c); } static const char* n() { return "real"; } };
template <> struct G<int> { static int v(vf::Ctx& c) { return c.rng.range(-9, 9); } static const char* n() { return "int"; } };
template <> struct G<Cx> { static Cx v(vf::Ctx& c) { return Cx(realValue(c), realValue(c)); } static const char* n() { return "complex"; } };
double mag(double x) { return std::fabs(x); } double mag(int x) { return std::abs(x); } double mag(Cx x) { return std::abs(x); }
template <class T> bool same(T a, T b, double scale) { return mag(a - b) <= 1e-12 * scale; }

template <class T, std::size_t D> void arith(vf::Ctx& c) {
    typedef Vector::Cartesian<T, D> P;
    T a[D], b[D]; double s = 1; for (std::size_t i = 0; i < D; i++) { a[i] = G<T>::v(c); b[i] = c.rng.chance(0.2) ? a[i] : G<T>::v(c); s = std::max({s, mag(a[i]), mag(b[i])}); c.noteV(a[i]); c.noteV(b[i]); }
    T k = G<T>::v(c); double s2 = s * s * D + s * mag(k) + s + mag(k);
    const P x(a), y(b); P p;
    c.cov(std::string(G<T>::n()) + std::to_string(D)); c.interesting = true;
    std::ostringstream ws; ws << G<T>::n() << "[" << D << "] " << x << " and " << y << ", factor " << k; std::string w = ws.str();
    auto cmp = [&](const char* name, const P& r, std::function<T(int)> f) {
        for (std::size_t i = 0; i < D; i++) VF_CHECK(c, same<T>(r.val[i], f(i), s2), name, w << " gives " << r << " expected component " << i << " " << f(i));
        bool un = true; for (std::size_t i = 0; i < D; i++) un = un && x.val[i] == a[i] && y.val[i] == b[i]; VF_CHECK(c, un, "operand-changed", w << " by " << name); };
    cmp("sum", x + y, [&](int i) { return a[i] + b[i]; }); cmp("difference", x - y, [&](int i) { return a[i] - b[i]; });
    cmp("sum-scalar", x + k, [&](int i) { return a[i] + k; }); cmp("difference-scalar", x - k, [&](int i) { return a[i] - k; });
    cmp("scaled", x * k, [&](int i) { return a[i] * k; }); cmp("product", x * y, [&](int i) { return a[i] * b[i]; });
    cmp("negation", -x, [&](int i) { return -a[i]; }); cmp("from-to", P(x, y), [&](int i) { return b[i] - a[i]; });
    cmp("fill", P(k), [&](int) { return k; }); { P q(x); q = k; cmp("fill", q, [&](int) { return k; }); }
    if (mag(k) > 1e-9) { P q = x / k, r(x); r /= k; for (std::size_t i = 0; i < D; i++) VF_CHECK(c, mag(q.val[i] - a[i] / k) <= 1e-12 * (mag(a[i] / k)) && r.val[i] == q.val[i], "quotient", w); cmp("quotient", P(), [](int) { return T(0); }); }
    p = x; VF_CHECK(c, &(p += y) == &p, "assign-op", w); cmp("add-assign", p, [&](int i) { return a[i] + b[i]; }); p = x; p -= y; cmp("sub-assign", p, [&](int i) { return a[i] - b[i]; });
    p = x; p *= y; cmp("mul-assign", p, [&](int i) { return a[i] * b[i]; }); p = x; p *= k; cmp("scale-assign", p, [&](int i) { return a[i] * k; });
    p = x; p += k; cmp("add-assign-scalar", p, [&](int i) { return a[i] + k; }); p = x; p -= k; cmp("sub-assign-scalar", p, [&](int i) { return a[i] - k; });
    T dt = T(); double nn = 0; for (std::size_t i = 0; i < D; i++) { dt += a[i] * b[i]; nn += mag(a[i]) * mag(a[i]); }
    VF_CHECK(c, same<T>(x.dot(y), dt, s2), "dot", w << " gives " << x.dot(y)); VF_CHECK(c, vf::near(x.norm(), std::sqrt(nn), 1e-12), "norm", w << " gives " << x.norm());
    for (std::size_t i = 0; i < D; i++) { VF_CHECK(c, x(i) == a[i] && x[i] == a[i], "component", w); p = x; p(i) = k; VF_CHECK(c, p[i] == k, "component", w); }
    std::size_t n = c.rng.range(0, 2 * D); p = x; p.cyclicPermutation(n); for (std::size_t i = 0; i < D; i++) VF_CHECK(c, p.val[(i + n) % D] == a[i], "rotation", w << " rotated by " << n << " gives " << p);
    p = x; p.cyclicPermutation(); for (std::size_t i = 0; i < D; i++) VF_CHECK(c, p.val[(i + 1) % D] == a[i], "rotation", w << " rotated gives " << p);
    double dn = 0, sn = 0; for (std::size_t i = 0; i < D; i++) { dn += mag(a[i] - b[i]) * mag(a[i] - b[i]); sn += mag(a[i] + b[i]) * mag(a[i] + b[i]); } dn = std::sqrt(dn); sn = std::sqrt(sn);
    VF_CHECK(c, x == x && !(x != x), "equal-itself", w); VF_CHECK(c, (x == y) == (y == x) && (x != y) == !(x == y), "equality-symmetric", w);
    if (dn > 1e-6 * (1 + sn)) VF_CHECK(c, x != y, "different-but-equal", w); if (dn == 0) VF_CHECK(c, x == y, "same-but-different", w);
}
template <class T, std::size_t D> void ordered(vf::Ctx& c) {
    typedef Vector::Cartesian<T, D> P;
    P x, y; for (std::size_t i = 0; i < D; i++) { x(i) = G<int>::v(c) / (c.rng.chance(0.5) ? T(1) : T(2)); y(i) = c.rng.chance(0.5) ? x(i) : T(G<int>::v(c)); }
    int o = 0; for (std::size_t i = 0; i < D && !o; i++) o = x(i) < y(i) ? -1 : x(i) > y(i) ? 1 : 0;
    std::ostringstream ws; ws << x << " and " << y; std::string w = ws.str();
    VF_CHECK(c, (x < y) == (o < 0) && (x <= y) == (o <= 0) && (x > y) == (o > 0) && (x >= y) == (o >= 0), "ordering", w);
    T mx = x(0); for (std::size_t i = 1; i < D; i++) mx = std::max(mx, x(i)); VF_CHECK(c, x.getMax() == mx, "max", w << " gives " << x.getMax());
    P m(x); m.setWithMinimalComponents(y); for (std::size_t i = 0; i < D; i++) VF_CHECK(c, m(i) == std::min(x(i), y(i)), "minimal-components", w << " gives " << m);
    m = x; m.abs(); for (std::size_t i = 0; i < D; i++) VF_CHECK(c, m(i) == (x(i) < 0 ? -x(i) : x(i)), "abs", w << " gives " << m);
    std::size_t n = c.rng.range(0, (1 << D) - 1), v = 0; m.setAsBinary(n); for (std::size_t i = 0; i < D; i++) { VF_CHECK(c, m(i) == 0 || m(i) == 1, "binary", n << " gives " << m); v = 2 * v + std::size_t(m(i)); } VF_CHECK(c, v == n, "binary", n << " gives " << m);
    P lo, hi; lo.setMinusInfty(); hi.setPlusInfty(); for (std::size_t i = 0; i < D; i++) VF_CHECK(c, lo(i) < x(i) && hi(i) > x(i), "infinite", w);
}
void geometric(vf::Ctx& c) {
    double a[3], b[3], s = 1; for (int i = 0; i < 3; i++) { a[i] = realValue(c); b[i] = realValue(c); s = std::max({s, std::fabs(a[i]), std::fabs(b[i])}); }
    const CVecR3 x(a), y(b); std::ostringstream ws; ws << std::setprecision(17) << a[0] << " " << a[1] << " " << a[2] << " and " << b[0] << " " << b[1] << " " << b[2]; std::string w = ws.str();
    CVecR3 z = x ^ y; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; VF_CHECK(c, std::fabs(z(i) - (a[j] * b[k] - a[k] * b[j])) <= 1e-12 * s * s, "cross", w << " gives " << z); }
    { CVecI3 u(G<int>::v(c), G<int>::v(c), G<int>::v(c)), v(G<int>::v(c), G<int>::v(c), G<int>::v(c)), r = u ^ v; VF_CHECK(c, r.dot(u) == 0 && r.dot(v) == 0 && r(0) == u(1) * v(2) - u(2) * v(1) && r(1) == u(2) * v(0) - u(0) * v(2) && r(2) == u(0) * v(1) - u(1) * v(0), "cross", u << v << r); 
      CVecR3 f(u), g; g = u; CVecI3 h(f); VF_CHECK(c, f(0) == u(0) && f(1) == u(1) && f(2) == u(2) && g == f && h == u, "type-conversion", u);
      CVecR3 sm = u + x; CVecR3 q = u / 4.0; for (int i = 0; i < 3; i++) VF_CHECK(c, sm(i) == u(i) + a[i] && q(i) == u(i) / 4.0, "mixed", w);
      CVecR3 t = 2.5 - x; for (int i = 0; i < 3; i++) VF_CHECK(c, t(i) == 2.5 - a[i], "scalar-minus", w); }
    double n = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]);
    if (n > 1e-9) {
        CVecR3 u(x); u.normalize(); VF_CHECK(c, vf::near(u.norm(), 1, 1e-12), "unit", w); for (int i = 0; i < 3; i++) VF_CHECK(c, std::fabs(u(i) - a[i] / n) < 1e-12, "unit", w);
        Vector::Spherical sp; sp = x; CVecR3 back = sp.convertToCartesian();
        VF_CHECK(c, vf::near(sp.norm(), n, 1e-12) && vf::near(sp.radius, n, 1e-12) && sp.theta >= 0 && sp.theta <= Constants::pi + 1e-12 && std::fabs(sp.phi) <= Constants::pi + 1e-12, "spherical-range", w);
        for (int i = 0; i < 3; i++) VF_CHECK(c, std::fabs(back(i) - a[i]) < 1e-7 * n, "spherical-round-trip", w << " gives " << back);
        CVecR3 er = sp.convertSphericalVectorField(1, 0, 0), et = sp.convertSphericalVectorField(0, 1, 0), ep = sp.convertSphericalVectorField(0, 0, 1);
        for (int i = 0; i < 3; i++) VF_CHECK(c, std::fabs(er(i) - a[i] / n) < 1e-7, "spherical-basis", w);
        CVecR3 cr = er ^ et; for (int i = 0; i < 3; i++) VF_CHECK(c, std::fabs(cr(i) - ep(i)) < 1e-12, "spherical-basis", w << " is not right-handed");
        VF_CHECK(c, vf::near(et.norm(), 1, 1e-12) && std::fabs(er.dot(et)) < 1e-12 && std::fabs(ep(2)) < 1e-12 && et(2) <= 1e-12, "spherical-basis", w);
        double f[3] = {c.rng.real(-2, 2), c.rng.real(-2, 2), c.rng.real(-2, 2)}; CVecR3 fc = sp.convertSphericalVectorField(f[0], f[1], f[2]);
        for (int i = 0; i < 3; i++) VF_CHECK(c, std::fabs(fc(i) - (f[0] * er(i) + f[1] * et(i) + f[2] * ep(i))) < 1e-12, "spherical-field", w);
        c.ev("spherical");
    }
    { double t = c.rng.real(0, Constants::pi), p = c.rng.real(-Constants::pi, Constants::pi); Vector::Spherical sp(t, p); CVecR3 r = sp.convertToCartesian(); VF_CHECK(c, sp.norm() == 1 && vf::near(r(2), std::cos(t), 1e-12, 1e-14) && vf::near(r(0), std::sin(t) * std::cos(p), 1e-12, 1e-14) && vf::near(r(1), std::sin(t) * std::sin(p), 1e-12, 1e-14), "spherical-direction", t << " " << p << " gives " << r);
      Vector::Spherical b2; b2 = r; VF_CHECK(c, vf::near(b2.theta, t, 1e-6, 1e-6) && (std::sin(t) < 1e-6 || std::fabs(std::remainder(b2.phi - p, 2 * Constants::pi)) < 1e-6), "spherical-angles", t << " " << p << " gives " << b2.theta << " " << b2.phi); }
    // axis and plane queries
    { double v[3] = {0, 0, 0}; int nz = c.rng.range(0, 3); bool used[3] = {}; for (int k = 0; k < nz; k++) { int d = c.rng.range(0, 2); v[d] = c.rng.range(1, 9) * (c.rng.chance(0.5) ? 1 : -1) * (c.rng.chance(0.3) ? 0.01 : 1); used[d] = true; }
      CVecR3 q(v); int m = used[0] + used[1] + used[2]; std::ostringstream o; o << q; double big = 0, sum = 0; int bd = 0; for (int d = 0; d < 3; d++) { if (std::fabs(v[d]) > big) { big = std::fabs(v[d]); bd = d; } sum += v[d] * v[d]; } sum = std::sqrt(sum);
      for (int pl = 0; pl < 3; pl++) { int nd = pl == 0 ? 2 : pl == 1 ? 0 : 1; VF_CHECK(c, q.isContainedInPlane(Constants::CartesianPlane(pl)) == !used[nd], "in-plane", o.str() << " plane " << pl); }
      VF_CHECK(c, q.isContainedInPlane() == (m < 3), "in-plane", o.str());
      CVecR3 base(1, 2, 3), other = base + q; bool ca = std::fabs(v[0]) < 1e-12 || std::fabs(v[1]) < 1e-12 || std::fabs(v[2]) < 1e-12; VF_CHECK(c, base.isCoplanar(other) == ca, "coplanar", o.str());
      if (m == 1) { VF_CHECK(c, q.isInCartesianAxis() && q.getCartesianAxis() == bd, "axis", o.str()); }
      else if (m > 1 && sum - big > 0.05 * sum) { VF_CHECK(c, !q.isInCartesianAxis() && vf::thrown([&] { q.getCartesianAxis(); }).find("logic_error") != std::string::npos, "axis", o.str()); } }
    // rounding of vectors
    { CVecR3 r; int e[3]; for (int d = 0; d < 3; d++) { e[d] = c.rng.range(-20, 20); r(d) = e[d] + c.rng.real(-0.499, 0.499); } CVecR3 o = Util::round(r); for (int d = 0; d < 3; d++) VF_CHECK(c, o(d) == e[d], "round", r << " gives " << o); }
}
void local(vf::Ctx& c) {
    CVecR3 e(c.rng.real(-7, 7), c.rng.real(-7, 7), c.rng.real(-7, 7)), o(c.rng.real(-5, 5), c.rng.real(-5, 5), c.rng.real(-5, 5));
    if (c.rng.chance(0.2)) e(c.rng.range(0, 2)) = 0; bool noOrigin = c.rng.chance(0.3); if (noOrigin) o = CVecR3();
    Axis::Local l = noOrigin ? Axis::Local(e) : Axis::Local(e, o); std::ostringstream ws; ws << "angles " << e << " origin " << o; std::string w = ws.str(); c.ev("local-axes");
    VF_CHECK(c, l.getEulerAngles() == e && l.getOrigin() == o, "local-fields", w);
    // reference: three elementary rotations
    auto mul = [](const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b) { std::vector<std::vector<double>> r(3, std::vector<double>(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j]; return r; };
    auto rz = [](double t) { return std::vector<std::vector<double>>{{std::cos(t), std::sin(t), 0}, {-std::sin(t), std::cos(t), 0}, {0, 0, 1}}; };
    auto rx = [](double t) { return std::vector<std::vector<double>>{{1, 0, 0}, {0, std::cos(t), std::sin(t)}, {0, -std::sin(t), std::cos(t)}}; };
    auto R = mul(rz(e(2)), mul(rx(e(1)), rz(e(0)))); MatR33 T = l.getTransformationMatrix();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { VF_CHECK(c, std::fabs(T(i, j) - R[i][j]) < 1e-12, "rotation-matrix", w << " component " << i << "," << j << " is " << T(i, j) << " expected " << R[i][j]);
        double g = 0; for (int k = 0; k < 3; k++) g += T(i, k) * T(j, k); VF_CHECK(c, std::fabs(g - (i == j)) < 1e-12, "rotation-orthogonal", w); }
    CVecR3 v(c.rng.real(-3, 3), c.rng.real(-3, 3), c.rng.real(-3, 3)), gv = l.convertToGlobal(v); for (int i = 0; i < 3; i++) { double x = o(i); for (int k = 0; k < 3; k++) x += R[i][k] * v(k); VF_CHECK(c, std::fabs(gv(i) - x) < 1e-11, "to-global", w << " " << v << " gives " << gv); }
    MatR33 m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i, j) = c.rng.real(-3, 3); MatR33 g = l.convertToGlobal(m);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double x = 0; for (int k = 0; k < 3; k++) for (int n = 0; n < 3; n++) x += R[i][k] * m(k, n) * R[j][n]; VF_CHECK(c, std::fabs(g(i, j) - x) < 1e-11, "tensor-to-global", w); }
}
void fractional(vf::Ctx& c) {
    CVecI3 p(c.rng.range(-5, 5), c.rng.range(-5, 5), c.rng.range(-5, 5)); CVecR3 l; int rank = 0, dir = -1, zero = -1;
    for (int d = 0; d < 3; d++) { l(d) = c.rng.chance(0.5) ? 0 : c.rng.chance(0.2) ? 1 - 1e-12 : c.rng.chance(0.1) ? 1e-12 : c.rng.chance(0.1) ? 1.0 : c.rng.real(0.001, 0.999); if (l(d) > 1e-10) { rank++; dir = d; } else zero = d; c.noteV(l(d)); }
    CVecI3Fractional f(p, l); std::ostringstream ws; ws << f; std::string w = ws.str(); c.ev("fractional"); c.cov("rank" + std::to_string(rank));
    VF_CHECK(c, int(f.getRangeBase()) == rank, "fraction-range", w << " gives " << f.getRangeBase());
    VF_CHECK(c, f.getDirBase() == (rank == 1 ? dir + 1 : rank == 2 ? zero + 1 : 0), "fraction-direction", w << " gives " << f.getDirBase());
    CVecR3 sp = f.getScalePos(); for (int d = 0; d < 3; d++) VF_CHECK(c, std::fabs(sp(d) - (p(d) + l(d))) < 1e-12, "fraction-position", w << " gives " << sp);
    CVecI3 o(c.rng.range(-5, 5), c.rng.range(-5, 5), c.rng.range(-5, 5)); CVecR3 so = f.getScalePos(o); for (int d = 0; d < 3; d++) VF_CHECK(c, std::fabs(so(d) - (p(d) - o(d) + l(d))) < 1e-12, "fraction-position", w);
    CVecI3Fractional g(f), h; h = f; VF_CHECK(c, g == f && h == f, "fraction-copy", w);
    g.reduceCoords(); CVecR3 sg = g.getScalePos(); for (int d = 0; d < 3; d++) { VF_CHECK(c, std::fabs(sg(d) - sp(d)) <= 1.1e-10, "fraction-reduce", w << " moves to " << sg); VF_CHECK(c, g.len_(d) == 0 || (g.len_(d) >= 1e-10 && g.len_(d) < 1 - 1e-10), "fraction-reduce", w << " leaves " << g); }
    // rank never grows, each step lowers it by one, the position moves to the nearest node of the collapsed axis
    CVecI3Fractional r(g); std::size_t r0 = r.getRangeBase(); r.reduceTopology(); CVecR3 sr = r.getScalePos(); int moved = 0; double best = 9; for (int d = 0; d < 3; d++) { if (g.len_(d) != 0) best = std::min(best, std::min(g.len_(d), 1 - g.len_(d))); }
    for (int d = 0; d < 3; d++) if (sr(d) != sg(d)) { moved++; VF_CHECK(c, r.len_(d) == 0 && std::fabs(std::fabs(sr(d) - sg(d)) - best) < 1e-12, "fraction-collapse", w << " becomes " << r); }
    VF_CHECK(c, r0 == 0 ? (moved == 0 && r == g) : (moved == 1 && r.getRangeBase() == r0 - 1), "fraction-collapse", w << " becomes " << r);
    std::size_t want = c.rng.range(0, 3); CVecI3Fractional t(g); t.reduceTopology(want); VF_CHECK(c, t.getRangeBase() == std::min(want, r0), "fraction-collapse-to", w << " to " << want << " becomes " << t);
    { // a second one: comparison, mean, joining and moving
      CVecI3 p2 = p; CVecR3 l2; for (int d = 0; d < 3; d++) l2(d) = c.rng.chance(0.4) ? 0 : c.rng.real(0.001, 0.999); CVecR3 l1; for (int d = 0; d < 3; d++) l1(d) = c.rng.chance(0.4) ? 0 : c.rng.real(0.001, 0.999);
      CVecI3Fractional a(p, l1), b(p2, l2); std::ostringstream w2s; w2s << a.toStr() << " and " << b.toStr(); std::string w2 = w2s.str(); c.ev("fractional-pairs");
      CVecR3 mm = a.meanRelativePoint(b); bool can = true; for (int d = 0; d < 3; d++) { VF_CHECK(c, std::fabs(mm(d) - (l1(d) + l2(d)) / 2) < 1e-15, "fraction-mean", w2 << " gives " << mm); if (l1(d) != 0 && l2(d) == 0) can = false; }
      CVecI3Fractional ja(a), jb(b); ja.join(jb); for (int d = 0; d < 3; d++) { double e = l1(d) == 0 || l2(d) == 0 ? 0 : l2(d); VF_CHECK(c, ja.len_(d) == e && jb.len_(d) == e && ja(d) == p(d) && jb(d) == p2(d), "fraction-join", w2 << " become " << ja.toStr() << " and " << jb.toStr()); }
      for (int force = 0; force < 2; force++) { CVecI3Fractional mb(b); bool ok = !can; CVecI3Fractional& r = a.move(mb, force != 0, ok); VF_CHECK(c, &r == &mb && ok == can, "fraction-move", w2 << (can ? " can" : " cannot") << " be moved, answer " << ok);
          for (int d = 0; d < 3; d++) { double e = !can && !force ? l2(d) : l1(d) != 0 && l2(d) == 0 ? 0 : l1(d); VF_CHECK(c, mb.len_(d) == e && mb(d) == p2(d), "fraction-move", w2 << " becomes " << mb.toStr()); } }
      CVecI3Fractional q(a); int d = c.rng.range(0, 2); if (c.rng.chance(0.5)) q(d) += 1; else q.len_(d) += 0.25; VF_CHECK(c, !(q == a) && !(a == q) && a == CVecI3Fractional(p, l1), "fraction-equality", w2); }
    CVecR3 nn = f.getRelativePosNearestNode(); for (int d = 0; d < 3; d++) VF_CHECK(c, nn(d) == (l(d) > 0.5 ? 1 : 0), "fraction-nearest", w);
}
void compare(vf::Ctx& c) {
    double a = realValue(c), b = c.rng.chance(0.2) ? a : c.rng.chance(0.3) ? a * (1 + c.rng.real(-1, 1) * 1e-12) : realValue(c); std::ostringstream ws; ws << std::setprecision(17) << a << " and " << b; std::string w = ws.str();
    bool eq = Util::equal(a, b), lo = Util::lower(a, b), gr = Util::greater(a, b);
    VF_CHECK(c, int(eq) + int(lo) + int(gr) == 1, "trichotomy", w << ": equal " << eq << " lower " << lo << " greater " << gr);
    VF_CHECK(c, Util::notEqual(a, b) == !eq && Util::lowerEqual(a, b) == (lo || eq) && Util::greaterEqual(a, b) == (gr || eq) && Util::equal(b, a) == eq && Util::lower(b, a) == gr, "comparison-consistent", w);
    if (std::fabs(a - b) > 1e-8 * (std::fabs(a) + std::fabs(b))) VF_CHECK(c, !eq && (a < b) == lo, "comparison-order", w);
    if (std::fabs(a - b) <= 1e-11 * std::fabs(a + b) && std::fabs(a) > 1e-12) VF_CHECK(c, eq, "comparison-tolerance", w);
    VF_CHECK(c, Util::equal(a, a), "equal-itself", w); VF_CHECK(c, Util::sign(a) == (a < 0 ? -1 : 1), "sign", w);
    int k = c.rng.range(-50, 50); double f = c.rng.real(0.001, 0.499); VF_CHECK(c, Util::round(k + f) == k && Util::round(k - f) == k && Util::round(double(k)) == k && Util::round(k + 0.5) == k + 1, "round", k << " " << f);
    double rel = c.rng.real(0, 0.3); VF_CHECK(c, Util::ceil(k + f, rel) == (f <= rel ? k : k + 1) || std::fabs(f - rel) < 1e-9, "ceil", k + f << " tolerance " << rel << " gives " << Util::ceil(k + f, rel)); VF_CHECK(c, Util::ceil(double(k)) == k && Util::ceil(k + f) == k + 1, "ceil", k << " " << f);
}
}
void vf_case(vf::Ctx& c) {
    switch (c.rng.range(0, 5)) { case 0: arith<double, 2>(c); break; case 1: arith<double, 4>(c); break; case 2: arith<int, 3>(c); break; case 3: arith<Cx, 3>(c); break; default: arith<double, 3>(c); }
    ordered<double, 3>(c); ordered<int, 3>(c); if (c.rng.chance(0.3)) { ordered<double, 2>(c); ordered<int, 2>(c); ordered<double, 4>(c); }
    geometric(c); local(c); fractional(c); compare(c);
}
