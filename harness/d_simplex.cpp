// Polynomials and simplices of any order: evaluation, products, derivatives,
// node numbering, Lagrange bases and quadrature weights.
#include "vf.h"
#include "math/simplex/Line.h"
#include "math/simplex/Triangle.h"
#include "math/simplex/Tetrahedron.h"
using namespace SEMBA; using namespace SEMBA::Math;
typedef Function::Polynomial<double> Pol;
namespace {
template <std::size_t D> double ev(const Pol& p, const std::vector<double>& x) { Vector::Cartesian<double, D> v; for (std::size_t i = 0; i < D; i++) v(i) = x[i]; return p.eval(v); }
double ev(const Pol& p, const std::vector<double>& x) { switch (x.size()) { case 1: return ev<1>(p, x); case 2: return ev<2>(p, x); case 3: return ev<3>(p, x); default: return ev<4>(p, x); } }
struct Ref { std::vector<std::pair<double, std::vector<int>>> m;
    double operator()(const std::vector<double>& x, double* abs = nullptr) const { double s = 0, a = 0; for (auto& t : m) { double p = t.first; for (std::size_t i = 0; i < x.size(); i++) for (int k = 0; k < t.second[i]; k++) p *= x[i]; s += p; a += std::fabs(p); } if (abs) *abs = a; return s; }
    Ref d(int v) const { Ref r; for (auto t : m) if (t.second[v]) { t.first *= t.second[v]; t.second[v]--; r.m.push_back(t); } return r; } };
std::string show(const Ref& r) { std::ostringstream o; o << std::setprecision(17); for (auto& t : r.m) { o << " + " << t.first; for (std::size_t i = 0; i < t.second.size(); i++) o << "*x" << i << "^" << t.second[i]; } return o.str(); }
void make(vf::Ctx& c, int nv, int maxp, Ref& r, Pol& p) { p = Pol(nv); int n = c.rng.range(1, 6); double sc = c.rng.chance(0.35) ? std::pow(10, c.rng.real(-12, 12)) : 1; for (int i = 0; i < n; i++) { std::vector<int> e(nv); for (auto& x : e) x = c.rng.range(0, maxp); double v = c.rng.chance(0.2) ? 0 : c.rng.chance(0.3) ? c.rng.range(-3, 3) : c.rng.real(-4, 4); v *= sc; if (c.rng.chance(0.1)) v *= std::pow(10, c.rng.range(-9, 0)); r.m.push_back({v, e}); if (nv == 1 && c.rng.chance(0.5)) p.addMonomial(v, e[0]); else p.addMonomial(v, std::vector<Int>(e.begin(), e.end())); c.noteV(v); for (int x : e) c.noteV(x); } }
void polynomial(vf::Ctx& c) {
    int nv = c.rng.range(1, 4); Ref r; Pol p; make(c, nv, 4, r, p); std::string w = show(r); std::vector<double> x(nv); for (auto& v : x) v = c.rng.chance(0.15) ? 0 : c.rng.real(-2, 2); double a;
    c.cov("vars" + std::to_string(nv)); double e = r(x, &a); VF_CHECK(c, std::fabs(ev(p, x) - e) <= 1e-12 * a + 1e-300, "value", w << " gives " << ev(p, x) << " expected " << e);
    int mp = 0; for (auto& t : r.m) for (int k : t.second) mp = std::max(mp, k); VF_CHECK(c, p.maxPower() == mp && p.numberOfVariables() == std::size_t(nv) && p.numberOfMonomials() == r.m.size(), "shape", w);
    for (std::size_t i = 0; i < r.m.size(); i++) { VF_CHECK(c, p.monomialValue(i) == r.m[i].first, "monomial", w); for (int v = 0; v < nv; v++) VF_CHECK(c, p.monomialPower(i, v) == r.m[i].second[v], "monomial", w); }
    { Pol q(p), z; z = p; VF_CHECK(c, q == p && z == p && p == q, "copy-equal", w); std::unique_ptr<Function::Base> cl(p.clone()); VF_CHECK(c, *cl == p, "clone-equal", w); Pol o(p); o.addMonomial(1.5, std::vector<Int>(nv, 1)); VF_CHECK(c, !(o == p), "different-equal", w); }
    { Pol q(p); q.removeZeros(); std::size_t nz = 0; for (auto& t : r.m) nz += t.first != 0; VF_CHECK(c, q.numberOfMonomials() == nz, "zeros-removed", w << " keeps " << q.numberOfMonomials()); VF_CHECK(c, std::fabs(ev(q, x) - e) <= 1e-12 * a + 1e-300, "zeros-removed-value", w); }
    for (int v = 0; v < nv; v++) { Pol q(p); q.derive(v); Ref d = r.d(v); double ad; double ex = d(x, &ad); VF_CHECK(c, std::fabs(ev(q, x) - ex) <= 1e-12 * ad + 1e-300, "derivative", w << " by x" << v << " gives " << ev(q, x) << " expected " << ex); VF_CHECK(c, std::fabs(ev(p, x) - e) <= 1e-12 * a + 1e-300, "derivative-changes-copy", w); }
    double k = c.rng.real(0.5, 3); { Pol q(p); q /= k; VF_CHECK(c, std::fabs(ev(q, x) - e / k) <= 1e-12 * a + 1e-300, "quotient", w); }
    { int nv2 = c.rng.range(1, 4 - std::min(nv, 3)); if (nv + nv2 <= 4) { Ref r2; Pol p2; make(c, nv2, 3, r2, p2); std::vector<double> y(nv2); for (auto& v : y) v = c.rng.real(-2, 2); double a2, e2 = r2(y, &a2); std::vector<double> xy = x; xy.insert(xy.end(), y.begin(), y.end()); Pol q = p ^ p2, z(p); z ^= p2; VF_CHECK(c, q.numberOfVariables() == std::size_t(nv + nv2) && std::fabs(ev(q, xy) - e * e2) <= 1e-11 * a * a2 + 1e-300 && z == q, "outer-product", w << " and " << show(r2)); c.ev("outer-products"); } }
    if (nv == 2) { Matrix::Dynamic<double> m(c.rng.range(1, 5), c.rng.range(2, 5)); double e2 = 0, a2 = 0; for (std::size_t i = 0; i < m.nRows(); i++) for (std::size_t j = 0; j < m.nCols(); j++) { m(i, j) = c.rng.chance(0.3) ? 0 : c.rng.real(-4, 4) * (c.rng.chance(0.2) ? 1e-11 : 1); double t = m(i, j) * std::pow(x[0], i) * std::pow(x[1], j); e2 += t; a2 += std::fabs(t); } Pol q = p.matrixToPolynomial(m); VF_CHECK(c, q.numberOfVariables() == 2 && std::fabs(ev(q, x) - e2) <= 1e-12 * a2 + 1e-300, "table", w); c.ev("tables"); }
    { Ref r1, r2; Pol p1, p2; make(c, 1, 5, r1, p1); make(c, 1, 5, r2, p2); double t = c.rng.real(-2, 2), a1, a2, e1 = r1({t}, &a1), e2 = r2({t}, &a2); Pol q = p1 * p2, z(p1); z *= p2; VF_CHECK(c, std::fabs(q(t) - e1 * e2) <= 1e-11 * a1 * a2 + 1e-300, "product", show(r1) << " times " << show(r2) << " at " << t << " gives " << q(t) << " expected " << e1 * e2); VF_CHECK(c, z == q, "product-assign", show(r1) << " times " << show(r2)); VF_CHECK(c, std::fabs(p1(t) - e1) <= 1e-12 * a1 + 1e-300 && std::fabs(p2(t) - e2) <= 1e-12 * a2 + 1e-300, "product-changes-operand", show(r1)); c.ev("products");
      Matrix::Dynamic<double> m = p1.polynomialToMatrix(); Pol b = p1.matrixToPolynomial(m); VF_CHECK(c, std::fabs(b(t) - e1) <= 1e-12 * a1 + 1e-300, "coefficients", show(r1)); std::vector<double> v(m.nRows()); for (std::size_t i = 0; i < v.size(); i++) v[i] = m(i, 0); Pol f = p1.vectorToPolynomial(v.data(), v.size(), 1); VF_CHECK(c, f == b, "coefficients", show(r1)); }
}
template <class S> struct Side { static void check(vf::Ctx& c, const S& s, std::size_t N, const std::string& w) { VF_CHECK(c, s.sideNode(0, 0) == 0 && s.sideNode(1, 0) == N && s.vertex(0) == 0 && s.vertex(1) == N, "faces", w); } };
template <std::size_t N> struct Side<Simplex::Triangle<N>> { static void check(vf::Ctx& c, const Simplex::Triangle<N>& s, std::size_t, const std::string& w) {
    for (std::size_t f = 0; f < 3; f++) { for (std::size_t i = 0; i <= N; i++) { std::size_t n = s.sideNode(f, i); for (std::size_t j = 0; j < 3; j++) VF_CHECK(c, s.nodeIndex(n, j) == (j == f ? N - i : j == (f + 1) % 3 ? i : 0), "faces", w << ": node " << i << " of side " << f << " is node " << n); }
        VF_CHECK(c, s.nodeIndex(s.vertex(f), f) == N && s.sideVertex(f, 0) == s.vertex(f) && s.sideVertex(f, 1) == s.vertex((f + 1) % 3), "vertices", w << ": side " << f << " has vertices " << s.sideVertex(f, 0) << " " << s.sideVertex(f, 1)); }
    for (std::size_t i = 0; i < S::np; i++) { auto x = s.coordinate(i); for (std::size_t j = 0; j < 3; j++) VF_CHECK(c, std::fabs(x(j) - double(s.nodeIndex(i, j)) / N) < 1e-12, "node-position", w); } }
    typedef Simplex::Triangle<N> S; };
template <std::size_t N> struct Side<Simplex::Tetrahedron<N>> { typedef Simplex::Tetrahedron<N> S; static void check(vf::Ctx& c, const S& s, std::size_t, const std::string& w) {
    static const std::size_t F[4][3] = {{0, 1, 2}, {1, 0, 3}, {2, 3, 0}, {3, 2, 1}}; Simplex::Triangle<N> t;
    for (std::size_t f = 0; f < 4; f++) { for (std::size_t i = 0; i < S::nfp; i++) { std::size_t n = s.sideNode(f, i), want[4] = {0, 0, 0, 0}; for (int k = 0; k < 3; k++) want[F[f][k]] = t.nodeIndex(i, k); auto x = s.sideCoordinate(f, i); for (int j = 0; j < 4; j++) VF_CHECK(c, s.nodeIndex(n, j) == want[j] && std::fabs(x(j) - double(want[j]) / N) < 1e-12, "faces", w << ": node " << i << " of face " << f << " is node " << n); }
        VF_CHECK(c, s.nodeIndex(s.vertex(f), f) == N, "vertices", w); for (int k = 0; k < 3; k++) VF_CHECK(c, s.sideVertex(f, k) == s.vertex(F[f][k]), "vertices", w << ": vertex " << k << " of face " << f << " is " << s.sideVertex(f, k)); }
    for (std::size_t i = 0; i < S::np; i++) { auto x = s.coordinate(i); for (std::size_t j = 0; j < 4; j++) VF_CHECK(c, std::fabs(x(j) - double(s.nodeIndex(i, j)) / N) < 1e-12, "node-position", w); } } };
double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
template <class S> void simplex(vf::Ctx& c, std::size_t N, const char* nm) {
    S s; const std::size_t np = S::np, D = S::nsc; std::string w = std::string(nm) + " of order " + std::to_string(N); c.cov(w); double tol = 1e-10 * std::pow(8.0, double(N));
    std::vector<std::vector<std::size_t>> ix(np, std::vector<std::size_t>(D)); for (std::size_t i = 0; i < np; i++) { std::size_t sum = 0; for (std::size_t j = 0; j < D; j++) sum += ix[i][j] = s.nodeIndex(i, j); VF_CHECK(c, sum == N, "node-index", w << " node " << i); if (i) VF_CHECK(c, ix[i] < ix[i - 1], "node-order", w << " node " << i); }
    Side<S>::check(c, s, N, w);
    std::vector<double> wt = s.getWeights(); VF_CHECK(c, wt.size() == np, "weights", w); double sw = 0; for (double x : wt) sw += x; VF_CHECK(c, std::fabs(sw - 1) < tol, "weights-sum", w << " gives " << sw);
    for (std::size_t i = 0; i < np; i++) for (std::size_t j = 0; j < np; j++) { std::vector<double> x(D); for (std::size_t k = 0; k < D; k++) x[k] = double(ix[j][k]) / N; VF_CHECK(c, std::fabs(ev(s.getLagr(i), x) - (i == j)) < tol, "lagrange-nodes", w << " base " << i << " at node " << j << " is " << ev(s.getLagr(i), x)); }
    for (int t = 0; t < 5; t++) { std::vector<double> x(D); double q = 0; for (auto& v : x) q += v = c.rng.real(0.01, 1); for (auto& v : x) v /= q; double one = 0; std::vector<double> rep(D); for (std::size_t i = 0; i < np; i++) { double l = ev(s.getLagr(i), x); one += l; for (std::size_t k = 0; k < D; k++) rep[k] += l * ix[i][k] / N; 
            for (std::size_t k = 0; k < D; k++) { double h = 1e-5; auto xp = x, xm = x; xp[k] += h; xm[k] -= h; double fd = (ev(s.getLagr(i), xp) - ev(s.getLagr(i), xm)) / (2 * h); if (t == 0) VF_CHECK(c, std::fabs(fd - ev(s.getDLagr(i, k), x)) < 1e-4 * std::pow(6.0, double(N)), "lagrange-derivative", w << " base " << i << " by " << k); } }
        VF_CHECK(c, std::fabs(one - 1) < tol, "partition-of-unity", w << " gives " << one); for (std::size_t k = 0; k < D; k++) VF_CHECK(c, std::fabs(rep[k] - x[k]) < tol, "reproduces-positions", w); }
    // the weights integrate every monomial of degree up to the order exactly
    for (int t = 0; t < 6; t++) { std::vector<int> e(D); int left = N; for (auto& v : e) { v = c.rng.range(0, left); left -= v; } int sum = 0; double ex = fact(D - 1); for (int v : e) { sum += v; ex *= fact(v); } ex /= fact(sum + int(D) - 1); double q = 0; for (std::size_t i = 0; i < np; i++) { double m = wt[i]; for (std::size_t k = 0; k < D; k++) for (int z = 0; z < e[k]; z++) m *= double(ix[i][k]) / N; q += m; } VF_CHECK(c, std::fabs(q - ex) < tol, "quadrature", w << " gives " << q << " expected " << ex); }
    c.ev("simplices");
}
}
#define L(n) VF_PROBE("line" #n) { simplex<Simplex::Line<n>>(c, n, "line"); c.note("line" #n); c.interesting = true; }
#define T(n) static void tri##n(vf::Ctx& c) { simplex<Simplex::Triangle<n>>(c, n, "triangle"); c.note("triangle" #n); c.interesting = true; } static vf::RegProbe rt##n("triangle" #n, tri##n);
#define H(n) static void tet##n(vf::Ctx& c) { simplex<Simplex::Tetrahedron<n>>(c, n, "tetrahedron"); c.note("tetrahedron" #n); c.interesting = true; } static vf::RegProbe rh##n("tetrahedron" #n, tet##n);
L(1)
L(2)
L(3)
L(4)
L(5)
L(6)
L(8)
T(1) T(2) T(3) T(4) T(5) T(6)
H(1) H(2) H(3) H(4)
void vf_case(vf::Ctx& c) { c.interesting = true; polynomial(c); }
