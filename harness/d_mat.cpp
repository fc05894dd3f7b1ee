// Matrices of run-time and compile-time size, against a reference on nested vectors.
#include "vf.h"
#include "math/matrix/Dynamic.h"
#include "math/matrix/Static.h"
using namespace SEMBA; using namespace SEMBA::Math;
typedef std::complex<double> Cx;
template <class T> using V2 = std::vector<std::vector<T>>;
namespace {
template <class T> T value(vf::Ctx& c, int mode);
template <> int value<int>(vf::Ctx& c, int mode) { return mode ? c.rng.range(-2, 2) : c.rng.range(-20, 20); }
template <> double value<double>(vf::Ctx& c, int mode) { return mode == 1 ? c.rng.range(-3, 3) : mode == 2 ? c.rng.real(-1, 1) * std::pow(10, c.rng.range(-3, 3)) : c.rng.real(-5, 5); }
template <> Cx value<Cx>(vf::Ctx& c, int mode) { return Cx(value<double>(c, mode), value<double>(c, mode)); }
template <class T> V2<T> rnd(vf::Ctx& c, int r, int n, int mode) { V2<T> v(r, std::vector<T>(n)); for (auto& x : v) for (auto& y : x) { y = value<T>(c, mode); c.noteV(y); } return v; }
template <class T> Matrix::Dynamic<T> dyn(const V2<T>& v, int how) {
    std::size_t r = v.size(), n = r ? v[0].size() : 0;
    if (how == 0) { Matrix::Dynamic<T> m; m.copy(v); return m; }
    if (how == 1) { std::vector<T*> p; V2<T> w = v; for (auto& x : w) p.push_back(x.data()); return Matrix::Dynamic<T>(r, n, p.data()); }
    Matrix::Dynamic<T> m(r, n); for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < n; j++) if (how == 2) m(i, j) = v[i][j]; else m.val(i * n + j) = v[i][j]; return m;
}
template <class M, class T> double dist(const M& m, const V2<T>& v) { std::size_t r = v.size(), n = r ? v[0].size() : 0; if (m.nRows() != r || m.nCols() != n) return 1e300; double d = 0; for (std::size_t i = 0; i < r; i++) for (std::size_t j = 0; j < n; j++) d = std::max(d, double(std::abs(m(i, j) - v[i][j]))); return d; }
template <class T> V2<T> mul(const V2<T>& a, const V2<T>& b) { V2<T> r(a.size(), std::vector<T>(b[0].size())); for (std::size_t i = 0; i < a.size(); i++) for (std::size_t j = 0; j < b[0].size(); j++) { T s = T(); for (std::size_t k = 0; k < b.size(); k++) s += a[i][k] * b[k][j]; r[i][j] = s; } return r; }
template <class T> std::string show(const V2<T>& v) { std::ostringstream o; o << std::setprecision(17) << v.size() << "x" << (v.empty() ? 0 : v[0].size()) << " "; for (auto& x : v) { o << "["; for (auto& y : x) o << y << " "; o << "]"; } return o.str(); }

template <class T> void algebra(vf::Ctx& c, const char* tn) {
    int mode = c.rng.range(0, 2); bool big = c.rng.chance(0.02); int r = c.rng.range(1, 5), n = c.rng.range(1, big ? 24 : 5), q = c.rng.range(1, 5); if (big) { c.cov("wide"); if (c.rng.chance(0.5)) std::swap(r, n); else std::swap(q, n); } double tol = 1e-6;
    V2<T> a = rnd<T>(c, r, n, mode), a2 = rnd<T>(c, r, n, mode), b = rnd<T>(c, n, q, mode); T k = value<T>(c, mode);
    typedef Matrix::Dynamic<T> D; D A = dyn(a, c.rng.range(0, 3)), A2 = dyn(a2, 0), B = dyn(b, 1); std::string w = show(a) + " and " + show(a2) + " and " + show(b) + " factor " + vf::str(k); c.cov(std::string("algebra-") + tn);
    VF_CHECK(c, dist(A, a) == 0, "stored-values", w); VF_CHECK(c, A.size() == std::size_t(r * n) && A.nRows() == std::size_t(r) && A.nCols() == std::size_t(n), "size", w);
    V2<T> s = a, m = a; for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) { s[i][j] += a2[i][j]; m[i][j] *= k; }
    VF_CHECK(c, dist(A + A2, s) < tol, "sum", w); VF_CHECK(c, dist(A * k, m) < tol, "scaled", w);
    { D x(A); x += A2; VF_CHECK(c, dist(x, s) < tol, "add-assign", w); x = A; x *= k; VF_CHECK(c, dist(x, m) < tol, "scale-assign", w); V2<T> t = a; for (auto& u : t) for (auto& v : u) v += k; x = A; x += k; VF_CHECK(c, dist(x, t) < tol, "add-assign-scalar", w); VF_CHECK(c, dist(A, a) == 0, "copy-shares", w); x = x; VF_CHECK(c, dist(x, t) < tol, "self-assign", w); D z; z = A; z = D(); VF_CHECK(c, z.nRows() == 0 && z.nCols() == 0, "empty", w); z = A; VF_CHECK(c, dist(z, a) == 0, "assign", w); }
    VF_CHECK(c, dist(A * B, mul(a, b)) < tol, "product", w << " gives another product"); VF_CHECK(c, dist(A, a) == 0 && dist(B, b) == 0, "operand-changed", w);
    { V2<T> t(n, std::vector<T>(r)); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) t[j][i] = a[i][j]; D x(A); VF_CHECK(c, dist(x.transpose(), t) == 0 && dist(x, t) == 0, "transpose", w); VF_CHECK(c, dist(x.transpose(), a) == 0, "transpose-twice", w); }
    { V2<T> kr(r * n, std::vector<T>(n * q)); for (int i = 0; i < r; i++) for (int j = 0; j < n; j++) for (int u = 0; u < n; u++) for (int v = 0; v < q; v++) kr[i * n + u][j * q + v] = a[i][j] * b[u][v]; D x = A.kron(B); VF_CHECK(c, dist(x, kr) < tol, "kronecker", w << " gives " << x.nRows() << "x" << x.nCols()); }
    { std::pair<std::size_t, std::size_t> pr(c.rng.range(0, r - 1), 0), pc(c.rng.range(0, n - 1), 0); pr.second = c.rng.range(pr.first, r - 1); pc.second = c.rng.range(pc.first, n - 1);
      V2<T> t; for (std::size_t i = pr.first; i <= pr.second; i++) t.push_back(std::vector<T>(a[i].begin() + pc.first, a[i].begin() + pc.second + 1));
      VF_CHECK(c, dist(A.sub(pr, pc), t) == 0, "part", w); VF_CHECK(c, dist(A.copy(pr.first, pr.second + 1, pc.first, pc.second + 1), t) == 0, "part-copy", w);
      if (pc.second - pc.first + 1 < std::size_t(n)) { V2<T> e = a; for (auto& x : e) x.erase(x.begin() + pc.first, x.begin() + pc.second + 1); VF_CHECK(c, dist(A.eliminateColumns(pc.first, pc.second), e) == 0, "columns-removed", w << " columns " << pc.first << " to " << pc.second); } }
    { int i = c.rng.range(0, r - 1), j = c.rng.range(0, n - 1); VF_CHECK(c, A.cpRowToVector(i) == a[i], "row", w); std::vector<T> rv(n), cv(r); for (auto& x : rv) x = value<T>(c, mode); for (auto& x : cv) x = value<T>(c, mode); D x(A); x.cpToRow(i, rv); V2<T> e = a; e[i] = rv; VF_CHECK(c, dist(x, e) == 0, "row-set", w); x = A; x.cpToCol(j, cv); e = a; for (int u = 0; u < r; u++) e[u][j] = cv[u]; VF_CHECK(c, dist(x, e) == 0, "column-set", w); x = cv; VF_CHECK(c, x.nCols() == 1 && x.nRows() == cv.size() && dist(x.transpose(), V2<T>{cv}) == 0, "from-vector", w); x = A; x.zeros(); VF_CHECK(c, dist(x, V2<T>(r, std::vector<T>(n))) == 0, "zeros", w); }
    { bool sq = r == n, sy = sq; for (int i = 0; sq && i < r; i++) for (int j = 0; j < n; j++) sy = sy && a[i][j] == a[j][i]; VF_CHECK(c, A.isSquare() == sq, "square", w); VF_CHECK(c, A.isSymmetric() == sy, "symmetric", w);
      if (sq) { D x(A); x.cpLowerTri2UpperTri(); V2<T> e = a; for (int i = 0; i < r; i++) for (int j = i + 1; j < r; j++) e[i][j] = a[j][i]; VF_CHECK(c, dist(x, e) == 0 && x.isSymmetric(), "mirrored", w); x.eye(); V2<T> id(r, std::vector<T>(r)); for (int i = 0; i < r; i++) id[i][i] = T(1); VF_CHECK(c, dist(x, id) == 0, "identity", w); VF_CHECK(c, dist(A * x, a) == 0, "identity", w); } }
    { V2<T> u = rnd<T>(c, c.rng.range(1, 6), 1, mode), v = rnd<T>(c, c.rng.range(1, 6), 1, mode), e(u.size() + v.size() - 1, std::vector<T>(1)); for (std::size_t i = 0; i < u.size(); i++) for (std::size_t j = 0; j < v.size(); j++) e[i + j][0] += u[i][0] * v[j][0]; VF_CHECK(c, dist(dyn(u, 0).convolute(dyn(v, 0)), e) < tol, "convolution", show(u) << " and " << show(v)); }
}
template <class T> void equality(vf::Ctx& c) {
    int r = c.rng.range(1, 4), n = c.rng.range(1, 4); V2<T> a = rnd<T>(c, r, n, 1), b = a; bool diff = c.rng.chance(0.6); if (diff) b[c.rng.range(0, r - 1)][c.rng.range(0, n - 1)] += T(c.rng.chance(0.5) ? 1 : -1);
    VF_CHECK(c, (dyn(a, 0) == dyn(b, 2)) == !diff, "equality", show(a) << " and " << show(b)); VF_CHECK(c, !(Matrix::Dynamic<T>(r, n) == Matrix::Dynamic<T>(r + 1, n)) && !(Matrix::Dynamic<T>(r, n) == Matrix::Dynamic<T>(n, r + n)), "equality-size", show(a));
    double mx = -1e9, mc = -1e9; int j = c.rng.range(0, n - 1); for (auto& x : a) { for (auto& y : x) mx = std::max(mx, double(y)); mc = std::max(mc, double(x[j])); } auto A = dyn(a, 0); VF_CHECK(c, A.maxVal() == T(mx) && A.maxValInCol(j) == T(mc), "maximum", show(a));
    std::vector<double> out(r * n); A.convertToArray(MATRICES_ROW_MAJOR, out.data()); for (int i = 0; i < r; i++) for (int k = 0; k < n; k++) VF_CHECK(c, out[i * n + k] == a[i][k], "row-major", show(a)); A.convertToArray(MATRICES_COL_MAJOR, out.data()); for (int i = 0; i < r; i++) for (int k = 0; k < n; k++) VF_CHECK(c, out[k * r + i] == a[i][k], "column-major", show(a));
    if (n == 3) { auto v = A.convertToCartesianVector(); VF_CHECK(c, v.size() == std::size_t(r), "to-vectors", show(a)); for (int i = 0; i < r; i++) for (int k = 0; k < 3; k++) VF_CHECK(c, v[i](k) == a[i][k], "to-vectors", show(a)); }
}
template <class T> void sorting(vf::Ctx& c) {
    int r = c.rng.chance(0.1) ? 1 : c.rng.chance(0.03) ? c.rng.range(200, 700) : c.rng.range(1, c.thorough ? 60 : 25), n = c.rng.range(1, 4); V2<T> a = rnd<T>(c, r, n, c.rng.chance(0.7) ? 1 : 0); if (c.rng.chance(0.2)) std::sort(a.begin(), a.end()); else if (c.rng.chance(0.2)) std::sort(a.rbegin(), a.rend());
    std::string w = show(a); c.ev("sorts");
    auto S = dyn(a, 0); V2<T> e = a; std::sort(e.begin(), e.end()); S.sortRows(); VF_CHECK(c, dist(S, e) == 0, "sort-rows", w);
    { V2<T> u = e; u.erase(std::unique(u.begin(), u.end()), u.end()); auto x = S; x.removeRepeatedSortedRows(); VF_CHECK(c, dist(x, u) == 0, "unique-rows", w << " gives " << x.nRows() << " rows, expected " << u.size()); auto y = dyn(a, 0); if (c.rng.chance(0.5)) y.sortAndRemoveRepeatedRows(); else y.sortAndRemoveRepeatedRows_omp(); VF_CHECK(c, dist(y, u) == 0, "sort-unique-rows", w); }
    { std::size_t i = c.rng.range(0, n - 1), j = c.rng.range(i, n - 1); auto x = dyn(a, 0); if (c.rng.chance(0.5)) x.sortRows(i, j); else x.sortRows_omp(i, j); V2<T> g; for (int k = 0; k < r; k++) g.push_back(x.cpRowToVector(k)); auto key = [&](const std::vector<T>& v) { return std::vector<T>(v.begin() + i, v.begin() + j + 1); };
      for (int k = 1; k < r; k++) VF_CHECK(c, !(key(g[k]) < key(g[k - 1])), "sort-by-columns", w << " columns " << i << " to " << j << " gives " << show(g)); V2<T> p = g; std::sort(p.begin(), p.end()); VF_CHECK(c, p == e, "sort-keeps-rows", w << " gives " << show(g));
      // merge of two sorted matrices
      V2<T> b2 = rnd<T>(c, c.rng.range(1, 8), n, 1); auto y = dyn(b2, 0); y.sortRows(i, j); auto z = x; z.mergeSortedRows(y, i, j); V2<T> all; for (std::size_t k = 0; k < z.nRows(); k++) all.push_back(z.cpRowToVector(k)); V2<T> u = a; u.insert(u.end(), b2.begin(), b2.end());
      for (std::size_t k = 1; k < all.size(); k++) VF_CHECK(c, !(key(all[k]) < key(all[k - 1])), "merge-order", w << " with " << show(b2) << " gives " << show(all)); std::sort(all.begin(), all.end()); std::sort(u.begin(), u.end()); VF_CHECK(c, all == u, "merge-rows", w << " with " << show(b2)); }
    // search
    for (int t = 0; t < 4; t++) { std::size_t col = c.rng.range(0, n - 1), len = c.rng.range(1, n - col); auto x = dyn(a, 0); x.sortRows(col, col + len - 1); std::vector<T> k(len); if (c.rng.chance(0.7)) { auto& row = a[c.rng.range(0, r - 1)]; for (std::size_t q = 0; q < len; q++) k[q] = row[col + q]; } else for (auto& q : k) q = value<T>(c, 1);
      std::size_t want = r; for (int i = r - 1; i >= 0; i--) { bool eq = true; for (std::size_t q = 0; q < len; q++) eq = eq && x(i, col + q) == k[q]; if (eq) want = i; }
      std::size_t got = x.findFirstOcurrenceInColumns(k.data(), col, len); VF_CHECK(c, got == want, "search", w << " gives row " << got << " expected " << want); c.ev(want == std::size_t(r) ? "absent" : "found"); }
}
double cond(const V2<double>&) { return 1; }
template <class T> V2<T> wellConditioned(vf::Ctx& c, int n) { V2<T> a = rnd<T>(c, n, n, 0); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += std::abs(a[i][j]); a[i][i] += T(c.rng.chance(0.5) ? s : -s - 1) + T(0.5); } if (c.rng.chance(0.5)) c.rng.shuffle(a); return a; }
template <class T> void inverse(vf::Ctx& c) {
    int n = c.rng.range(1, 6); V2<T> a = wellConditioned<T>(c, n), id(n, std::vector<T>(n)); if (c.rng.chance(0.3) && n > 1) { id[0][0] = T(); a.assign(n, std::vector<T>(n)); std::vector<int> p(n); for (int i = 0; i < n; i++) p[i] = i; c.rng.shuffle(p); for (int i = 0; i < n; i++) a[i][p[i]] = T(c.rng.range(1, 5)); }
    for (int i = 0; i < n; i++) id[i][i] = T(1); std::string w = show(a); c.ev("inverted");
    auto A = dyn(a, 0); auto I = A.invert(); VF_CHECK(c, dist(A, a) == 0, "inverse-changes-operand", w); VF_CHECK(c, dist(A * I, id) < 1e-8 && dist(I * A, id) < 1e-8, "inverse", w);
}
void singular(vf::Ctx& c) {
    int n = c.rng.range(1, 5); V2<double> a = rnd<double>(c, n, n, 1); int z = c.rng.range(0, n - 1); bool row = c.rng.chance(0.5); for (int i = 0; i < n; i++) (row ? a[z][i] : a[i][z]) = 0; auto A = dyn(a, 0); c.ev("singular"); 
    std::string t = vf::thrown([&] { A.invert(); }); VF_CHECK(c, t.find("out_of_range") != std::string::npos, "singular-accepted", show(a) << ": " << t); VF_CHECK(c, dist(A, a) == 0, "singular-changes-operand", show(a));
    if (n == 3) { MatR33 s; s.copy(a); t = vf::thrown([&] { s.invert(); }); VF_CHECK(c, t.find("out_of_range") != std::string::npos, "singular-accepted", show(a) << ": " << t); }
}
void factor(vf::Ctx& c) {
    int n = c.rng.range(1, 5); V2<double> a = wellConditioned<double>(c, n); std::string w = show(a); auto A = dyn(a, 0); Matrix::Dynamic<double> Q(n, n), R(n, n); VF_CHECK(c, A.factorizeQR_(Q, R), "qr", w);
    VF_CHECK(c, dist(A, a) == 0, "qr-changes-operand", w); VF_CHECK(c, dist(Q * R, a) < 1e-8, "qr-product", w); V2<double> id(n, std::vector<double>(n)); for (int i = 0; i < n; i++) id[i][i] = 1; auto Qt = Q; Qt.transpose(); VF_CHECK(c, dist(Qt * Q, id) < 1e-8, "qr-orthogonal", w); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) VF_CHECK(c, std::fabs(R(i, j)) < 1e-10, "qr-triangular", w); c.ev("factorized");
}
double det(const V2<double>& a) { std::size_t n = a.size(); if (n == 1) return a[0][0]; double s = 0; for (std::size_t j = 0; j < n; j++) { V2<double> m; for (std::size_t i = 1; i < n; i++) { std::vector<double> r; for (std::size_t k = 0; k < n; k++) if (k != j) r.push_back(a[i][k]); m.push_back(r); } s += (j % 2 ? -1 : 1) * a[0][j] * det(m); } return s; }
template <class T, std::size_t R, std::size_t N> Matrix::Static<T, R, N> sta(const V2<T>& v) { Matrix::Static<T, R, N> m; m.copy(v); return m; }
template <class T, std::size_t R, std::size_t N, std::size_t Q> void fixedSize(vf::Ctx& c) {
    V2<T> a = rnd<T>(c, R, N, 0), a2 = rnd<T>(c, R, N, 0), b = rnd<T>(c, N, Q, 0); T k = value<T>(c, 0); double tol = 1e-9; auto A = sta<T, R, N>(a), A2 = sta<T, R, N>(a2); auto B = sta<T, N, Q>(b); std::string w = show(a) + " and " + show(a2) + " and " + show(b); c.cov("fixed" + std::to_string(R) + std::to_string(N));
    V2<T> s = a, d = a, m = a, t(N, std::vector<T>(R)); for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < N; j++) { s[i][j] += a2[i][j]; d[i][j] -= a2[i][j]; m[i][j] *= k; t[j][i] = a[i][j]; }
    VF_CHECK(c, dist(A, a) == 0 && A.nRows() == R && A.nCols() == N && A.size() == R * N, "fixed-values", w); VF_CHECK(c, dist(A + A2, s) < tol, "fixed-sum", w); VF_CHECK(c, dist(A * k, m) < tol, "fixed-scaled", w); VF_CHECK(c, dist(A * B, mul(a, b)) < tol, "fixed-product", w); VF_CHECK(c, dist(A.transpose(), t) == 0, "fixed-transpose", w);
    Matrix::Static<T, R, N> x(A); x += A2; VF_CHECK(c, dist(x, s) < tol, "fixed-add", w); x = A; x -= A2; VF_CHECK(c, dist(x, d) < tol, "fixed-subtract", w); x = A; x *= k; VF_CHECK(c, dist(x, m) < tol, "fixed-scale", w); VF_CHECK(c, dist(A, a) == 0, "fixed-operand-changed", w);
    if (std::abs(k) > 0.1) { x = A; x *= k; x /= k; VF_CHECK(c, dist(x, a) < tol, "fixed-quotient", w); }
    VF_CHECK(c, A == A && (A == A2) == (dist(A, a2) < 1e-12), "fixed-equality", w); { auto y = A; y(c.rng.range(0, R - 1), c.rng.range(0, N - 1)) += T(c.rng.chance(0.5) ? 1 : -1); VF_CHECK(c, !(y == A) && !(A == y) && A == A, "fixed-equality", w << " with another entry"); }
    Vector::Cartesian<T, N> v; for (std::size_t i = 0; i < N; i++) v(i) = value<T>(c, 0); auto r = A * v; for (std::size_t i = 0; i < R; i++) { T e = T(); for (std::size_t j = 0; j < N; j++) e += a[i][j] * v(j); VF_CHECK(c, std::abs(r(i) - e) < tol, "fixed-times-vector", w << " times " << v << " gives " << r); }
    auto P = A * dyn(b, 0); VF_CHECK(c, dist(P, mul(a, b)) < tol, "fixed-times-dynamic", w);
    for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < N; j++) VF_CHECK(c, A.val(i, j) == a[i][j] && A.val(i * N + j) == a[i][j], "fixed-index", w);
}
void fixedReal(vf::Ctx& c) {
    V2<double> a = rnd<double>(c, 3, 3, 0), b = rnd<double>(c, 4, 4, 0); VF_CHECK(c, vf::near((sta<double, 3, 3>(a).getDeterminant3x3()), det(a), 1e-9, 1e-9), "determinant3", show(a)); VF_CHECK(c, vf::near((sta<double, 4, 4>(b).getDeterminant4x4()), det(b), 1e-9, 1e-8), "determinant4", show(b));
    V2<double> q = wellConditioned<double>(c, 3), id{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}; auto Q = sta<double, 3, 3>(q), I = Q; VF_CHECK(c, &I.invert() == &I && dist(I * Q, id) < 1e-8, "fixed-inverse", show(q)); 
    V2<double> u = rnd<double>(c, 2, 2, 1), v = c.rng.chance(0.4) ? u : rnd<double>(c, 2, 2, 1); if (c.rng.chance(0.5)) v[0] = u[0]; VF_CHECK(c, (sta<double, 2, 2>(u) < sta<double, 2, 2>(v)) == (u < v), "fixed-order", show(u) << " and " << show(v));
    CVecR3 g(c.rng.real(-1, 1), c.rng.real(-1, 1), c.rng.real(-1, 1)); MatR33 dg; dg.setInDiagonal(g); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) VF_CHECK(c, dg(i, j) == (i == j ? g(i) : 0), "diagonal", g);
    MatR33 e; auto D = dyn(a, 0); e = D; VF_CHECK(c, dist(e, a) == 0, "from-dynamic", show(a)); V2<int> ai = rnd<int>(c, 3, 3, 0); auto Di = dyn(ai, 0); e = Di; VF_CHECK(c, dist(e, ai) == 0, "from-dynamic-int", show(ai)); Matrix::Dynamic<int> ci; Matrix::Dynamic<double> cd; cd.copy(dyn(a, 0)); VF_CHECK(c, dist(cd, a) == 0, "copy-real", show(a));
}
}
void vf_case(vf::Ctx& c) {
    struct Mute { std::streambuf* o; Mute() : o(std::cout.rdbuf(nullptr)) {} ~Mute() { std::cout.rdbuf(o); std::cout.clear(); } } mute;
    c.interesting = true;
    switch (c.rng.range(0, 2)) { case 0: algebra<double>(c, "real"); break; case 1: algebra<int>(c, "int"); break; default: algebra<Cx>(c, "complex"); }
    equality<double>(c); equality<int>(c); sorting<int>(c); sorting<double>(c); inverse<double>(c); inverse<Cx>(c); singular(c); factor(c);
    fixedSize<double, 3, 3, 3>(c); fixedSize<double, 4, 3, 2>(c); fixedSize<int, 2, 3, 4>(c); fixedSize<Cx, 2, 2, 2>(c); fixedReal(c);
}
