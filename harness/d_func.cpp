// Time functions, interpolation from tables and files, spectra and spacings.
#include "vf.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include "math/util/SpaceGenerator.h"
#include "math/util/Statistic.h"
#include "math/util/DTFT.h"
using namespace SEMBA; using namespace SEMBA::Math;
typedef Function::LinearInterpolation<double, double> Lin;
namespace {
double ref(const std::map<double, double>& m, double x) {
    if (x <= m.begin()->first) return m.begin()->second; if (x >= m.rbegin()->first) return m.rbegin()->second;
    auto u = m.upper_bound(x), l = std::prev(u); double t = (x - l->first) / (u->first - l->first); return l->second + t * (u->second - l->second);
}
void interpolation(vf::Ctx& c) {
    int n = c.rng.range(1, 12); std::vector<std::pair<double, double>> xy; std::map<double, double> m; double sx = std::pow(10, c.rng.range(-9, 3)), sy = std::pow(10, c.rng.range(-3, 6));
    for (int i = 0; i < n; i++) { double x = sx * (c.rng.chance(0.3) ? c.rng.range(-3, 3) : c.rng.real(-10, 10)), y = sy * (c.rng.chance(0.2) ? 0 : c.rng.real(-1, 1)); bool near = false; for (auto& p : m) near = near || std::fabs(p.first - x) < 1e-3 * sx; if (near) continue; xy.push_back({x, y}); m.insert({x, y}); c.noteV(x); c.noteV(y); }
    if (c.rng.chance(0.3)) std::sort(xy.begin(), xy.end()); std::ostringstream ws; ws << std::setprecision(17); for (auto& p : xy) ws << "(" << p.first << "," << p.second << ")"; std::string w = ws.str(); c.cov("table" + std::to_string(m.size()));
    const Lin l(xy); std::unique_ptr<Lin> k(l.clone());
    auto look = [&](const Lin& f, const char* how) {
        for (auto& p : m) VF_CHECK(c, f(p.first) == p.second, "at-node", w << " " << how << " at " << p.first << " gives " << f(p.first));
        for (int t = 0; t < 12; t++) { double x = c.rng.chance(0.2) ? sx * c.rng.real(-30, 30) : c.rng.real(m.begin()->first, m.rbegin()->first), e = ref(m, x); VF_CHECK(c, std::fabs(f(x) - e) <= 1e-8 * sy && f.eval(x) == f(x), "between-nodes", w << " " << how << " at " << x << " gives " << f(x) << " expected " << e); c.ev("interpolated"); } };
    look(l, "table"); look(*k, "clone"); VF_CHECK(c, l == *k && *k == l, "clone-equal", w);
    { auto o = xy; o[c.rng.range(0, o.size() - 1)].second += sy; bool diff = false; std::map<double, double> mo; for (auto& p : o) mo.insert(p); diff = mo != m; VF_CHECK(c, (l == Lin(o)) == !diff, "equality", w); o = xy; double sh = c.rng.chance(0.5) ? sx : sx * 1e-3; if (c.rng.chance(0.5)) for (auto& p : o) p.first += sh; else o[0].first += sh; std::map<double, double> ms; for (auto& p : o) ms.insert(p); VF_CHECK(c, (l == Lin(o)) == (ms == m) && (Lin(o) == l) == (ms == m), "equality-of-shifted", w); if (o.size() > 1) { o.pop_back(); std::map<double, double> mp; for (auto& p : o) mp.insert(p); VF_CHECK(c, (l == Lin(o)) == (mp == m), "equality-of-shorter", w); } VF_CHECK(c, !(l == Function::Gaussian(1, 2)), "equality-kind", w); }
    // the same table from a file, with several layouts
    { std::string fn = c.file("table.txt"); std::ofstream f(fn); f << std::setprecision(17); const char* sep = c.rng.chance(0.5) ? " " : c.rng.chance(0.5) ? "\t" : "   "; bool last = c.rng.chance(0.5), blank = c.rng.chance(0.3); for (std::size_t i = 0; i < xy.size(); i++) { f << xy[i].first << sep << xy[i].second; if (i + 1 < xy.size() || last) f << "\n"; if (blank) f << "\n \n"; } f.close();
      Lin r(fn); VF_CHECK(c, r == l, "from-file", w << (last ? " with" : " without") << " a line end after the last row"); look(r, "file"); c.ev("files"); std::remove(fn.c_str());
      VF_CHECK(c, !vf::thrown([&] { Lin x(c.file("absent.txt")); }).empty(), "absent-file", "accepted"); { std::ofstream g(fn); g << (c.rng.chance(0.5) ? "" : c.rng.chance(0.5) ? "\n\n" : "time value\n"); } VF_CHECK(c, !vf::thrown([&] { Lin x(fn); }).empty(), "empty-file", "accepted"); std::remove(fn.c_str()); }
    { Lin none; VF_CHECK(c, vf::thrown([&] { none(1.0); }).find("out_of_range") != std::string::npos, "no-data", "accepted"); }
}
void pulses(vf::Ctx& c) {
    double fmax = std::pow(10, c.rng.real(-1, 9)), s = c.rng.real(0.05, 2) / fmax, d = c.rng.chance(0.2) ? 0 : c.rng.real(0, 10) * s, f0 = c.rng.chance(0.4) ? 0 : c.rng.real(0, 3) * fmax; Function::Gaussian g(s, d, f0); std::ostringstream ws; ws << std::setprecision(17) << "spread " << s << " delay " << d << " frequency " << f0; std::string w = ws.str(); c.note(w); c.cov(f0 == 0 ? "plain" : "modulated");
    VF_CHECK(c, g.getSpread() == s && g.getDelay() == d && g.getFreq() == f0, "gaussian-fields", w);
    for (int t = 0; t < 8; t++) { double x = d + c.rng.real(-6, 6) * s, e = std::exp(-0.5 * (x - d) / s * (x - d) / s) * std::cos(2 * Constants::pi * f0 * x); VF_CHECK(c, std::fabs(g(x) - e) < 1e-9 && g.eval(x) == g(x), "gaussian", w << " at " << x << " gives " << g(x) << " expected " << e); VF_CHECK(c, std::fabs(g(x)) <= 1, "gaussian-bounded", w); }
    Function::Gaussian h(g), o(s, d, f0 + fmax), o2(s * 2, d, f0), o3(s, d + s, f0); std::unique_ptr<Function::Gaussian> k(g.clone()); VF_CHECK(c, h == g && *k == g && !(o == g) && !(o2 == g) && !(o3 == g), "gaussian-equality", w);
    Function::Gaussian b = Function::Gaussian::buildFromMaximumFrequency(fmax); VF_CHECK(c, b.getFreq() == 0 && b(0) < 1e-7 && vf::near(b(b.getDelay()), 1), "from-maximum-frequency", fmax); { double a = std::abs(b.getFourier(fmax)) / std::abs(b.getFourier(0)); VF_CHECK(c, a > 0.1 && a < 0.6 && std::abs(b.getFourier(3 * fmax)) / std::abs(b.getFourier(0)) < 0.01, "from-maximum-frequency", fmax << ": spectrum falls to " << a); }
    for (double bad : {0.0, -fmax}) VF_CHECK(c, vf::thrown([&] { Function::Gaussian::buildFromMaximumFrequency(bad); }).find("logic_error") != std::string::npos, "maximum-frequency-refused", bad);
    // the analytical spectrum is the transform of the samples, delay included
    if (f0 == 0) { int n = 400; double t0 = d - 8 * s, t1 = d + 8 * s; std::vector<double> ts = Util::linspace(std::make_pair(t0, t1), n); std::vector<std::pair<double, std::complex<double>>> data; for (double t : ts) data.push_back({t, g(t)}); double f = c.rng.real(-0.3, 0.3) / s; std::complex<double> a = g.getFourier(f), q = Util::getDTFT(data, f); VF_CHECK(c, std::abs(a - q) < 0.005 * s * 2.6, "spectrum", w << " at " << f << ": analytical " << a << " transform " << q); c.ev("spectra");
      std::complex<double> z(c.rng.real(-1, 1), c.rng.real(-1, 1)); auto two = data; for (auto& p : two) p.second *= z; VF_CHECK(c, std::abs(Util::getDTFT(two, f) - z * q) < 1e-9 * s, "transform-linear", w); double sh = c.rng.real(-3, 3) * s; two = data; for (auto& p : two) p.first += sh; VF_CHECK(c, std::abs(Util::getDTFT(two, f) - q * std::exp(std::complex<double>(0, -2 * Constants::pi * f * sh))) < 1e-6 * s, "transform-shift", w); }
    double lo = fmax * c.rng.real(0.05, 0.9); Function::BandLimited bl(lo, fmax); std::unique_ptr<Function::BandLimited> bk(bl.clone()); double bd = 20 / lo, bs = 10 / fmax; w = "band " + vf::str(lo) + " to " + vf::str(fmax);
    for (int t = 0; t < 8; t++) { double x = t == 0 ? bd : bd + c.rng.real(-4, 4) * bs, td = x - bd, bw = (fmax - lo) / 2, u = 2 * Constants::pi * bw * td, e = (std::fabs(u) < 1e-9 ? 1 : std::sin(u) / u) * std::exp(-0.5 * td / bs * td / bs) * std::cos(Constants::pi * (fmax + lo) * td); VF_CHECK(c, std::isfinite(bl(x)) && std::fabs(bl(x) - e) < 1e-6 && (*bk)(x) == bl(x), "band-limited", w << " at " << x << " gives " << bl(x) << " expected " << e); }
    VF_CHECK(c, *bk == bl && !(bl == Function::BandLimited(lo, fmax * 2)) && !(bl == Function::BandLimited(lo / 2, fmax)), "band-limited-equality", w);
    for (auto p : {std::make_pair(fmax, lo), std::make_pair(lo, lo), std::make_pair(0.0, fmax), std::make_pair(-lo, fmax), std::make_pair(-fmax, -lo)}) VF_CHECK(c, vf::thrown([&] { Function::BandLimited x(p.first, p.second); }).find("logic_error") != std::string::npos, "band-refused", p.first << " to " << p.second << " accepted");
}
void spacing(vf::Ctx& c) {
    double a = c.rng.real(-5, 5), b = c.rng.real(-5, 5); int n = c.rng.range(1, 40); std::string w = vf::str(a) + " to " + vf::str(b) + " in " + vf::str(n); auto l = Util::linspace(std::make_pair(a, b), n); auto g = Util::logspace(std::make_pair(a, b), n);
    VF_CHECK(c, int(l.size()) == n && int(g.size()) == n, "spacing-count", w); VF_CHECK(c, vf::near(l.back(), b, 1e-12, 1e-12) && (n == 1 || l.front() == a), "spacing-ends", w); VF_CHECK(c, vf::near(g.back(), std::pow(10, b), 1e-10) && (n == 1 || vf::near(g.front(), std::pow(10, a), 1e-10)), "log-spacing-ends", w);
    for (int i = 1; i < n; i++) { VF_CHECK(c, std::fabs((l[i] - l[i - 1]) - (b - a) / (n - 1)) < 1e-12, "spacing-step", w); VF_CHECK(c, vf::near(g[i] / g[i - 1], std::pow(10, (b - a) / (n - 1)), 1e-9), "log-spacing-ratio", w); }
    double s = 0; for (double x : l) s += x; VF_CHECK(c, vf::near(Util::sum(l), s, 1e-12, 1e-12) && vf::near(Util::mean(l), s / n, 1e-12, 1e-12), "sum-mean", w); std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(c.rng.real(-9, 9)); VF_CHECK(c, vf::near(Util::meanDifference(v), n == 1 ? 0 : (v.back() - v.front()) / (n - 1), 1e-9, 1e-9), "mean-difference", w);
}
}
void vf_case(vf::Ctx& c) { c.interesting = true; interpolation(c); pulses(c); spacing(c); }
