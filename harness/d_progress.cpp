// The progress line shown while something long runs, at consoles of every width: what stands in it,
// that it fits, and that it leaves the output as it was. The console is played by this program.
#include "vf.h"
#include "util/ProgressBar.h"
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <regex>
#include <sstream>

namespace {
// What the two ends of the terminal are: -1 not a terminal, else its width.
int widthIn = -1, widthOut = -1;
struct Capture { std::ostringstream o; std::streambuf* old; Capture() : old(std::cout.rdbuf(o.rdbuf())) {} ~Capture() { std::cout.rdbuf(old); } };
// The number printed with its unit stands for v.
bool stands(const std::string& t, std::size_t v) { std::size_t n = std::stoull(t), u = t.find('K') != std::string::npos ? 1000ull : t.find('M') != std::string::npos ? 1000000ull : t.find('G') != std::string::npos ? 1000000000ull : 1; return n == v / u && n < 100000; }
}
extern "C" int isatty(int fd) { if ((fd == 0 && widthIn >= 0) || (fd == 1 && widthOut >= 0)) return 1; errno = ENOTTY; return 0; }
extern "C" int ioctl(int fd, unsigned long rq, ...) { va_list a; va_start(a, rq); void* p = va_arg(a, void*); va_end(a); int w = fd == 0 ? widthIn : fd == 1 ? widthOut : -1;
    if (rq != TIOCGWINSZ || w < 0) { errno = ENOTTY; return -1; } struct winsize s; std::memset(&s, 0, sizeof s); s.ws_col = w; s.ws_row = 24; std::memcpy(p, &s, sizeof s); return 0; }

namespace {
// Paints the stack, so that what is not set there shows.
__attribute__((noinline)) void paint(int b) { volatile char a[4096]; for (std::size_t i = 0; i < sizeof a; i++) a[i] = b; }

// One line: 'step' of 'size' called 'name', at a console of width W.
void line(vf::Ctx& c, const std::string& got, const std::string& name, std::size_t step, std::size_t size, std::size_t prev, std::size_t W, const std::string& w) {
    VF_CHECK(c, got.size() <= W, "wraps", w << ": " << got.size() << " characters: '" << got.substr(0, 300) << "'"); if (got.size() > W) return;
    if (got.size() <= prev) { VF_CHECK(c, W < prev + 60, "shown", w << ": nothing is shown"); return; }
    VF_CHECK(c, got.substr(0, prev) == std::string(prev, ' '), "indented", w << ": '" << got << "'");
    std::string r = got.substr(prev); std::size_t n = 0; while (n < name.size() && n < r.size() && r[n] == name[n]) n++;
    if (n == name.size()) r = r.substr(n); else { std::size_t k = std::string::npos; for (std::size_t i = 0; i <= n; i++) if (r.compare(i, 3, "...") == 0) k = i; bool ok = k != std::string::npos; if (!ok) ok = r.find_first_not_of(' ') == std::string::npos; VF_CHECK(c, ok, "name", w << ": '" << got << "'"); if (!ok || k == std::string::npos) return; r = r.substr(k + 3); c.cov("name cut"); }
    static const std::regex form("^ *(?:( *[0-9]+[ KMG])/( *[0-9]+[ KMG])(?: ([0-9:]{8})(?: ( *|\\[[#-]+\\])(?: ( *[0-9]+)%)?)?)?)? *$"); std::smatch m; bool ok = std::regex_match(r, m, form); VF_CHECK(c, ok, "form", w << ": '" << got << "'"); if (!ok) return;
    if (m[1].matched) { c.ev("steps-shown"); VF_CHECK(c, stands(m[1], step) && stands(m[2], size), "steps", w << ": '" << got << "' after " << step << " of " << size); } else VF_CHECK(c, W < prev + 60, "shown", w << ": no steps in '" << got << "'");
    if (m[3].matched) { std::string t = m[3]; VF_CHECK(c, t[2] == ':' && t[5] == ':' && (step != 0 || t == "99:99:99") && (step == 0 || (t < "00:05:00")), "time", w << ": '" << got << "'"); }
    if (m[4].matched && std::string(m[4])[0] == '[') { std::string b = m[4]; c.ev("bars-shown"); VF_CHECK(c, (b.find('-') == std::string::npos) == (step == size) && (b.find('#') == std::string::npos) == (step == 0), "bar", w << ": '" << got << "'"); }
    if (m[5].matched) { c.ev("percents-shown"); VF_CHECK(c, std::stoull(m[5]) == (step == size ? 100 : step * 100 / size), "percent", w << ": '" << got << "'"); } else VF_CHECK(c, W < prev + 60, "shown", w << ": no percentage in '" << got << "'");
}
}

void vf_case(vf::Ctx& c) {
    SEMBA::Util::ProgressBar bar; int rounds = c.rng.range(1, 4); std::string all; c.interesting = true;
    for (int k = 0; k < rounds; k++) {
        widthOut = c.rng.chance(0.2) ? -1 : c.rng.chance(0.7) ? c.rng.range(1, 130) : c.rng.range(0, 400); widthIn = c.rng.chance(0.4) ? widthOut : c.rng.chance(0.5) ? -1 : c.rng.range(1, 200);
        std::string name; for (int i = c.rng.range(0, c.rng.chance(0.7) ? 12 : 40); i > 0; i--) name += c.rng.chance(0.1) && !name.empty() ? ' ' : char('a' + c.rng.range(0, 25));
        std::size_t size = c.rng.chance(0.1) ? 0 : c.rng.chance(0.6) ? c.rng.range(1, 200) : (std::size_t)std::pow(10.0, c.rng.real(0, 13.9)); std::size_t prev = c.rng.chance(0.5) ? 2 : c.rng.range(0, 6);
        std::ostringstream o; o << "'" << name << "' size " << size << " prev " << prev << " output " << widthOut << " input " << widthIn; std::string w = o.str(); all += w + "; "; c.note(all);
        Capture cap; auto take = [&] { std::string t = cap.o.str(); cap.o.str(""); return t; }; paint(c.rng.range(0, 255));
        VF_CHECK(c, bar.isConsole() == (widthOut >= 0), "console", w);
        if (c.rng.chance(0.1)) { bar.advance(3); bar.end(); VF_CHECK(c, take().empty(), "idle", w << ": something is shown before it starts"); }
        if (prev == 2 && c.rng.chance(0.5)) bar.init(name, size); else bar.init(name, size, prev); std::string t = take();
        auto format = [&](const char* when) { std::ostringstream q; q << std::setw(6) << 42 << "|" << std::setw(6) << "x" << "|" << 0.5; std::cout << std::setw(6) << 42 << "|" << std::setw(6) << "x" << "|" << 0.5; std::string g = take(); VF_CHECK(c, g == q.str(), "format", w << ": " << when << " numbers look like '" << g << "'"); };
        if (size == 0) { VF_CHECK(c, t.empty(), "empty", w << ": shows '" << t << "'"); bar.advance(); bar.end(); VF_CHECK(c, take().empty(), "empty", w << ": shows something at the end"); c.cov("empty"); continue; }
        if (widthOut < 0) { VF_CHECK(c, t == std::string(prev, ' ') + name + "\n", "elsewhere", w << ": shows '" << t << "'"); bar.advance(size); bar.end(); VF_CHECK(c, take().empty(), "elsewhere", w << ": shows something at the end"); c.cov("no console"); format("afterwards"); continue; }
        auto shown = [&](const std::string& t, std::size_t step) { c.ev("lines"); std::vector<std::string> L; std::string x; for (char ch : t) if (ch == '\r') { L.push_back(x); x.clear(); } else x += ch; L.push_back(x); for (std::size_t i = 0; i < L.size(); i++) { if (i == 0) VF_CHECK(c, L[0].empty(), "return", w << ": '" << L[0] << "' is written behind something"); else line(c, L[i], name, step, size, prev, widthOut, w); } if (t.empty()) line(c, "", name, step, size, prev, widthOut, w); };
        VF_CHECK(c, t.find('\n') == std::string::npos, "starts", w << ": '" << t << "'"); shown(t, 0); format("after the start");
        std::size_t step = 0; for (int i = c.rng.range(0, 5); i > 0; i--) { std::size_t by = c.rng.chance(0.3) ? 1 : c.rng.chance(0.9) ? size / c.rng.range(1, 6) : size + 7; if (by == 1 && c.rng.chance(0.5)) bar.advance(); else bar.advance(by); step = std::min(size, step + by); t = take(); VF_CHECK(c, t.find('\n') == std::string::npos, "advances", w << ": '" << t << "'"); if (!t.empty()) shown(t, step); }
        bar.end(); t = take(); bool nl = !t.empty() && t.back() == '\n'; VF_CHECK(c, nl, "ends", w << ": '" << t << "'"); if (nl) { t.pop_back(); shown(t, size); } format("after the end"); bar.advance(2); bar.end(); VF_CHECK(c, take().empty(), "idle", w << ": something is shown after the end");
        c.cov(widthOut < 45 ? "narrow" : widthOut < 65 ? "middle" : "wide"); if (widthIn != widthOut) c.cov("other input"); c.state(vf::hashStr(w)); }
    widthIn = widthOut = -1;
}
