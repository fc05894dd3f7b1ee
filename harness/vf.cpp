#include "vf.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

#ifdef VF_COV
extern "C" void __gcov_dump();
#endif
namespace vf {

std::vector<Probe>& probes() { static std::vector<Probe> p; return p; }

#if defined(__SANITIZE_ADDRESS__)
std::size_t liveBytes() { return __sanitizer_get_current_allocated_bytes(); }
bool haveLiveBytes() { return true; }
#else
std::size_t liveBytes() { return 0; }
bool haveLiveBytes() { return false; }
#endif

struct Sink {
    FILE* out = nullptr;
    std::map<std::string, long> events;
    std::set<std::string> features;
    std::set<std::uint64_t> states;
    std::set<std::uint64_t> inputs;
    std::map<std::string, int> fails;
    std::vector<std::string> samples;
    long cases = 0;
} sink;

static std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch == '\n') r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += char(ch);
    }
    return r;
}

void Ctx::fail(const std::string& key, const std::string& msg) {
    std::string k = probe.empty() ? key : (probe + "/" + key);
    if (++sink.fails[k] > 3) return;
    std::fprintf(sink.out, "{\"t\":\"fail\",\"case\":%ld,\"key\":\"%s\",\"msg\":\"%s\"}\n",
                 index, esc(k).c_str(), esc(msg.substr(0, 3000)).c_str());
    std::fflush(sink.out);
}
void Ctx::ev(const std::string& name, long n) { sink.events[name] += n; }
void Ctx::cov(const std::string& label) { sink.features.insert(label); }
void Ctx::state(std::uint64_t h) { if (sink.states.size() < 2000000) sink.states.insert(h); }

} // namespace vf

int main(int argc, char** argv) {
    using namespace vf;
    std::uint64_t seed = 1; long from = 0, to = 0; std::string out, scratch, prop = "?"; bool thorough = false, digests = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--from") from = std::atol(val().c_str());
        else if (a == "--to") to = std::atol(val().c_str());
        else if (a == "--out") out = val();
        else if (a == "--scratch") scratch = val();
        else if (a == "--prop") prop = val();
        else if (a == "--thorough") thorough = true;
        else if (a == "--digests") digests = true;
        else if (a == "--list-probes") { std::printf("%zu\n", probes().size()); for (auto& p : probes()) std::printf("%s\n", p.name.c_str()); return 0; }
    }
    sink.out = std::fopen(out.c_str(), "a");
    if (!sink.out) { std::perror("out"); return 3; }
    int progress = ::open((out + ".at").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    ::mkdir(scratch.c_str(), 0755);
    if (::chdir(scratch.c_str()) != 0) return 3;
    // What the library prints is not part of what is judged here.
    int devnull = ::open("/dev/null", O_WRONLY); ::dup2(devnull, 1);
    const long nProbes = long(probes().size());
    for (long i = from; i < to; ++i) {
        char b[32]; int n = std::snprintf(b, sizeof b, "%-20ld\n", i);
        if (::pwrite(progress, b, n, 0) < 0) {}
        struct stat st; if (::fstat(2, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > 200000) { if (::ftruncate(2, 0)) {} }
        Ctx c;
        c.index = i; c.thorough = thorough; c.scratch = scratch;
        c.rng = Rng(mix(mix(seed * 1000003ULL + hashStr(prop)) + std::uint64_t(i)));
        try {
            if (i < nProbes) { c.probe = "probe:" + probes()[i].name; c.interesting = true; c.canonical = c.probe; probes()[i].fn(c); }
            else vf_case(c);
        } catch (const std::exception& e) {
            c.fail(std::string("unexpected-exception:") + typeid(e).name(), std::string("a valid operation threw: ") + e.what() + " input: " + c.canonical);
        } catch (...) {
            c.fail("unexpected-exception:unknown", "a valid operation threw; input: " + c.canonical);
        }
        sink.cases++;
        if (c.interesting) {
            sink.inputs.insert(hashStr(c.canonical));
            if (sink.samples.size() < 4 && c.canonical.size() > 0 && c.canonical.size() < 6000) sink.samples.push_back(c.canonical.substr(0, 500));
        }
        if (digests) std::fprintf(sink.out, "{\"t\":\"digest\",\"case\":%ld,\"d\":\"%016llx\"}\n", i, (unsigned long long) c.digest);
    }
    std::fprintf(sink.out, "{\"t\":\"end\",\"from\":%ld,\"to\":%ld,\"cases\":%ld,\"events\":{", from, to, sink.cases);
    bool first = true;
    for (auto& e : sink.events) { std::fprintf(sink.out, "%s\"%s\":%ld", first ? "" : ",", esc(e.first).c_str(), e.second); first = false; }
    std::fprintf(sink.out, "},\"features\":[");
    first = true;
    for (auto& f : sink.features) { std::fprintf(sink.out, "%s\"%s\"", first ? "" : ",", esc(f).c_str()); first = false; }
    std::fprintf(sink.out, "],\"samples\":[");
    first = true;
    for (auto& f : sink.samples) { std::fprintf(sink.out, "%s\"%s\"", first ? "" : ",", esc(f).c_str()); first = false; }
    std::fprintf(sink.out, "],\"inputs\":[");
    first = true;
    for (auto h : sink.inputs) { std::fprintf(sink.out, "%s%llu", first ? "" : ",", (unsigned long long) h); first = false; }
    std::fprintf(sink.out, "],\"states\":[");
    first = true; long k = 0;
    for (auto h : sink.states) { if (++k > 200000) break; std::fprintf(sink.out, "%s%llu", first ? "" : ",", (unsigned long long) h); first = false; }
    std::fprintf(sink.out, "]}\n");
    std::fclose(sink.out);
    // Leave without running static destructors of the harness.
#ifdef VF_COV
    __gcov_dump();
#endif
    ::_exit(0);
}
