// Reading of problem files against the plain description they were written from.
#include "problem.h"
void vf_case(vf::Ctx& c) {
    Expect x; std::string t = problem(c, x, false); c.note(t); c.interesting = true; std::istringstream in(t); SEMBA::Parser::JSON::Parser p; const Data d = p.read(in); inspect(c, d, x, t.substr(0, 600), "as read");
    if (c.rng.chance(0.3)) { Data e(d); inspect(c, e, x, t.substr(0, 600), "copied"); }
    // the text does not decide: the same values in another layout and order of labels read the same
    for (const char* f : {"disp.dat", "mag.exc", "grid.txt"}) std::remove(c.file(f).c_str());
}
