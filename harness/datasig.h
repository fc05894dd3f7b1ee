// What a Data container holds, as text: one line per member. Two containers with the same
// content give the same lines, whatever their addresses.
#pragma once
#include "meshgen.h"
#include "Data.h"
#include "physicalModel/bound/Bound.h"
#include "physicalModel/bound/PEC.h"
#include "physicalModel/bound/PMC.h"
#include "physicalModel/bound/PML.h"
#include "physicalModel/bound/SMA.h"
#include "physicalModel/bound/Mur1.h"
#include "physicalModel/bound/Mur2.h"
#include "physicalModel/bound/Periodic.h"
#include "physicalModel/gap/Gap.h"
#include "physicalModel/multiport/RLC.h"
#include "physicalModel/multiport/Predefined.h"
#include "physicalModel/multiport/Dispersive.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/predefined/SMA.h"
#include "physicalModel/surface/Multilayer.h"
#include "physicalModel/surface/SIBC.h"
#include "physicalModel/surface/SIBCFile.h"
#include "physicalModel/volume/AnisotropicCrystal.h"
#include "physicalModel/volume/AnisotropicFerrite.h"
#include "physicalModel/volume/Classic.h"
#include "physicalModel/volume/Dispersive.h"
#include "physicalModel/volume/PML.h"
#include "physicalModel/wire/Wire.h"
#include "physicalModel/wire/Extremes.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "source/OnLine.h"
#include "source/Dipole.h"
#include "source/port/WaveguideRectangular.h"
#include "source/port/TEMCoaxial.h"
#include "source/magnitude/Numerical.h"
#include "math/function/Gaussian.h"
#include "math/function/BandLimited.h"
#include "math/function/LinearInterpolation.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"

namespace ds {
using namespace SEMBA; using namespace SEMBA::Geometry; using Math::CVecR3; using Math::CVecI3; namespace PM = PhysicalModel;
inline std::string n(double x) { if (x == 0 || std::fabs(x) < 1e-300) return "0"; char b[40]; std::snprintf(b, sizeof b, "%.9g", x); return b; }
inline std::string zero(double x, double scale = 1) { return std::fabs(x) < 1e-12 * scale ? "0" : n(x); }
inline std::string v(const CVecR3& x) { return n(x(0)) + "," + n(x(1)) + "," + n(x(2)); }
inline std::string local(const CVecR3& e, const CVecR3& o) { return "axes(" + v(e) + ";" + v(o) + ")"; }
inline std::string local(const Math::Axis::Local& l) { return local(l.getEulerAngles(), l.getOrigin()); }
inline std::string mat(const Math::MatR33& m) { std::string s; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s += (i + j ? " " : "") + zero(m(i, j)); return s; }

inline std::string pm(const PM::PhysicalModel* p) {
    if (!p) return "none"; std::ostringstream o; o << p->getId() << " '" << p->getName() << "' ";
    if (dynamic_cast<const PM::Predefined::PEC*>(p)) o << "PEC"; else if (dynamic_cast<const PM::Predefined::PMC*>(p)) o << "PMC"; else if (dynamic_cast<const PM::Predefined::SMA*>(p)) o << "SMA";
    else if (dynamic_cast<const PM::Bound::PEC*>(p)) o << "boundPEC"; else if (dynamic_cast<const PM::Bound::PMC*>(p)) o << "boundPMC"; else if (dynamic_cast<const PM::Bound::PML*>(p)) o << "boundPML"; else if (dynamic_cast<const PM::Bound::SMA*>(p)) o << "boundSMA"; else if (dynamic_cast<const PM::Bound::Mur1*>(p)) o << "boundMur1"; else if (dynamic_cast<const PM::Bound::Mur2*>(p)) o << "boundMur2"; else if (dynamic_cast<const PM::Bound::Periodic*>(p)) o << "boundPeriodic";
    else if (auto* x = dynamic_cast<const PM::Volume::PML*>(p)) o << "PML " << local(x->getOrientation());
    else if (auto* x = dynamic_cast<const PM::Volume::Classic*>(p)) o << "classic " << n(x->getRelativePermittivity()) << " " << n(x->getRelativePermeability()) << " " << n(x->getElectricConductivity()) << " " << n(x->getMagneticConductivity());
    else if (auto* x = dynamic_cast<const PM::Volume::Dispersive*>(p)) { o << "dispersive file '" << x->getFile() << "' poles"; for (std::size_t i = 0; i < x->getPoleNumber(); i++) o << " " << n(x->getPole(i).real()) << "+" << n(x->getPole(i).imag()) << "i:" << n(x->getResidue(i).real()) << "+" << n(x->getResidue(i).imag()) << "i"; }
    else if (auto* x = dynamic_cast<const PM::Volume::AnisotropicCrystal*>(p)) o << "crystal " << local(x->getLocalAxe()) << " " << v(x->getPrincipalAxesRelativePermittivity()) << " " << n(x->getRelativePermeability());
    else if (auto* x = dynamic_cast<const PM::Volume::AnisotropicFerrite*>(p)) o << "ferrite " << local(x->getLocalAxe()) << " eps " << mat(x->getRelPermittivityMatR()) << " mu " << mat(x->getRelPermeabilityMatR()) << " mui " << mat(x->getRelPermeabilityMatI());
    else if (auto* x = dynamic_cast<const PM::Surface::Multilayer*>(p)) { o << "layers"; for (std::size_t i = 0; i < x->getNumberOfLayers(); i++) o << " (" << n(x->getThickness(i)) << " " << n(x->getLayer(i).getRelPermittivity()) << " " << n(x->getLayer(i).getRelPermeability()) << " " << n(x->getElecCond(i)) << ")"; if (x->hasFittingOptions()) { auto f = x->getFittingOptions(); o << " fit " << n(f.getMinMaxFreq().first) << " " << n(f.getMinMaxFreq().second) << " " << f.getNumberOfPoles(); } }
    else if (auto* x = dynamic_cast<const PM::Surface::SIBCFile*>(p)) o << "sibc file '" << x->getFile() << "'";
    else if (auto* x = dynamic_cast<const PM::Surface::SIBC*>(p)) { o << "sibc " << x->getNumberOfPoles(); auto m = [&](const Math::MatC22& q) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) o << " " << n(q(i, j).real()) << "+" << n(q(i, j).imag()) << "i"; }; m(x->getZInfinity()); m(x->getZLinear()); for (auto& q : x->getPoleZ()) { o << " pole " << n(q.first.real()) << "+" << n(q.first.imag()) << "i"; m(q.second); } }
    else if (auto* x = dynamic_cast<const PM::Gap::Gap*>(p)) o << "gap " << n(x->getWidth());
    else if (auto* x = dynamic_cast<const PM::Multiport::RLC*>(p)) o << "rlc" << int(x->getType()) << " " << n(x->getR()) << " " << n(x->getL()) << " " << n(x->getC());
    else if (auto* x = dynamic_cast<const PM::Multiport::Dispersive*>(p)) o << "port" << int(x->getType()) << " file '" << x->getFilename() << "'";
    else if (auto* x = dynamic_cast<const PM::Multiport::Predefined*>(p)) o << "port" << int(x->getType());
    else if (auto* x = dynamic_cast<const PM::Wire::Wire*>(p)) { o << "wire " << n(x->getRadius()) << " " << (x->isDispersive() ? "dispersive '" + x->getFilename() + "'" + (x->isSeriesParallel() || x->getSeriesResistance() != 0 || x->getSeriesInductance() != 0 || x->getSeriesCapacitance() != 0 || x->getParallelResistance() != 0 || x->getParallelInductance() != 0 || x->getParallelCapacitance() != 0 ? " with an impedance" : "") : (x->isSeriesParallel() ? "sp " : "std ") + n(x->getSeriesResistance()) + " " + n(x->getSeriesInductance()) + (x->isSeriesParallel() ? " " + n(x->getSeriesCapacitance()) + " " + n(x->getParallelResistance()) + " " + n(x->getParallelInductance()) + " " + n(x->getParallelCapacitance()) : std::string(x->getSeriesCapacitance() != 0 || x->getParallelResistance() != 0 || x->getParallelInductance() != 0 || x->getParallelCapacitance() != 0 ? " with more" : ""))); if (auto* e = dynamic_cast<const PM::Wire::Extremes*>(p)) o << " ends [" << pm(e->getExtreme(0)) << "] [" << pm(e->getExtreme(1)) << "]"; }
    else o << "other " << typeid(*p).name();
    return o.str();
}
inline std::string elKind(const Elem* e) { if (e->is<NodR>() || e->is<NodI>()) return "nod"; if (e->is<LinConf>()) return "conf"; if (e->is<LinR2>() || e->is<LinI2>()) return "lin"; if (e->is<PolylinR>() || e->is<PolylinI>()) return "pol"; if (e->is<Tri3>()) return "tri"; if (e->is<Geometry::Tri6>()) return "tri6"; if (e->is<QuaR4>() || e->is<QuaI4>()) return "qua"; if (e->is<Tet4>()) return "tet"; if (e->is<Geometry::Tet10>()) return "tet10"; if (e->is<HexR8>() || e->is<HexI8>()) return "hex"; return "other"; }
inline std::vector<std::pair<std::size_t, CVecR3>> verts(const Elem* e) { std::vector<std::pair<std::size_t, CVecR3>> r; if (auto* x = dynamic_cast<const ElemR*>(e)) for (std::size_t i = 0; i < x->numberOfCoordinates(); i++) r.push_back({x->getV(i)->getId().toInt(), x->getV(i)->pos()}); else if (auto* x = dynamic_cast<const ElemI*>(e)) for (std::size_t i = 0; i < x->numberOfCoordinates(); i++) { auto p = x->getV(i)->pos(); r.push_back({x->getV(i)->getId().toInt(), CVecR3(p(0), p(1), p(2))}); } return r; }
// With its identity and vertices' identities, or as a shape (set of corners).
inline std::string el(const Elem* e, bool ids = true) { std::ostringstream o; o << elKind(e); if (ids) o << " " << e->getId() << " m" << e->getMatId() << " l" << e->getLayerId() << ":"; std::vector<std::string> p; for (auto& x : verts(e)) p.push_back(ids ? std::to_string(x.first) + "@" + v(x.second) : v(x.second)); if (!ids) std::sort(p.begin(), p.end()); for (auto& s : p) o << " (" << s << ")"; return o.str(); }
inline std::string grid(const Grid3& g) { std::string s = "grid"; for (int k = 0; k < 3; k++) { s += " |"; for (double x : g.getPos(k)) s += " " + zero(x); } return s; }
inline std::string fun(const std::function<double(double)>& f, double t0, double dt) { std::string s; for (int i = 0; i < 5; i++) { char b[30]; std::snprintf(b, sizeof b, " %.6f", f(t0 + i * dt) + 1e-12); s += b; } return s; }
inline std::string magn(const SEMBA::Source::Magnitude::Magnitude* m) { if (!m) return "none"; if (auto* x = dynamic_cast<const SEMBA::Source::Magnitude::Numerical*>(m)) { return "file '" + std::string(*x) + "'"; } std::ostringstream o; o << "function" << fun([&](double t) { return m->evaluate(t); }, 0, 0.625); return o.str(); }
inline std::string settings(const Argument::Object& s) { if (s.isObject()) { std::vector<std::string> k; for (std::size_t i = 0; i < s.size(); i++) k.push_back(s.getName(i) + "=" + settings(s(s.getName(i)))); std::sort(k.begin(), k.end()); std::string r = "{"; for (auto& q : k) r += q + ";"; return r + "}"; } if (s.isNull()) return "null"; if (s.isString()) return "'" + s.getString() + "'"; return "?"; }
inline std::string domain(const OutputRequest::Domain& d) { std::ostringstream o; if (d.isTimeDomain()) o << "time " << n(d.getInitialTime()) << " " << n(d.getFinalTime()) << " " << n(d.getSamplingPeriod()) << " "; if (d.isFrequencyDomain()) o << "freq " << n(d.getInitialFrequency()) << " " << n(d.getFinalFrequency()) << " " << n(d.getFrequencyStep()) << (d.isLogFrequencySweep() ? " log " : " lin "); if (d.isUsingTransferFunction()) o << "transfer '" << d.getTransferFunctionFile() << "' "; o << "type" << int(d.getDomainType()); return o.str(); }
// elements of a source or request: those in `own` by identity, others as shapes
typedef std::set<std::size_t> Ids;
template <class G> std::string els(const G& g, const Ids& own) { std::vector<std::string> r; for (std::size_t i = 0; i < g.size(); i++) { auto* e = g(i); r.push_back(own.count(e->getId().toInt()) ? "#" + std::to_string(e->getId().toInt()) : el(e, false)); } std::string s = "on"; for (auto& q : r) s += " [" + q + "]"; return s; }
inline std::string source(const SEMBA::Source::Base* s, const Ids& own) {
    std::ostringstream o; o << s->getName() << " ";
    if (auto* x = dynamic_cast<const SEMBA::Source::PlaneWave*>(s)) { if (x->isRandomic()) o << "random " << x->getNumberOfRandomPlanewaves() << " " << n(x->getRelativeVariationOfRandomDelay()); else { auto d = x->getDirection(), p = x->getPolarization(); o << "dir"; for (int k = 0; k < 3; k++) o << " " << zero(d(k)); o << " pol"; for (int k = 0; k < 3; k++) o << " " << zero(p(k)); } }
    else if (auto* x = dynamic_cast<const SEMBA::Source::Generator*>(s)) o << "type" << int(x->getType());
    else if (auto* x = dynamic_cast<const SEMBA::Source::OnLine*>(s)) o << "type" << int(x->getType()) << " hardness" << int(x->getHardness());
    else if (auto* x = dynamic_cast<const SEMBA::Source::Port::WaveguideRectangular*>(s)) o << (x->getExcitationMode() == SEMBA::Source::Port::Waveguide::TE ? "TE" : "TM") << x->getMode().first << "," << x->getMode().second << " origin " << v(x->getOrigin()) << " size " << n(x->getWidth()) << " " << n(x->getHeight());
    else if (auto* x = dynamic_cast<const SEMBA::Source::Port::TEMCoaxial*>(s)) { o << (x->getExcitationMode() == SEMBA::Source::Port::TEM::voltage ? "voltage" : "current") << " origin " << v(x->getOrigin()); auto at = [&](double a, double b) { auto w = x->getWeight(x->getOrigin() + CVecR3(a, b, 0)); o << " (" << zero(w(0)) << "," << zero(w(1)) << "," << zero(w(2)) << ")"; }; at(1, 0); at(0.5, 0.75); }
    else o << "other";
    o << " magnitude " << magn(s->getMagnitude()) << " " << els(s->elems(), own); return o.str();
}
inline std::string request(const OutputRequest::Base* r, const Ids& own) {
    std::ostringstream o; o << "'" << r->getName() << "' type" << int(r->getType()) << " "; if (auto* x = dynamic_cast<const OutputRequest::BulkCurrent*>(r)) o << "bulk " << int(x->getDir()) << " skip " << x->getSkip() << " "; if (auto* x = dynamic_cast<const OutputRequest::FarField*>(r)) o << "far " << n(x->getInitialTheta()) << " " << n(x->getFinalTheta()) << " " << n(x->getStepTheta()) << " " << n(x->getInitialPhi()) << " " << n(x->getFinalPhi()) << " " << n(x->getStepPhi()) << " "; o << domain(r->domain()) << " " << els(r->elems(), own); return o.str();
}
} // namespace ds
