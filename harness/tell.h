// All that a problem holds, in order, as text.
#pragma once
#include "viewsets.h"
namespace {
std::string pmAny(const Element::Model* p) { return pm(dynamic_cast<const PM::PhysicalModel*>(p)); }
std::string coordText(const Coordinate::Base* p) { std::ostringstream o; o << p->getId() << ":"; if (auto* x = dynamic_cast<const CoordR3*>(p)) o << v(x->pos()); if (auto* x = dynamic_cast<const CoordI3*>(p)) o << x->pos()(0) << "," << x->pos()(1) << "," << x->pos()(2); if (auto* x = dynamic_cast<const CoordConf*>(p)) o << " dir " << int(x->getDir()) << " length " << n(x->getLength()); if (auto* x = dynamic_cast<const Coordinate::Relative*>(p)) o << " rel " << v(x->rel()); return o.str(); }
template <class Mesh> void meshText(std::ostringstream& o, const Mesh& m, Ids& own) {
    for (std::size_t i = 0; i < m.layers().size(); i++) o << "layer " << m.layers()(i)->getId() << " '" << m.layers()(i)->getName() << "'\n"; for (std::size_t i = 0; i < m.coords().size(); i++) o << "at " << coordText(m.coords()(i)) << "\n";
    for (std::size_t i = 0; i < m.elems().size(); i++) { own.insert(m.elems()(i)->getId().toInt()); o << el(m.elems()(i)) << " of [" << pmAny(m.elems()(i)->getModel()) << "] in '" << (m.elems()(i)->getLayer() ? m.elems()(i)->getLayer()->getName() : "") << "'\n"; } }
std::string tell(const Data& d) {
    std::ostringstream o; if (d.solver) o << "solver " << d.solver->getName() << settings(d.solver->getSettings()) << "\n"; if (d.physicalModels) { o << "materials\n"; for (std::size_t i = 0; i < d.physicalModels->size(); i++) o << pm((*d.physicalModels)(i)) << "\n"; }
    Ids own; if (auto* m = dynamic_cast<const Mesh::Structured*>(d.mesh)) { o << "structured " << grid(m->grid()) << "\n"; meshText(o, *m, own); for (int i = 0; i < 6; i++) o << "bound [" << pmAny(m->bounds()(i / 2, i % 2)) << "]\n"; }
    else if (auto* m = dynamic_cast<const Mesh::Unstructured*>(d.mesh)) { auto* g = dynamic_cast<const Mesh::Geometric*>(m); o << (g ? "geometric " + grid(g->grid()) : "unstructured") << "\n"; meshText(o, *m, own); }
    if (d.sources) { o << "sources\n"; for (std::size_t i = 0; i < d.sources->size(); i++) o << source((*d.sources)(i), own) << "\n"; } if (d.outputRequests) { o << "requests\n"; for (std::size_t i = 0; i < d.outputRequests->size(); i++) o << request((*d.outputRequests)(i), own) << "\n"; }
    return o.str(); }
}
