// Identified collections: random histories of operations on several groups that
// share members, checked after every step against an ordered reference model;
// the lifetime of every member is watched (constructed, destroyed, held by whom).
#include "vf.h"
#include "class/Class.h"
#include "class/Cloneable.h"
#include "class/Shareable.h"
#include "class/Printable.h"
#include "class/Identifiable.h"
#include "class/Identification.h"
#include "group/Group.h"
#include "group/Cloneable.h"
#include "group/Printable.h"
#include "group/Identifiable.h"
#include "geometry/layer/Group.h"
#include "geometry/coordinate/Group.h"
#include "geometry/element/Group.h"
#include "geometry/element/Node.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "source/Group.h"
#include "source/PlaneWave.h"
#include "outputRequest/Group.h"
#include "outputRequest/BulkCurrent.h"

using namespace SEMBA;

namespace {
std::map<long, int> alive;      // serial -> live objects with that serial (must be 0/1)
long nextSerial = 1;
long doubleDestroy = 0;

class Item;
typedef Class::Identification<Item> ItemId;
class Item : public virtual Class::Class, public virtual Class::Cloneable,
             public virtual Class::Shareable, public virtual Class::Printable,
             public virtual Class::Identifiable<ItemId> {
public:
    long serial;
    long payload;
    Item(std::size_t id, long p) : Identifiable<ItemId>(ItemId(id)), payload(p) { serial = nextSerial++; alive[serial] = 1; }
    Item(const Item& r) : Identifiable<ItemId>(r), payload(r.payload) { serial = nextSerial++; alive[serial] = 1; }
    virtual ~Item() { auto it = alive.find(serial); if (it == alive.end()) doubleDestroy++; else alive.erase(it); }
    virtual int kind() const { return 0; }
    SEMBA_CLASS_DEFINE_CLONE(Item);
    void printInfo() const { std::cout << "item " << payload << std::endl; }
};
class ItemA : public virtual Item {
public:
    ItemA(std::size_t id, long p) : Identifiable<ItemId>(ItemId(id)), Item(id, p) {}
    ItemA(const ItemA& r) : Identifiable<ItemId>(r), Item(r) {}
    int kind() const { return 1; }
    SEMBA_CLASS_DEFINE_CLONE(ItemA);
};
class ItemB : public virtual ItemA {
public:
    ItemB(std::size_t id, long p) : Identifiable<ItemId>(ItemId(id)), Item(id, p), ItemA(id, p) {}
    ItemB(const ItemB& r) : Identifiable<ItemId>(r), Item(r), ItemA(r) {}
    int kind() const { return 2; }
    SEMBA_CLASS_DEFINE_CLONE(ItemB);
};
template <class I = Item>
class ItemGroup : public Group::Cloneable<I>, public Group::Printable<I>,
                  public Group::Identifiable<I, ItemId> {
public:
    ItemGroup() {}
    template <typename P2> ItemGroup(P2* e) : Group::Identifiable<I, ItemId>(e) {}
    template <typename P2> ItemGroup(const std::vector<P2*>& e) : Group::Identifiable<I, ItemId>(e) {}
    template <typename P2> ItemGroup(Group::Group<P2>& r) : Group::Identifiable<I, ItemId>(r) {}
    template <typename P2> ItemGroup(const Group::Group<P2>& r) : Group::Identifiable<I, ItemId>(r) {}
    ItemGroup(Group::Group<I>& r) : Group::Identifiable<I, ItemId>(r) {}
    template <typename P2> ItemGroup(Group::Group<P2>&& r) : Group::Identifiable<I, ItemId>(std::move(r)) {}
    ItemGroup(Group::Group<I>&& r) : Group::Identifiable<I, ItemId>(std::move(r)) {}
    SEMBA_GROUP_DEFINE_CLONE(ItemGroup, I);
    ItemGroup& operator=(Group::Group<I>& r) { if (this != &r) Group::Identifiable<I, ItemId>::operator=(r); return *this; }
    ItemGroup& operator=(Group::Group<I>&& r) { if (this != &r) Group::Identifiable<I, ItemId>::operator=(std::move(r)); return *this; }
};

struct M { long serial; std::size_t id; int kind; };
typedef std::vector<M> Model;

struct World {
    static const int N = 3;
    std::unique_ptr<ItemGroup<>> g[N];
    Model m[N];
};

void checkGroup(vf::Ctx& c, const char* where, ItemGroup<>& g, const Model& m) {
    VF_CHECK(c, g.size() == m.size(), "size", where << ": size " << g.size() << " expected " << m.size());
    VF_CHECK(c, g.empty() == m.empty(), "empty", where);
    if (g.size() != m.size()) return;
    const ItemGroup<>& cg = g;
    std::vector<ItemId> ids = g.getIds();
    VF_CHECK(c, ids.size() == m.size(), "ids-size", where);
    std::size_t nA = 0, nB = 0, nOnlyA = 0, maxId = 0;
    for (std::size_t i = 0; i < m.size(); i++) {
        const Item* it = cg(i);
        VF_CHECK(c, it != nullptr && it->serial == m[i].serial, "order", where << ": position " << i << " does not hold the member that was added there");
        if (it == nullptr) return;
        VF_CHECK(c, it->getId() == ItemId(m[i].id), "member-id", where << ": position " << i << " has id " << it->getId() << " expected " << m[i].id);
        VF_CHECK(c, i < ids.size() && ids[i] == ItemId(m[i].id), "ids", where << " at " << i);
        VF_CHECK(c, g.existId(ItemId(m[i].id)), "exist", where << ": id " << m[i].id << " is a member but not found");
        std::string t = vf::thrown([&] { 
            VF_CHECK(c, g.getId(ItemId(m[i].id)) == g.get(i) && cg.getId(ItemId(m[i].id)) == it, "lookup", where << ": id " << m[i].id << " resolves to another member"); });
        VF_CHECK(c, t.empty(), "lookup-throws", where << ": looking up present id " << m[i].id << " threw " << t);
        VF_CHECK(c, alive.count(m[i].serial) == 1, "held-destroyed", where);
        if (m[i].kind >= 1) nA++;
        if (m[i].kind == 2) nB++;
        if (m[i].kind == 1) nOnlyA++;
        maxId = std::max(maxId, m[i].id);
    }
    // ids that are not there
    std::set<std::size_t> have; for (auto& x : m) have.insert(x.id);
    std::vector<std::size_t> absent; for (std::size_t k = 1; k <= 30; k++) absent.push_back(k);
    absent.push_back(maxId + 1); absent.push_back(maxId - 1); absent.push_back(std::size_t(-1));
    for (std::size_t k : absent) {
        if (have.count(k) || k == 0) continue;
        VF_CHECK(c, !g.existId(ItemId(k)), "exist-absent", where << ": absent id " << k << " reported as present");
        if (k % 5 == 0 || k > 30) VF_CHECK(c, !vf::thrown([&] { cg.getId(ItemId(k)); }).empty(), "lookup-absent", where << ": absent id " << k << " resolved");
    }
    VF_CHECK(c, !g.existId(ItemId(0)), "exist-zero", where);
    // typed views
    VF_CHECK(c, g.sizeOf<ItemA>() == nA && g.sizeOf<ItemB>() == nB, "type-count", where);
    VF_CHECK(c, g.emptyOf<ItemB>() == (nB == 0), "type-empty", where);
    auto vA = g.getOf<ItemA>();
    auto vO = cg.getOfOnly<ItemA>();
    VF_CHECK(c, vA.size() == nA, "type-view", where << ": typed view has " << vA.size() << " of " << nA);
    VF_CHECK(c, vO.size() == nOnlyA, "exact-type-view", where << ": exact-type view has " << vO.size() << " of " << nOnlyA);
    std::size_t j = 0, o = 0;
    for (auto& x : m) {
        if (x.kind >= 1 && j < vA.size()) { VF_CHECK(c, vA(j)->serial == x.serial, "type-view-order", where); j++; }
        if (x.kind == 1 && o < vO.size()) { VF_CHECK(c, vO(o)->serial == x.serial, "exact-type-view-order", where); o++; }
    }
}

void checkLife(vf::Ctx& c, const char* where, World& w, const std::set<long>& extra) {
    std::set<long> held(extra);
    for (int k = 0; k < World::N; k++) for (auto& x : w.m[k]) held.insert(x.serial);
    for (long s : held) VF_CHECK(c, alive.count(s), "destroyed-while-held", where << ": a member was destroyed while a collection holds it");
    for (auto& a : alive) VF_CHECK(c, held.count(a.first), "never-destroyed", where << ": an object no collection holds any more was not destroyed");
    VF_CHECK(c, doubleDestroy == 0, "destroyed-twice", where);
}

Item* make(vf::Ctx& c, std::size_t id) {
    switch (c.rng.range(0, 2)) { case 0: return new Item(id, c.rng.range(0, 99));
        case 1: return new ItemA(id, c.rng.range(0, 99)); default: return new ItemB(id, c.rng.range(0, 99)); }
}
M desc(const Item* i) { return M{i->serial, i->getId().toInt(), i->kind()}; }

std::size_t freshId(vf::Ctx& c, const Model& m, const std::set<std::size_t>& also) {
    for (;;) { std::size_t id = c.rng.chance(0.03) ? c.rng.range(1000, 1000000) : c.rng.range(1, 24);
        bool used = also.count(id) != 0; for (auto& x : m) used = used || x.id == id; if (!used) return id; 
        if (c.rng.chance(0.05)) return 2000000 + c.rng.range(0, 1000000); }
}
} // namespace

// The library's own collections: the same members in the same order whatever way they came in.
template <class B> std::vector<const void*> members(Group::Group<B>& g) { std::vector<const void*> r; for (std::size_t i = 0; i < g.size(); i++) r.push_back(dynamic_cast<const void*>(g(i))); return r; }
template <class GT, class B> void ids(vf::Ctx& c, const char* n, GT& g, const std::vector<std::size_t>& want) {
    VF_CHECK(c, g.size() == want.size(), "typed-size", n); for (std::size_t i = 0; i < want.size() && i < g.size(); i++) { typedef decltype(g(i)->getId()) I; VF_CHECK(c, g(i)->getId() == I(want[i]) && g.existId(I(want[i])) && g.getId(I(want[i])) == g(i), "typed-lookup", n << " of id " << want[i]); }
    for (std::size_t k = 1; k < 14; k++) { typedef decltype(g(0)->getId()) I; if (!std::count(want.begin(), want.end(), k)) VF_CHECK(c, !g.existId(I(k)), "typed-absent", n << " of id " << k); } }
template <class GT, class B> void typed(vf::Ctx& c, const char* n, std::function<B*(std::size_t)> mk, std::function<void(GT&, const std::vector<std::size_t>&)> look) {
    std::vector<std::size_t> a, b; for (std::size_t k = 1; k < 12; k++) { if (c.rng.chance(0.4)) a.push_back(k); if (c.rng.chance(0.4)) b.push_back(k); } c.rng.shuffle(a); c.rng.shuffle(b); c.ev(std::string("typed-") + n);
    auto plain = [&](const std::vector<std::size_t>& v) { std::vector<B*> p; for (auto k : v) p.push_back(mk(k)); return Group::Group<B>(p); };
    Group::Group<B> pa(plain(a)), pb(plain(b)); GT g(pa); look(g, a); VF_CHECK(c, members<B>(g) == members<B>(pa), "typed-members", n);
    VF_CHECK(c, &(g = pb) == &g, "typed-assign", n); look(g, b); VF_CHECK(c, members<B>(g) == members<B>(pb), "typed-members", n << " assigned");
    Group::Group<B>& base = g; base = pa; look(g, a); base = base; look(g, a); g = base; look(g, a); g = std::move(base); look(g, a); VF_CHECK(c, members<B>(g) == members<B>(pa), "typed-members", n << " assigned as its base");
    { Group::Group<B> t(pb); g = std::move(t); look(g, b); } { Group::Group<B> t(pa); base = std::move(t); look(g, a); }
    { std::unique_ptr<GT> k(g.clone()); look(*k, a); auto ma = members<B>(*k), mb = members<B>(g); for (std::size_t i = 0; i < ma.size() && i < mb.size(); i++) VF_CHECK(c, ma[i] != mb[i], "typed-clone-shares", n); }
    { GT h; VF_CHECK(c, h.empty(), "typed-empty", n); h = g; look(h, a); h.clear(); look(h, {}); look(g, a); h.add(pa); look(h, a); if (!a.empty()) { std::size_t p = c.rng.range(0, a.size() - 1); h.remove(p); auto r = a; r.erase(r.begin() + p); look(h, r); } }
    GT k(std::move(pa)); look(k, a);
}
void typedGroups(vf::Ctx& c) {
    using namespace Geometry; typedef PhysicalModel::PhysicalModel PM;
    switch (c.rng.range(0, 5)) {
    case 0: typed<LayerGroup, Layer::Layer>(c, "layers", [](std::size_t k) { return new Layer::Layer(LayerId(k), "l " + std::to_string(k)); }, [&](LayerGroup& g, const std::vector<std::size_t>& w) { ids<LayerGroup, Layer::Layer>(c, "layers", g, w);
        for (auto k : w) { const Layer::Layer* l = g.getName("l_" + std::to_string(k)); VF_CHECK(c, l == g.getId(LayerId(k)) && l->getName() == "l_" + std::to_string(k), "layer-by-name", k); Layer::Layer same(LayerId(k), "l " + std::to_string(k)), other(LayerId(k), "m"), third(LayerId(k + 1), "l " + std::to_string(k)), noId("l " + std::to_string(k));
            VF_CHECK(c, *l == same && !(*l != same) && *l != other && !(*l == other) && *l != third && *l != noId && noId.getId() == LayerId(0), "layer-equality", l->toStr()); }
        VF_CHECK(c, g.getName("l_99") == nullptr, "layer-by-name", "absent"); }); break;
    case 1: typed<Coordinate::Group<>, Coord>(c, "coordinates", [](std::size_t k) { return k % 2 ? (Coord*) new CoordR3(CoordId(k), Math::CVecR3(k, 0, 0)) : new CoordI3(CoordId(k), Math::CVecI3(k, 0, 0)); }, [&](Coordinate::Group<>& g, const std::vector<std::size_t>& w) { ids<Coordinate::Group<>, Coord>(c, "coordinates", g, w);
        for (std::size_t k = 1; k < 14; k++) { bool in = std::count(w.begin(), w.end(), k) != 0; const Coord* p = k % 2 ? (const Coord*) g.getPos(Math::CVecR3(k, 0, 0)) : g.getPos(Math::CVecI3(k, 0, 0)); VF_CHECK(c, in ? p == g.getId(CoordId(k)) : p == nullptr, "coordinate-by-position", k); } }); break;
    case 2: { CoordR3Group cs; const CoordR3* v = cs.addPos(Math::CVecR3(1, 2, 3)); typed<Element::Group<>, Elem>(c, "elements", [&](std::size_t k) { return new NodR(ElemId(k), &v); }, [&](Element::Group<>& g, const std::vector<std::size_t>& w) { ids<Element::Group<>, Elem>(c, "elements", g, w); }); break; }
    case 3: typed<PMGroup, PM>(c, "materials", [](std::size_t k) { PhysicalModel::Id i(k); return k % 2 ? (PM*) new PhysicalModel::Predefined::PEC(i) : new PhysicalModel::Predefined::PMC(i); }, [&](PMGroup& g, const std::vector<std::size_t>& w) { ids<PMGroup, PM>(c, "materials", g, w); }); break;
    case 4: typed<SourceGroup, Source::Base>(c, "sources", [](std::size_t k) { return (Source::Base*) new Source::PlaneWave(nullptr, Element::Group<Vol>(), Math::CVecR3(1, 0, 0), Math::CVecR3(0, double(k), 0)); }, [&](SourceGroup& g, const std::vector<std::size_t>& w) { VF_CHECK(c, g.size() == w.size(), "typed-size", "sources");
        for (std::size_t i = 0; i < w.size() && i < g.size(); i++) VF_CHECK(c, g(i)->castTo<Source::PlaneWave>()->getPolarization()(1) == double(w[i]), "typed-order", "sources"); }); break;
    default: typed<OutputRequest::Group<>, OutputRequest::Base>(c, "requests", [](std::size_t k) { return new OutRqElem(OutputRequest::Domain(), OutputRequest::Base::Type::electric, "r" + std::to_string(k), Element::Group<Elem>()); }, [&](OutputRequest::Group<>& g, const std::vector<std::size_t>& w) { VF_CHECK(c, g.size() == w.size(), "typed-size", "requests");
        for (std::size_t i = 0; i < w.size() && i < g.size(); i++) VF_CHECK(c, g(i)->getName() == "r" + std::to_string(w[i]), "typed-order", "requests"); }); }
}
void vf_case(vf::Ctx& c) {
    typedGroups(c);
    alive.clear(); doubleDestroy = 0;
    {
        World w;
        for (int k = 0; k < World::N; k++) w.g[k].reset(new ItemGroup<>());
        int steps = c.rng.range(3, c.thorough ? 60 : 30);
        for (int s = 0; s < steps; s++) {
            int k = c.rng.range(0, World::N - 1);
            ItemGroup<>& g = *w.g[k];
            Model& m = w.m[k];
            int op = c.rng.range(0, 21);
            std::string where;
            auto tag = [&](const std::string& t) { where = t + " step " + std::to_string(s) + " [" + c.canonical.substr(c.canonical.size() > 300 ? c.canonical.size() - 300 : 0) + "]"; c.cov(t.substr(0, t.find(' '))); c.note(std::to_string(k) + t); c.ev("op:" + t.substr(0, t.find(' '))); };
            std::set<long> extra;
            switch (op) {
            case 0: case 1: { // add one with its own id
                Item* it = make(c, freshId(c, m, {})); M d = desc(it); tag("add " + std::to_string(d.id));
                auto r = g.add(it); m.push_back(d);
                VF_CHECK(c, r.size() == 1 && r(0) == it, "add-result", where); break; }
            case 2: { // add several, as vector
                std::vector<Item*> v; std::set<std::size_t> ids; int n = c.rng.range(0, 4); std::vector<M> ds; std::string t = "addv";
                for (int i = 0; i < n; i++) { Item* it = make(c, freshId(c, m, ids)); ids.insert(it->getId().toInt()); v.push_back(it); ds.push_back(desc(it)); t += " " + it->getId().toStr(); }
                tag(t); auto r = g.add(v); for (auto& d : ds) m.push_back(d);
                VF_CHECK(c, r.size() == v.size(), "add-result", where); break; }
            case 3: { // add another group's members whose ids are free here
                int o = c.rng.range(0, World::N - 1); if (o == k) break;
                ItemGroup<>& og = *w.g[o]; bool clash = false;
                for (auto& x : w.m[o]) for (auto& y : m) clash = clash || x.id == y.id;
                tag(std::string(clash ? "merge-clash " : "merge ") + std::to_string(o));
                std::string t = vf::thrown([&] { g.add(og); });
                if (clash) VF_CHECK(c, !t.empty(), "merge-duplicate-accepted", where << ": merging collections with a common id was accepted");
                else { VF_CHECK(c, t.empty(), "merge-throws", where << " " << t); for (auto& x : w.m[o]) m.push_back(x); }
                break; }
            case 4: { // duplicated id must be rejected, and the collection stays usable
                if (m.empty()) break;
                std::vector<Item*> v; int n = c.rng.range(0, 2); std::set<std::size_t> ids;
                for (int i = 0; i < n; i++) { Item* it = make(c, freshId(c, m, ids)); ids.insert(it->getId().toInt()); v.push_back(it); }
                v.insert(v.begin() + c.rng.range(0, v.size()), make(c, c.rng.pick(m).id));
                tag("add-duplicate " + std::to_string(n));
                VF_CHECK(c, !vf::thrown([&] { if (v.size() == 1) g.add(v[0]); else g.add(v); }).empty(), "duplicate-accepted", where << ": a second member with an existing id was accepted");
                break; }
            case 5: { tag("add-zero"); Item* it = make(c, 0);
                VF_CHECK(c, !vf::thrown([&] { g.add(it); }).empty(), "zero-accepted", where << ": a member with id zero was accepted"); break; }
            case 6: case 7: case 8: { // automatic ids
                std::vector<Item*> v; int n = c.rng.range(1, 4); int mode = c.rng.range(0, 2); if (mode == 0) n = 1;
                for (int i = 0; i < n; i++) v.push_back(make(c, c.rng.range(0, 6)));
                tag("addId " + std::to_string(mode) + " " + std::to_string(n));
                std::size_t before = g.size();
                if (mode == 0) g.addId(v[0]);
                else if (mode == 1) g.addId(v);
                else { Group::Group<Item> tmp(v); g.addId(tmp); }
                VF_CHECK(c, g.size() == before + v.size(), "autoid-size", where);
                std::size_t prev = 0; for (auto& x : m) prev = std::max(prev, x.id);
                for (auto it : v) { M d = desc(it);
                    VF_CHECK(c, d.id != 0, "autoid-zero", where);
                    VF_CHECK(c, d.id > prev, "autoid-not-fresh", where << ": automatic id " << d.id << " is not above every id in use (" << prev << ")");
                    prev = d.id; m.push_back(d); }
                break; }
            case 9: case 10: { if (m.empty()) break; std::size_t p = c.rng.range(0, m.size() - 1); tag("remove " + std::to_string(p));
                g.remove(p); m.erase(m.begin() + p); break; }
            case 11: { if (m.empty()) break; std::vector<std::size_t> ps; int n = c.rng.range(0, m.size()); std::string t = "removev";
                for (int i = 0; i < n; i++) { ps.push_back(c.rng.range(0, m.size() - 1)); t += " " + std::to_string(ps.back()); }
                tag(t); g.remove(ps); Model r; for (std::size_t i = 0; i < m.size(); i++) if (!std::count(ps.begin(), ps.end(), i)) r.push_back(m[i]); m = r; break; }
            case 12: case 13: { std::size_t id = m.empty() || c.rng.chance(0.2) ? c.rng.range(1, 40) : c.rng.pick(m).id; tag("removeId " + std::to_string(id));
                g.removeId(ItemId(id)); Model r; for (auto& x : m) if (x.id != id) r.push_back(x); m = r; break; }
            case 14: { std::vector<ItemId> ids; std::set<std::size_t> q; int n = c.rng.range(0, 6); std::string t = "select";
                for (int i = 0; i < n; i++) { std::size_t id = m.empty() || c.rng.chance(0.25) ? c.rng.range(1, 40) : c.rng.pick(m).id; ids.push_back(ItemId(id)); q.insert(id); t += " " + std::to_string(id); }
                bool rem = c.rng.chance(0.3); bool cst = c.rng.chance(0.5); tag((rem ? "un" : cst ? "c" : "") + t);
                if (rem) { g.removeId(ids); Model r; for (auto& x : m) if (!q.count(x.id)) r.push_back(x); m = r; break; }
                Model r; for (auto& x : m) if (q.count(x.id)) r.push_back(x);
                if (cst) { const ItemGroup<>& cg = g; Group::Identifiable<const Item, ItemId> sub(cg.getId(ids));
                    VF_CHECK(c, sub.size() == r.size(), "select-size", where << ": selection by ids has " << sub.size() << " members, expected " << r.size());
                    for (std::size_t i = 0; i < r.size() && i < sub.size(); i++) VF_CHECK(c, sub(i)->serial == r[i].serial, "select-member", where); }
                else { ItemGroup<> sub(g.getId(ids)); checkGroup(c, (where + " (selection)").c_str(), sub, r); }
                break; }
            case 15: { int o = c.rng.range(0, World::N - 1); tag("assign " + std::to_string(o)); if (o != k) { g = *w.g[o]; m = w.m[o]; } else { g = g; } break; }
            case 16: { tag("clone"); ItemGroup<> cp(g.cloneElems());
                VF_CHECK(c, cp.size() == m.size(), "clone-size", where);
                for (std::size_t i = 0; i < cp.size() && i < m.size(); i++) {
                    VF_CHECK(c, cp(i) != g(i) && cp(i)->serial != m[i].serial, "clone-shares", where << ": a cloned collection shares a member");
                    VF_CHECK(c, cp(i)->getId() == g(i)->getId() && cp(i)->payload == g(i)->payload && cp(i)->kind() == g(i)->kind(), "clone-differs", where);
                    VF_CHECK(c, cp.existId(g(i)->getId()) && cp.getId(g(i)->getId()) == cp(i), "clone-lookup", where); }
                std::unique_ptr<ItemGroup<>> cl(g.clone());
                VF_CHECK(c, cl->size() == m.size(), "clone-size", where);
                break; }
            case 17: { tag("share"); int o = c.rng.range(0, World::N - 1); if (o == k) break; w.g[o].reset(new ItemGroup<>(static_cast<Group::Group<Item>&>(g))); w.m[o] = m; break; }
            case 18: { tag("clear"); g.clear(); m.clear(); break; }
            case 19: { if (m.empty()) break; std::vector<std::size_t> ps; Model r; std::set<std::size_t> q; int n = c.rng.range(0, 5);
                for (int i = 0; i < n; i++) { ps.push_back(c.rng.range(0, m.size() - 1)); q.insert(ps.back()); }
                for (auto p : q) r.push_back(m[p]); tag("view " + std::to_string(n));
                Group::Group<Item> v = static_cast<Group::Group<Item>&>(g).get(ps);
                VF_CHECK(c, v.size() == r.size(), "view-size", where);
                for (std::size_t i = 0; i < r.size() && i < v.size(); i++) VF_CHECK(c, v(i)->serial == r[i].serial, "view-member", where);
                Group::Group<const Item> cv = v;   // a view of a view keeps the members alive
                { const Group::Group<Item>& kv = v; Group::Group<const Item> ck(kv), cm(std::move(Group::Group<Item>(v))), cc(cv); Group::Group<const Item> as; as = kv; const Group::Group<Item>& kg = g; Group::Group<const Item> whole(kg);
                  for (auto* q : {&ck, &cm, &cc, &as, &cv}) { VF_CHECK(c, q->size() == r.size(), "view-size", where << ": a read-only view has " << q->size() << " members, expected " << r.size()); for (std::size_t i = 0; i < r.size() && i < q->size(); i++) VF_CHECK(c, (*q)(i)->serial == r[i].serial, "view-member", where); }
                  VF_CHECK(c, whole.size() == m.size(), "view-size", where << ": a read-only view of everything has " << whole.size()); for (std::size_t i = 0; i < m.size() && i < whole.size(); i++) VF_CHECK(c, whole(i)->serial == m[i].serial, "view-member", where); }
                if (c.rng.chance(0.5) && !v.empty()) { std::size_t keep = v(0)->getId().toInt(); long ser = v(0)->serial; g.removeId(ItemId(keep));
                    Model r2; for (auto& x : m) if (x.id != keep) r2.push_back(x); m = r2;
                    VF_CHECK(c, alive.count(ser), "destroyed-while-held", where << ": removed from the collection and destroyed although a view still holds it");
                    VF_CHECK(c, cv(0)->serial == ser, "view-member", where); }
                break; }
            case 20: { if (m.empty()) break; std::size_t p = c.rng.range(0, m.size() - 1); int how = c.rng.range(0, 4); // another member in the place of one
                std::size_t id = how == 0 ? 0 : how == 1 ? c.rng.pick(m).id : how == 2 ? m[p].id : freshId(c, m, {}); bool bad = id == 0 || (id != m[p].id && std::count_if(m.begin(), m.end(), [&](const M& x) { return x.id == id; }));
                Item* it = make(c, id); M d = desc(it); tag("set " + std::to_string(p) + " " + std::to_string(id)); std::string t = vf::thrown([&] { g.set(p, it); });
                VF_CHECK(c, t.empty() != bad, bad ? "duplicate-accepted" : "set-throws", where << " " << t); if (!bad) m[p] = d; c.ev(bad ? "set-refused" : "set"); break; }
            case 21: { // assigned from a plain group of members of its own, some of them perhaps without a usable identity
                std::vector<Item*> v; std::vector<M> ds; std::set<std::size_t> ids; int n = c.rng.range(0, 4); bool bad = false; for (int i = 0; i < n; i++) { std::size_t id = c.rng.chance(0.08) ? 0 : c.rng.range(1, 12); bad = bad || id == 0 || !ids.insert(id).second; v.push_back(make(c, id)); ds.push_back(desc(v.back())); }
                bool mv = c.rng.chance(0.5), base = c.rng.chance(0.5); tag(std::string("assign-plain") + (mv ? "M" : "") + (base ? "B " : " ") + std::to_string(n) + (bad ? "!" : ""));
                { Group::Group<Item> plain(v); Group::Group<Item>& asBase = g; std::string t = vf::thrown([&] { if (base) { if (mv) asBase = std::move(plain); else asBase = plain; } else if (mv) g = std::move(plain); else g = plain; });
                  VF_CHECK(c, t.empty() != bad, bad ? "duplicate-accepted" : "assign-throws", where << " " << t); }
                if (!bad) m = ds; c.ev(bad ? "assign-refused" : "assign"); break; }
            }
            if (where.empty()) continue;
            c.interesting = true;
            for (int q = 0; q < World::N; q++) checkGroup(c, where.c_str(), *w.g[q], w.m[q]);
            checkLife(c, where.c_str(), w, extra);
            std::string st; for (int q = 0; q < World::N; q++) { for (auto& x : w.m[q]) st += std::to_string(x.id) + "k" + std::to_string(x.kind) + ","; st += "|"; }
            c.state(vf::hashStr(st)); c.dig(st);
        }
    }
    VF_CHECK(c, alive.empty(), "never-destroyed", "after the last collection went away " << alive.size() << " members still exist: " << c.canonical);
    VF_CHECK(c, doubleDestroy == 0, "destroyed-twice", c.canonical);
}

VF_PROBE("layers") { // the collection type of the library's layers, ids from both sources
    Geometry::Layer::Group<> l;
    l.add(new Geometry::Layer::Layer(Geometry::LayerId(7), "a"));
    l.addId(new Geometry::Layer::Layer("b"));
    VF_CHECK(c, l.existId(Geometry::LayerId(8)) && l.getId(Geometry::LayerId(8))->getName() == "b", "fresh", "layer id");
    l.removeId(Geometry::LayerId(7));
    VF_CHECK(c, l.size() == 1 && !l.existId(Geometry::LayerId(7)) && l(0)->getName() == "b", "removed", "layer");
    VF_CHECK(c, vf::thrown([&] { l.getId(Geometry::LayerId(7)); }).size() > 0, "absent", "layer");
}
VF_PROBE("construct-duplicates") {
    std::vector<Item*> v{new Item(3, 1), new Item(3, 2)};
    VF_CHECK(c, !vf::thrown([&] { ItemGroup<> g(v); }).empty(), "accepted", "a collection was built from two members with one id");
    std::vector<Item*> z{new Item(3, 1), new Item(0, 2)};
    VF_CHECK(c, !vf::thrown([&] { ItemGroup<> g(z); }).empty(), "accepted-zero", "a collection was built from a member with id zero");
}
VF_PROBE("large") {
    ItemGroup<> g; for (int i = 0; i < 3000; i++) g.addId(new Item(0, i));
    bool ok = true; for (int i = 0; i < 3000; i++) ok = ok && g.getId(ItemId(i + 1))->payload == i;
    VF_CHECK(c, ok, "lookup", "3000 members");
    std::vector<std::size_t> odd; for (int i = 1; i < 3000; i += 2) odd.push_back(i);
    g.remove(odd); ok = g.size() == 1500;
    for (int i = 0; ok && i < 1500; i++) ok = g(i)->payload == 2 * i && g.getId(ItemId(2 * i + 1)) == g(i);
    VF_CHECK(c, ok, "remove", "3000 members");
}
