"""Writes properties.jsonl and MANIFEST.json from the list below and props.py."""
import json
from props import PROPS
P = []
def prop(id, title, statement, over, q, why, files, mech, observe=None, na=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    P.append((d, na))

G = "src/core/"
prop("C01", "Identified collections stay consistent and transactional",
 "A collection of identified objects always answers lookup, existence and position questions by identity exactly as its members say, and after any sequence of additions, replacements, removals, extractions, filters, copies and moves its members are exactly the expected ones in the expected order. No two members ever share a nonzero identity: an addition, replacement or new identity that would break this is refused with an error and leaves the collection as it was, and objects without identity are given fresh unused ones on request. Members live exactly as long as some collection or handle still holds them, and copies made by cloning share nothing with the original.",
 ["histories"], "all sequences of operations on collections that share members, including refused ones",
 "The tests run a handful of fixed sequences and never look at a collection after a refused operation.",
 [G+"group/Group.hpp", G+"group/Identifiable.hpp", G+"group/Cloneable.hpp", G+"class/Identification.hpp"],
 [("Group::Identifiable mapId index", G+"group/Identifiable.hpp"), ("Group add/remove/get", G+"group/Group.hpp")])
prop("C02", "A coordinate collection finds every position it holds",
 "In a collection of coordinates a search by position returns a coordinate that lies there (to rounding) if and only if the collection holds one, after any history of additions, removals, scalings, copies and assignments. Adding a position that is already held creates no new coordinate, a new position gets a fresh identity, and scaling multiplies every coordinate by the factor once. Copies and assigned collections hold coordinates of their own with the same identities and positions.",
 ["histories"], "all histories of operations on integer and real coordinate collections whose positions are equal or differ by more than rounding",
 "Tests add a few positions once; they never mix scaling, removal and search.",
 [G+"geometry/coordinate/Group.hpp", G+"geometry/coordinate/Coordinate.hpp"],
 [("position index", G+"geometry/coordinate/Group.hpp: indexUnstr_, indexStr_"), ("applyScalingFactor", G+"geometry/coordinate/Group.hpp")])
prop("C05", "Grids locate points in the right cell",
 "For every point inside a grid the cell returned contains it, the relative position in the cell leads back to the point, and the neighbouring-line queries agree with the grid's lines; points outside, and points that lie on no line when a line is asked for, are refused or flagged as asked. Lines, steps, cell counts, centres and domain of a grid all follow from the lines alone, however the grid was built. Converting integer, relative and conformal positions to space and back keeps them.",
 ["inputs"], "all regular and irregular grids and all points, on lines, in cells and outside",
 "Tests check a few points of one or two grids.",
 [G+"geometry/Grid.hpp", G+"geometry/coordinate/Relative.cpp", G+"geometry/coordinate/Conformal.cpp"],
 [("Grid getCell/getPos", G+"geometry/Grid.hpp")])
prop("C06", "Padding a grid keeps its lines and honours the padding",
 "Padding a grid at any bound keeps all existing lines and adds lines only outside that bound, so that the new bound lies where the padding asks, within one cell of the requested size. The added cells grow or shrink smoothly from the neighbouring cell towards the requested size without overshooting it, the lines stay strictly increasing, and the other bounds and axes do not change. A padding of zero, or smaller than the requested cell, changes nothing.",
 ["inputs"], "all grids, bounds, paddings and requested cell sizes",
 "Tests pad one regular grid.",
 [G+"geometry/Grid.hpp"], [("enlargeBound, setAdditionalSteps", G+"geometry/Grid.hpp")])
prop("C07", "Axis-aligned boxes follow set algebra and chopping tiles them",
 "Containment, intersection, union, length, dimension, corner and face queries of axis-aligned boxes agree with the definition point by point, whatever the order of the corners given. Cutting a box into pieces of a given size or along a grid yields pieces that do not overlap, cover exactly the box and nothing else, and respect the cutting planes.",
 ["inputs"], "all pairs of real and integer boxes of every dimension, step sizes and grids",
 "Tests cover a few fixed boxes.",
 [G+"geometry/Box.hpp"], [("Box", G+"geometry/Box.hpp")])
exec(open(__file__.replace("spec.py", "spec_more.py")).read())

with open("properties.jsonl", "w") as f:
    for d, na in P:
        f.write(json.dumps(d) + "\n")
checks, nas = [], []
for d, na in P:
    i = d["id"]
    if na: nas.append(dict(property=i, reason=na)); continue
    assert i in PROPS, i
    c = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique="runtime monitoring: sanitized (ASan+UBSan) execution of generated workloads, observed by a reference-model oracle",
        level="exploration", level_note="Observed executions only: " + c["rule"] + "."))
m = dict(version=1, setup_cmd="python3 -c 'import sys; sys.exit(0)'", checks=checks, not_applicable=nas,
    notes="Every check builds the sources of /repo's working tree it needs, with sanitizers, into /verif/.build (git-ignored). No hooks in /repo are needed.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
bad = [i for i in PROPS if i not in [d["id"] for d, _ in P]]
assert not bad, bad
for d, _ in P: assert len(d["title"]) <= 80, d["id"]
print(len(P), "properties", len(checks), "checks")
