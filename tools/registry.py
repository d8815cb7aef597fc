#!/usr/bin/env python3-vt
"""Source of properties.jsonl and MANIFEST.json (run from /verif: python3-vt tools/registry.py)."""
import glob
import json
import os
import re

SB = "src/pymatching/sparse_blossom/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=[f if f.startswith("src/") or f.endswith(".py") else SB + f for f in files],
                  mech=mech, note=note, na=na))


prop("R01", "Radius and clock arithmetic is exact at every time, including clock wrap",
     "At every time a growing, shrinking or standing region has exactly the radius given by its value at its last change plus its rate times the "
     "elapsed time, and switching between growing, shrinking and standing never changes the radius at the moment of the switch. The computed time at "
     "which two radii meet is the exact time at which their sum reaches the distance. Comparing and widening truncated clock values agrees with the true "
     "64-bit times whenever they are less than half a turn apart, and no quantity that accumulates weight, distance or time is narrower than 64 bits.",
     ["inputs", "histories"], "all radii and times up to 44 bits, all slope changes, all clock values and wrap counts",
     "tests sample a few small radii and never a clock that has wrapped or sums beyond 32 bits",
     ["flooder_matcher_interop/varying.h", "tracker/cyclic.h", "ints.h"],
     [("packed line (value, slope) and its transitions", SB + "flooder_matcher_interop/varying.h"), ("cyclic comparison and widening", SB + "tracker/cyclic.h")])
prop("R02", "The event queue never loses, duplicates or advances a wake-up",
     "Every scheduled event is served exactly once, at its own time and in non-decreasing order of time, across any interleaving of scheduling and serving "
     "and across wrap of the truncated clock. Whenever an entity wishes to be woken, an event no later than the wish is queued for it, and it is woken at "
     "exactly the wished time; stale or withdrawn events have no effect. Clearing the queue discards all events, and resetting it also rewinds the clock.",
     ["schedules", "histories"], "all pairs and triples of event times and payloads around any clock value; all tracker states",
     "queue tests use a handful of times near zero; trackers are tested on single scripted sequences",
     ["tracker/radix_heap_queue.h", "tracker/queued_event_tracker.h", "tracker/flood_check_event.cc"],
     [("radix buckets and their redistribution", SB + "tracker/radix_heap_queue.h"), ("desired/queued time pair", SB + "tracker/queued_event_tracker.h")])
prop("R03", "Growth records origin, distance and parity of every node and collision",
     "Whenever a region reaches a detector, that detector records the region, the detection event it was reached from, the parity of logical observables "
     "crossed on the way and its exact distance; when the region withdraws the detector is as if never reached. Every reported collision between regions, "
     "with the boundary or by collapse of a shrinking region names the right top-level regions, joined by the path between the two detection events with the full "
     "observable parity of that path.",
     ["inputs", "histories"], "all edge weights, observable masks, radii, and ownership of the two ends of an edge (empty, plain region, child of a blossom)",
     "each case is tested with one or two fixed weights and masks; most of the state is not asserted",
     ["flooder/graph_flooder.cc", "flooder/detector_node.cc", "flooder/graph_fill_region.cc", "flooder_matcher_interop/compressed_edge.cc"],
     [("arrival bookkeeping", SB + "flooder/graph_flooder.cc"), ("path reversal and merging", SB + "flooder_matcher_interop/compressed_edge.cc")])
prop("R04", "Every next interaction is found and scheduled at its exact time",
     "For every detector the next interaction considered is the earliest over all its edges: regions growing towards each other, towards a standing region, an "
     "unreached detector or the boundary, and never with a shrinking neighbour or its own region. Whenever a region starts or stops growing or shrinking, or a "
     "detector is reached or released, every detector and region affected is scheduled for its next interaction, so that no collision is missed or handled late.",
     ["inputs", "schedules"], "all weights, radii, clock values; all combinations of states of a detector and its neighbours; nested regions",
     "a missed rescheduling only shows for particular geometries; tests fix the weights and the order of events",
     ["flooder/graph_flooder.cc", "flooder/detector_node.h"],
     [("next-event search over neighbours", SB + "flooder/graph_flooder.cc"), ("rescheduling on every state change of a region", SB + "flooder/graph_flooder.cc")])
prop("R05", "Alternating trees keep every path and release regions only in matched pairs",
     "Joining, re-rooting and dissolving alternating trees preserves the set of paths between regions, each with its orientation and observable parity. When a tree meets the "
     "boundary, another tree or a matched region, every region that leaves the search is matched to exactly one partner (or the boundary) over the path that connects them, "
     "the match is mutual, and it stops growing; a matched pair absorbed by a tree shrinks and grows respectively and is no longer matched.",
     ["inputs", "histories"], "all paths and radii, both reporting orders, trees of up to four tree nodes in all relative positions",
     "unit tests build a few fixed trees and check part of the state; parity is mostly zero in them",
     ["matcher/alternating_tree.cc", "matcher/mwpm.cc"],
     [("tree surgery", SB + "matcher/alternating_tree.cc"), ("collision handlers", SB + "matcher/mwpm.cc")])
prop("R06", "Blossoms contract and re-expand odd cycles without losing a path or distance",
     "When two branches of one tree meet, exactly the regions on the odd cycle between them are contracted, the recorded cycle has the exact path and parity of each step, and branches hanging off the cycle "
     "stay in the tree. When the blossom shatters its regions come back: those on the even side of the cycle continue the tree in alternating order, the others are matched in neighbouring pairs. "
     "At every nesting depth each detector knows its topmost region and its distance inside it.",
     ["inputs", "histories"], "3- and 5-cycles with all relative positions of tree parent and tree child, any paths, radii and masks; nested blossoms",
     "tests cover single shapes with few masks; the parity and wrapped distances inside nested blossoms are rarely asserted",
     ["matcher/mwpm.cc", "flooder/graph_flooder.cc", "flooder/graph_fill_region.cc", "flooder/detector_node.cc"],
     [("blossom creation and shattering", SB + "matcher/mwpm.cc"), ("wrapping into / release from a blossom", SB + "flooder/graph_fill_region.cc")])

PY = {"R21"}
PY_TECH = ("static analysis: interprocedural abstract interpretation of the Python syntax trees (value flow from every argument to every "
           "parameter of the compiled extension and back)")

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "registry_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    have = set()
    for f in glob.glob("wit/*.cc") + glob.glob("lib/*.py"):
        have |= set(re.findall(r"(?:^//! property:|^# property:)\s*(\w+)", open(f).read(), flags=re.M))
    with open("properties.jsonl", "w") as fh:
        for p in P:
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif p["id"] not in have:
            na.append({"property": p["id"], "reason": "check not built yet"})
        else:
            checks.append({
                "property": p["id"], "quick_cmd": "python3-vt bin/check.py %s" % p["id"],
                "thorough_cmd": "python3-vt bin/check.py %s --tier=thorough" % p["id"],
                "technique": PY_TECH if p["id"] in PY else "static analysis: compile-time witnesses discharged by LLVM dataflow (SSA constant/copy/alias propagation, dead-branch proof) over the linked repository IR",
                "level": "other",
                "level_note": p["note"] or "universally quantified over the symbolic inputs of each witness; object-graph shapes as listed in DESIGN.md; nothing is executed"})
    man = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "One driver (bin/check.py), one engine (lib/witness.py), witnesses in wit/; no hooks in /repo."}
    json.dump(man, open("MANIFEST.json", "w"), indent=1)
    print(len(checks), "claimed", len(na), "not applicable")


if __name__ == "__main__":
    main()
