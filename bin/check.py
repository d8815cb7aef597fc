#!/usr/bin/env python3-vt
"""check.py <property>: decide one property from /repo's current source (static analysis, nothing is executed)."""
import glob
import json
import os
import re
import shutil
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import lint  # noqa: E402
import witness as W  # noqa: E402


def header(src, key):
    return [m.strip() for m in re.findall(r"^//! %s:(.*)$" % key, src, flags=re.M)]


def witness_files(pid):
    """(file, functions of that file that belong to the property).  A //! property: line governs the witnesses
    below it, up to the next one."""
    out = []
    for f in sorted(glob.glob(os.path.join(VERIF, "wit/*.cc"))):
        src = open(f).read()
        cur, desc, fns = None, [], {}
        for line in src.split("\n"):
            m = re.match(r"//! property:\s*(\S+)", line)
            if m:
                cur = m.group(1)
            elif line.startswith("//@"):
                desc.append(line[3:].strip())
            m = re.match(r"WITNESS\((\w+)\)", line)
            if m:
                if cur == pid:
                    fns[m.group(1)] = " ".join(desc)
                desc = []
        if fns:
            out.append((f, src, fns))
    return out


def check_text(f, lines, k):
    """The text of the check at line k, in the witness file or one of the local headers it includes."""
    seen, todo = set(), [lines]
    while todo:
        ls = todo.pop()
        if k <= len(ls) and "CHECK(" in ls[k - 1]:
            return ls[k - 1].strip()
        for l in ls:
            m = re.match(r'#include "(\w+\.h)"', l)
            if m and m.group(1) not in seen:
                seen.add(m.group(1))
                p = os.path.join(VERIF, "wit", m.group(1))
                if os.path.exists(p):
                    todo.append(open(p).read().split("\n"))
    return lines[k - 1].strip() if k <= len(lines) else "line %d" % k


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def python_layer(pid, tier, seed, t0):
    """The properties of the Python sources (lib/pylayer.py, lib/pyscen.py)."""
    import pylayer
    import pyscen
    try:
        res = pylayer.run_all(W.REPO, pyscen.SCENARIOS)
    except (OSError, SyntaxError) as e:
        print("no obligation could be analysed: %s" % e)
        return 2
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    rc = nviol = disc = 0
    undecided, samples = [], []
    for name, desc, status, msgs, n, paths in res:
        msgs = list(dict.fromkeys(msgs))
        if status == "proved":
            disc += n
            samples.append({"scenario": name, "obligation": desc, "checks": n, "paths": paths})
        elif status == "undecided":
            undecided.append("%s (%s)" % (name, "; ".join(msgs)[:300]))
        else:
            hit = next((k for k in kf if k.get("witness") == name and all(m == k.get("check") for m in msgs)), None)
            if hit:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
                continue
            rp = os.path.join(replay_dir, "%s_%s.txt" % (pid, name))
            with open(rp, "w") as fh:
                fh.write("property %s violated in the Python layer\nscenario: lib/pyscen.py:%s -- %s\n" % (pid, name, desc))
                fh.write("".join("  %s\n" % m for m in msgs))
                fh.write("replay: python3-vt bin/check.py %s\n" % pid)
            print("in src/pymatching, %s: %s" % (desc, msgs[0][:500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            nviol += 1
            rc = 1
    for u in undecided:
        print("UNDECIDED %s" % u)
    total = sum(r[4] for r in res)
    print("property %s: %d scenarios, %d obligations, %d discharged, %d undecided scenarios, %d violations"
          % (pid, len(res), total, disc, len(undecided), nviol))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the syntax trees of src/pymatching/*.py (nothing is imported or run): per entry point, "
                           "the abstract value reaching every parameter of the compiled extension and the abstract value returned are compared "
                           "with the expected function of the inputs, on every path.",
            "rule": "equal abstract values on all paths; a violation needs a different function of the inputs on a feasible path",
            "scenarios": len(res), "paths": sum(r[5] for r in res), "obligations": total, "discharged": disc, "undecided": undecided,
            "files": sorted(pylayer.FILES.values()) + [pylayer.BIND], "samples": samples[:8],
        },
        "assumptions": ["the rules of lib/pylayer.py for numpy, scipy, networkx and rustworkx calls follow their documentation",
                        "shapes as listed in lib/pyscen.py"],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if rc == 0 and disc == 0:
        print("no obligation could be analysed")
        return 2
    return rc


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[2:]:
        if a.startswith("--tier="):
            tier = a[7:]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    print("property %s: static analysis of %s" % (pid, W.REPO))
    files = witness_files(pid)
    if not files:
        return python_layer(pid, tier, seed, t0)
    depth = 4 if tier == "thorough" else 3
    eng = W.Engine(depth=depth)
    proved, undecided, violations, samples = [], [], [], []
    nfn = 0
    obligations = 0
    linked = 0
    replay_dir = os.path.join(VERIF, "evidence", "replay")
    broken = []
    for f, src, fns in files:
        lines = src.split("\n")
        units = W.core_units()
        if "driver" in " ".join(header(src, "units")):
            units = units + W.driver_units()
        defs = " ".join(header(src, "defs")).split()
        eng.depth = max([depth] + [int(x) for x in header(src, "depth")])
        target = "; ".join(header(src, "target"))
        wname = os.path.relpath(f, VERIF)
        try:
            res = eng.run(f, units, defs, list(fns))
        except W.AnalysisBroken as e:
            broken.append("%s: %s" % (wname, str(e)[-1500:]))
            for fn in fns:
                undecided.append("%s:%s (witness file not analysable on this tree)" % (wname, fn))
            continue
        for fn, desc in fns.items():
            nfn += 1
            r = res.get(fn)
            if r is None:
                undecided.append("%s:%s no longer type-checks against the tree, or could not be analysed" % (wname, fn))
                continue
            obligations += r.obligations + 1
            linked = max(linked, r.linked_fns)
            stops = r.stops & {"vp_oob", "vp_thrown"}
            noreach = not r.reach
            if not r.fails and not stops and not noreach and not (r.stops & {"vp_overflow", "vp_depth"}):
                proved.append((wname, fn, r.obligations + 1))
                if len(samples) < 6:
                    samples.append({"witness": "%s:%s" % (wname, fn), "target": target, "obligation": desc,
                                    "functions_linked": r.linked_fns, "checks_discharged": r.obligations,
                                    "residual_instructions": r.insts})
                continue
            bad = None
            if r.refuted:
                k = r.refuted[0]
                if k == "vp_oob":
                    what = "container accessed out of bounds"
                elif k == "vp_thrown":
                    what = "legal input rejected with an exception"
                else:
                    what = check_text(f, lines, k)
                bad = (k, what, r.input)
            elif noreach and not (r.stops & {"vp_overflow", "vp_depth"}) and r.closed:
                bad = ("reach", "no execution of this legal use completes (undefined behaviour or rejection on every path)", {})
            if bad is None:
                undecided.append("%s:%s (%s)" % (wname, fn, r.residual or ("closed; left: lines %s %s" % (r.fails, sorted(r.stops)))))
                continue
            violations.append((wname, fn, desc, target, bad, r))
    kf = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    rc = 0
    nviol = 0
    for wname, fn, desc, target, bad, r in violations:
        hit = next((k for k in kf if k.get("witness") == "%s:%s" % (wname, fn) and k.get("check") == bad[1]), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
            continue
        os.makedirs(replay_dir, exist_ok=True)
        rp = os.path.join(replay_dir, "%s_%s.txt" % (pid, fn))
        with open(rp, "w") as fh:
            fh.write("property %s violated\nwitness: %s:%s\ntarget:  %s\nobligation: %s\nfailing check (line %s): %s\n"
                     "inputs: %s\nreplay: python3-vt bin/check.py %s   (or: lib/witness.py pipeline on %s)\n"
                     % (pid, wname, fn, target, desc, bad[0], bad[1], json.dumps(bad[2]), pid, wname))
            fh.write("\nresidual IR:\n" + open(r.path).read()[:60000])
        print("in %s: %s -- %s [%s:%s line %s] inputs %s" % (target, desc, bad[1], wname, fn, bad[0], json.dumps(bad[2])))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        nviol += 1
        rc = 1
    try:
        lint_files, hits = lint.run(pid)
    except (OSError, W.AnalysisBroken) as e:
        lint_files, hits = [], []
        broken.append("lint: %s" % e)
    for path, line, fn, msg in hits:
        os.makedirs(replay_dir, exist_ok=True)
        rp = os.path.join(replay_dir, "%s_loop_%s.txt" % (pid, fn))
        with open(rp, "w") as fh:
            fh.write("property %s violated\n%s:%d in %s: %s\nA container longer than the counter can count to is never covered.\n"
                     "replay: python3-vt bin/check.py %s\n" % (pid, path, line, fn, msg, pid))
        print("in %s (%s:%d): %s" % (fn, path, line, msg))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        nviol += 1
        rc = 1
    for u in undecided:
        print("UNDECIDED %s" % u)
    for n in eng.notes + broken:
        print("NOTE " + n[:600])
    disc = sum(n for _, _, n in proved)
    print("property %s: %d witness functions, %d obligations, %d discharged, %d undecided witnesses, %d violations"
          % (pid, nfn, obligations, disc, len(undecided), nviol))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis by compile-time witnesses: each witness function applies the repository's current "
                           "source to unconstrained inputs; an obligation counts as discharged when LLVM's dataflow passes "
                           "prove its failure branch dead in the linked program (nothing is executed, no solver).  A violation is "
                           "reported when constant propagation folds the residual to a failing branch.",
            "rule": "vp_fail(<line>) / vp_oob / vp_thrown eliminated and REACH point kept in the optimised witness",
            "witness_functions": nfn, "obligations": obligations, "discharged": disc,
            "undecided": undecided, "linked_functions_max": linked,
            "loop_counter_lint": {"files": lint_files, "findings": len(hits)},
            "witness_files": [os.path.relpath(f, VERIF) for f, _, _ in files], "samples": samples,
        },
        "assumptions": ["clang 18 / LLVM 18 passes are sound", "container models of wit/model.h follow the standard's semantics",
                        "witness shapes (see the witness files) are the object graphs covered", "recursion unfolded to depth %d" % depth],
        "wall_s": round(time.time() - t0, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    eng.close()
    if rc == 0 and disc == 0:
        print("no obligation could be analysed")
        return 2
    return rc


sys.exit(main())
