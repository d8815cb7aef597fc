"""Lint: a loop counter of 8 or 16 bits that runs up to the size of a container.

The witnesses cover containers of a bounded size; a counter that cannot reach the size of a longer one (it wraps round,
so that the loop skips the rest or never ends) is a defect for every such input, whatever the loop does.  The rule is
clang-tidy's bugprone-too-small-loop-variable (magnitude limit 16 bits), on the type-checked program, with the loops
attributed to the property their function serves."""
import concurrent.futures
import os
import re
import subprocess

import witness as W

# path suffix -> [(function name pattern, properties)]; first match wins
MAP = [
    ("tracker/", [(r".", ["R02"])]),
    ("flooder/graph_flooder", [(r"reset|clean", ["R07"]), (r"path|release|wrap|blossom", ["R06"]), (r"find_next|resched|set_region", ["R04"]),
                               (r".", ["R03"])]),
    ("flooder/graph_fill_region", [(r"do_op", ["R04", "R06", "R07"]), (r"clean", ["R07"]), (r"wrap|blossom|parent", ["R06"]), (r".", ["R04"])]),
    ("flooder/detector_node", [(r"index_of", ["R04", "R10"]), (r".", ["R03"])]),
    ("flooder/graph", [(r"undo|reweight|impl", ["R11"]), (r".", ["R09"])]),
    ("matcher/mwpm", [(r"extract|shatter_blossom|pair_and", ["R08"]), (r"shatter|self|blossom", ["R06"]), (r"reset", ["R07"]), (r".", ["R05"])]),
    ("matcher/alternating_tree", [(r"prune|ancestor", ["R05", "R06"]), (r".", ["R05"])]),
    ("search/search_graph", [(r"undo|reweight|impl", ["R11"]), (r".", ["R09"])]),
    ("search/", [(r"reset", ["R07", "R10"]), (r".", ["R10"])]),
    ("driver/mwpm_decoding", [(r".", ["R13"])]),
    ("driver/user_graph", [(r"to_matching|to_search|to_mwpm|implied|normal", ["R15"]), (r"noise", ["R16"]), (r"dem|error_model|joint", ["R17"]),
                           (r".", ["R12"])]),
    ("driver/namespaced_main", [(r".", ["R20"])]),
]
PIDS = sorted({p for _, l in MAP for _, ps in l for p in ps})


def props_of(path, fn):
    for suf, rules in MAP:
        if suf in path:
            for pat, ps in rules:
                if re.search(pat, fn):
                    return ps
    return []


def enclosing(lines, k):
    """The name of the function around line k (1-based)."""
    for i in range(k - 1, -1, -1):
        m = re.match(r"(?: {4})?[A-Za-z_][^;{}=]*?\b([~\w]+)\([^;]*$", lines[i])
        if m and m.group(1) not in ("if", "for", "while", "switch", "return"):
            return m.group(1)
    return "?"


def one(f):
    try:
        r = subprocess.run(["clang-tidy", "--quiet", "--header-filter=.*/pymatching/.*", "--checks=-*,bugprone-too-small-loop-variable", f, "--",
                            "-std=c++20", "-w", "-I" + os.path.join(W.REPO, "src"), "-I" + os.path.join(W.VERIF, "stubs")],
                           capture_output=True, text=True, timeout=120)
    except (OSError, subprocess.TimeoutExpired):
        return f, [], False
    hits = re.findall(r"^(\S+?):(\d+):\d+: warning: (.*) \[bugprone-too-small-loop-variable", r.stdout, flags=re.M)
    return f, hits, "clang-diagnostic-error" not in r.stdout


def run(pid):
    """(files analysed, [(path, line, function, message)]) for a property."""
    if pid not in PIDS:
        return [], []
    files = W.core_units() + W.driver_units()
    nm = os.path.join(W.SB, "driver/namespaced_main.cc")
    if os.path.exists(nm):
        files.append(nm)
    files = [f for f in files if any(suf in f and any(pid in ps for _, ps in rules) for suf, rules in MAP)]
    if pid == "R02":  # templates in headers
        files += [f for f in W.core_units() if f.endswith("matcher/mwpm.cc")]
    out, ok = {}, []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, hits, good in ex.map(one, files):
            if good:
                ok.append(os.path.relpath(f, W.REPO))
            for path, line, msg in hits:
                text = open(path).read().split("\n")[int(line) - 1]
                if "bit_buckets.size()" in text:
                    continue  # an array of 66
                if "upper bound 'size_type'" not in msg and ".size()" not in text:
                    continue  # a bound of another kind may well be small
                path = os.path.realpath(path)
                fn = enclosing(open(path).read().split("\n"), int(line))
                if pid in props_of(path, fn):
                    out[(path, line)] = (os.path.relpath(path, os.path.realpath(W.REPO)), int(line), fn, msg)
    return ok, sorted(out.values())
