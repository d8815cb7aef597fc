"""Witness engine: decide obligations about the repository's C++ by compile-time dataflow, never by execution.

A witness file (wit/*.cc) calls repository functions on unconstrained inputs and states obligations (CHECK).
Repository sources and witness are compiled to LLVM IR with analysable container models, linked, internalised
around one witness function and optimised.  An obligation is discharged iff LLVM's dataflow passes (SROA, GVN,
SCCP, instcombine, correlated propagation, jump threading, full unrolling and peeling) prove its failure branch
dead, i.e. the call vp_fail(<line>) is gone from the optimised function.  Nothing is ever run and no solver is used.
"""
import concurrent.futures as cf
import glob
import os
import random
import re
import struct
import subprocess
import tempfile
import time

import networkx as nx

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(REPO, "src")
SB = os.path.join(SRC, "pymatching/sparse_blossom")

CLANG, OPT, LINK, FILT = "clang++-18", "opt-18", "llvm-link-18", "llvm-cxxfilt-18"


class AnalysisBroken(Exception):
    pass


def core_units():
    """All non-test, non-perf .cc files of the core directories (so that a newly added file is linked too)."""
    out = []
    for d in ("flooder", "flooder_matcher_interop", "tracker", "matcher", "search"):
        for f in sorted(glob.glob(os.path.join(SB, d, "*.cc"))):
            b = os.path.basename(f)
            if ".test." in b or ".perf." in b or "pybind" in b:
                continue
            out.append(f)
    if len(out) < 8:
        raise AnalysisBroken("core sources not found under %s" % SB)
    return out


def driver_units():
    out = []
    for f in sorted(glob.glob(os.path.join(SB, "driver/*.cc"))):
        b = os.path.basename(f)
        if ".test." in b or ".perf." in b or "pybind" in b or b in ("namespaced_main.cc", "io.cc"):
            continue
        out.append(f)
    for f in sorted(glob.glob(os.path.join(SRC, "pymatching/rand/*.cc"))):
        b = os.path.basename(f)
        if ".test." in b or ".perf." in b or "pybind" in b:
            continue
        out.append(f)
    if len(out) < 2:
        raise AnalysisBroken("driver sources not found under %s" % SB)
    return out


BASE_FLAGS = [
    "-std=c++20", "-O3", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-fno-vectorize",
    "-fno-slp-vectorize", "-fno-strict-aliasing", "-fno-delete-null-pointer-checks", "-DNDEBUG", "-w",
    "-ftrivial-auto-var-init=pattern", "-fno-access-control", "-fno-math-errno", "-fwrapv",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


DEF = re.compile(r"^define [^\n]*?@(\"[^\"]+\"|[\w.$]+)\([^\n]*\{\n.*?^\}\n", re.M | re.S)
REF = re.compile(r"@(\"[^\"]+\"|[\w.$]+)")


def unfold_recursion(txt, depth):
    """Replace every (mutually) recursive function by `depth` copies calling one another; the innermost copy calls
    vp_depth (noreturn), so a residual vp_depth call means the bound was met."""
    bodies = {}
    for m in DEF.finditer(txt):
        bodies[m.group(1)] = m
    g = nx.DiGraph()
    for f, m in bodies.items():
        g.add_node(f)
        t = m.group(0)
        for r in set(REF.findall(t[t.index("{\n"):])):
            if r in bodies:
                g.add_edge(f, r)
    extra, edits = [], []

    def nm(f, d):
        return f[:-1] + ".vpd%d\"" % d if f.startswith("\"") else "%s.vpd%d" % (f, d)
    for scc in nx.strongly_connected_components(g):
        scc = set(scc)
        if len(scc) == 1 and not g.has_edge(*(2 * tuple(scc))):
            continue
        # one level per call of the head (a function every cycle passes through); without a single head, per any call
        sub = g.subgraph(scc)
        heads = [h for h in sorted(scc, key=lambda x: bodies[x].start()) if nx.is_directed_acyclic_graph(sub.subgraph(scc - {h}))]
        head = heads[0] if heads else None
        for f in scc:
            m = bodies[f]
            for d in range(depth + 1):
                t = m.group(0)
                k = t.index("{\n")
                sig, body = t[:k], t[k:]
                if d > 0:
                    sig = re.sub(r" comdat(\([^)]*\))?", "", sig)
                    sig = re.sub(r"^define (linkonce_odr|weak_odr|internal|dso_local|private|hidden| )*", "define internal ", sig)
                    sig = sig.replace("@" + f + "(", "@" + nm(f, d) + "(", 1)
                if d == depth:
                    extra.append(sig + "{\n  call void @vp_depth()\n  unreachable\n}\n")
                    continue

                def callee(mm):
                    c = mm.group(1)
                    if c not in scc:
                        return mm.group(0)
                    lv = d + (1 if head is None or c == head else 0)
                    return "@" + (nm(c, lv) if lv else c)
                body = REF.sub(callee, body)
                if d == 0:
                    edits.append((m.start(), m.end(), sig + body))
                else:
                    extra.append(sig + body)
    if not extra:
        return txt
    out, pos = [], 0
    for a, b, t in sorted(edits):
        out.append(txt[pos:a])
        out.append(t)
        pos = b
    out.append(txt[pos:])
    out.extend(extra)
    if not re.search(r"^declare .*@vp_depth", txt, re.M):
        out.append("declare void @vp_depth() noreturn nounwind\n")
    return "".join(out)


_V = r"(%[\w.$\-]+|%\"[^\"]+\"|@[\w.$]+|@\"[^\"]+\")"
MEMCPY = re.compile(r"^  (?:tail |musttail |notail )?call void @llvm\.mem(?:cpy|move)(?:\.inline)?\.p0\.p0\.i64\(ptr ([^,]*?)" + _V + r", "
                    r"ptr ([^,]*?)" + _V + r", i64 (\d+), i1 false\)[^\n]*\n", re.M)
_tag = [0]


def lower_memcpy(txt, limit=1024):
    """Spell constant-size memory copies as word loads and stores (LLVM forwards values through those)."""
    _tag[0] += 1
    base = "%d_%d" % (os.getpid(), _tag[0])
    n = [0]

    def rep(m):
        dst, src, size = m.group(2), m.group(4), int(m.group(5))
        if size > limit:
            return m.group(0)
        n[0] += 1
        tag = "vpm%s_%d" % (base, n[0])
        loads, stores = [], []
        off = 0
        while off < size:
            w = next(w for w in (8, 4, 2, 1) if size - off >= w)
            loads.append("  %%%s_s%d = getelementptr inbounds i8, ptr %s, i64 %d\n  %%%s_v%d = load i%d, ptr %%%s_s%d, align 1\n"
                         % (tag, off, src, off, tag, off, 8 * w, tag, off))
            stores.append("  %%%s_d%d = getelementptr inbounds i8, ptr %s, i64 %d\n  store i%d %%%s_v%d, ptr %%%s_d%d, align 1\n"
                          % (tag, off, dst, off, 8 * w, tag, off, tag, off))
            off += w
        return "".join(loads + stores)
    return MEMCPY.sub(rep, txt)


NNDEF = re.compile(r"^  (%[\w.$\-]+) = (?:alloca |getelementptr inbounds [^\n]*?, ptr (%[\w.$\-]+), )", re.M)
NULLCMP = re.compile(r"^  (%[\w.$\-]+) = icmp (eq|ne) ptr (%[\w.$\-]+), null$", re.M)


def fold_null_compares(txt):
    """The address of (part of) a local object is never null.  LLVM knows that for the object itself but, with null
    checks kept (-fno-delete-null-pointer-checks), not for in-bounds offsets into it."""
    if " ptr %" not in txt or ", null\n" not in txt:
        return txt

    def fn(m):
        t = m.group(0)
        if ", null\n" not in t:
            return t
        base = {}
        for d in NNDEF.finditer(t):
            base[d.group(1)] = d.group(2)

        def local(v):
            k = 0
            while v in base and k < 200:
                if base[v] is None:
                    return True
                v = base[v]
                k += 1
            return False

        def rep(c):
            if not local(c.group(3)):
                return c.group(0)
            return "  %s = icmp %s i1 true, false" % (c.group(1), c.group(2))
        return NULLCMP.sub(rep, t)
    return DEF.sub(fn, txt)


NULLADDR = r"(?:null|inttoptr \(i64 \d{1,7} to ptr\)|getelementptr (?:inbounds )?\((?:i8|%[^,\n]*), ptr null, [^()\n]*\))"
NULLACC = re.compile(r"^  (?!call void @vp_oob)(?=(?:%[\w.$\-\"]+ = load|store) )(?:%[\w.$\-\"]+ = load (?:\[[^\]]*\]|\w+|<[^>]*>)|store (?:\[[^\]]*\]|\w+|<[^>]*>) [^,\n]+), ptr " + NULLADDR + r"(?=,|$)", re.M)


def null_accesses(txt):
    """An access through the null pointer is an out-of-bounds access."""
    if not NULLACC.search(txt):
        return txt
    txt = NULLACC.sub(lambda m: "  call void @vp_oob()\n" + m.group(0), txt)
    txt = re.sub(r"(?:  call void @vp_oob\(\)\n)+", "  call void @vp_oob()\n", txt)
    if not re.search(r"^declare [^\n]*@vp_oob\(\)", txt, flags=re.M):
        txt += "\ndeclare void @vp_oob() nounwind noreturn\n"
    return txt


FCMP = re.compile(r"^  (%[\w.$\-\"]+) = fcmp (?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*(\w+) double ([^,\n]+), ([^,\n]+)$", re.M)
KEYDEF = """define internal i64 @vp_key(double %d) alwaysinline {
  %b = bitcast double %d to i64
  %m = and i64 %b, 9223372036854775807
  %n = sub i64 0, %m
  %c = icmp slt i64 %b, 0
  %r = select i1 %c, i64 %n, i64 %b
  ret i64 %r
}
"""


def _key_of(text):
    if text.startswith("0x"):
        b = int(text, 16)
    else:
        b = struct.unpack("<Q", struct.pack("<d", float(text)))[0]
    return -(b & (1 << 63) - 1) if b >> 63 else b


def fcmps_to_keys(txt):
    """Comparisons of doubles become comparisons of their order keys (a strictly monotone map to the integers, left
    uninterpreted except on constants), for which LLVM can reason about orders.  Inputs are numbers, never NaN."""
    n = [0]
    fabs = set(re.findall(r"^  (%[\w.$\-\"]+) = (?:tail )?call (?:\w+ )*double @llvm\.fabs\.f64\(", txt, flags=re.M))
    sel = {m.group(1): m.groups()[1:] for m in re.finditer(
        r"^  (%[\w.$\-\"]+) = select (?:(?:nnan|ninf|nsz|arcp|contract|afn|reassoc|fast) )*i1 ([^,\n]+), double ([^,\n]+), double ([^,\n]+)$", txt, flags=re.M)}
    gen = len(txt)

    def key(v, out, depth=0):
        """Emit the key of v into out, return the operand."""
        if not v.startswith("%"):
            return str(_key_of(v))
        n[0] += 1
        k = "%%vpk%d.%d" % (gen, n[0])
        if v in sel and depth < 6:
            c, x, y = sel[v]
            a = key(x, out, depth + 1)
            b = key(y, out, depth + 1)
            out.append("  %s = select i1 %s, i64 %s, i64 %s" % (k, c, a, b))
        elif v in fabs:
            out.append("  %s.m = call i64 @vp_key(double %s)" % (k, v))
            out.append("  %s = and i64 %s.m, 9223372036854775807" % (k, k))
        else:
            out.append("  %s = call i64 @vp_key(double %s)" % (k, v))
        return k

    def rep(m):
        dst, pred, x, y = m.groups()
        if pred in ("ord", "true", "uno", "false"):
            return "  %s = icmp %s i64 0, 0" % (dst, "eq" if pred in ("ord", "true") else "ne")
        out = []
        ops = [key(x, out), key(y, out)]
        ip = {"eq": "eq", "ne": "ne", "lt": "slt", "gt": "sgt", "le": "sle", "ge": "sge"}[pred[1:]]
        out.append("  %s = icmp %s i64 %s, %s" % (dst, ip, ops[0], ops[1]))
        return "\n".join(out)
    def rep2(m):
        if m.group(2) not in sel:
            return m.group(0)
        out = []
        k = key(m.group(2), out)
        return "\n".join(out + ["  %s = add i64 %s, 0" % (m.group(1), k)])
    t = FCMP.sub(rep, txt)
    t = re.sub(r"^  (%[\w.$\-\"]+) = (?:tail )?call i64 @vp_key\(double (%[^)\n]+)\)[^\n]*$", rep2, t, flags=re.M)
    if t != txt and "@vp_key(double)" not in t:
        t += "\ndeclare i64 @vp_key(double) nounwind willreturn memory(none)\n"
    return t


class Result:
    """Outcome of one witness function."""

    def __init__(self, fn):
        self.fn = fn
        self.fails = []
        self.reach = []
        self.closed = False
        self.residual = ""
        self.stops = set()   # vp_oob / vp_overflow / vp_depth / vp_thrown calls left
        self.path = None
        self.input = None    # valuation under which constant propagation reaches the failing branch
        self.refuted = []    # lines (or marker names) reached under self.input
        self.insts = 0
        self.linked_fns = 0
        self.obligations = 0


GLOBAL = re.compile(r"^@([\w.$\-]+) = internal (?:unnamed_addr )?(?:local_unnamed_addr )?global ((?:i\d+|double|ptr) [^,\n]+|%[\w.\":]+ (?:zeroinitializer|\{[^\n\[]*?\})), align", re.M)


def initial_statics(txt, fn):
    """A witness starts a fresh program: at its entry, static variables (and their guards) have their initial values."""
    inits = [(g, v) for g, v in GLOBAL.findall(txt) if not v.endswith(("undef", "poison"))]
    m = re.search(r"^define [^\n]*@%s\([^\n]*\{\n(?:[\w.$\-\"]+:[^\n]*\n)?" % re.escape(fn), txt, flags=re.M)
    if not m or not inits:
        return txt
    return txt[:m.end()] + "".join("  store %s, ptr @%s\n" % (v, g) for g, v in inits) + txt[m.end():]


MARKERS = {"vp_any44", "vp_double", "vp_key", "vp_any30", "vp_stop", "vp_fail", "vp_reach", "vp_any", "vp_sink", "vp_oob", "vp_overflow", "vp_depth", "vp_thrown"}


def analyse_residual(txt, fn, res):
    """Is what is left of the witness a closed expression over its inputs (no memory reads, loops, unresolved calls)?"""
    body = None
    others = 0
    for m in DEF.finditer(txt):
        if m.group(1) == fn:
            body = m.group(0)
        else:
            others += 1
    if body is None:
        raise AnalysisBroken("witness %s vanished" % fn)
    why = []
    lines = body.split("\n")
    res.insts = sum(1 for l in lines if l.startswith("  "))
    calls = re.findall(r"call [^@\n]*@(\"[^\"]+\"|[\w.$]+)\(", body)
    for c in calls:
        if c in MARKERS:
            if c in ("vp_oob", "vp_overflow", "vp_depth", "vp_thrown"):
                res.stops.add(c)
            continue
        if c.startswith("llvm."):
            continue
        if c in ("malloc", "_Znwm", "_Znam", "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm"):
            continue
        why.append("call to " + c)
    if re.search(r"call [^@\n]*%[\w.\"]+\(", body):
        why.append("indirect call")
    if re.search(r"= load ", body):
        why.append("memory read")
    if "llvm.loop" in body or _has_cycle(body):
        why.append("loop")
    res.closed = not why
    res.residual = "; ".join(sorted(set(why)))


def _has_cycle(body):
    g = nx.DiGraph()
    cur = "%0"
    for l in body.split("\n"):
        m = re.match(r"^(\"[^\"]+\"|[\w.$\-]+):", l)
        if m:
            cur = "%" + m.group(1)
        elif l.startswith("  "):
            for t in re.findall(r"label (%\"[^\"]+\"|%[\w.$\-]+)", l):
                g.add_edge(cur, t)
    return not nx.is_directed_acyclic_graph(g)


SEL = re.compile(r"^  (%[\w.$\-]+) = select i1 ([^,]+), (\S+) ([^,]+), (\S+) ([^,\n]+?)(?:, !.*)?$")
MINMAX = re.compile(r"^  (%[\w.$\-]+) = (?:tail )?call (?:noundef )?(i\d+) @llvm\.([su])(min|max)\.i\d+\(i\d+ (?:noundef )?([^,]+), i\d+ (?:noundef )?([^)]+)\).*$")
ZEXT = re.compile(r"^  (%[\w.$\-]+) = (zext|sext) (?:nneg )?i1 (\S+) to (i\d+)$")
LABEL = re.compile(r"^([\w.$\-]+):")


def split_selects(txt, fn, limit=80):
    """Turn selects, min/max and boolean extensions of the witness into explicit control flow, so that the
    branch-sensitive passes (jump threading, correlated values, constraint elimination) can separate the cases."""
    for m in DEF.finditer(txt):
        if m.group(1) == fn:
            break
    else:
        return None
    head, body = m.group(0).split("{\n", 1)
    out, n = [], 0
    cur, rename = None, {}
    for line in body.split("\n"):
        k = LABEL.match(line)
        if k:
            cur = k.group(1)
            rename[cur] = cur
            out.append(line)
            continue
        s, z, mm = SEL.match(line), ZEXT.match(line), MINMAX.match(line)
        if (s or z or mm) and cur is not None and n < limit:
            n += 1
            if s:
                x, c, ty, a, b = s.group(1), s.group(2), s.group(3), s.group(4), s.group(6)
                if c in ("true", "false"):
                    out.append(line)
                    continue
            elif z:
                x, c, ty = z.group(1), z.group(3), z.group(4)
                a, b = ("1" if z.group(2) == "zext" else "-1"), "0"
            else:
                x, ty, a, b = mm.group(1), mm.group(2), mm.group(5), mm.group(6)
                c = "%%vps%d.c" % n
                out.append("  %s = icmp %s%s %s %s, %s" % (c, mm.group(3), "lt" if mm.group(4) == "min" else "gt", ty, a, b))
            t, f, j = "vps%d.t" % n, "vps%d.f" % n, "vps%d.j" % n
            out += ["  br i1 %s, label %%%s, label %%%s" % (c, t, f), "", "%s:" % t, "  br label %%%s" % j, "", "%s:" % f,
                    "  br label %%%s" % j, "", "%s:" % j, "  %s = phi %s [ %s, %%%s ], [ %s, %%%s ]" % (x, ty, a, t, b, f)]
            rename[cur] = j
            continue
        out.append(line)
    if n == 0:
        return None
    fin = []
    for line in out:
        if " = phi " in line and not re.search(r"%vps\d+\.[tf] \]", line):
            line = re.sub(r", %([\w.$\-]+) \]", lambda q: ", %%%s ]" % rename.get(q.group(1), q.group(1)), line)
        fin.append(line)
    return txt[:m.start()] + head + "{\n" + "\n".join(fin) + txt[m.end():]


EQ = re.compile(r"^  (%[\w.$\-]+) = icmp (eq|ne) (i\d+) (%[\w.$\-]+), (%[\w.$\-]+)$", re.M)


def equations_to_differences(txt):
    """a == b  ->  a - b == 0, so that reassociation cancels the terms both sides share."""
    n = [0]

    def rep(m):
        n[0] += 1
        return "  %%vpd%d = sub %s %s, %s\n  %s = icmp %s %s %%vpd%d, 0" % (n[0], m.group(3), m.group(4), m.group(5), m.group(1), m.group(2), m.group(3), n[0])
    return EQ.sub(rep, txt)


ARITH = re.compile(r"^  (%[\w.$\-]+) = (add|sub|mul|xor|and|or) (?:nuw |nsw |disjoint )*(i\d+) (%[\w.$\-]+|-?\d+), (%[\w.$\-]+|-?\d+)$", re.M)
TRUNC = re.compile(r"^  (%[\w.$\-]+) = trunc (?:nuw |nsw )*(i\d+) (%[\w.$\-]+) to (i\d+)$", re.M)


SELECT = re.compile(r"^  (%[\w.$\-]+) = select i1 (%[\w.$\-]+), (i\d+) (-?\d+|%[\w.$\-]+), i\d+ (-?\d+|%[\w.$\-]+)$", re.M)


def push_truncs(txt, fn):
    """trunc(a op b)  ->  trunc(a) op trunc(b), so that both sides of an equation are sums in the narrow type."""
    for m in DEF.finditer(txt):
        if m.group(1) == fn:
            break
    else:
        return txt
    b = m.group(0)
    ar = {x.group(1): (x.group(2), x.group(4), x.group(5)) for x in ARITH.finditer(b)}
    for x in SELECT.finditer(b):
        ar[x.group(1)] = ("select i1 %s," % x.group(2), x.group(4), x.group(5))
    n = [0]

    def rep(x):
        y = ar.get(x.group(3))
        if y is None or n[0] > 400:
            return x.group(0)
        wide, narrow = x.group(2), x.group(4)
        out, ops = [], []
        for o in y[1:]:
            if o.startswith("%"):
                n[0] += 1
                v = "%%vpn%d.%d" % (len(b), n[0])
                out.append("  %s = trunc %s %s to %s" % (v, wide, o, narrow))
            else:
                w = int(narrow[1:])
                v = int(o) & ((1 << w) - 1)
                v = str(v - (1 << w) if v >> (w - 1) else v)
            ops.append(v)
        out.append("  %s = %s %s %s, %s%s" % (x.group(1), y[0], narrow, ops[0], narrow + " " if y[0][:3] == "sel" else "", ops[1]))
        return "\n".join(out)
    t = b
    for _ in range(6):
        k = n[0]
        t = TRUNC.sub(rep, t)
        if n[0] == k:
            break
    return txt if t == b else txt[:m.start()] + t + txt[m.end():]


SUMS = re.compile(r"^  (%[\w.$\-]+) = (add|sub|xor|or disjoint) (?:nuw |nsw )*(i\d+) (%[\w.$\-]+|-?\d+), (%[\w.$\-]+|-?\d+)$", re.M)


def cancel_terms(txt, fn):
    """(h | a) ^ (h | b)  ->  a ^ b   and   (h | a) - (h | b)  ->  a - b, for disjoint ors, sums and differences."""
    for m in DEF.finditer(txt):
        if m.group(1) == fn:
            break
    else:
        return txt
    b = m.group(0)
    defs = {x.group(1): (x.group(2), x.group(4), x.group(5)) for x in SUMS.finditer(b)}
    n = [0]

    def leaves(v, xor, sign, depth, out):
        d = defs.get(v)
        if d and depth and d[0] in (("xor", "or disjoint") if xor else ("add", "sub", "or disjoint")):
            leaves(d[1], xor, sign, depth - 1, out)
            leaves(d[2], xor, -sign if d[0] == "sub" else sign, depth - 1, out)
        else:
            out.append((v, sign))

    def rep(x):
        op = x.group(2)
        if op not in ("xor", "sub", "add"):
            return x.group(0)
        out = []
        leaves(x.group(1), op == "xor", 1, 6, out)
        names = set(v for v, _ in out if v.startswith("%"))
        keep, hit = [], False
        for v in sorted(names):
            k = sum(1 if op == "xor" else s for w, s in out if w == v)
            if len([1 for w, _ in out if w == v]) > 1 and (k % 2 == 0 if op == "xor" else k == 0):
                hit = True
            else:
                keep += [(w, s) for w, s in out if w == v]
        if not hit:
            return x.group(0)
        keep += [(w, s) for w, s in out if not w.startswith("%")]
        ty, acc, t = x.group(3), "0", []
        for i, (w, s) in enumerate(keep):
            n[0] += 1
            nm = x.group(1) if i == len(keep) - 1 else "%%vpx%d.%d" % (len(b), n[0])
            t.append("  %s = %s %s %s, %s" % (nm, op if op == "xor" else "add" if s > 0 else "sub", ty, acc, w))
            acc = nm
        if not keep:
            t.append("  %s = add %s 0, 0" % (x.group(1), ty))
        return "\n".join(t)
    t = SUMS.sub(rep, b)
    return txt if t == b else txt[:m.start()] + t + txt[m.end():]


ZSUM = re.compile(r"^  (%[\w.$\-]+) = (add|sub) (nuw nsw|nuw|nsw) (i\d+) (%[\w.$\-]+|-?\d+), (%[\w.$\-]+|-?\d+)$", re.M)
ZEXTN = re.compile(r"^  (%[\w.$\-]+) = (zext|zext nneg|sext) (i\d+) (%[\w.$\-]+) to (i\d+)$", re.M)


def widen_sums(txt):
    """zext(a - b)  ->  zext a - zext b where the difference (or sum) does not wrap."""
    defs = {x.group(1): (x.group(2), x.group(3), x.group(5), x.group(6)) for x in ZSUM.finditer(txt)}
    n = [0]

    def rep(x):
        d = defs.get(x.group(4))
        if not d:
            return x.group(0)
        signed = x.group(2) != "zext" and "nsw" in d[1]
        if not signed and (x.group(2) == "sext" or "nuw" not in d[1]):
            return x.group(0)
        out, ops, bits = [], [], int(x.group(3)[1:])
        for o in d[2:]:
            if o.startswith("%"):
                n[0] += 1
                v = "%%vpz%d.%d" % (len(txt), n[0])
                out.append("  %s = %s %s %s to %s" % (v, "sext" if signed else "zext", x.group(3), o, x.group(5)))
            else:
                v = int(o) & ((1 << bits) - 1)
                v = str(v - (1 << bits) if signed and v >> (bits - 1) else v)
            ops.append(v)
        out.append("  %s = %s %s %s, %s" % (x.group(1), d[0], x.group(5), ops[0], ops[1]))
        return "\n".join(out)
    return ZEXTN.sub(rep, txt)


HALF = re.compile(r"^  (%[\w.$\-]+) = ashr exact (i\d+) (%[\w.$\-]+), 1$", re.M)
SUMN = re.compile(r"^  (%[\w.$\-]+) = add (?:nuw )?nsw (i\d+) (%[\w.$\-]+), (%[\w.$\-]+)$", re.M)
TWICE = re.compile(r"^  (%[\w.$\-]+) = shl (?:nuw )?nsw (i\d+) (%[\w.$\-]+), 1$", re.M)


def halve_sums(txt, fn):
    """(2a + b) / 2  ->  a + b / 2 where the division is exact and nothing overflows."""
    for m in DEF.finditer(txt):
        if m.group(1) == fn:
            break
    else:
        return txt
    b = m.group(0)
    sums = {x.group(1): (x.group(3), x.group(4)) for x in SUMN.finditer(b)}
    twice = {x.group(1): x.group(3) for x in TWICE.finditer(b)}
    n = [0]

    def rep(x):
        y = sums.get(x.group(3))
        if y is None:
            return x.group(0)
        for a, c in (y, y[::-1]):
            if a in twice:
                n[0] += 1
                return "  %%vph%d.%d = ashr exact %s %s, 1\n  %s = add nsw %s %s, %%vph%d.%d" % (
                    len(b), n[0], x.group(2), c, x.group(1), x.group(2), twice[a], len(b), n[0])
        return x.group(0)
    t = HALF.sub(rep, b)
    return txt if t == b else txt[:m.start()] + t + txt[m.end():]


ANYCALL = re.compile(r"(%[\w.$\-]+) = (?:tail )?call (?:noundef )?(i64|i44|i30|double) @(vp_any|vp_any44|vp_any30|vp_double)\(i32 (?:noundef )?(\d+)\)[^\n]*")


def refute(res, batches=(16, 48, 192), size_limit=400000):
    """Constant propagation of an undischarged residual.  Each clone of the optimised witness gets constants for the
    unconstrained inputs; if LLVM folds a clone so that its entry block calls vp_fail / vp_oob / vp_thrown
    unconditionally, the obligation is definitely broken and the constants are the counterexample."""
    txt = open(res.path).read()
    body = None
    for m in DEF.finditer(txt):
        if m.group(1) == res.fn:
            body = m
    if body is None:
        return
    b = body.group(0)
    if len(b) > size_limit:
        return
    keys = sorted(set((m.group(2), int(m.group(4))) for m in ANYCALL.finditer(b)))
    consts = sorted(set(int(x) for x in re.findall(r"(?<![\w.%!@])-?\d+(?![\w.])", b) if abs(int(x)) < 1 << 64))
    rnd = random.Random(1)
    pool = [0, 1, 2, 3, -1, -2, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 62, 1 << 63]
    for c in consts[:200]:
        pool += [c, c + 1, c - 1, -c]

    def value(i, j):
        if i == 0:
            return 0
        if i == 1:
            return 1 << 40 | 2 * (j + 1)
        if i == 2:
            return 3 + 2 * j
        if i == 3:
            return -1
        k = rnd.random()
        if k < 0.45:
            return rnd.choice(pool)
        if k < 0.6:
            return rnd.randrange(8)
        return rnd.getrandbits(rnd.choice((4, 16, 31, 32, 43, 63, 64)))
    dpool = [0.0, 1.0, -1.0, 0.5, 0.25, 0.1, 2.0, -2.0, 3.0, 1.5, -2.5, 7.0, 100.0, -0.25, 0.75, 1e-3, 1e9, -1e9, 16777215.0, 16777216.0]

    # every fourth clone: distinct magnitudes of one sign, in random order, whole numbers and fractions mixed
    mags = [0.25, 1.0, 2.0, 3.5, 5.0, 7.0, 20.5, 64.0, 1000.5]
    ladder = {}

    def dvalue(i, j):
        if i % 4 == 3 and len(keys) <= len(mags):
            if ladder.get("i") != i:
                sgn = rnd.choice((1, 1, -1))
                ladder.update(i=i, v=[sgn * x for x in rnd.sample(mags, len(mags))])
            return ladder["v"][j]
        if i % 4 == 1 and i > 4:
            return rnd.choice((0.5, 0.25, 0.125, 0.75, 0.875, 0.0625))
        if i < len(dpool) // 2 and j % 2 == 0:
            return dpool[i]
        k = rnd.random()
        return rnd.choice(dpool) if k < 0.6 else round(rnd.uniform(-20, 20), 2) if k < 0.8 else rnd.random()

    def const(ty, v):
        return "fadd double 0x%016X, 0x8000000000000000" % struct.unpack("<Q", struct.pack("<d", v))[0] if ty == "double" else "add %s 0, %d" % (ty, v)
    i = 0
    for n in batches:
        mod, vals = [], []
        rest = txt[:body.start()] + txt[body.end():]
        if "@vp_key(double)" in rest:
            rest = re.sub(r"^declare [^\n]*@vp_key\(double\)[^\n]*$", lambda m: KEYDEF, rest, flags=re.M)
        for _ in range(n):
            val = {}
            for j, (ty, k) in enumerate(keys):
                if ty == "double":
                    val[(ty, k)] = dvalue(i, j)
                    continue
                v = value(i, j)
                bits = int(ty[1:])
                v &= (1 << bits) - 1
                if v >> (bits - 1):
                    v -= 1 << bits
                val[(ty, k)] = v
            t = ANYCALL.sub(lambda m: m.group(1) + " = " + const(m.group(2), val[(m.group(2), int(m.group(4)))]), b)
            t = t.replace("@" + res.fn + "(", "@%s.v%d(" % (res.fn, i), 1)
            mod.append(t)
            vals.append(("%s.v%d" % (res.fn, i), val))
            i += 1
        f = res.path + ".refute.ll"
        with open(f, "w") as fh:
            fh.write(rest + "\n" + "\n".join(mod))
        try:
            r = sh([OPT, "-passes=always-inline,function(sroa<modify-cfg>,early-cse<memssa>,sccp,instcombine<no-verify-fixpoint>,simplifycfg,"
                    "gvn,loop(indvars,loop-unroll-full),sccp,instcombine<no-verify-fixpoint>,simplifycfg)", "-S", f, "-o", f], timeout=120)
        except subprocess.TimeoutExpired:
            return
        if r.returncode != 0:
            return
        out = {m.group(1): m.group(0) for m in DEF.finditer(open(f).read())}
        for name, val in vals:
            t = out.get(name)
            if t is None:
                continue
            entry = re.split(r"^[\w.$\-\"]+:", t[t.index("{\n") + 2:].split("\n", 1)[1] if re.match(r"[\w.$\-\"]+:", t[t.index("{\n") + 2:]) else t[t.index("{\n") + 2:], maxsplit=1, flags=re.M)[0]
            hits = [int(x) for x in re.findall(r"call void @vp_fail\(i32 (?:noundef )?(\d+)\)", entry)]
            hits += [x for x in ("vp_oob", "vp_thrown") if "@%s(" % x in entry]
            if not hits and NULLACC.search(entry):
                hits = ["vp_oob"]
            if hits:
                res.refuted = hits
                res.input = {"any%s(%d)" % ({"i44": "_time", "i30": "_half", "double": "_double"}.get(ty, ""), k): v for (ty, k), v in val.items()}
                return


class Engine:
    def __init__(self, jobs=8, depth=3):
        self.tmp = tempfile.TemporaryDirectory(prefix="vpwit")
        self.dir = self.tmp.name
        self.jobs = jobs
        self.depth = depth
        self.bc_cache = {}
        self.pch = {}
        self.notes = []
        self.dropped = []
        self.n = 0

    def close(self):
        self.tmp.cleanup()

    def _pch(self, defs):
        key = tuple(defs)
        if key not in self.pch:
            out = os.path.join(self.dir, "model%d.pch" % len(self.pch))
            r = sh([CLANG] + BASE_FLAGS + list(defs) + ["-x", "c++-header", os.path.join(VERIF, "wit/model.h"), "-o", out])
            if r.returncode != 0:
                raise AnalysisBroken("cannot compile the container models\n" + r.stderr[-3000:])
            self.pch[key] = out
        return self.pch[key]

    def _compile(self, src, defs, out):
        cmd = [CLANG] + BASE_FLAGS + list(defs) + [
            "-emit-llvm", "-c", "-I", SRC, "-I", os.path.join(VERIF, "stubs"), "-I", os.path.join(VERIF, "wit"),
            "-include-pch", self._pch(defs), src, "-o", out]
        r = sh(cmd)
        if r.returncode != 0:
            raise AnalysisBroken("cannot compile %s\n%s" % (src, r.stderr[-3000:]))
        return out

    def compile_many(self, srcs, defs):
        """Compiled units; one that cannot be compiled with the models is dropped (calls into it stay unresolved, so
        witnesses that depend on it come out undecided)."""
        key = tuple(defs)
        self._pch(defs)
        futs = {}
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            for s in srcs:
                if (s, key) not in self.bc_cache and s not in futs:
                    self.n += 1
                    futs[s] = ex.submit(self._compile, s, defs, os.path.join(self.dir, "%d.bc" % self.n))
            for s, f in futs.items():
                try:
                    self.bc_cache[(s, key)] = f.result()
                except AnalysisBroken as e:
                    self.bc_cache[(s, key)] = None
                    self.notes.append(str(e))
        return [self.bc_cache[(s, key)] for s in srcs if self.bc_cache[(s, key)]]

    def compile_witness(self, witness, defs, tag):
        """Compile the witness file; witness functions that no longer type-check against the tree are left out."""
        lines = open(witness).read().split("\n")
        for _ in range(8):
            p = os.path.join(self.dir, tag + ".cc")
            with open(p, "w") as f:
                f.write("\n".join(lines))
            out = os.path.join(self.dir, tag + ".w.bc")
            try:
                return self._compile(p, defs, out)
            except AnalysisBroken as e:
                err = str(e)
            bad = sorted(set(int(x) for x in re.findall(re.escape(p) + r":(\d+):\d+: (?:fatal )?error", err)))
            dropped = False
            for ln in bad:
                k = ln - 1
                while k >= 0 and not lines[k].startswith("WITNESS("):
                    if (lines[k].startswith("}") or lines[k].rstrip().endswith("}") and lines[k].startswith("WITNESS")) and k != ln - 1:
                        k = -1
                        break
                    k -= 1
                if k < 0:
                    continue
                self.dropped.append((os.path.basename(witness), lines[k][8:].split(")")[0]))
                while True:
                    end = lines[k].startswith("}") or (lines[k].startswith("WITNESS(") and lines[k].rstrip().endswith("}"))
                    lines[k] = ""
                    k += 1
                    if end:
                        break
                dropped = True
            if not dropped:
                raise AnalysisBroken(err)
        raise AnalysisBroken(err)

    def link(self, witness, units, defs, tag):
        with cf.ThreadPoolExecutor(2) as ex:
            self._pch(defs)
            fw = ex.submit(self.compile_witness, witness, defs, tag)
            core = self.compile_many(units, defs)
            wit = fw.result()
        linked = os.path.join(self.dir, tag + ".linked.ll")
        # Definitions in the witness unit take precedence (assume-guarantee models of neighbouring modules).
        r = sh([LINK] + core + ["--override=" + wit, "-S", "-o", linked])
        if r.returncode != 0:
            raise AnalysisBroken("cannot link %s\n%s" % (witness, r.stderr[-3000:]))
        txt = open(linked).read()
        # The marker functions touch no memory visible to the program; allocation returns fresh memory.
        txt = re.sub(r"^(declare .*@(?:vp_fail|vp_reach|vp_sink)\([^)]*\)).*$",
                     r"\1 nounwind willreturn memory(inaccessiblemem: readwrite)", txt, flags=re.M)
        txt = re.sub(r"^(declare .*@(?:vp_any|vp_double)\([^)]*\)).*$", r"\1 nounwind willreturn memory(none)", txt, flags=re.M)
        txt = re.sub(r"^(declare .*@(?:malloc|_Znwm|_Znam|free|_ZdlPv|_ZdaPv|_ZdlPvm)\([^)]*\)).*$",
                     r"\1 nounwind willreturn memory(inaccessiblemem: readwrite)", txt, flags=re.M)
        txt = re.sub(r"^declare (?:noalias )?(?:noundef )?(?:nonnull )?ptr @(malloc|_Znwm|_Znam)\(",
                     r"declare noalias noundef nonnull ptr @\1(", txt, flags=re.M)
        txt = re.sub(r"^(declare .*@vp_stop\(\)).*$", r"\1 nounwind noreturn memory(inaccessiblemem: readwrite)", txt, flags=re.M)
        # a witness file may define what must hold when the repository throws (wit/reject.h)
        txt = re.sub(r"^(define [^\n]*@vp_thrown\(\)[^\n]*?)(?: #\d+)( [^#\n]*)?\{$", r"\1 alwaysinline null_pointer_is_valid {", txt, flags=re.M)
        cnt = [0]

        def t44(m):
            cnt[0] += 1
            return "%%vpt%d = call i44 @vp_any44(%s)\n  %s = sext i44 %%vpt%d to i64" % (cnt[0], m.group(2), m.group(1), cnt[0])
        if "@vp_time" in txt:
            # 44-bit signed inputs: sums and the two-bit packing of radii stay far from the 64-bit limits
            txt = re.sub(r"(%[\w.]+) = (?:tail )?call i64 @vp_time\(([^)]*)\)[^\n]*", t44, txt)
            txt += "declare i44 @vp_any44(i32) nounwind willreturn memory(none)\n"
        if "@vp_small" in txt:
            # 30-bit unsigned inputs: halves of edge weights
            def t30(m):
                cnt[0] += 1
                return "%%vpt%d = call i30 @vp_any30(%s)\n  %s = zext i30 %%vpt%d to i32" % (cnt[0], m.group(2), m.group(1), cnt[0])
            txt = re.sub(r"(%[\w.]+) = (?:tail )?call (?:noundef )?i32 @vp_small\(([^)]*)\)[^\n]*", t30, txt)
            txt += "declare i30 @vp_any30(i32) nounwind willreturn memory(none)\n"
        txt = lower_memcpy(unfold_recursion(txt, self.depth))
        with open(linked, "w") as f:
            f.write(txt)
        return linked

    FN = ("sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>,"
          "loop-mssa(loop-simplifycfg,loop-rotate),simplifycfg,instcombine<no-verify-fixpoint>,"
          "loop(indvars,loop-deletion,loop-unroll-full),sroa<modify-cfg>,reassociate,gvn,sccp,bdce,instcombine<no-verify-fixpoint>,"
          "jump-threading,correlated-propagation,constraint-elimination,dse,adce,simplifycfg,instcombine<no-verify-fixpoint>")
    FIRST = ("-passes=globalopt,cgscc(inline,function(" + FN + ")),globaldce",)
    SIMP = ("-passes=cgscc(inline,function(" + FN + "," + FN + ")),globaldce",)
    PEEL = ("-passes=function(loop(loop-unroll-full),sroa<modify-cfg>,early-cse<memssa>,simplifycfg,instcombine<no-verify-fixpoint>)",
            "-unroll-force-peel-count=1", "-unroll-allow-loop-nests-peeling")
    SPLIT = ("-passes=function(" + ",".join(["jump-threading,gvn,correlated-propagation,constraint-elimination,sccp,instsimplify,adce"] * 3) + ")",)
    COMMON = ["-inline-threshold=2000000", "-unroll-runtime=false", "-disable-loop-idiom-all",
              "-inlinecold-threshold=2000000", "-inlinehint-threshold=2000000", "-inline-savings-multiplier=100",
              "-recursive-inline-max-stacksize=10000000", "-unroll-threshold=20000",
              "-unroll-max-percent-threshold-boost=4000", "-unroll-full-max-count=64",
              "-memdep-block-scan-limit=4000", "-memssa-check-limit=3000", "-dse-memoryssa-scanlimit=1000",
              "-available-load-scan-limit=400", "-jump-threading-threshold=40"]

    def optimise(self, linked, fn, rounds=7, limit=14000000):
        res = Result(fn)
        began = time.time()
        base = linked + "." + fn
        cur = base + ".0.bc"
        nxt = base + ".ll"
        r = sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=" + fn, linked, "-S", "-o", nxt])
        if r.returncode != 0:
            raise AnalysisBroken("opt failed: " + r.stderr[-2000:])
        t0 = initial_statics(open(nxt).read(), fn)
        with open(nxt, "w") as f:
            f.write(t0)
        res.linked_fns = t0.count("\ndefine ")
        res.obligations = len(set(re.findall(r"call void @vp_fail\(i32 (?:noundef )?(\d+)\)", t0)))
        state = {"txt": None}

        def step(p):
            try:
                r = sh([OPT] + list(p) + self.COMMON + ["-S", nxt, "-o", nxt], timeout=240)
            except subprocess.TimeoutExpired:
                return False
            if r.returncode != 0:
                raise AnalysisBroken("opt failed on %s: %s" % (fn, r.stderr[-2000:]))
            txt = open(nxt).read()
            t2 = null_accesses(fold_null_compares(lower_memcpy(txt)))
            t2 = re.sub(r'"llvm\.loop\.(unroll\.disable|peeled\.count)"', '"llvm.loop.vp"', t2)
            if t2 != txt:
                with open(nxt, "w") as f:
                    f.write(t2)
            same = txt == state["txt"]
            state["txt"] = txt
            return not same and len(txt) < limit

        def fails():
            return sorted(set(int(x) for x in re.findall(r"call void @vp_fail\(i32 (?:noundef )?(\d+)\)", state["txt"])))

        def unsettled():
            t = state["txt"]
            if fails():
                return True
            return any(("@%s(" % s) in t for s in ("vp_oob", "vp_overflow", "vp_depth")) and ("= load " in t)
        ok = step(self.FIRST)
        bits = "call i32 @llvm.ctlz" in state["txt"]
        for rnd in range(rounds):
            for _ in range(3):
                if not unsettled() or not step(self.SIMP):
                    break
            if not unsettled():
                break
            analyse_residual(state["txt"], fn, res)
            if res.closed:
                break
            if not step(self.PEEL):
                break
        if fails() and len(state["txt"]) < 200000:
            saved = state["txt"]
            try:
                step(("-passes=function(instnamer)",))
                for k in range(4):
                    t = fcmps_to_keys(state["txt"])
                    if t == state["txt"] or not fails():
                        break
                    with open(nxt, "w") as f:
                        f.write(t)
                    step(self.SIMP)
                    step(("-passes=function(instnamer)",))
                for k in range(24):
                    if not fails() or not bits:
                        break
                    t = equations_to_differences(state["txt"])
                    u = cancel_terms(t, fn)
                    t = state["txt"] if t == u else u
                    if t == state["txt"]:
                        t = push_truncs(t, fn)
                    if t == state["txt"]:
                        for _ in range(4):
                            t = widen_sums(t)
                    if t == state["txt"]:
                        break
                    with open(nxt, "w") as f:
                        f.write(t)
                    step(self.SIMP if k else ("-passes=function(instsimplify,gvn,instcombine<no-verify-fixpoint>,correlated-propagation)",))
                    step(("-passes=function(instnamer)",))
                t = equations_to_differences(push_truncs(halve_sums(state["txt"], fn), fn))
                if t != state["txt"]:
                    with open(nxt, "w") as f:
                        f.write(t)
                    step(("-passes=function(reassociate,instsimplify,reassociate,gvn,instcombine<no-verify-fixpoint>,simplifycfg)",))
                for k in range(3):
                    if not fails():
                        break
                    step(("-passes=function(lowerswitch,instnamer)",))
                    t = split_selects(state["txt"], fn)
                    if t is not None:
                        with open(nxt, "w") as f:
                            f.write(t)
                    if not step(self.SPLIT) or not fails():
                        break
                if fails():
                    step(self.SIMP)
            except AnalysisBroken as e:
                self.notes.append("case splitting failed on %s: %s" % (fn, str(e)[-300:]))
                state["txt"] = saved
                with open(nxt, "w") as f:
                    f.write(saved)
        res.stops = set()
        analyse_residual(state["txt"], fn, res)
        res.fails = fails()
        res.reach = sorted(set(int(x) for x in re.findall(r"call void @vp_reach\(i32 (?:noundef )?(\d+)\)", state["txt"])))
        res.path = nxt
        if res.fails or res.stops & {"vp_oob", "vp_thrown"}:
            refute(res)
        res.seconds = time.time() - began
        return res

    def run(self, witness, units, defs=(), only=None):
        """Returns {fn: Result}."""
        src = open(witness).read()
        fns = re.findall(r"^WITNESS\((\w+)\)", src, flags=re.M)
        if only:
            fns = [f for f in fns if f in only]
        self.n += 1
        tag = os.path.splitext(os.path.basename(witness))[0] + "_" + str(self.n)
        linked = self.link(witness, units, list(defs), tag)
        out = {}
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            gone = set(f for w, f in self.dropped if w == os.path.basename(witness))
            futs = {f: ex.submit(self.optimise, linked, f) for f in fns if f not in gone}
            for f, fu in futs.items():
                try:
                    out[f] = fu.result()
                except (AnalysisBroken, OSError, ValueError, LookupError, AttributeError, TypeError, subprocess.SubprocessError) as e:
                    self.notes.append("%s could not be analysed: %s %s" % (f, type(e).__name__, str(e)[-300:]))
        return out
