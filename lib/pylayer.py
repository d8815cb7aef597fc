"""The Python layer of the repository (src/pymatching/*.py), decided by abstract interpretation of its syntax trees.

# property: R21

Every scenario calls one public entry point with unknowns of declared types (concrete shapes, unknown contents).  The value that reaches
each parameter of the compiled extension, and the value returned, must be the expected function of the unknowns on every path.  Parameter
names and defaults of the extension are read from its binding source.  A violation is reported only when the two are different functions of
the inputs and the path depends on at most one simple condition per input; everything else is undecided.
"""
import ast
import os
import re

from pyeval import (App, Arr, Bound, Dct, Interp, K, Lst, Native, Obj, Poly, Raised, Ref, S, St, Tup, Undecided, explore, key, kind_of,
                    known, same)

FILES = {"pymatching.matching": "src/pymatching/matching.py", "pymatching": "src/pymatching/__init__.py",
         "pymatching._cli_argv": "src/pymatching/_cli_argv.py"}
BIND = "src/pymatching/sparse_blossom/driver/user_graph.pybind.cc"


def literal(t):
    t = t.strip()
    return {"false": K(False), "true": K(True), "py::none()": K(None)}.get(t) or (
        K(t[1:-1]) if t.startswith('"') else K(int(t)) if re.fullmatch(r"-?\d+", t) else K(float(t)) if re.fullmatch(r"-?\d*\.\d*", t) else None)


def bindings(src):
    """method name -> [(parameter, default or None)], from the .def(...) calls of the binding source."""
    src = re.sub(r"//[^\n]*", "", src)
    out = {}
    for m in re.finditer(r"\b(\w+)\.def\(", src):
        i, depth, ins = m.end(), 1, False
        while i < len(src) and depth:
            c = src[i]
            if ins:
                if c == "\\":
                    i += 1
                elif c == '"':
                    ins = False
            elif c == '"':
                ins = True
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            i += 1
        body = src[m.end():i - 1]
        # top-level pieces of the call
        parts, cur, depth, ins = [], "", 0, False
        for c in body:
            if ins:
                ins = c != '"'
            elif c == '"':
                ins = True
            elif c in "([{":
                depth += 1
            elif c in ")]}":
                depth -= 1
            if c == "," and not ins and depth == 0:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += c
        parts.append(cur.strip())
        n = re.fullmatch(r'"(\w+)"', parts[0])
        if not n:
            continue
        params = []
        for p in parts[1:]:
            a = re.match(r'(?:py(?:bind11)?::arg\("(\w+)"\)|"(\w+)"_a)\s*(?:=\s*(.*))?$', p, flags=re.S)
            if a:
                params.append((a.group(1) or a.group(2), literal(a.group(3)) if a.group(3) else None, bool(a.group(3))))
        out[n.group(1)] = params
    return out


class Graph(Native):
    """A matching graph of the extension: records what reaches it."""

    kind = "matchinggraph"

    def __init__(self, w, name, args=()):
        self.w, self.name, self.args, self.calls = w, name, list(args), []

    def key(self):
        return ("graph", self.name, id(self))

    def call(self, interp, m, args, kwargs):
        if m not in self.w.bind:
            raise Raised("AttributeError")
        a = self.w.norm(m, args, kwargs)
        fixed = {"get_num_detectors": self.w.nd, "get_num_nodes": None, "get_num_edges": self.w.ne, "get_num_observables": self.w.no,
                 "get_boundary": self.w.boundary, "all_edges_have_error_probabilities": self.w.allp}
        if m == "get_num_nodes":
            return K(self.w.nd.v + len(self.w.boundary.items))
        if m in fixed:
            return fixed[m]
        if m == "get_edges" and self.w.edges is not None:
            return Lst([Tup([u, v, d]) for u, v, d in self.w.edges])
        self.calls.append((m, a))
        if m in ("add_edge", "add_boundary_edge", "set_boundary", "set_min_num_observables"):
            return K(None)
        return App("result", [Ref(m)])


class View(Native):
    def __init__(self, items, get=None, data=False):
        self.items, self.get, self.data = items, get, data

    def invoke(self, interp, args, kwargs):
        d = kwargs.get("data", args[0] if args else K(False))
        if not isinstance(d, K):
            raise Undecided("data")
        if d.v is True:
            return Lst([Tup(x) for x in self.items()])
        if d.v is False:
            return Lst(self.iter(interp))
        raise Undecided("data")

    def iter(self, interp):
        return [x[0] if len(x) == 2 else Tup(x[:2]) for x in self.items()]

    def length(self, interp):
        return K(len(self.items()))

    def getitem(self, interp, k):
        if self.get is None:
            raise Undecided("item of a view")
        return self.get(k)

    def contains(self, interp, x):
        return K(any(same(x, y) is True for y in self.iter(interp)))

    def call(self, interp, name, args, kwargs):
        if name == "data" and not args:
            return Lst([Tup(x) for x in self.items()])
        if name == "items" and not args:
            return Lst([Tup(x) for x in self.items()])
        raise Undecided("view." + name)


class NX(Native):
    """networkx.Graph."""

    kind = "nxgraph"

    def __init__(self, nodes=(), edges=()):
        self.nodes = [(K(n), d) for n, d in nodes]
        self.edges = [(K(u), K(v), d) for u, v, d in edges]

    def key(self):
        return ("nx", id(self))

    def node(self, k):
        for n, d in self.nodes:
            s = same(n, k)
            if s:
                return d
            if s is None:
                raise Undecided("node")
        return None

    def need(self, k):
        d = self.node(k)
        if d is None:
            d = Dct()
            self.nodes.append((k, d))
        return d

    def getnode(self, k):
        d = self.node(k)
        if d is None:
            raise Raised("KeyError")
        return d

    def attr(self, interp, name):
        if name == "nodes":
            return View(lambda: [list(x) for x in self.nodes], self.getnode)
        if name == "edges":
            return View(lambda: [list(x) for x in self.edges])
        return Bound(self, name)

    def length(self, interp):
        return K(len(self.nodes))

    def iter(self, interp):
        return [n for n, _ in self.nodes]

    def contains(self, interp, x):
        return K(self.node(x) is not None)

    def link(self, u, v, d):
        self.need(u)
        self.need(v)
        for a, b, e in self.edges:
            if (same(a, u) and same(b, v)) or (same(a, v) and same(b, u)):
                for x, y in d.d:
                    e.put(x, y)
                return
        c = Dct()
        c.d = list(d.d)
        self.edges.append((u, v, c))

    def call(self, interp, name, args, kwargs):
        if name in ("number_of_nodes", "order") and not args:
            return K(len(self.nodes))
        if name in ("number_of_edges", "size") and not args:
            return K(len(self.edges))
        if name == "add_edge" and len(args) == 2:
            self.link(args[0], args[1], Dct(kwargs))
            return K(None)
        if name == "add_edges_from" and len(args) == 1 and not kwargs:
            for e in interp.iterate(args[0]):
                t = interp.iterate(e)
                self.link(t[0], t[1], t[2] if len(t) > 2 else Dct())
            return K(None)
        if name == "add_node" and len(args) == 1:
            d = self.need(args[0])
            for k, v in kwargs.items():
                d.put(K(k), v)
            return K(None)
        if name == "add_nodes_from" and len(args) == 1:
            for x in interp.iterate(args[0]):
                t = interp.iterate(x) if isinstance(x, Tup) else [x]
                d = self.need(t[0])
                for a, b in (t[1].d if len(t) > 1 else []):
                    d.put(a, b)
                for k, v in kwargs.items():
                    d.put(K(k), v)
            return K(None)
        raise Undecided("networkx." + name)


class RX(Native):
    """rustworkx.PyGraph with nodes 0 .. n-1."""

    kind = "rxgraph"

    def __init__(self, nodes=(), edges=()):
        self.nodes = list(nodes)
        self.edges = [(K(u), K(v), d) for u, v, d in edges]

    def key(self):
        return ("rx", id(self))

    def length(self, interp):
        return K(len(self.nodes))

    def getitem(self, interp, k):
        if not isinstance(k, K):
            raise Undecided("node")
        if not 0 <= k.v < len(self.nodes):
            raise Raised("IndexError")
        return self.nodes[k.v]

    def call(self, interp, name, args, kwargs):
        if name == "node_indices" and not args:
            return Lst([K(i) for i in range(len(self.nodes))])
        if name == "node_indexes" and not args:
            return Lst([K(i) for i in range(len(self.nodes))])
        if name == "nodes" and not args:
            return Lst(self.nodes)
        if name == "num_nodes" and not args:
            return K(len(self.nodes))
        if name == "weighted_edge_list" and not args:
            return Lst([Tup(e) for e in self.edges])
        if name == "add_node" and len(args) == 1:
            self.nodes.append(args[0])
            return K(len(self.nodes) - 1)
        if name == "add_nodes_from" and len(args) == 1:
            self.nodes += interp.iterate(args[0])
            return Lst([])
        if name == "add_edge" and len(args) == 3:
            self.link(interp, args)
            return K(0)
        if name in ("extend_from_weighted_edge_list", "add_edges_from") and len(args) == 1:
            for e in interp.iterate(args[0]):
                self.link(interp, interp.iterate(e))
            return K(None)
        raise Undecided("rustworkx." + name)

    def link(self, interp, t):
        u, v, d = t
        for x in (u, v):
            if not isinstance(x, K):
                raise Undecided("node")
            if x.v >= len(self.nodes):
                if len(self.nodes) <= x.v:
                    raise Undecided("edge to a missing node")
        self.edges.append((u, v, d))


class Syndrome(Native):
    """An array of bits of concrete shape and unknown contents."""

    kind = "ndarray"

    def __init__(self, name, shape, axes=None):
        self.name, self.shape, self.axes = name, shape, axes if axes is not None else list(range(len(shape)))

    def key(self):
        return ("syndrome", self.name, tuple(self.axes))

    def T(self):
        return Syndrome(self.name, self.shape[::-1], self.axes[::-1])

    def attr(self, interp, name):
        if name == "shape":
            return Tup([K(x) for x in self.shape])
        if name == "ndim":
            return K(len(self.shape))
        if name == "size":
            n = 1
            for x in self.shape:
                n *= x
            return K(n)
        if name == "T":
            return self.T()
        return Bound(self, name)

    def length(self, interp):
        return K(self.shape[0])

    def call(self, interp, name, args, kwargs):
        if name == "nonzero" and not args and not kwargs:
            return Tup([App("nonzero", [K(self.name), K(a)], "ndarray") for a in self.axes])
        if name == "transpose" and not args:
            return self.T()
        if name in ("ravel", "flatten") and not args and not kwargs or name == "reshape" and len(args) == 1 and isinstance(args[0], K) and args[0].v == -1:
            return Flat(self)
        if name == "copy" or name == "astype" and bitlike(args[0] if args else kwargs.get("dtype")):
            return self
        raise Undecided("array." + name)


class Flat(Native):
    """A syndrome in one row."""

    kind = "ndarray"

    def __init__(self, of):
        self.of = of

    def key(self):
        return ("flat",) + self.of.key() if len(self.of.shape) > 1 else self.of.key()

    def call(self, interp, name, args, kwargs):
        if name == "nonzero" and not args and len(self.of.shape) <= 2:
            i = self.of.call(interp, "nonzero", [], {}).items
            if len(i) == 1:
                return Tup(i)
            return Tup([interp.binop(ast.Add(), interp.binop(ast.Mult(), i[0], K(self.of.shape[1])), i[1])])
        raise Undecided("array." + name)


class Csc(Native):
    """scipy.sparse.csc_matrix: where it comes from, and whether explicit zeros have been removed."""

    kind = "csc"

    def __init__(self, origin, clean=False):
        self.origin, self.clean = origin, clean

    def key(self):
        return ("csc", key(self.origin), self.clean)

    def attr(self, interp, name):
        if name in self.origin.attrs:
            return self.origin.attrs[name]
        return Bound(self, name)

    def call(self, interp, name, args, kwargs):
        if name == "eliminate_zeros" and not args:
            self.clean = True
            return K(None)
        if name in ("copy", "tocsc"):
            return Csc(self.origin, self.clean)
        raise Undecided("csc." + name)


def bitlike(d):
    return isinstance(d, Ref) and d.name in ("np.uint8", "np.bool_", "np.bool", "bool", "np.int64", "np.integer", "int")


def dtype_kind(d):
    """float, int or None (not given / unknown)."""
    if d is None or isinstance(d, K) and d.v is None:
        return "same"
    n = d.name if isinstance(d, Ref) else d.v if isinstance(d, K) else ""
    if n in ("float", "np.double", "np.floating", "np.float_", "np.float64", "float64"):
        return "float"
    if n in ("int", "np.integer", "np.uint8", "np.int64", "np.int32", "bool", "np.bool_", "np.uint64", "np.float32", "np.float16"):
        return n
    return None


class World:
    """One scenario run on one path."""

    def __init__(self, decisions, sources, bind):
        self.bind = bind
        self.modules = {"stim", "rustworkx", "networkx", "numpy", "scipy", "matplotlib", "pymatching", "sys", "warnings", "os"}
        self.nd, self.ne, self.no = K(5), S("num_edges", "int", ), S("num_observables", "int")
        self.boundary = St([])
        self.allp = S("all_p", "bool")
        self.edges = None
        self.graphs, self.loaded, self.checks = [], [], []
        self.interp = Interp(sources, self)
        self.interp.decisions = decisions
        self.argv = S("argv", "list")

    # ---- hooks of the interpreter
    def importable(self, root):
        return root in self.modules

    def ref(self, full):
        return {"sys.argv": self.argv}.get(full)

    def fact(self, op, a, b):
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, S) and isinstance(y, K) and isinstance(y.v, (int, float)) and hasattr(x, "rng"):
                lo, hi = x.rng
                if op == "==" and (y.v < lo or y.v > hi):
                    return False
                if op == "<":      # x < y  or (flip) y < x
                    if not flip and hi < y.v or flip and y.v < lo:
                        return True
                    if not flip and lo >= y.v or flip and y.v >= hi:
                        return False
                if op == "<=":
                    if not flip and hi <= y.v or flip and y.v <= lo:
                        return True
                    if not flip and lo > y.v or flip and y.v > hi:
                        return False
        return None

    def norm(self, m, args, kwargs):
        """Arguments by the parameter names of the binding."""
        ps = self.bind[m]
        if len(args) > len(ps):
            raise Raised("TypeError")
        out = {p[0]: v for p, v in zip(ps, args)}
        for k, v in kwargs.items():
            if k in out or k not in [p[0] for p in ps]:
                raise Raised("TypeError")
            out[k] = v
        for n, d, has in ps:
            if n not in out:
                if not has:
                    raise Raised("TypeError")
                out[n] = d if d is not None else App("default", [K(n)])
        return out

    def library(self, it, name, args, kwargs):
        if name.startswith("pymatching._cpp_pymatching.") or name in ("pymatching.cli",):
            f = name.split(".")[-1]
            if f == "MatchingGraph":
                if len(args) > 2:
                    raise Raised("TypeError")
                names = ["num_nodes", "num_fault_ids"]
                a = dict(zip(names, args))
                a.update(kwargs)
                g = Graph(self, "g%d" % len(self.graphs), [a.get("num_nodes", K(0)), a.get("num_fault_ids", K(0))])
                self.graphs.append(g)
                return g
            if f in ("main", "cli"):
                if args or set(kwargs) != {"command_line_args"}:
                    raise Raised("TypeError")
                self.loaded.append(("main", dict(kwargs)))
                return App("result", [Ref("main")], "int")
            if f not in self.bind:
                raise Undecided(name)
            a = self.norm(f, args, kwargs)
            g = Graph(self, "loaded%d" % len(self.loaded))
            self.loaded.append((f, a, g))
            return g
        if name in ("sys.exit", "exit"):
            self.exit = args[0] if args else K(0)
            raise Raised("SystemExit")
        if name in ("warnings.warn", "warnings.filterwarnings", "warnings.simplefilter"):
            return K(None)
        if name in ("np.array", "np.asarray", "np.ascontiguousarray", "np.float64", "np.atleast_1d") and args:
            x, d = args[0], kwargs.get("dtype", args[1] if len(args) > 1 else None)
            if set(kwargs) - {"dtype", "copy"}:
                raise Undecided(name)
            if isinstance(x, Syndrome):
                if d is None or bitlike(d):
                    return x
                raise Undecided("dtype")
            k = dtype_kind(d)
            if k in ("same", "float"):
                if isinstance(x, S) and x.kind in ("list", "ndarray") or isinstance(x, Arr):
                    if isinstance(x, S) and x.kind == "list":
                        y = S(x.name, "ndarray", x.attrs, x.methods, x.length)
                        return y
                    return x
                raise Undecided("%s of %r" % (name, x))
            if k is None:
                raise Undecided("dtype")
            return App("cast", [K(k), x], "ndarray")
        if name in ("np.ones", "np.zeros", "np.full", "np.repeat", "np.full_like", "np.ones_like"):
            if name.endswith("_like"):
                raise Undecided(name)
            d = kwargs.get("dtype")
            pos = list(args)
            if name == "np.full":
                n, e = pos[0] if pos else kwargs["shape"], pos[1] if len(pos) > 1 else kwargs["fill_value"]
                d = d or (pos[2] if len(pos) > 2 else None)
            elif name == "np.repeat":
                e, n = pos[0], pos[1]
            else:
                n, e = pos[0] if pos else kwargs["shape"], K(1 if name == "np.ones" else 0)
                d = d or (pos[1] if len(pos) > 1 else None)
            if isinstance(n, Tup) and len(n.items) == 1:
                n = n.items[0]
            k = dtype_kind(d)
            if isinstance(n, Tup) or k is None:
                raise Undecided(name)
            if k not in ("same", "float") and not isinstance(e, K):
                e = App("cast", [K(k), e], "int")
            return Arr(n, e)
        if name in ("np.nonzero", "np.where", "np.flatnonzero") and len(args) == 1 and isinstance(args[0], Syndrome):
            if name == "np.flatnonzero":
                return Flat(args[0]).call(it, "nonzero", [], {}).items[0]
            return args[0].call(it, "nonzero", [], {})
        if name in ("np.transpose",) and isinstance(args[0], Syndrome):
            return args[0].T()
        if name == "csc_matrix" and args and not kwargs:
            x = args[0]
            if isinstance(x, Csc):
                return Csc(x.origin, x.clean)
            if isinstance(x, S) and x.kind in ("ndarray", "list", "spmatrix"):
                return Csc(x)
            if kind_of(x) in ("other", "none", "str", "path"):
                raise Raised("TypeError")
            raise Undecided("csc_matrix of %r" % (x,))
        if name == "np.isscalar" and len(args) == 1 and kind_of(args[0]) != "?":
            return K(kind_of(args[0]) in ("int", "float", "npint", "npfloat", "bool", "str"))
        if name == "np.ndim" and len(args) == 1:
            if kind_of(args[0]) in ("int", "float", "npint", "npfloat", "bool"):
                return K(0)
            raise Undecided(name)
        if name == "nx.set_node_attributes" and len(args) == 3 and isinstance(args[0], NX) and isinstance(args[2], K):
            for n in args[0].iter(it):
                v = args[1].get(n) if isinstance(args[1], Dct) else args[1]
                if v is not None:
                    args[0].getnode(n).put(args[2], v)
            return K(None)
        if name == "nx.Graph" and not args:
            return NX()
        if name == "rx.PyGraph" and not args:
            mg = kwargs.get("multigraph", K(True))
            if not (isinstance(mg, K) and mg.v is False):
                raise Undecided("multigraph")
            return RX()
        raise Undecided("library function %s" % name)

    def array_method(self, it, o, name, args, kwargs):
        if name in ("copy", "ravel", "flatten", "tolist") and not args and not kwargs:
            return o
        if name == "astype" and not kwargs and args and dtype_kind(args[0]) == "float":
            return o
        raise Undecided("method %s of %r" % (name, o))

    # ---- scenario side
    def matching(self):
        """An existing Matching object over a recorded graph."""
        cls = self.interp.mods["pymatching.matching"].get("Matching")
        if not (isinstance(cls, tuple) and cls[0] == "class"):
            raise Undecided("class Matching")
        o = Obj(cls)
        g = Graph(self, "self")
        self.g = g
        # the attribute that the constructor fills with a fresh graph
        probe = self.interp.call(cls, [], {})
        fields = [k for k, v in probe.fields.items() if isinstance(v, Graph)]
        if len(fields) != 1:
            raise Undecided("graph attribute")
        self.field = fields[0]
        o.fields.update(probe.fields)
        o.fields[self.field] = g
        self.graphs, self.loaded = [], []
        return o

    def cls(self):
        self.matching()
        return self.interp.mods["pymatching.matching"]["Matching"]

    def graph_of(self, m):
        if not isinstance(m, Obj) or self.field not in m.fields:
            raise Undecided("not a Matching object")
        return m.fields[self.field]

    def call(self, o, name, *args, **kwargs):
        """('return', value) or ('raise', kind)."""
        try:
            f = self.interp.attr(o, name) if name else o
            if isinstance(f, (K, S, App)):       # a property
                return ("return", f)
            return ("return", self.interp.call(f, list(args), kwargs))
        except Raised as r:
            return ("raise", r.kind)

    def prop(self, o, name):
        try:
            return ("return", self.interp.attr(o, name))
        except Raised as r:
            return ("raise", r.kind)

    def sub(self, v):
        """v with the inputs that this path has fixed replaced."""
        d = self.interp.subst
        if isinstance(v, S):
            return d.get(key(v), v)
        if isinstance(v, (Lst, Tup)):
            return type(v)([self.sub(x) for x in v.items])
        if isinstance(v, St):
            return St([self.sub(x) for x in v.items])
        if isinstance(v, Arr):
            return Arr(self.sub(v.n), self.sub(v.elem))
        if isinstance(v, Dct):
            n = Dct()
            n.d = [(self.sub(a), self.sub(b)) for a, b in v.d]
            return n
        if isinstance(v, App):
            return App(v.fn, [self.sub(x) for x in v.args], v.kind)
        if isinstance(v, Poly):
            t = K(0)
            for m, c in v.terms.items():
                p = K(c)
                for a in m:
                    p = self.interp.binop(ast.Mult(), p, self.sub(v.atoms[a]))
                t = self.interp.binop(ast.Add(), t, p)
            return t
        return v

    def expect(self, label, actual, wanted):
        """actual, wanted: abstract values."""
        a, b = self.sub(actual), self.sub(wanted)
        if key(a) == key(b) or isinstance(a, K) and isinstance(b, K) and same(a, b) and type(a.v) == type(b.v):
            self.checks.append((label, True, ""))
        elif isinstance(a, K) and isinstance(b, K) and same(a, b) and not isinstance(a.v, str):
            self.checks.append((label, True, ""))
        elif known(a) and known(b) and not (isinstance(a, Lst) and isinstance(b, Arr)):
            self.checks.append((label, False, "%r instead of %r" % (a, b)))
        else:
            self.checks.append((label, None, "%r, expected %r" % (a, b)))

    def expect_true(self, label, ok, why=""):
        self.checks.append((label, bool(ok), why))

    def returned(self, label, r, wanted):
        if r[0] == "raise":
            self.checks.append((label, False, "raises %s" % r[1]))
        else:
            self.expect(label, r[1], wanted)

    def raised(self, label, r, kinds):
        if r[0] == "return":
            self.checks.append((label, False, "accepted, returns %r" % (r[1],)))
        else:
            self.checks.append((label, r[1] in kinds, "raises %s" % r[1]))

    def one_call(self, label, g, name, **wanted):
        """Exactly one call of the extension reached graph g, with these arguments."""
        c = [x for x in g.calls]
        if [x[0] for x in c] != [name]:
            self.checks.append((label, False, "calls %s instead of %s" % ([x[0] for x in c], name)))
            return
        self.arguments(label, c[0][1], wanted)

    def arguments(self, label, got, wanted):
        for k, v in wanted.items():
            if k not in got:
                raise Undecided("parameter %s of the binding" % k)
            self.expect("%s, argument %s" % (label, k), got[k], v)
        for k in got:
            if k not in wanted:
                raise Undecided("further parameter %s" % k)


def num(name, kind, lo, hi):
    s = S(name, kind)
    s.rng = (lo, hi)
    return s


def load_sources(repo):
    out = {}
    for m, f in FILES.items():
        out[m] = ast.parse(open(os.path.join(repo, f)).read(), f)
    return out


def run_all(repo, scenarios):
    """[(scenario, description, status, messages)]: status in proved, violated, undecided."""
    sources = load_sources(repo)
    bind = bindings(open(os.path.join(repo, BIND)).read())
    out = []
    for fn in scenarios:
        desc = (fn.__doc__ or "").strip()
        outcomes, why = [], None

        def run(decisions):
            w = World(decisions, sources, bind)
            try:
                fn(w)
                return ("ok", w), w.interp
            except Undecided as u:
                return ("undecided %s" % u, w), w.interp
        try:
            for (st, w), it in explore(run):
                outcomes.append((st, w, it))
        except (Undecided, RecursionError) as u:
            why = str(u)
        except Exception as u:  # the interpreter met something it has no rule for
            why = "%s: %s" % (type(u).__name__, u)
        bad, unk, n = [], [why] if why else [], 0
        for st, w, it in outcomes:
            syms = [s for s, _ in it.forks]
            # each condition depends on one input alone, and no input is split twice: the path is feasible
            feasible = all(s is not None for s in syms) and len({key(s) for s in syms}) == len(syms)
            if st != "ok":
                unk.append(st)
            for label, ok, msg in w.checks:
                n += 1
                if ok is False:
                    path = " when " + " and ".join(x for _, x in it.forks) if it.forks else ""
                    (bad if feasible else unk).append("%s: %s%s" % (label, msg, path))
                elif ok is None:
                    unk.append("%s: %s" % (label, msg))
        status = "violated" if bad else "undecided" if unk or not n else "proved"
        out.append((fn.__name__, desc, status, bad or unk, n, len(outcomes)))
    return out
