"""Abstract interpreter for the Python layer (src/pymatching/*.py).

The source is parsed, never imported or run.  Function bodies are interpreted over abstract values: constants, named unknowns of a
declared type, uniform arrays (length, element), containers of abstract values, and polynomials over unknowns.  Calls into the compiled
extension are recorded with their arguments.  A condition that the abstract values do not determine splits the path.  Anything outside the
modelled part of the language raises Undecided: the scenario is then undecided, never an alarm.
"""
import ast


class Undecided(Exception):
    pass


class Raised(Exception):
    def __init__(self, kind, node=None):
        Exception.__init__(self, kind)
        self.kind = kind
        self.node = node


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------- values
class K:
    """A constant."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return repr(self.v)


class S:
    """An unknown value of a known type.  attrs: attribute -> value; methods: name -> function(interp, args, kwargs)."""

    def __init__(self, name, kind, attrs=None, methods=None, length=None, items=None):
        self.name, self.kind, self.attrs, self.methods, self.length = name, kind, attrs or {}, methods or {}, length
        self.items = items

    def __repr__(self):
        return self.name


class Poly:
    """Sum of coefficient * product of atoms (atoms: canonical keys)."""

    def __init__(self, terms, atoms):
        self.terms = {m: c for m, c in terms.items() if c != 0}
        self.atoms = atoms

    def __repr__(self):
        return " + ".join("%s*%s" % (c, "*".join(str(self.atoms[a]) for a in m) or "1") for m, c in sorted(self.terms.items(), key=str)) or "0"


class Arr:
    """A one-dimensional array all of whose elements are equal."""

    def __init__(self, n, elem):
        self.n, self.elem = n, elem

    def __repr__(self):
        return "[%s] * %s" % (self.elem, self.n)


class Tup:
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Lst(Tup):
    def __repr__(self):
        return "[%s]" % ", ".join(map(repr, self.items))


class St:
    def __init__(self, items):
        self.items, self.fuzzy = [], False  # fuzzy: some elements may be equal
        for x in items:
            self.add(x)

    def add(self, x):
        for y in self.items:
            s = same(x, y)
            if s is True:
                return
            if s is None:
                self.fuzzy = True
        self.items.append(x)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.items))


class Dct:
    def __init__(self, d=None):
        self.d = []  # pairs
        for k, v in (d or {}).items():
            self.put(K(k) if isinstance(k, (str, int)) else k, v)

    def find(self, k):
        for i, (a, _) in enumerate(self.d):
            s = same(a, k)
            if s is True:
                return i
            if s is None:
                raise Undecided("dictionary key")
        return None

    def put(self, k, v):
        i = self.find(k)
        if i is None:
            self.d.append((k, v))
        else:
            self.d[i] = (k, v)

    def get(self, k):
        i = self.find(k)
        return None if i is None else self.d[i][1]

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % p for p in self.d)


class App:
    """Result of an operation that is not interpreted further."""

    def __init__(self, fn, args, kind="?", methods=None):
        self.fn, self.args, self.kind, self.methods = fn, list(args), kind, methods or {}

    def __repr__(self):
        return "%s(%s)" % (self.fn, ", ".join(map(repr, self.args)))


class Ref:
    """A dotted name: module, class or library function."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Obj:
    """An instance of a class defined in the analysed source."""

    def __init__(self, cls):
        self.cls, self.fields = cls, {}

    def __repr__(self):
        return "<%s>" % (self.cls[1] if isinstance(self.cls, tuple) and isinstance(self.cls[1], str) else "Matching",)


class Fn:
    def __init__(self, node, env, bound=None, name=None):
        self.node, self.env, self.bound, self.name = node, env, bound, name or getattr(node, "name", "lambda")


class Native:
    """A Python object that models something (graph of the extension, networkx graph); has call(interp, method, args, kwargs)."""

    kind = "?"

    def attr(self, interp, name):
        return Bound(self, name)

    def call(self, interp, name, args, kwargs):
        raise Undecided("method %s" % name)

    def invoke(self, interp, args, kwargs):
        raise Undecided("call")

    def length(self, interp):
        raise Undecided("len")

    def contains(self, interp, x):
        raise Undecided("in")

    def iter(self, interp):
        raise Undecided("iteration")

    def getitem(self, interp, k):
        raise Undecided("item")

    def setitem(self, interp, k, v):
        raise Undecided("item assignment")


class Bound:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


KNOWN_APPS = {"nonzero", "str", "cast", "repr", "dem_of_circuit", "result", "item", "slice"}


def key(v):
    """Canonical hashable key of a value."""
    if isinstance(v, K):
        x = v.v
        if isinstance(x, bool):
            return ("b", x)
        if isinstance(x, (int, float)) and x == x:
            return ("n", float(x)) if float(x) != int(x) else ("n", int(x))
        return ("k", repr(x))
    if isinstance(v, S):
        return ("s", v.name)
    if isinstance(v, Poly):
        if not v.terms:
            return ("n", 0)
        if len(v.terms) == 1:
            (m, c), = v.terms.items()
            if m == ():
                return ("n", c)
            if c == 1 and len(m) == 1:
                return m[0]
        return ("p", tuple(sorted(v.terms.items(), key=repr)))
    if isinstance(v, Arr):
        return ("arr", key(v.n), key(v.elem))
    if isinstance(v, Lst):
        return ("l",) + tuple(key(x) for x in v.items)
    if isinstance(v, Tup) and len(v.items) == 2 and all(isinstance(x, App) and x.fn == "item" and isinstance(x.args[0], App) and x.args[0].fn == "result"
                                                       for x in v.items) and [x.args[1].v for x in v.items] == [0, 1] and key(v.items[0].args[0]) == key(v.items[1].args[0]):
        return key(v.items[0].args[0])  # a pair taken apart and put together again
    if isinstance(v, Tup):
        return ("t",) + tuple(key(x) for x in v.items)
    if isinstance(v, St):
        return ("set",) + tuple(sorted((key(x) for x in v.items), key=repr))
    if isinstance(v, Dct):
        return ("d",) + tuple(sorted(((key(a), key(b)) for a, b in v.d), key=repr))
    if isinstance(v, App):
        return ("a", v.fn) + tuple(key(x) for x in v.args)
    if isinstance(v, Ref):
        return ("r", v.name)
    if isinstance(v, Native) and hasattr(v, "key"):
        return v.key()
    if isinstance(v, (Obj, Native)):
        return ("o", id(v))
    raise Undecided("value %r" % (v,))


def known(v):
    """No uninterpreted operation of unknown meaning inside."""
    if isinstance(v, App):
        return v.fn in KNOWN_APPS and all(known(x) for x in v.args)
    if isinstance(v, Poly):
        return all(known(a) for a in v.atoms.values())
    if isinstance(v, Arr):
        return known(v.n) and known(v.elem)
    if isinstance(v, (Tup, St)):
        return all(known(x) for x in v.items)
    if isinstance(v, Dct):
        return all(known(a) and known(b) for a, b in v.d)
    return True


def same(a, b):
    """True, False or None (not determined)."""
    if isinstance(a, K) and isinstance(b, K):
        if isinstance(a.v, (int, float)) and isinstance(b.v, (int, float)):
            return a.v == b.v
        return type(a.v) == type(b.v) and a.v == b.v
    ka, kb = key(a), key(b)
    if ka == kb:
        return True
    if not (known(a) and known(b)):
        return None
    # two different unknowns, or an unknown and a constant, may be equal: only different *functions* of the unknowns
    return None if (isinstance(a, (S, Poly, App)) or isinstance(b, (S, Poly, App))) and not _types_differ(a, b) else False


def _types_differ(a, b):
    ta, tb = kind_of(a), kind_of(b)
    num = {"int", "float", "npint", "npfloat", "bool"}
    if ta == "?" or tb == "?":
        return False
    if ta in num and tb in num:
        return False
    return ta != tb


def differs(a, b):
    """For obligations: a and b are different functions of the unknowns (True), the same (False), or not determined (None)."""
    if isinstance(a, K) and isinstance(b, K):
        return not same(a, b)
    if key(a) == key(b):
        return False
    if isinstance(a, Lst) and isinstance(b, Arr) or isinstance(a, Arr) and isinstance(b, Lst):
        return None
    if not (known(a) and known(b)):
        return None
    return True


def kind_of(v):
    if isinstance(v, K):
        return "none" if v.v is None else "bool" if isinstance(v.v, bool) else type(v.v).__name__
    if isinstance(v, (S, App)):
        return v.kind
    if isinstance(v, Poly):
        ks = {kind_of(a) for a in v.atoms.values()}
        return "ndarray" if "ndarray" in ks else "float" if ks & {"float", "npfloat"} else "int" if ks <= {"int", "npint", "bool"} else "?"
    return {Arr: "ndarray", Tup: "tuple", Lst: "list", St: "set", Dct: "dict"}.get(type(v), getattr(v, "kind", "?"))


ISA = {
    "int": {"int"}, "bool": {"bool", "int"}, "float": {"float"}, "npint": {"np.integer"}, "npfloat": {"np.floating"},
    "ndarray": {"np.ndarray"}, "list": {"list"}, "tuple": {"tuple"}, "set": {"set"}, "dict": {"dict"}, "str": {"str"}, "none": set(),
    "csc": {"csc_matrix", "spmatrix"}, "spmatrix": {"spmatrix"}, "nxgraph": {"nx.Graph"}, "rxgraph": {"rx.PyGraph"}, "dem": {"stim.DetectorErrorModel"},
    "circuit": {"stim.Circuit"}, "path": {"Path"}, "other": set(),
}
ALIAS = {
    "numpy": "np", "networkx": "nx", "rustworkx": "rx", "scipy.sparse.csc_matrix": "csc_matrix", "scipy.sparse.spmatrix": "spmatrix",
    "pathlib.Path": "Path", "np.int_": "np.integer", "np.float64": "np.floating",
}
EXC = {
    "ValueError": {"ValueError", "Exception", "BaseException"}, "TypeError": {"TypeError", "Exception", "BaseException"},
    "ImportError": {"ImportError", "Exception", "BaseException"}, "KeyError": {"KeyError", "LookupError", "Exception", "BaseException"},
    "ModuleNotFoundError": {"ModuleNotFoundError", "ImportError", "Exception", "BaseException"},
    "IndexError": {"IndexError", "LookupError", "Exception", "BaseException"},
    "AttributeError": {"AttributeError", "Exception", "BaseException"},
}


class Interp:
    def __init__(self, sources, hooks):
        """sources: {module name: ast}; hooks: object with call(interp, name, args, kwargs) for library functions."""
        self.hooks = hooks
        self.mods = {}
        self.decisions, self.at, self.forks = [], 0, []
        self.memo, self.subst = {}, {}
        self.events = []
        self.steps = 0
        for name, tree in sources.items():
            self.mods[name] = self.load(tree)

    # ---- modules
    def load(self, tree):
        env = {}
        for n in tree.body:
            self.define(n, env)
        return env

    def define(self, n, env):
        if isinstance(n, ast.FunctionDef):
            env[n.name] = Fn(n, env)
        elif isinstance(n, ast.ClassDef):
            members = {}
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    dec = [ast.unparse(d) for d in m.decorator_list]
                    members[m.name] = ("static" if "staticmethod" in dec else "class" if "classmethod" in dec else
                                       "property" if "property" in dec else "method" if not dec else "other", m)
                elif isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name):
                    members[m.targets[0].id] = ("const", m.value)
            env[n.name] = ("class", n.name, members, env)
        elif isinstance(n, ast.Import):
            for a in n.names:
                full = ALIAS.get(a.name, a.name)
                env[a.asname or a.name.split(".")[0]] = Ref(full if a.asname else a.name.split(".")[0])
                if not a.asname and "." not in a.name:
                    env[a.name] = Ref(full)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                full = "%s.%s" % (n.module, a.name)
                env[a.asname or a.name] = Ref(ALIAS.get(full, full))
        elif isinstance(n, ast.Assign):
            try:
                v = self.eval(n.value, env)
                for t in n.targets:
                    self.assign(t, v, env)
            except Undecided:
                pass

    # ---- paths
    def decide(self, k, sym, what):
        """Split the path.  k: key of the condition; sym: the input it depends on alone, if it does."""
        if k in self.memo:
            return self.memo[k]
        if self.at < len(self.decisions):
            d = self.decisions[self.at]
        else:
            d = True
            self.decisions.append(d)
        self.at += 1
        self.forks.append((sym, what))
        self.memo[k] = d
        return d

    def truth(self, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Lst) or isinstance(v, Tup) or isinstance(v, St):
            return len(v.items) > 0
        if isinstance(v, Dct):
            return len(v.d) > 0
        if isinstance(v, (Ref, Obj, Fn)):
            return True
        if isinstance(v, S) and v.kind in ("nxgraph", "csc", "dem", "circuit"):
            raise Undecided("truth of %r" % (v,))
        if isinstance(v, Poly) and not v.terms:
            return False
        if isinstance(v, S) and v.kind == "bool":
            d = self.decide(("truth", key(v)), v, "%r" % (v,))
            self.subst[key(v)] = K(d)
            return d
        if kind_of(v) in ("int", "float", "npint", "npfloat"):
            return not self.fact("==", v, K(0))
        if isinstance(v, Arr) or kind_of(v) in ("ndarray", "csc"):
            raise Undecided("truth of %r" % (v,))
        return self.decide(("truth", key(v)), v if isinstance(v, S) else None, "truth of %r" % (v,))

    # ---- calls of source functions
    def bind(self, node, args, kwargs, env):
        a = node.args
        out = {}
        params = [p.arg for p in a.posonlyargs + a.args]
        if len(args) > len(params):
            if a.vararg is None:
                raise Raised("TypeError")
            out[a.vararg.arg] = Tup(args[len(params):])
            args = args[:len(params)]
        elif a.vararg is not None:
            out[a.vararg.arg] = Tup([])
        for p, v in zip(params, args):
            out[p] = v
        extra = {}
        names = params + [p.arg for p in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names:
                if k in out:
                    raise Raised("TypeError")
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            out[a.kwarg.arg] = Dct(extra)
        elif extra:
            raise Raised("TypeError")
        for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
            if p not in out:
                out[p] = self.eval(d, env)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out:
                if d is None:
                    raise Raised("TypeError")
                out[p.arg] = self.eval(d, env)
        for p in names:
            if p not in out:
                raise Raised("TypeError")
        return out

    def call_fn(self, fn, args, kwargs):
        env = {"__up__": fn.env}
        if fn.bound is not None:
            args = [fn.bound] + list(args)
        env.update(self.bind(fn.node, args, kwargs, fn.env))
        if isinstance(fn.node, ast.Lambda):
            return self.eval(fn.node.body, env)
        try:
            self.block(fn.node.body, env)
        except _Return as r:
            return r.v
        return K(None)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e:
                return e[name]
            e = e.get("__up__")
        if name in ("None", "True", "False"):
            return K({"None": None, "True": True, "False": False}[name])
        return Ref(name)

    def member(self, obj, cls, name):
        _, cname, members, env = cls
        if name not in members:
            return None
        how, node = members[name]
        if how == "const":
            return self.eval(node, env)
        if how == "static":
            return Fn(node, env)
        if how == "method":
            return Fn(node, env, bound=obj) if obj is not None else Fn(node, env)
        if how == "class":
            return Fn(node, env, bound=cls)
        if how == "property":
            return self.call_fn(Fn(node, env, bound=obj), [], {})
        raise Undecided("decorated member %s" % name)

    # ---- statements
    def block(self, body, env):
        for s in body:
            self.steps += 1
            if self.steps > 20000:
                raise Undecided("too long")
            self.stmt(s, env)

    def stmt(self, s, env):
        if isinstance(s, ast.Expr):
            if not isinstance(s.value, ast.Constant):
                self.eval(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.eval(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.eval(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            cur = self.eval(ast.copy_location(_load(s.target), s.target), env)
            v = self.eval(s.value, env)
            if isinstance(cur, Lst) and isinstance(s.op, ast.Add):
                cur.items.extend(self.iterate(v))
                return
            if isinstance(cur, St) and isinstance(s.op, ast.BitOr):
                for x in self.iterate(v):
                    cur.add(x)
                return
            self.assign(s.target, self.binop(s.op, cur, v), env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env)
        elif isinstance(s, ast.Return):
            raise _Return(self.eval(s.value, env) if s.value is not None else K(None))
        elif isinstance(s, ast.Raise):
            raise self.exception(s, env)
        elif isinstance(s, ast.For):
            broke = False
            for x in self.iterate(self.eval(s.iter, env)):
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke:
                self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.eval(s.test, env)):
                n += 1
                if n > 200:
                    raise Undecided("loop")
                try:
                    self.block(s.body, env)
                except _Break:
                    break
                except _Continue:
                    continue
        elif isinstance(s, ast.Break):
            raise _Break()
        elif isinstance(s, ast.Continue):
            raise _Continue()
        elif isinstance(s, ast.Try):
            self.do_try(s, env)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                root = (a.name if isinstance(s, ast.Import) else s.module).split(".")[0]
                if not self.hooks.importable(root):
                    raise Raised("ModuleNotFoundError", s)
            self.define(s, env)
        elif isinstance(s, ast.FunctionDef):
            env[s.name] = Fn(s, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    o, k = self.eval(t.value, env), self.eval(t.slice, env)
                    if not isinstance(o, Dct):
                        raise Undecided("del")
                    i = o.find(k)
                    if i is None:
                        raise Raised("KeyError", s)
                    del o.d[i]
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
                else:
                    raise Undecided("del")
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assert):
            if not self.truth(self.eval(s.test, env)):
                raise Raised("AssertionError", s)
        elif isinstance(s, ast.With):
            raise Undecided("with")
        else:
            raise Undecided(type(s).__name__)

    def exception(self, s, env):
        if s.exc is None:
            cur = self.lookup("__exc__", env)
            if isinstance(cur, Raised):
                return cur
            raise Undecided("re-raise")
        e = s.exc
        f = e.func if isinstance(e, ast.Call) else e
        name = ast.unparse(f)
        v = self.lookup(name, env) if isinstance(f, ast.Name) else None
        if isinstance(v, Raised):
            return v
        return Raised(name, s)

    def do_try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except Raised as r:
                for h in s.handlers:
                    names = [] if h.type is None else [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if h.type is None or EXC.get(r.kind, {r.kind, "Exception", "BaseException"}) & set(names):
                        if h.name:
                            env[h.name] = r
                        env["__exc__"] = r
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Undecided("starred target")
            items = self.iterate(v, len(t.elts))
            if len(items) != len(t.elts):
                raise Raised("ValueError")
            for x, y in zip(t.elts, items):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            if not isinstance(o, Obj):
                raise Undecided("attribute assignment")
            o.fields[t.attr] = v
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value, env), self.eval(t.slice, env)
            if isinstance(o, Dct):
                o.put(k, v)
            elif isinstance(o, Native):
                o.setitem(self, k, v)
            elif isinstance(o, Lst) and isinstance(k, K):
                o.items[k.v] = v
            else:
                raise Undecided("item assignment")
        else:
            raise Undecided("assignment")

    def iterate(self, v, n=None):
        if isinstance(v, St) and v.fuzzy:
            raise Undecided("set of possibly equal unknowns")
        if isinstance(v, (Tup, St)):
            return list(v.items)
        if isinstance(v, Dct):
            return [a for a, _ in v.d]
        if isinstance(v, Native):
            return v.iter(self)
        if isinstance(v, S) and v.items is not None:
            return list(v.items)
        if n is not None and isinstance(v, (App, S)):
            return [self.item(v, K(i)) for i in range(n)]
        if kind_of(v) in ("int", "float", "none", "npint", "npfloat"):
            raise Raised("TypeError")
        raise Undecided("iteration over %r" % (v,))

    # ---- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided(type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return K(e.value)

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_JoinedStr(self, e, env):
        return App("fstring", [], "str")

    def e_Tuple(self, e, env):
        return Tup(self.elements(e.elts, env))

    def e_List(self, e, env):
        return Lst(self.elements(e.elts, env))

    def e_Set(self, e, env):
        return St(self.elements(e.elts, env))

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, e, env):
        d = Dct()
        for k, v in zip(e.keys, e.values):
            if k is None:
                for a, b in self.eval(v, env).d:
                    d.put(a, b)
            else:
                d.put(self.eval(k, env), self.eval(v, env))
        return d

    def comp(self, e, env, emit):
        inner = {"__up__": env}

        def go(i):
            if i == len(e.generators):
                emit(inner)
                return
            g = e.generators[i]
            for x in self.iterate(self.eval(g.iter, inner)):
                self.assign(g.target, x, inner)
                if all(self.truth(self.eval(c, inner)) for c in g.ifs):
                    go(i + 1)

        go(0)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e, env, lambda n: out.append(self.eval(e.elt, n)))
        return Lst(out)

    def e_GeneratorExp(self, e, env):
        return self.e_ListComp(e, env)

    def e_SetComp(self, e, env):
        return St(self.e_ListComp(e, env).items)

    def e_DictComp(self, e, env):
        d = Dct()
        self.comp(e, env, lambda n: d.put(self.eval(e.key, n), self.eval(e.value, n)))
        return d

    def e_Lambda(self, e, env):
        return Fn(e, env)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.eval(x, env)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            return K(not self.truth(v))
        if isinstance(e.op, ast.USub):
            return self.binop(ast.Mult(), K(-1), v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Undecided("unary")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.eval(e.left, env), self.eval(e.right, env))

    def poly(self, v):
        if isinstance(v, Poly):
            return v
        if isinstance(v, K) and isinstance(v.v, (int, float)):
            return Poly({(): v.v}, {})
        k = key(v)
        return Poly({(k,): 1}, {k: v})

    def binop(self, op, a, b):
        num = (int, float)
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, num) and isinstance(b.v, num):
            f = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.FloorDiv: lambda x, y: x // y,
                 ast.Mod: lambda x, y: x % y, ast.Div: lambda x, y: x / y, ast.Pow: lambda x, y: x ** y}.get(type(op))
            if f is None:
                raise Undecided("operator")
            return K(f(a.v, b.v))
        if isinstance(a, K) and isinstance(a.v, str) or isinstance(b, K) and isinstance(b.v, str):
            return App("string", [], "str")
        if isinstance(op, ast.BitOr) and isinstance(a, St) and isinstance(b, St):
            return St(a.items + b.items)
        if isinstance(op, ast.Add) and isinstance(a, Lst) and isinstance(b, Lst):
            return Lst(a.items + b.items)
        if isinstance(op, ast.Add) and type(a) is Tup and type(b) is Tup:
            return Tup(a.items + b.items)
        if isinstance(op, ast.Mult):
            if isinstance(b, Lst):
                a, b = b, a
            if isinstance(a, Lst):
                if isinstance(b, K):
                    return Lst(a.items * int(b.v))
                if len(a.items) == 1:
                    return Arr(b, a.items[0])
                raise Undecided("list times unknown")
        if isinstance(a, Arr) and isinstance(b, Arr):
            if same(a.n, b.n) is not True:
                raise Undecided("arrays of different length")
            return Arr(a.n, self.binop(op, a.elem, b.elem))
        if isinstance(a, Arr) and kind_of(b) in ("int", "float", "npint", "npfloat"):
            return Arr(a.n, self.binop(op, a.elem, b))
        if isinstance(b, Arr) and kind_of(a) in ("int", "float", "npint", "npfloat"):
            return Arr(b.n, self.binop(op, a, b.elem))
        ok = {"int", "float", "npint", "npfloat", "ndarray", "bool"}
        if kind_of(a) in ok and kind_of(b) in ok and type(op) in (ast.Add, ast.Sub, ast.Mult) and not isinstance(a, Arr) and not isinstance(b, Arr):
            p, q = self.poly(a), self.poly(b)
            atoms = dict(p.atoms)
            atoms.update(q.atoms)
            t = {}
            if isinstance(op, ast.Mult):
                for m, c in p.terms.items():
                    for n, d in q.terms.items():
                        r = tuple(sorted(m + n, key=repr))
                        t[r] = t.get(r, 0) + c * d
            else:
                sg = 1 if isinstance(op, ast.Add) else -1
                for m, c in p.terms.items():
                    t[m] = t.get(m, 0) + c
                for m, c in q.terms.items():
                    t[m] = t.get(m, 0) + sg * c
            return Poly(t, atoms)
        return App("op:" + type(op).__name__, [a, b])

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = K(True)
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            res = self.compare(op, left, right)
            if not self.truth(res):
                return K(False)
            left = right
        return K(True)

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(b, K) and b.v is None or isinstance(a, K) and a.v is None:
                o = a if isinstance(b, K) and b.v is None else b
                if isinstance(o, App) and o.kind == "?":
                    raise Undecided("is None of %r" % (o,))
                r = isinstance(o, K) and o.v is None
            elif isinstance(a, K) and isinstance(b, K):
                r = a.v is b.v
            else:
                r = a is b
                if not r and not (isinstance(a, (Obj, Native)) or isinstance(b, (Obj, Native))):
                    raise Undecided("is")
            return K(r if isinstance(op, ast.Is) else not r)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Dct):
                r = b.find(a) is not None
            elif isinstance(b, (Tup, St)):
                r = False
                for x in b.items:
                    s = same(a, x)
                    if s is None:
                        s = self.fact("==", a, x)
                    if s:
                        r = True
                        break
            elif isinstance(b, Native):
                r = self.truth(b.contains(self, a))
            elif isinstance(b, K) and isinstance(b.v, str) and isinstance(a, K) and isinstance(a.v, str):
                r = a.v in b.v
            else:
                r = self.decide(("in", key(a), key(b)), None, "%r in %r" % (a, b))
            return K(r if isinstance(op, ast.In) else not r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = same(a, b)
            if r is None:
                r = self.fact("==", a, b)
            return K(r if isinstance(op, ast.Eq) else not r)
        if isinstance(a, K) and isinstance(b, K):
            try:
                f = {ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}
            except TypeError:
                raise Raised("TypeError")
            return K(f[type(op)])
        name = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return K(self.fact(name, a, b))

    def fact(self, op, a, b):
        if op == ">" or op == ">=":
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        v = self.hooks.fact(op, a, b)
        if v is not None:
            return v
        sym = a if isinstance(a, S) and isinstance(b, K) else b if isinstance(b, S) and isinstance(a, K) else None
        d = self.decide((op, key(a), key(b)), sym, "%r %s %r" % (a, op, b))
        if op == "==" and d and sym is not None:
            self.subst[key(sym)] = b if sym is a else a
        return d

    def e_Attribute(self, e, env):
        return self.attr(self.eval(e.value, env), e.attr)

    def attr(self, o, name):
        if isinstance(o, Ref):
            full = "%s.%s" % (o.name, name)
            full = ALIAS.get(full, full)
            mod = self.mods.get("pymatching.matching", {})
            if full in ("pymatching.Matching", "pymatching.matching.Matching") and "Matching" in mod:
                return mod["Matching"]
            r = self.hooks.ref(full)
            return r if r is not None else Ref(full)
        if isinstance(o, Obj):
            if name in o.fields:
                return o.fields[name]
            m = self.member(o, o.cls, name)
            if m is None:
                raise Undecided("attribute %s" % name)
            return m
        if isinstance(o, tuple) and o and o[0] == "class":
            m = self.member(None, o, name)
            if m is None:
                raise Undecided("class attribute %s" % name)
            return m
        if isinstance(o, Native):
            return o.attr(self, name)
        if isinstance(o, S) and name in o.attrs:
            return o.attrs[name]
        return Bound(o, name)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        if isinstance(e.slice, ast.Slice):
            if isinstance(o, Tup):
                f = lambda x: None if x is None else self.eval(x, env).v
                return type(o)(o.items[slice(f(e.slice.lower), f(e.slice.upper), f(e.slice.step))])
            if isinstance(o, (S, App)) and e.slice.step is None:
                lo = self.eval(e.slice.lower, env) if e.slice.lower is not None else K(0)
                up = self.eval(e.slice.upper, env) if e.slice.upper is not None else K(None)
                return App("slice", [o, lo, up], o.kind)
            raise Undecided("slice")
        return self.item(o, self.eval(e.slice, env))

    def item(self, o, k):
        if isinstance(o, Dct):
            v = o.get(k)
            if v is None:
                raise Raised("KeyError")
            return v
        if isinstance(o, Tup) and isinstance(k, K) and isinstance(k.v, int):
            try:
                return o.items[k.v]
            except IndexError:
                raise Raised("IndexError")
        if isinstance(o, Arr) and isinstance(k, K) and isinstance(k.v, int):
            return o.elem
        if isinstance(o, Native):
            return o.getitem(self, k)
        if isinstance(o, S) and "item" in o.methods:
            return o.methods["item"](self, [k], {})
        if isinstance(o, App) and "item" in o.methods:
            return o.methods["item"](self, [k], {})
        if isinstance(o, App) and o.fn in ("nonzero", "result") and isinstance(k, K):
            return App("item", [o, k], "ndarray" if o.fn == "nonzero" else "?")
        raise Undecided("item of %r" % (o,))

    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args = self.elements(e.args, env)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                if not isinstance(d, Dct):
                    raise Undecided("**")
                for a, b in d.d:
                    if not (isinstance(a, K) and isinstance(a.v, str)):
                        raise Undecided("** key")
                    kwargs[a.v] = b
            else:
                kwargs[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, tuple) and f and f[0] == "class":
            o = Obj(f)
            init = self.member(o, f, "__init__")
            if init is not None:
                self.call_fn(init, args, kwargs)
            return o
        if isinstance(f, Ref):
            return self.builtin(f.name, args, kwargs)
        if isinstance(f, Native):
            return f.invoke(self, args, kwargs)
        if isinstance(f, Bound):
            return self.method(f.obj, f.name, args, kwargs)
        raise Undecided("call of %r" % (f,))

    def isa(self, v, c):
        if isinstance(c, Tup):
            return any(self.isa(v, x) for x in c.items)
        if not isinstance(c, Ref):
            raise Undecided("isinstance")
        k = kind_of(v)
        if k not in ISA:
            raise Undecided("type of %r" % (v,))
        name = ALIAS.get(c.name, c.name)
        if name.startswith("numbers.") or name in ("np.number", "np.generic", "Iterable", "object"):
            table = {"numbers.Integral": {"int", "bool", "npint"}, "numbers.Real": {"int", "bool", "float", "npint", "npfloat"},
                     "numbers.Number": {"int", "bool", "float", "npint", "npfloat"}, "np.number": {"npint", "npfloat"},
                     "np.generic": {"npint", "npfloat"}}
            if name not in table:
                raise Undecided("isinstance of %s" % name)
            return k in table[name]
        if name not in set().union(*ISA.values()):
            raise Undecided("isinstance of %s" % name)
        return name in ISA[k]

    def builtin(self, name, args, kwargs):
        if name == "isinstance" and len(args) == 2:
            return K(self.isa(args[0], args[1]))
        if name == "len" and len(args) == 1:
            v = args[0]
            if isinstance(v, St) and v.fuzzy:
                raise Undecided("set of possibly equal unknowns")
            if isinstance(v, (Tup, St)):
                return K(len(v.items))
            if isinstance(v, Dct):
                return K(len(v.d))
            if isinstance(v, S) and v.length is not None:
                return v.length
            if isinstance(v, Native):
                return v.length(self)
            raise Undecided("len")
        if name in ("set", "frozenset"):
            return St(self.iterate(args[0]) if args else [])
        if name == "list" and args and isinstance(args[0], S) and args[0].kind == "list":
            return args[0]
        if name == "list":
            return Lst(self.iterate(args[0]) if args else [])
        if name == "tuple":
            return Tup(self.iterate(args[0]) if args else [])
        if name == "dict":
            d = Dct(kwargs)
            if args:
                for a, b in (args[0].d if isinstance(args[0], Dct) else [x.items for x in self.iterate(args[0])]):
                    d.put(a, b)
            return d
        if name in ("int", "float", "bool") and len(args) == 1:
            v = args[0]
            if isinstance(v, K) and v.v is not None:
                return K({"int": int, "float": float, "bool": bool}[name](v.v))
            if name == "int" and kind_of(v) in ("int", "npint"):
                return v
            if name == "float" and kind_of(v) in ("int", "npint", "float", "npfloat"):
                return v
            if name == "bool":
                return K(self.truth(v))
            return App("cast", [Ref(name), v], name)
        if name in ("str", "os.fspath"):
            return args[0] if kind_of(args[0]) == "str" else App("str", args, "str")
        if name in ("repr", "type", "format"):
            return App(name, args, "str")
        if name in ("all", "any"):
            it = self.iterate(args[0])
            r = [self.truth(x) for x in it]
            return K(all(r) if name == "all" else any(r))
        if name == "range":
            if all(isinstance(a, K) for a in args):
                return Lst([K(i) for i in range(*[a.v for a in args])])
            raise Undecided("range")
        if name == "enumerate":
            return Lst([Tup([K(i), x]) for i, x in enumerate(self.iterate(args[0]))])
        if name == "zip":
            return Lst([Tup(list(t)) for t in zip(*[self.iterate(a) for a in args])])
        if name == "sorted":
            raise Undecided("sorted")
        if name == "getattr" and isinstance(args[1], K):
            return self.attr(args[0], args[1].v)
        if name == "print":
            return K(None)
        return self.hooks.library(self, name, args, kwargs)

    def method(self, o, name, args, kwargs):
        if isinstance(o, Native):
            return o.call(self, name, args, kwargs)
        if isinstance(o, S) and name in o.methods:
            return o.methods[name](self, args, kwargs)
        if isinstance(o, App) and name in o.methods:
            return o.methods[name](self, args, kwargs)
        if isinstance(o, Dct):
            if name == "get":
                v = o.get(args[0])
                return v if v is not None else (args[1] if len(args) > 1 else K(None))
            if name == "pop":
                i = o.find(args[0])
                if i is None:
                    if len(args) > 1:
                        return args[1]
                    raise Raised("KeyError")
                return o.d.pop(i)[1]
            if name == "items":
                return Lst([Tup([a, b]) for a, b in o.d])
            if name == "keys":
                return Lst([a for a, _ in o.d])
            if name == "values":
                return Lst([b for _, b in o.d])
            if name == "copy":
                d = Dct()
                d.d = list(o.d)
                return d
            if name == "update":
                for a, b in (args[0].d if args else []):
                    o.put(a, b)
                for k, v in kwargs.items():
                    o.put(K(k), v)
                return K(None)
            if name == "setdefault":
                v = o.get(args[0])
                if v is None:
                    v = args[1] if len(args) > 1 else K(None)
                    o.put(args[0], v)
                return v
        if isinstance(o, St):
            if name == "add":
                o.add(args[0])
                return K(None)
            if name in ("union", "update"):
                r = o if name == "update" else St(o.items)
                for a in args:
                    for x in self.iterate(a):
                        r.add(x)
                return K(None) if name == "update" else r
            if name == "copy":
                return St(o.items)
        if isinstance(o, Lst):
            if name == "append":
                o.items.append(args[0])
                return K(None)
            if name == "extend":
                o.items.extend(self.iterate(args[0]))
                return K(None)
        if name == "format" and isinstance(o, K) and isinstance(o.v, str):
            return App("string", [], "str")
        if kind_of(o) in ("ndarray", "list", "csc") or isinstance(o, (Arr, App)):
            return self.hooks.array_method(self, o, name, args, kwargs)
        raise Undecided("method %s of %r" % (name, o))


def _load(t):
    import copy
    t = copy.deepcopy(t)
    t.ctx = ast.Load()
    return t


def explore(run, limit=64):
    """run(interp-decisions) for every path: yields (result, interp).  run is called with a list of decisions and returns (result, interp)."""
    todo = [[]]
    n = 0
    while todo:
        d = todo.pop()
        res, it = run(list(d))
        yield res, it
        n += 1
        if n > limit:
            raise Undecided("too many paths")
        for i in range(len(d), len(it.decisions)):
            todo.append(it.decisions[:i] + [not it.decisions[i]])
