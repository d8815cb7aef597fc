"""Scenarios for the Python layer (see pylayer.py)."""
from pyeval import App, Arr, Dct, K, Lst, Poly, Ref, S, St, Tup, Undecided, key
from pylayer import NX, RX, Csc, Graph, Syndrome, num

BIG = 1e18


def res(m, *idx):
    r = App("result", [Ref(m)])
    for i in idx:
        r = App("item", [r, K(i)])
    return r


def syms():
    return dict(n1=num("node1", "int", 0, BIG), n2=num("node2", "int", 0, BIG), w=num("weight", "float", -BIG, BIG),
                p=num("error_probability", "float", 0, 1), f=num("fault_id", "int", 0, BIG), merge=S("merge_strategy", "str"))


SCENARIOS = []


def scenario(f):
    SCENARIOS.append(f)
    return f


# ------------------------------------------------------------------ decoding
def events1(name="z"):
    return App("nonzero", [K(name), K(0)], "ndarray")


def shapes(w):
    """(syndrome, detection events): vectors with and without entries for boundary nodes, and a table."""
    return [(Syndrome("z", [5]), events1()), (Syndrome("z", [6]), events1()), (Syndrome("z", [7]), events1())]


def decoding(w, method, native, weight_kw=None, corr=True):
    m = w.matching()
    w.boundary = St([K(5), K(6)])
    for z, ev in shapes(w):
        for how in range(3 if corr else 1):
            w.g.calls = []
            c = S("enable_correlations", "bool")
            kw, want = {}, {"detection_events": ev}
            if corr:
                want["enable_correlations"] = K(False)
                if how == 1:
                    kw["enable_correlations"] = c
                    want["enable_correlations"] = c
                if how == 2 and weight_kw:
                    kw[weight_kw] = K(True)
            r = w.call(m, method, z, **kw)
            lab = "%s of a vector of length %d" % (method, z.shape[0])
            if how == 2 and weight_kw:
                w.returned(lab + " with weight", r, Tup([res(native, 0), res(native, 1)]))
            elif weight_kw:
                w.returned(lab, r, res(native, 0))
            else:
                w.returned(lab, r, res(native))
            w.one_call(lab, w.g, native, **want)


@scenario
def decode(w):
    """decode: detection events, correlation flag, prediction and weight pass through"""
    decoding(w, "decode", "decode", "return_weight")


@scenario
def decode_to_edges(w):
    """decode_to_edges_array passes events and flag and returns the extension's answer"""
    decoding(w, "decode_to_edges_array", "decode_to_edges_array")


@scenario
def decode_to_pairs(w):
    """decode_to_matched_dets_array passes events and returns the extension's answer"""
    decoding(w, "decode_to_matched_dets_array", "decode_to_matched_detection_events_array", corr=False)


@scenario
def decode_to_dict(w):
    """decode_to_matched_dets_dict passes events and returns the extension's answer"""
    decoding(w, "decode_to_matched_dets_dict", "decode_to_matched_detection_events_dict", corr=False)


@scenario
def decode_ignored_options(w):
    """decode accepts the options of earlier versions, return_weight=False is the default"""
    m = w.matching()
    r = w.call(m, "decode", Syndrome("z", [5]), num_neighbours=S("num_neighbours", "int"), return_weight=K(False))
    w.returned("decode", r, res("decode", 0))
    w.one_call("decode", w.g, "decode", detection_events=events1(), enable_correlations=K(False))


@scenario
def decode_weight_flag(w):
    """return_weight given as any bool"""
    m = w.matching()
    f = S("return_weight", "bool")
    r = w.call(m, "decode", Syndrome("z", [5]), return_weight=f)
    if w.interp.truth(f):
        w.returned("decode", r, Tup([res("decode", 0), res("decode", 1)]))
    else:
        w.returned("decode", r, res("decode", 0))


@scenario
def table(w):
    """a table of checks by rounds: entry (check, round) is detector round * number of checks + check"""
    m = w.matching()
    w.nd = K(6)
    for rows, cols in ((3, 2), (2, 3), (6, 1), (1, 6)):
        w.g.calls = []
        r = w.call(m, "decode", Syndrome("z", [rows, cols]))
        c, t = App("nonzero", [K("z"), K(0)], "ndarray"), App("nonzero", [K("z"), K(1)], "ndarray")
        p = Poly({(key(t),): rows, (key(c),): 1}, {key(c): c, key(t): t})
        w.returned("table %dx%d" % (rows, cols), r, res("decode", 0))
        w.one_call("table %dx%d" % (rows, cols), w.g, "decode", detection_events=p, enable_correlations=K(False))


@scenario
def bad_shapes(w):
    """syndromes that match neither the detectors nor the nodes are refused"""
    m = w.matching()
    w.nd = K(6)
    w.boundary = St([K(6), K(7)])
    for method in ("decode", "decode_to_edges_array", "decode_to_matched_dets_array", "decode_to_matched_dets_dict"):
        for shape in ([5], [9], [2, 2], [4, 2], [7, 1], [2, 3, 1]):
            r = w.call(m, method, Syndrome("z", shape))
            w.raised("%s of shape %s" % (method, shape), r, ("ValueError",))
    w.expect_true("nothing decoded", not w.g.calls)


@scenario
def decode_batch(w):
    """decode_batch passes the shots and every flag to the parameter of its name"""
    m = w.matching()
    b = {k: S(k, "bool") for k in ("bit_packed_shots", "bit_packed_predictions", "enable_correlations")}
    z = Syndrome("shots", [4, 5])
    r = w.call(m, "decode_batch", z, **b)
    w.returned("decode_batch", r, res("decode_batch", 0))
    w.one_call("decode_batch", w.g, "decode_batch", shots=z, **b)
    w.g.calls = []
    r = w.call(m, "decode_batch", z, return_weights=K(True))
    w.returned("decode_batch with weights", r, Tup([res("decode_batch", 0), res("decode_batch", 1)]))
    w.one_call("decode_batch with weights", w.g, "decode_batch", shots=z, **{k: K(False) for k in b})


# ------------------------------------------------------------------ edges
def adding(w, node_args, native, method):
    s = syms()
    m = w.matching()
    nodes = {a: s[v] for a, v in node_args.items()}
    pos = list(nodes.values())
    two = num("a", "int", 0, BIG)
    cases = [
        ("defaults", {}, St([]), K(1.0), K(-1), K("disallow")),
        ("everything", dict(fault_ids=s["f"], weight=s["w"], error_probability=s["p"], merge_strategy=s["merge"]), St([s["f"]]), s["w"], s["p"], s["merge"]),
        ("a set of faults", dict(fault_ids=St([two, K(3)]) if False else St([K(4), K(3)]), weight=s["w"]), St([K(3), K(4)]), s["w"], K(-1), K("disallow")),
        ("an empty set", dict(fault_ids=St([])), St([]), K(1.0), K(-1), K("disallow")),
        ("fault -1", dict(fault_ids=K(-1)), St([]), K(1.0), K(-1), K("disallow")),
        ("fault 0", dict(fault_ids=K(0)), St([K(0)]), K(1.0), K(-1), K("disallow")),
        ("a numpy fault", dict(fault_ids=num("npfault", "npint", 0, BIG)), St([num("npfault", "npint", 0, BIG)]), K(1.0), K(-1), K("disallow")),
        ("probability 0", dict(error_probability=K(0.0), weight=K(0.0)), St([]), K(0.0), K(0.0), K("disallow")),
        ("a probability", dict(error_probability=s["p"]), St([]), K(1.0), s["p"], K("disallow")),
    ]
    for lab, kw, f, wt, p, mg in cases:
        w.g.calls = []
        r = w.call(m, method, *pos, **kw)
        w.returned("%s (%s)" % (method, lab), r, K(None))
        w.one_call("%s (%s)" % (method, lab), w.g, native, observables=f, weight=wt, error_probability=p, merge_strategy=mg, **nodes)
    # positional
    w.g.calls = []
    r = w.call(m, method, *(pos + [s["f"], s["w"], s["p"]]))
    w.returned("%s (by position)" % method, r, K(None))
    w.one_call("%s (by position)" % method, w.g, native, observables=St([s["f"]]), weight=s["w"], error_probability=s["p"],
               merge_strategy=K("disallow"), **nodes)


@scenario
def add_edge(w):
    """add_edge: nodes, fault ids, weight, probability and merge strategy arrive as given; documented defaults"""
    adding(w, dict(node1="n1", node2="n2"), "add_edge", "add_edge")


@scenario
def add_boundary_edge(w):
    """add_boundary_edge, likewise"""
    adding(w, dict(node="n1"), "add_boundary_edge", "add_boundary_edge")


@scenario
def add_edge_renamed(w):
    """the old name qubit_id still works, and is refused next to fault_ids"""
    s = syms()
    m = w.matching()
    r = w.call(m, "add_edge", s["n1"], s["n2"], qubit_id=s["f"])
    w.returned("add_edge", r, K(None))
    w.one_call("add_edge", w.g, "add_edge", node1=s["n1"], node2=s["n2"], observables=St([s["f"]]), weight=K(1.0), error_probability=K(-1),
               merge_strategy=K("disallow"))
    w.g.calls = []
    r = w.call(m, "add_edge", s["n1"], s["n2"], fault_ids=K(1), qubit_id=K(1))
    w.raised("both names", r, ("ValueError",))
    w.expect_true("nothing added", not w.g.calls)


@scenario
def queries(w):
    """edge queries, counts, boundary and noise answer what the extension answers"""
    s = syms()
    m = w.matching()
    w.boundary = St([K(5), K(6)])
    for method, native, kw in (
            ("has_edge", "has_edge", dict(node1=s["n1"], node2=s["n2"])), ("has_boundary_edge", "has_boundary_edge", dict(node=s["n1"])),
            ("get_edge_data", "get_edge_data", dict(node1=s["n1"], node2=s["n2"])),
            ("get_boundary_edge_data", "get_boundary_edge_data", dict(node=s["n1"])), ("edges", "get_edges", {})):
        w.g.calls = []
        r = w.call(m, method, *kw.values())
        w.returned(method, r, res(native))
        w.one_call(method, w.g, native, **kw)
    w.returned("num_detectors", w.prop(m, "num_detectors"), K(5))
    w.returned("num_nodes", w.prop(m, "num_nodes"), K(7))
    w.returned("num_edges", w.prop(m, "num_edges"), w.ne)
    w.returned("num_fault_ids", w.prop(m, "num_fault_ids"), w.no)
    w.returned("boundary", w.prop(m, "boundary"), St([K(5), K(6)]))


@scenario
def settings(w):
    """boundary nodes and the number of fault ids are set as given"""
    m = w.matching()
    b, n = S("nodes", "set"), num("min_num_fault_ids", "int", 0, BIG)
    w.returned("set_boundary_nodes", w.call(m, "set_boundary_nodes", b), K(None))
    w.one_call("set_boundary_nodes", w.g, "set_boundary", boundary=b)
    w.g.calls = []
    w.returned("ensure_num_fault_ids", w.call(m, "ensure_num_fault_ids", n), K(None))
    w.one_call("ensure_num_fault_ids", w.g, "set_min_num_observables", num_observables=n)


@scenario
def fault_ids_raised(w):
    """ensure_num_fault_ids with more fault ids than there are reaches the graph, also when there are none"""
    m = w.matching()
    for have, want in ((0, 1), (2, 3), (2, 9), (64, 65)):
        w.no = K(have)
        w.g.calls = []
        lab = "ensure_num_fault_ids(%d) on a graph with %d" % (want, have)
        w.returned(lab, w.call(m, "ensure_num_fault_ids", K(want)), K(None))
        w.one_call(lab, w.g, "set_min_num_observables", num_observables=K(want))


@scenario
def noise(w):
    """add_noise: None exactly when some probability is unknown"""
    m = w.matching()
    w.allp = K(True)
    w.returned("add_noise", w.call(m, "add_noise"), res("add_noise"))
    w.allp = K(False)
    w.returned("add_noise without probabilities", w.call(m, "add_noise"), K(None))


# ------------------------------------------------------------------ check matrices
def matrix(kind="ndarray", name="H"):
    return S(name, kind, attrs={"shape": Tup([K(3), K(7)])})


def load(w, entry, args, kw):
    """Calls an entry point; the arguments of the extension's loader, and the resulting object."""
    w.matching()
    cls = w.cls()
    w.loaded = []
    if entry == "load":
        m = w.matching()
        r = w.call(m, "load_from_check_matrix", *args, **kw)
    elif entry == "from":
        r = w.call(cls, "from_check_matrix", *args, **kw)
        m = r[1]
    else:
        r = w.call(cls, None, *args, **kw)
        m = r[1]
    return r, m


def check_loaded(w, lab, r, m, origin, weights, probs, merge="smallest-weight", virtual=K(False), reps=K(1), tw=None, pm=None, faults=None):
    if r[0] == "raise":
        w.expect_true(lab, False, "raises %s" % r[1])
        return
    c = [x for x in w.loaded if x[0] == "sparse_column_check_matrix_to_matching_graph"]
    if len(w.loaded) != 1 or len(c) != 1:
        w.expect_true(lab, False, "loads %s" % [x[0] for x in w.loaded])
        return
    a = c[0][1]
    w.expect(lab + ": the object holds the loaded graph", w.graph_of(m), c[0][2])
    h = a["check_matrix"]
    w.expect(lab + ": check matrix without explicit zeros", h, Csc(origin, True))
    w.expect(lab + ": weights", a["weights"], weights)
    w.expect(lab + ": probabilities", a["error_probabilities"], probs)
    w.expect(lab + ": merge strategy", a["merge_strategy"], K(merge) if isinstance(merge, str) else merge)
    w.expect(lab + ": virtual boundary", a["use_virtual_boundary_node"], virtual)
    w.expect(lab + ": repetitions", a["num_repetitions"], reps)
    if tw is not None:
        w.expect(lab + ": time-like weights", a["timelike_weights"], tw)
        w.expect(lab + ": measurement probabilities", a["measurement_error_probabilities"], pm)
    f = a["faults_matrix"]
    if faults is None:
        w.expect(lab + ": faults matrix", f, K(None))
    elif isinstance(f, Csc):
        w.expect(lab + ": faults matrix", f.origin, faults)
    else:
        w.expect(lab + ": faults matrix", f, faults)


ONES, UNKNOWN = Arr(K(7), K(1.0)), Arr(K(7), K(-1))


def three(w, entry):
    kinds = ("ndarray", "list", "spmatrix") if entry != "load" else ("ndarray",)
    for k in kinds:
        h = matrix(k)
        r, m = load(w, entry, [h], {})
        check_loaded(w, "%s, %s" % (entry, k), r, m, h, ONES, UNKNOWN)
    h = matrix()
    c = Csc(h)
    r, m = load(w, entry, [c], {})
    check_loaded(w, entry + ", csc_matrix", r, m, h, ONES, UNKNOWN)
    wt, p = num("weight", "float", -BIG, BIG), num("prob", "float", 0, 1)
    r, m = load(w, entry, [h], dict(weights=wt, error_probabilities=p))
    check_loaded(w, entry + ", scalars", r, m, h, Arr(K(7), wt), Arr(K(7), p))
    r, m = load(w, entry, [h], dict(weights=K(0), error_probabilities=K(0)))
    check_loaded(w, entry + ", zeros", r, m, h, Arr(K(7), K(0)), Arr(K(7), K(0)))
    nw = num("npweight", "npfloat", -BIG, BIG)
    r, m = load(w, entry, [h, nw], {})
    check_loaded(w, entry + ", numpy weight", r, m, h, Arr(K(7), nw), UNKNOWN)
    ws, ps = S("weights", "ndarray"), S("probs", "ndarray")
    r, m = load(w, entry, [h, ws, ps], {})
    check_loaded(w, entry + ", arrays", r, m, h, ws, ps)
    wl, pl = S("weights", "list"), S("probs", "list")
    r, m = load(w, entry, [h], dict(weights=wl, error_probabilities=pl))
    check_loaded(w, entry + ", lists", r, m, h, wl, pl)
    r, m = load(w, entry, [h], dict(spacelike_weights=wt))
    check_loaded(w, entry + ", old name of weights", r, m, h, Arr(K(7), wt), UNKNOWN)
    r, m = load(w, entry, [h], dict(weights=wt, spacelike_weights=wt))
    w.raised(entry + ", both names of weights", r, ("ValueError",))


@scenario
def matrix_load(w):
    """load_from_check_matrix: matrix, weights and probabilities arrive as given or spread over the columns"""
    three(w, "load")


@scenario
def matrix_from(w):
    """from_check_matrix, likewise"""
    three(w, "from")


@scenario
def matrix_init(w):
    """Matching(check matrix), likewise"""
    three(w, "init")


def options(w, entry):
    h, f = matrix(), matrix("ndarray", "F")
    mg, v = S("merge_strategy", "str"), S("use_virtual_boundary_node", "bool")
    r, m = load(w, entry, [h], dict(faults_matrix=f, merge_strategy=mg, use_virtual_boundary_node=v))
    check_loaded(w, entry + ", options", r, m, h, ONES, UNKNOWN, merge=mg, virtual=v, faults=f)
    r, m = load(w, entry, [h], dict(repetitions=K(1), timelike_weights=K(2.0)))
    check_loaded(w, entry + ", one repetition", r, m, h, ONES, UNKNOWN)


@scenario
def matrix_options_load(w):
    """faults matrix, merge strategy and virtual boundary reach the loader"""
    options(w, "load")


@scenario
def matrix_options_from(w):
    """... through from_check_matrix"""
    options(w, "from")


@scenario
def matrix_options_init(w):
    """... through the constructor"""
    options(w, "init")


def repeated(w, entry):
    h = matrix()
    rows = K(3)
    t, p = num("timelike", "float", -BIG, BIG), num("p_meas", "float", 0, 1)
    for lab, kw, tw, pm in (
            ("defaults", {}, Arr(rows, K(1.0)), Arr(rows, K(-1))),
            ("scalars", dict(timelike_weights=t, measurement_error_probabilities=p), Arr(rows, t), Arr(rows, p)),
            ("zeros", dict(timelike_weights=K(0), measurement_error_probabilities=K(0)), Arr(rows, K(0)), Arr(rows, K(0))),
            ("arrays", dict(timelike_weights=S("T", "ndarray"), measurement_error_probabilities=S("P", "ndarray")), S("T", "ndarray"), S("P", "ndarray")),
            ("lists", dict(timelike_weights=S("T", "list"), measurement_error_probabilities=S("P", "list")), S("T", "ndarray"), S("P", "ndarray")),
            ("old name", dict(measurement_error_probability=p), Arr(rows, K(1.0)), Arr(rows, p))):
        r, m = load(w, entry, [h], dict(repetitions=K(2), **kw))
        check_loaded(w, "%s, two repetitions, %s" % (entry, lab), r, m, h, ONES, UNKNOWN, reps=K(2), tw=tw, pm=pm)
    wt, q = num("weight", "float", -BIG, BIG), num("prob", "float", 0, 1)
    r, m = load(w, entry, [h], dict(repetitions=K(3), weights=wt, error_probabilities=q))
    check_loaded(w, "%s, three repetitions, no time-like values" % entry, r, m, h, Arr(K(7), wt), Arr(K(7), q), reps=K(3), tw=Arr(rows, K(1.0)),
                 pm=Arr(rows, K(-1)))
    r, m = load(w, entry, [h], dict(repetitions=K(2), measurement_error_probabilities=p, measurement_error_probability=p))
    w.raised(entry + ", both names of measurement probabilities", r, ("ValueError",))
    r, m = load(w, entry, [h], dict(repetitions=K(2), timelike_weights=S("x", "str")))
    w.raised(entry + ", time-like weights of a wrong type", r, ("ValueError", "TypeError"))
    r, m = load(w, entry, [h], dict(repetitions=K(2), measurement_error_probabilities=S("x", "str")))
    w.raised(entry + ", measurement probabilities of a wrong type", r, ("ValueError", "TypeError"))


@scenario
def matrix_repeated_load(w):
    """repetitions, time-like weights and measurement probabilities reach the loader"""
    repeated(w, "load")


@scenario
def matrix_repeated_from(w):
    """... through from_check_matrix"""
    repeated(w, "from")


@scenario
def matrix_repeated_init(w):
    """... through the constructor"""
    repeated(w, "init")


@scenario
def matrix_by_position(w):
    """the loader's positional order: weights, probabilities, repetitions, time-like weights, measurement probabilities"""
    h = matrix()
    t, p, wt, q = (num(x, "float", 0, 1) for x in ("timelike", "p_meas", "weight", "prob"))
    for e in ("load", "from", "init"):
        r, m = load(w, e, [h, wt, q, K(2), t, p], {})
        check_loaded(w, e + ", by position", r, m, h, Arr(K(7), wt), Arr(K(7), q), reps=K(2), tw=Arr(K(3), t), pm=Arr(K(3), p))


@scenario
def matrix_old_name(w):
    """the check matrix under its old name, and none at all"""
    h = matrix()
    for e in ("load", "init"):
        r, m = load(w, e, [], dict(H=h))
        check_loaded(w, e + ", H", r, m, h, ONES, UNKNOWN)
    r, m = load(w, "load", [], {})
    w.raised("no matrix", r, ("ValueError",))
    for e in ("load", "from", "init"):
        r, m = load(w, e, [S("x", "other")], {})
        w.raised(e + " of something else", r, ("TypeError",))


@scenario
def empty(w):
    """Matching() is an empty graph"""
    cls = w.cls()
    w.graphs = []
    r = w.call(cls, None)
    if r[0] == "raise":
        w.expect_true("Matching()", False, r[1])
        return
    g = w.graph_of(r[1])
    w.expect_true("Matching()", isinstance(g, Graph) and not g.calls and not w.loaded)
    w.expect("no nodes", Tup(g.args), Tup([K(0), K(0)]))


# ------------------------------------------------------------------ models and circuits
def circuit():
    c = S("circuit", "circuit")

    def dem(it, args, kwargs):
        if args or set(kwargs) - {"decompose_errors"}:
            raise Undecided("detector_error_model options")
        return App("dem_of_circuit", [c, kwargs.get("decompose_errors", K(False))], "dem")
    c.methods["detector_error_model"] = dem
    return c


def model_loaded(w, lab, r, m, native, par, val, corr):
    if r[0] == "raise":
        w.expect_true(lab, False, "raises %s" % r[1])
        return
    if [x[0] for x in w.loaded] != [native]:
        w.expect_true(lab, False, "loads %s" % [x[0] for x in w.loaded])
        return
    w.arguments(lab, w.loaded[0][1], {par: val, "enable_correlations": corr})
    w.expect(lab + ": the object holds the loaded graph", w.graph_of(m), w.loaded[0][2])


def model_cases(w, entry, make, native, par, val):
    cls = w.cls()
    c = S("enable_correlations", "bool")
    for kw, want in (({}, K(False)), (dict(enable_correlations=c), c), (dict(enable_correlations=K(True)), K(True))):
        w.loaded = []
        r = w.call(cls, entry, make(), **kw)
        model_loaded(w, entry or "Matching(model)", r, r[1], native, par, val, want)


@scenario
def model(w):
    """a detector error model is handed over as its text, with the correlation flag"""
    d = S("dem", "dem")
    for e in ("from_detector_error_model", None):
        model_cases(w, e, lambda: d, "detector_error_model_to_matching_graph", "dem_string", App("str", [d]))


@scenario
def stim_circuit(w):
    """a circuit is loaded as its decomposed detector error model, with the correlation flag"""
    d = App("str", [App("dem_of_circuit", [circuit(), K(True)])])
    for e in ("from_stim_circuit", None):
        model_cases(w, e, circuit, "detector_error_model_to_matching_graph", "dem_string", d)


@scenario
def files(w):
    """model and circuit files are opened under the given path, str or Path, with the correlation flag"""
    for e, native, par in (("from_detector_error_model_file", "detector_error_model_file_to_matching_graph", "dem_path"),
                           ("from_stim_circuit_file", "stim_circuit_file_to_matching_graph", "stim_circuit_path")):
        s, p = S("file", "str"), S("file", "path")
        model_cases(w, e, lambda: s, native, par, s)
        model_cases(w, e, lambda: p, native, par, App("str", [p]))


@scenario
def model_types(w):
    """something that is not a model or circuit is refused with TypeError, also without stim"""
    cls = w.cls()
    for e, x in (("from_detector_error_model", circuit()), ("from_detector_error_model", S("x", "other")),
                 ("from_stim_circuit", S("dem", "dem")), ("from_stim_circuit", S("x", "other"))):
        w.raised("%s of a wrong type" % e, w.call(cls, e, x), ("TypeError",))
    w.modules -= {"stim", "rustworkx"}
    for e in ("from_detector_error_model", "from_stim_circuit"):
        w.raised("%s without stim" % e, w.call(cls, e, S("x", "other")), ("TypeError",))
    w.expect_true("nothing loaded", not w.loaded)
    h = matrix()
    r, m = load(w, "init", [h], {})
    check_loaded(w, "check matrix without stim and rustworkx", r, m, h, ONES, UNKNOWN)


# ------------------------------------------------------------------ networkx / rustworkx
def attrs():
    s = syms()
    return s, [
        ("everything", Dct(dict(fault_ids=s["f"], weight=s["w"], error_probability=s["p"])), St([s["f"]]), s["w"], s["p"]),
        ("nothing", Dct({}), St([]), K(1), K(-1)),
        ("a set", Dct(dict(fault_ids=St([K(1), K(2)]), weight=s["w"])), St([K(1), K(2)]), s["w"], K(-1)),
        ("a list", Dct(dict(fault_ids=Lst([K(1), K(2)]))), St([K(1), K(2)]), K(1), K(-1)),
        ("-1", Dct(dict(fault_ids=K(-1), weight=K(0), error_probability=K(0))), St([]), K(0), K(0)),
        ("old name", Dct(dict(qubit_id=K(3))), St([K(3)]), K(1), K(-1)),
        ("old name, set", Dct(dict(qubit_id=St([K(0)]))), St([K(0)]), K(1), K(-1)),
    ]


def graph_loading(w, build, entries):
    s, cases = attrs()
    nf = num("min_num_fault_ids", "int", 0, BIG)
    for entry in entries:
        for mn in (None, nf):
            if entry == "init" and mn is not None:
                continue
            edges = [(i, i + 1, c[1]) for i, c in enumerate(cases)]
            edges[1] = (2, 1, edges[1][2])
            nodes = [(i, Dct({})) for i in range(len(cases) + 1)]
            nodes[3] = (3, Dct({"is_boundary": K(True)}))
            nodes[5] = (5, Dct({"is_boundary": K(False)}))
            nodes[7] = (7, Dct({"is_boundary": K(True)}))
            G = build(nodes, edges)
            kw = {} if mn is None else {"min_num_fault_ids": mn}
            if entry == "init":
                cls = w.cls()
                w.graphs = []
                r = w.call(cls, None, G)
                m = r[1]
            elif entry.startswith("from"):
                cls = w.cls()
                w.graphs = []
                r = w.call(cls, entry, G, **kw)
                m = r[1]
            else:
                m = w.matching()
                w.graphs = []
                r = w.call(m, entry, G, **kw)
            if r[0] == "raise":
                w.expect_true(entry, False, "raises %s" % r[1])
                continue
            g = w.graph_of(m)
            if g not in w.graphs:
                w.expect_true(entry, False, "the object does not hold the loaded graph")
                continue
            w.expect(entry + ": number of nodes", g.args[0], K(len(nodes)))
            least = g.args[1]
            sets = [a for n, a in g.calls if n == "set_boundary"]
            for n, a in g.calls:
                if n == "set_min_num_observables":
                    if mn is None:
                        raise Undecided("set_min_num_observables")
                    least = a["num_observables"]
            w.expect(entry + ": fault ids", least, K(0) if mn is None else mn)
            if len(sets) != 1:
                w.expect_true(entry + ": boundary", False, "%d boundaries set" % len(sets))
            else:
                w.expect(entry + ": boundary", sets[0]["boundary"], St([K(3), K(7)]))
            added = [a for n, a in g.calls if n == "add_edge"]
            w.expect_true(entry + ": number of edges", len(added) == len(cases), "%d edges added" % len(added))
            for a, (u, v, _), (lab, _, f, wt, p) in zip(added, edges, cases):
                lab = "%s, edge with %s" % (entry, lab)
                w.expect(lab + ": ends", St([a["node1"], a["node2"]]), St([K(u), K(v)]))
                w.expect(lab + ": fault ids", a["observables"], f)
                w.expect(lab + ": weight", a["weight"], wt)
                w.expect(lab + ": probability", a["error_probability"], p)
                w.expect(lab + ": parallel edges keep the smallest weight", a["merge_strategy"], K("smallest-weight"))


def graph_refusals(w, build, entry):
    for lab, d, kinds in (("both names", Dct(dict(fault_ids=K(1), qubit_id=K(1))), ("ValueError",)),
                          ("a float", Dct(dict(fault_ids=K(1.5))), ("TypeError",)), ("a list of floats", Dct(dict(fault_ids=Lst([K(1), K(1.5)]))), ("TypeError",))):
        m = w.matching()
        r = w.call(m, entry, build([(0, Dct({})), (1, Dct({}))], [(0, 1, d)]))
        w.raised("%s, fault ids: %s" % (entry, lab), r, kinds)
        w.expect("%s, fault ids: %s: the old graph stays" % (entry, lab), w.graph_of(m), w.g)
    m = w.matching()
    w.raised(entry + " of something else", w.call(m, entry, S("x", "other")), ("TypeError",))


def rx(nodes, edges):
    return RX([d for _, d in nodes], edges)


@scenario
def networkx_load(w):
    """a networkx graph is loaded with every edge, weight, probability, fault id and boundary mark"""
    graph_loading(w, NX, ["load_from_networkx", "from_networkx", "init"])


@scenario
def networkx_refused(w):
    """attributes that make no sense are refused"""
    graph_refusals(w, NX, "load_from_networkx")


@scenario
def rustworkx_load(w):
    """a rustworkx graph is loaded with every edge, weight, probability, fault id and boundary mark"""
    graph_loading(w, rx, ["load_from_rustworkx", "load_from_retworkx", "init"])


@scenario
def rustworkx_refused(w):
    """attributes that make no sense are refused"""
    graph_refusals(w, rx, "load_from_rustworkx")


def data(n):
    return Dct({"fault_ids": S("faults%d" % n, "set"), "weight": S("weight%d" % n, "float"), "error_probability": S("p%d" % n, "float")})


def copy(d):
    n = Dct()
    n.d = list(d.d)
    return n


def export(w, virtual, boundary, method):
    m = w.matching()
    w.nd = K(4 - len(boundary))
    w.boundary = St([K(b) for b in boundary])
    w.edges = [(K(1), K(0), data(0)), (K(3), K(2), data(1)), (K(0), K(2), data(2))] + ([(K(1), K(None), data(3)), (K(2), K(None), data(4))] if virtual else [])
    w.edges = [(u, v, copy(d)) for u, v, d in w.edges]
    want = [(u, K(4) if v.v is None else v, copy(d)) for u, v, d in w.edges]
    r = w.call(m, method)
    lab = method + (", with a virtual boundary" if virtual else "")
    if r[0] == "raise":
        w.expect_true(lab, False, "raises %s" % r[1])
        return
    G = r[1]
    if not isinstance(G, (NX, RX)):
        raise Undecided(lab)
    flags = {}
    if isinstance(G, NX):
        for n, d in G.nodes:
            flags[n.v] = d
    else:
        for i, d in enumerate(G.nodes):
            flags[i] = d
    w.expect(lab + ": nodes", St([K(n) for n in flags]), St([K(n) for n in range(5 if virtual else 4)]))
    for n, d in sorted(flags.items()):
        b = d.get(K("is_boundary"))
        w.expect("%s: boundary mark of node %d" % (lab, n), b if b is not None else K(False), K(n == 4 or n in boundary))
    w.expect(lab + ": edges", St([Tup([St([u, v]), d]) for u, v, d in G.edges]), St([Tup([St([u, v]), d]) for u, v, d in want]))


@scenario
def to_networkx(w):
    """export to networkx: every edge with its data, boundary marks, one node for the virtual boundary"""
    for virtual in (False, True):
        for b in ((), (3,), (0, 3)):
            export(w, virtual, b, "to_networkx")


@scenario
def to_rustworkx(w):
    """export to rustworkx, likewise"""
    for virtual in (False, True):
        for b in ((), (3,), (0, 3)):
            export(w, virtual, b, "to_rustworkx")


@scenario
def to_retworkx(w):
    """... under its old name"""
    export(w, True, (3,), "to_retworkx")


@scenario
def networks_without_rustworkx(w):
    """without rustworkx its methods say so"""
    m = w.matching()
    w.modules -= {"rustworkx"}
    w.raised("load_from_rustworkx", w.call(m, "load_from_rustworkx", S("x", "other")), ("ImportError",))
    w.raised("to_rustworkx", w.call(m, "to_rustworkx"), ("ImportError",))


# ------------------------------------------------------------------ command line
@scenario
def command_line(w):
    """the command line tool runs on the arguments after the program name and reports the run's exit status"""
    env = w.interp.mods["pymatching._cli_argv"]
    if "cli_argv" not in env:
        raise Undecided("cli_argv")
    r = w.call(env["cli_argv"], None)
    if [x[0] for x in w.loaded] != ["main"]:
        w.expect_true("the command line tool runs once", False, repr(r))
        return
    w.expect("arguments", w.loaded[0][1]["command_line_args"], App("slice", [w.argv, K(1), K(None)]))
    code = getattr(w, "exit", None)
    if code is not None:
        w.expect("exit status", code, res("main"))
    else:
        w.returned("exit status", r, res("main"))


@scenario
def exports(w):
    """the package offers the command line entry and the random generator of the extension, and Matching"""
    env = w.interp.mods["pymatching"]
    for n, f in (("cli", "main"), ("randomize", "randomize"), ("set_seed", "set_seed"), ("rand_float", "rand_float")):
        v = env.get(n)
        if not isinstance(v, Ref):
            raise Undecided(n)
        w.expect_true("pymatching." + n, v.name == "pymatching._cpp_pymatching." + f, v.name)
    v = env.get("Matching")
    w.expect_true("pymatching.Matching", v is not None)
