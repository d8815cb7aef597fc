# Further properties (executed by registry.py).
prop("R07", "A finished or aborted decode leaves no residue for the next one",
     "After the matching has been extracted, and after a reset, every detector, region, tree and queue entry the decoding touched is back in the pristine state, and all "
     "memory taken by regions and tree nodes is available again. This holds for every shape of final matching, including nested blossoms and matches to the boundary, so the result of a decoding never depends on "
     "the decodings before it.",
     ["histories"], "matched pairs, boundary matches, 3- and 5-blossoms at any matched member, blossom-blossom matches, nested blossoms; any radii, paths, clocks",
     "tests decode a few syndromes and compare results, not the state left behind; residue only shows in particular later decodings",
     ["matcher/mwpm.cc", "flooder/graph_fill_region.cc", "flooder/detector_node.cc", "search/search_detector_node.cc"],
     [("clean-up while extracting matches", SB + "matcher/mwpm.cc"), ("reset of nodes, arenas and queues", SB + "matcher/mwpm.cc")])
prop("R08", "Extracted matches carry the full weight and observable parity of the matching",
     "The weight and observables reported for a matched pair of regions are the sum of all radii grown inside it and the parity of every path used, at every nesting of blossoms, and the list of matched "
     "detection events pairs each one exactly once with the path joining it to its partner or the boundary. Weight and parity combine additively and by exclusive-or over the matches.",
     ["inputs", "histories"], "matched pairs, boundary matches, 3- and 5-blossoms with every choice of matched member, blossom-blossom matches, nested blossoms; any radii, paths and masks",
     "tests use single fixed shapes with mostly equal masks and radii, so swapped or dropped terms cancel",
     ["matcher/mwpm.cc", "flooder/graph_fill_region.cc"],
     [("recursive extraction of value and of match edges", SB + "matcher/mwpm.cc"), ("result algebra", SB + "matcher/mwpm.cc")])
prop("R09", "The decoder's graph holds exactly the edges given, negative weights included",
     "Every edge added to the decoding graph appears at both its ends with the given magnitude and observables, a boundary edge comes first at its node, and self-loops never enter. A negative edge "
     "flips the detection events at its ends and its observables and contributes its weight to the constant offset, with repeated flips cancelling. Edges to nodes outside the graph and second boundary edges are rejected "
     "without changing anything, and moving a graph or decoder into place keeps all of its contents.",
     ["inputs", "histories"], "any 32-bit weights, node indices and observables; any order of plain and boundary edges; any contents when moved",
     "tests add a handful of edges and never inspect the state after a rejected edge or a move",
     ["flooder/graph.cc", "flooder/graph_flooder.cc", "search/search_graph.cc", "search/search_flooder.cc", "matcher/mwpm.cc"],
     [("edge insertion and negative-weight bookkeeping", SB + "flooder/graph.cc"), ("move constructors", SB + "flooder/graph_flooder.cc")])
prop("R14", "Pooled memory is handed out once, constructed, and freed exactly once",
     "An object taken from a pool is never handed out again before it is returned, a returned object is reused, and every object is constructed when taken and destroyed exactly once, whether it was returned or still in use when the "
     "pool ends. All memory of a pool is freed exactly once, also after the pool was moved.",
     ["histories"], "sequences of up to four takes and returns in any order, then end of the pool or a move",
     "tests cannot see a double hand-out or a missing destruction unless the particular history corrupts a result",
     ["arena.h"],
     [("free list and bulk release", SB + "arena.h")])
prop("R10", "Path search is exact at every step and traces the true connecting path",
     "The search for a path between two detectors, or from a detector to the boundary, records exact distances, never lets an obsolete candidate overwrite a better one, and meets at the correct total. The edges reported "
     "for a path form a chain from one end to the other with exactly the weights and observables of the graph, in order from the first end where order is promised, and the search leaves no residue behind.",
     ["inputs", "histories"], "any weights, clocks and scheduled times; one to three neighbours with every mix of reached, unreached and boundary neighbours; traced paths of up to five edges meeting anywhere",
     "tests run a few chains where all alternatives agree; residue and obsolete candidates matter only for particular weights and later searches",
     ["search/search_flooder.cc", "search/search_graph.cc", "search/search_detector_node.cc", "matcher/mwpm.cc"],
     [("search events and collision", SB + "search/search_flooder.cc"), ("path tracing", SB + "search/search_flooder.cc"), ("paths of matched pairs", SB + "matcher/mwpm.cc")])
prop("R11", "Correlated reweighting is applied and undone exactly",
     "Using an edge in the first pass of correlated decoding lowers exactly the edges it implies, at both of their ends and in both graphs, never raises a weight, and keeps every weight even. Undoing the reweighting restores every weight to its "
     "original value, also when an edge was lowered several times, and correlated decoding on a graph without correlations is refused.",
     ["inputs", "histories"], "any weights and implied weights, implied edges with one or two ends, boundary edges, edges lowered repeatedly by several used edges",
     "tests check final results on a few models; a weight left changed or lowered at one end only shows in particular later decodings",
     ["flooder/graph.cc", "search/search_graph.cc", "flooder/graph.h"],
     [("applying and logging reweights", SB + "flooder/graph.cc"), ("undoing reweights", SB + "flooder/graph.cc")])
DR = "src/pymatching/sparse_blossom/driver/"
prop("R12", "The user graph keeps every edge; parallel edges follow the chosen strategy",
     "An edge added to the user's graph is recorded once with the given weight, observables and error probability, is visible from both of its ends, and is included in the counts of nodes and observables. "
     "A parallel edge is rejected without any change, ignored, takes over completely, takes over only if lighter, or is combined as an independent error mechanism, exactly as the chosen merge strategy says, in whichever direction it is "
     "given. Whether every edge has a known error probability is remembered correctly.",
     ["inputs", "histories"], "any weights, probabilities, observables; boundary and plain edges in both directions; every merge strategy",
     "the repository's built tests do not reach this layer; the Python tests use a few values per strategy",
     ["driver/user_graph.cc", "driver/user_graph.h"],
     [("edge insertion and merging", DR + "user_graph.cc")])
prop("R13", "Every decode call reads the syndrome alike and returns every match",
     "Each form of decoding creates exactly one detection event per odd detector (detectors on the boundary ignored, ends of negative edges toggled), runs the matching to its end, and returns the weight and observables, "
     "matched pairs or edges of every match once, plus the constant contribution of negative edges. A syndrome with a detector outside the graph, or without a perfect matching, is rejected, and the decoder stays clean for the next syndrome. "
     "Correlated decoding reweights for exactly the edges of the first pass and undoes it after the second, and bit-packed and array forms of observables agree at every position.",
     ["inputs", "histories"], "any detectors, matched values, offsets and masks, with the matching engine replaced by an arbitrary scripted result; up to 64 and more observables; with and without negative edges, search graph and correlations",
     "the repository's built tests do not reach this layer; residue after a rejected syndrome and cancelling negative edges need particular sequences",
     ["driver/mwpm_decoding.cc", "driver/mwpm_decoding.h"],
     [("decode entry points", DR + "mwpm_decoding.cc"), ("mask and bit array conversion", DR + "mwpm_decoding.cc")])
prop("R15", "The decoder belongs to the current graph and its weights share one scale",
     "Every edge of the user's graph arrives in both decoder graphs with the same observables and the same even integer weight, obtained from one common scale that keeps integer weights exact and otherwise uses the full range. "
     "Edges to boundary nodes become boundary edges, the lightest parallel one is used, edges inside the boundary vanish, and weights that cannot be represented are rejected. Any change of the graph or of its boundary, "
     "or asking for more than was built before, makes the next decoding use a newly built decoder.",
     ["inputs", "histories"], "any finite weights of either sign, any observables, boundary given as virtual or as nodes, in either order; implied weights; every way of changing the graph",
     "the repository's built tests do not reach this layer; a stale decoder shows only when a graph is changed after decoding",
     ["driver/user_graph.cc", "driver/user_graph.h"],
     [("conversion to decoder graphs", DR + "user_graph.h"), ("cached decoder", DR + "user_graph.cc")])
prop("R16", "Sampled noise flips exactly the failing edges and is reproducible from the seed",
     "Sampling noise draws one number per edge, and an edge that fails flips its detectors and its observables, added to what the arrays hold, while boundary nodes always end with no syndrome. Nothing is sampled unless every edge has a known "
     "error probability. All draws come from one generator, so the same seed reproduces the same numbers whatever was drawn before, and unseeded runs take their seed from the system.",
     ["inputs", "histories"], "any probabilities and random draws, any array contents, shared detectors and observables, virtual and user boundary nodes; any seed",
     "the repository's built tests do not reach this layer; a statistical test cannot tell which edge flipped what",
     ["driver/user_graph.cc", "src/pymatching/rand/rand_gen.cc"],
     [("noise sampling", DR + "user_graph.cc"), ("shared generator", "src/pymatching/rand/rand_gen.cc")])
prop("R17", "Every error of an error model becomes an edge, and correlations are exact",
     "Each component of each error instruction becomes an edge with its own detectors and observables and the weight of the instruction's probability; impossible and undetectable errors are left out and repeated errors on the same detectors combine as independent mechanisms. "
     "With correlations, each edge carries for every edge it occurs together with in one error the weight of that edge's conditional probability, capped at one half, and is otherwise the same graph. Errors more likely than not, with more than two "
     "detectors in a component, or with an undetectable component, are rejected when correlations are requested.",
     ["inputs"], "any probabilities, detectors and observables; one to three components in every order; weights and conditional probabilities at fixed values",
     "the repository's built tests do not reach this layer; the full tests compare mistakes on a few models",
     ["driver/user_graph.h", "driver/user_graph.cc", "driver/mwpm_decoding.cc"],
     [("reading error instructions", DR + "user_graph.h"), ("joint and conditional probabilities", DR + "user_graph.cc")])
BN = DR + "user_graph.pybind.cc"
prop("R18", "Decoding from Python returns exactly what the decoder produced, shot by shot",
     "Each decoding function offered to Python passes exactly the given detection events to the decoder and returns its observables, weights, matched pairs or edges unchanged, in order and in the promised shape, with the boundary shown as -1 or None. "
     "In a batch every shot is read and answered at its own row, one by one from a fresh start, whether shots or predictions are packed into bits or not, and any non-zero byte of an unpacked shot counts as a detection event. Arrays "
     "of the wrong shape or size are rejected before anything is decoded.",
     ["inputs", "histories"], "any detection events, predictions and weights, with the decoder replaced by an arbitrary scripted result; up to three shots, rows of one and two bytes, zero to ten detectors and observables",
     "the repository's built tests do not reach this layer; the Python tests sample a few batches with mostly equal rows",
     ["driver/user_graph.pybind.cc"],
     [("decode, batch decode and matched pairs", BN)])
prop("R19", "Building and inspecting the graph from Python matches what was asked",
     "An edge added from Python arrives in the graph with the given nodes, weight, observables, probability and merge strategy; negative nodes and unknown strategies are rejected, and an over-heavy edge is left out with a warning and no other effect. Reading edges "
     "back returns every edge as it is, with the boundary shown as None. A check matrix gives one edge per column and round, boundary edges for columns with a single one, edges between rounds for measurement errors, and the observables of the faults matrix; matrices and arrays that do not fit "
     "are rejected, and error models and circuits are loaded from the given text or file with the requested treatment of correlations.",
     ["inputs"], "any weights, probabilities and observables; every strategy; check matrices with zero to three ones per column, one to three rounds, both kinds of boundary",
     "the repository's built tests do not reach this layer; the Python tests use small matrices where most wrong indices coincide",
     ["driver/user_graph.pybind.cc"],
     [("graph construction and queries", BN), ("loading check matrices", BN)])
MN = DR + "namespaced_main.cc"
prop("R20", "The command line answers every shot once, in order, from the model given",
     "The predict command writes, for every shot read and in the same order, exactly one record with the predicted value of every observable of the error model, decoded with or without correlations as requested. The mistake-counting command reports how many "
     "shots there were and in how many the prediction differs from the recorded observables, wherever those are stored. Missing or too short observable records and unknown commands are rejected, and every opened output and input is closed.",
     ["inputs", "histories"], "zero to three shots, zero to nine observables, any detection events, recorded observables and predictions; every combination of where observables are recorded",
     "the repository's built tests do not reach this layer; its command line tests run one model each",
     ["driver/namespaced_main.cc"],
     [("predict and count_mistakes", MN)])
PYM = "src/pymatching/matching.py"
prop("R21", "The Python interface passes every argument and result through faithfully",
     "Every method of Matching hands what the user gave to the decoder unchanged and returns the decoder's answer unchanged; omitted arguments take their documented defaults (weight 1, unknown probability, no fault ids, no merging, no correlations), and zero is a value like any other. "
     "A syndrome given as a vector or as a table of rounds becomes exactly the detection events it denotes, and any other shape is refused. Check matrices, error models, circuits, NetworkX and rustworkx graphs are loaded, and graphs exported, with every edge, weight, probability, fault id and boundary mark. "
     "The installed command returns the exit status of its run.",
     ["inputs"], "any values of every argument, by position and by name, also under their old names; representative shapes of syndromes, matrices and graphs",
     "the Python tests pass a few values each, mostly where a default and a given value or two dimensions coincide",
     [PYM, "src/pymatching/__init__.py", "src/pymatching/_cli_argv.py"],
     [("the Matching class", PYM), ("command line entry", "src/pymatching/_cli_argv.py")],
     note="path-sensitive abstract interpretation of the syntax trees; unknown values, concrete shapes; library calls by documented rules; nothing is imported or executed")

prop("R22", "The returned matching has minimum total weight over all matchings",
     "For every graph and every set of detection events, the total weight of the matching found is the least over all ways of matching the detection events with each other and the boundary, and the reported observables belong to a matching of that weight.",
     ["inputs", "histories"], "every graph, weight assignment and syndrome",
     "tests compare with precomputed answers on fixed models",
     ["matcher/mwpm.cc", "flooder/graph_flooder.cc", "driver/mwpm_decoding.cc"],
     [("event loop of the decoder", DR + "mwpm_decoding.cc")],
     na="global optimality is a theorem about the whole run (a dual certificate over an unbounded event history on an unbounded graph); no dataflow or type argument bounds those runtime quantities. The local steps it rests on are decided as R02 to R10.")
prop("R23", "Sampled noise follows the edge probabilities",
     "Over many samples each edge fails independently with its own probability and seeds chosen by the system differ between runs.",
     ["inputs", "schedules"], "all probabilities, all seeds",
     "a finite sample cannot establish a distribution",
     ["driver/user_graph.cc", "src/pymatching/rand/rand_gen.cc"],
     [("noise sampling", DR + "user_graph.cc")],
     na="a statement about the distribution of a pseudo-random generator is not a property of program text; that each edge is drawn against its own probability from the shared generator is decided as R16.")
prop("R24", "Decoding time stays nearly linear in the number of detection events",
     "For the sparse syndromes of a code below threshold, the time per shot grows about linearly with the number of detection events and does not depend on the size of the graph beyond loading it.",
     ["inputs"], "all code distances and error rates below threshold",
     "unit tests do not measure growth",
     ["flooder/graph_flooder.cc", "tracker/radix_heap_queue.h"],
     [("event driven flooding", SB + "flooder/graph_flooder.cc")],
     na="average-case running time over random syndromes is a runtime quantity; that only touched nodes are reset after a shot (the part that is structural) is decided as R08.")
prop("R25", "Drawings and animations show the state of the decoder",
     "Diagrams, animation frames and plots show the nodes, edges, regions and matches of the state drawn, each at its place.",
     ["inputs"], "every state of the flooder and matcher",
     "no test inspects a picture",
     ["diagram/animation_main.cc", "diagram/mwpm_diagram.cc"],
     [("diagram writer", SB + "diagram/mwpm_diagram.cc")],
     na="the meaning of a picture has no specification to compare program text with, and the code is used for debugging only.")
