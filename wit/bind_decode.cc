//! property: R18
//! target: the decode bindings (MatchingGraph.decode, decode_batch, decode_to_edges_array, decode_to_matched_detection_events_*)
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_STRINGS -DVP_CAP=18 -DVP_MAPCAP=6
// What Python receives.  The decode calls of the driver are recorders here (they are decided elsewhere): a binding has to
// hand over exactly the detection events it was given, shot by shot, and to return exactly what the decode call produced.
#include "bind.h"
#include "pymatching/sparse_blossom/driver/user_graph.pybind.cc"

// --- recorders -------------------------------------------------------------------------------------------------------
static std::vector<uint64_t> given[4];
static bool given_corr[4];
static Mwpm* given_mwpm[4];
static size_t n_calls;
static size_t n_obs_written;
static uint8_t* r_obs_p();
static int free_bit = -1;  // if set, only this observable is unconstrained, the others are constants
inline uint8_t bit_of(size_t shot, size_t k) {
    if (free_bit >= 0 && (int)k != free_bit)
        return ((k + shot) % 3) == 0;
    return vp_any(1000 + (int)shot * 100 + (int)k) & 1;
}
// byte k of what Python got is the bit that call `shot` produced
inline bool got(size_t k, size_t shot, size_t bit) {
    return (uint8_t)(r_obs_p()[k] ^ bit_of(shot, bit)) == 0;
}
inline int64_t weight_of(size_t shot) {
    return vp_time(500 + (int)shot);
}
void pm::decode_detection_events(
    Mwpm& mwpm, const std::vector<uint64_t>& detection_events, uint8_t* obs, total_weight_int& weight, bool corr) {
    given[n_calls] = detection_events;
    given_corr[n_calls] = corr;
    given_mwpm[n_calls] = &mwpm;
    for (size_t k = 0; k < n_obs_written; k++)
        obs[k] ^= bit_of(n_calls, k);
    weight += weight_of(n_calls);
    n_calls++;
}
MatchingResult pm::decode_detection_events_for_up_to_64_observables(Mwpm& mwpm, const std::vector<uint64_t>& detection_events, bool corr) {
    MatchingResult r;
    uint64_t mask = 0;
    for (size_t k = 0; k < n_obs_written; k++)
        mask |= (uint64_t)bit_of(n_calls, k) << k;
    given[n_calls] = detection_events;
    given_corr[n_calls] = corr;
    given_mwpm[n_calls] = &mwpm;
    r.obs_mask = mask;
    r.weight = weight_of(n_calls);
    n_calls++;
    return r;
}
static Mwpm *plain, *with_search;
Mwpm& UserGraph::get_mwpm() {
    return *plain;
}
Mwpm& UserGraph::get_mwpm_with_search_graph() {
    return *with_search;
}
static bool edges_corr;
void pm::decode_detection_events_to_edges(Mwpm& mwpm, const std::vector<uint64_t>& detection_events, std::vector<int64_t>& edges) {
    given[0] = detection_events;
    given_mwpm[0] = &mwpm;
    given_corr[0] = false;
    n_calls++;
    for (int k = 0; k < 6; k++)
        edges.push_back((int64_t)vp_any(800 + k));
}
void pm::decode_detection_events_to_edges_with_edge_correlations(
    Mwpm& mwpm, const std::vector<uint64_t>& detection_events, std::vector<int64_t>& edges) {
    decode_detection_events_to_edges(mwpm, detection_events, edges);
    given_corr[0] = true;
}
static size_t n_matches;
static size_t from_at[2], to_at[2];  // to: SIZE_MAX = boundary
void pm::decode_detection_events_to_match_edges(Mwpm& mwpm, const std::vector<uint64_t>& detection_events) {
    given[0] = detection_events;
    given_mwpm[0] = &mwpm;
    n_calls++;
    mwpm.flooder.match_edges.clear();
    for (size_t k = 0; k < n_matches; k++)
        mwpm.flooder.match_edges.push_back(
            {&mwpm.flooder.graph.nodes[from_at[k]], to_at[k] == SIZE_MAX ? nullptr : &mwpm.flooder.graph.nodes[to_at[k]], 0});
}

// --- the bindings under analysis -------------------------------------------------------------------------------------
static py::array_t<uint64_t> a_events;
static py::array_t<uint8_t> a_shots;
static bool a_corr, a_packed_shots, a_packed_predictions;
static py::array_t<uint8_t> r_obs;
static py::array_t<double> r_weights;
static double r_weight;
static py::array_t<int64_t> r_pairs;
static py::dict r_dict;
uint8_t* r_obs_p() {
    return r_obs.p;
}
template <class F>
void vp_def(const char* name, F& f) {
    if constexpr (std::is_invocable_v<F&, UserGraph&, const py::array_t<uint64_t>&, bool>) {
        using R = std::invoke_result_t<F&, UserGraph&, const py::array_t<uint64_t>&, bool>;
        if constexpr (std::is_convertible_v<R, std::pair<py::array_t<uint8_t>, double>>) {
            if (named(name) && py::vp_same(name, "decode")) {
                std::pair<py::array_t<uint8_t>, double> r = f(*G, a_events, a_corr);
                r_obs = r.first;
                r_weight = r.second;
                was_called = true;
            }
        } else if constexpr (std::is_convertible_v<R, py::array_t<int64_t>>) {
            if (named(name) && py::vp_same(name, "decode_to_edges_array")) {
                r_pairs = f(*G, a_events, a_corr);
                was_called = true;
            }
        }
    }
    if constexpr (std::is_invocable_v<F&, UserGraph&, const py::array_t<uint64_t>&>) {
        using R = std::invoke_result_t<F&, UserGraph&, const py::array_t<uint64_t>&>;
        if constexpr (std::is_convertible_v<R, py::array_t<int64_t>>) {
            if (named(name) && py::vp_same(name, "decode_to_matched_detection_events_array")) {
                r_pairs = f(*G, a_events);
                was_called = true;
            }
        } else if constexpr (std::is_convertible_v<R, py::dict>) {
            if (named(name) && py::vp_same(name, "decode_to_matched_detection_events_dict")) {
                r_dict = f(*G, a_events);
                was_called = true;
            }
        }
    }
    if constexpr (std::is_invocable_v<F&, UserGraph&, const py::array_t<uint8_t>&, bool, bool, bool>) {
        using R = std::invoke_result_t<F&, UserGraph&, const py::array_t<uint8_t>&, bool, bool, bool>;
        if constexpr (std::is_convertible_v<R, py::tuple>) {
            if (named(name) && py::vp_same(name, "decode_batch")) {
                py::tuple r = f(*G, a_shots, a_packed_shots, a_packed_predictions, a_corr);
                r_obs = *(const py::array_t<uint8_t>*)r[0].ref;
                r_weights = *(const py::array_t<double>*)r[1].ref;
                was_called = true;
            }
        }
    }
}
py::vp_matrix* py::vp_eye(size_t) {
    vp_overflow();
}
#define GRAPH(nodes, obs)                          \
    Raw<UserGraph> g_raw;                          \
    UserGraph& g = *new (g_raw.b) UserGraph(nodes, obs); \
    G = &g;                                        \
    OBJ(Mwpm, m1);                                 \
    OBJ(Mwpm, m2);                                 \
    plain = &m1;                                   \
    with_search = &m2;                             \
    m1.flooder.graph.normalising_constant = any_d<600>(); \
    m2.flooder.graph.normalising_constant = any_d<601>(); \
    n_calls = 0;                                   \
    n_obs_written = obs;                           \
    n_matches = 0;                                 \
    free_bit = -1;                                 \
    was_called = false;                            \
    n_warned = 0;                                  \
    on_throw = 0;                                  \
    a_corr = false;                                \
    a_packed_shots = false;                        \
    a_packed_predictions = false
inline void call(const char* name) {
    wanted = name;
    py::module_ m;
    py::class_<UserGraph> c(m, "MatchingGraph");
    pm_pybind::pybind_user_graph_methods(m, c);
    if (!was_called)
        vp_overflow();
}
inline void at_throw(int) {
    CHECK(n_calls == 0);
}

inline void one_decode(Mwpm& used, bool corr) {
    uint64_t ev[3] = {any_u64<1>(), any_u64<2>(), any_u64<3>()};
    a_events = array1(ev, 3);
    a_corr = corr;
    call("decode");
    CHECK(n_calls == 1 && given[0].size() == 3);
    CHECK(given[0][0] == ev[0] && given[0][1] == ev[1] && given[0][2] == ev[2]);
    CHECK(given_corr[0] == corr);
    CHECK(r_obs.n == 3 && got(0, 0, 0) && got(1, 0, 1) && got(2, 0, 2));
    if (corr)
        CHECK(given_mwpm[0] == &used);
    CHECK(bits(r_weight, (double)weight_of(0) / given_mwpm[0]->flooder.graph.normalising_constant));
    REACH();
}
//@ decode hands over the events as given, in order, and returns the flips and the rescaled weight
WITNESS(b_decode) {
    GRAPH(3, 3);
    one_decode(m1, false);
}
WITNESS(b_decode_correlated) {
    GRAPH(3, 3);
    one_decode(m2, true);
}
//@ no detection events
WITNESS(b_decode_none) {
    GRAPH(2, 1);
    uint64_t ev[1];
    a_events = array1(ev, 0);
    call("decode");
    CHECK(n_calls == 1 && given[0].size() == 0 && r_obs.n == 1 && got(0, 0, 0));
    REACH();
}
// --- batches ---------------------------------------------------------------------------------------------------------
//@ each shot is decoded on its own and fills its own row
WITNESS(b_batch) {
    GRAPH(3, 2);
    uint8_t s[6] = {1, 0, 1, 0, 255, 0};
    a_shots = array2(s, 2, 3);
    call("decode_batch");
    CHECK(n_calls == 2);
    CHECK(given[0].size() == 2 && given[0][0] == 0 && given[0][1] == 2);
    CHECK(given[1].size() == 1 && given[1][0] == 1);
    CHECK(!given_corr[0] && !given_corr[1]);
    CHECK(r_obs.n == 4 && r_obs.nd == 2 && r_obs.dim[0] == 2 && r_obs.dim[1] == 2);
    CHECK(got(0, 0, 0) && got(1, 0, 1) && got(2, 1, 0) && got(3, 1, 1));
    CHECK(r_weights.n == 2);
    CHECK(bits(r_weights.p[0], (double)weight_of(0) / given_mwpm[0]->flooder.graph.normalising_constant));
    CHECK(bits(r_weights.p[1], (double)weight_of(1) / given_mwpm[1]->flooder.graph.normalising_constant));
    REACH();
}
//@ any nonzero byte is a detection event, zero is none
WITNESS(b_batch_any_bytes) {
    GRAPH(2, 1);
    uint8_t s[2] = {(uint8_t)any_u64<1>(), (uint8_t)any_u64<2>()};
    a_shots = array2(s, 1, 2);
    call("decode_batch");
    CHECK(n_calls == 1 && got(0, 0, 0) && r_obs.n == 1);
    if (s[0] && s[1])
        CHECK(given[0].size() == 2 && given[0][0] == 0 && given[0][1] == 1);
    else if (s[0])
        CHECK(given[0].size() == 1 && given[0][0] == 0);
    else if (s[1])
        CHECK(given[0].size() == 1 && given[0][0] == 1);
    else
        CHECK(given[0].size() == 0);
    REACH();
}
//@ correlated batches use the decoder with the search graph
WITNESS(b_batch_correlated) {
    GRAPH(2, 1);
    uint8_t s[2] = {1, 1};
    a_shots = array2(s, 1, 2);
    a_corr = true;
    call("decode_batch");
    CHECK(n_calls == 1 && given[0].size() == 2 && given_corr[0] && given_mwpm[0] == &m2);
    CHECK(bits(r_weights.p[0], (double)weight_of(0) / any_d<601>()) && got(0, 0, 0));
    REACH();
}
//@ bit-packed shots: bit r of byte j is detector 8 j + r
WITNESS(b_batch_packed_shots) {
    GRAPH(10, 1);
    uint8_t s[4] = {0x81, 0x02, 0x12, 0x01};
    a_shots = array2(s, 2, 2);
    a_packed_shots = true;
    call("decode_batch");
    CHECK(n_calls == 2);
    CHECK(given[0].size() == 3 && given[0][0] == 0 && given[0][1] == 7 && given[0][2] == 9);
    CHECK(given[1].size() == 3 && given[1][0] == 1 && given[1][1] == 4 && given[1][2] == 8);
    CHECK(r_obs.n == 2 && got(0, 0, 0) && got(1, 1, 0));
    REACH();
}
template <int R>
inline void packed_single() {
    GRAPH(16, 1);
    uint8_t s[2] = {R < 8 ? 1 << (R & 7) : 0, R < 8 ? 0 : 1 << (R & 7)};
    a_shots = array2(s, 1, 2);
    a_packed_shots = true;
    call("decode_batch");
    CHECK(n_calls == 1 && given[0].size() == 1 && given[0][0] == R);
    REACH();
}
WITNESS(b_batch_packed_5) {
    packed_single<5>();
}
WITNESS(b_batch_packed_6) {
    packed_single<6>();
}
WITNESS(b_batch_packed_15) {
    packed_single<15>();
}
//@ bit-packed predictions: observable k is bit k mod 8 of byte k div 8, unused bits are zero
inline bool packed_byte(size_t byte, size_t shot, size_t k0, size_t k1) {
    uint8_t want = 0;
    for (size_t k = k0; k < k1; k++)
        want |= bit_of(shot, k) << (k - k0);
    return (uint8_t)(r_obs.p[byte] ^ want) == 0;
}
template <int K>
inline void packed_predictions() {
    GRAPH(1, 10);
    free_bit = K;
    uint8_t s[2] = {1, 0};
    a_shots = array2(s, 2, 1);
    a_packed_predictions = true;
    call("decode_batch");
    CHECK(n_calls == 2 && given[0].size() == 1 && given[1].size() == 0);
    CHECK(r_obs.n == 4 && r_obs.dim[0] == 2 && r_obs.dim[1] == 2);
    CHECK(packed_byte(0, 0, 0, 8) && packed_byte(1, 0, 8, 10));
    CHECK(packed_byte(2, 1, 0, 8) && packed_byte(3, 1, 8, 10));
    CHECK(bits(r_weights.p[0], (double)weight_of(0) / given_mwpm[0]->flooder.graph.normalising_constant));
    CHECK(bits(r_weights.p[1], (double)weight_of(1) / given_mwpm[1]->flooder.graph.normalising_constant));
    REACH();
}
WITNESS(b_batch_packed_predictions_0) {
    packed_predictions<0>();
}
WITNESS(b_batch_packed_predictions_5) {
    packed_predictions<5>();
}
WITNESS(b_batch_packed_predictions_7) {
    packed_predictions<7>();
}
WITNESS(b_batch_packed_predictions_9) {
    packed_predictions<9>();
}
WITNESS(b_batch_packed_both) {
    GRAPH(9, 8);
    free_bit = 3;
    uint8_t s[2] = {0x40, 0x01};
    a_shots = array2(s, 1, 2);
    a_packed_shots = true;
    a_packed_predictions = true;
    call("decode_batch");
    CHECK(n_calls == 1 && given[0].size() == 2 && given[0][0] == 6 && given[0][1] == 8);
    CHECK(r_obs.n == 1);
    CHECK(packed_byte(0, 0, 0, 8));
    REACH();
}
//@ no shots, no answers
WITNESS(b_batch_empty) {
    GRAPH(2, 1);
    uint8_t s[1];
    a_shots = array2(s, 0, 2);
    call("decode_batch");
    CHECK(n_calls == 0 && r_obs.n == 0 && r_weights.n == 0);
    REACH();
}
// boundary nodes need no column of their own
#define BOUNDARY_AT(i) \
    g.boundary_nodes.insert(i); \
    g.nodes[i].is_boundary = true
WITNESS(b_batch_detectors_only) {
    GRAPH(3, 1);
    BOUNDARY_AT(2);
    uint8_t s[2] = {1, 1};
    a_shots = array2(s, 1, 2);
    call("decode_batch");
    CHECK(n_calls == 1 && given[0].size() == 2);
    REACH();
}
WITNESS(b_batch_with_boundary_column) {
    GRAPH(3, 1);
    BOUNDARY_AT(2);
    uint8_t s[3] = {1, 1, 0};
    a_shots = array2(s, 1, 3);
    call("decode_batch");
    CHECK(n_calls == 1 && given[0].size() == 2);
    REACH();
}
WITNESS(b_batch_packed_detectors_only) {
    GRAPH(9, 1);
    BOUNDARY_AT(8);
    uint8_t s[1] = {0x80};
    a_shots = array2(s, 1, 1);
    a_packed_shots = true;
    call("decode_batch");
    CHECK(n_calls == 1 && given[0].size() == 1 && given[0][0] == 7);
    REACH();
}
//@ arrays of the wrong shape are rejected before anything is decoded
WITNESS(b_batch_flat) {
    GRAPH(2, 1);
    on_throw = 1;
    uint8_t s[2] = {1, 1};
    a_shots = array1(s, 2);
    call("decode_batch");
    ACCEPTED();
}
WITNESS(b_batch_narrow) {
    GRAPH(4, 1);
    BOUNDARY_AT(3);
    on_throw = 1;
    uint8_t s[2] = {1, 1};
    a_shots = array2(s, 1, 2);
    call("decode_batch");
    ACCEPTED();
}
WITNESS(b_batch_wide) {
    GRAPH(2, 1);
    on_throw = 1;
    uint8_t s[3] = {1, 1, 0};
    a_shots = array2(s, 1, 3);
    call("decode_batch");
    ACCEPTED();
}
WITNESS(b_batch_packed_narrow) {
    GRAPH(9, 1);
    on_throw = 1;
    uint8_t s[1] = {1};
    a_shots = array2(s, 1, 1);
    a_packed_shots = true;
    call("decode_batch");
    ACCEPTED();
}
WITNESS(b_batch_packed_wide) {
    GRAPH(8, 1);
    on_throw = 1;
    uint8_t s[2] = {1, 0};
    a_shots = array2(s, 1, 2);
    a_packed_shots = true;
    call("decode_batch");
    ACCEPTED();
}
// --- edges and matched pairs -----------------------------------------------------------------------------------------
inline void edges_case(Mwpm& m, bool corr) {
    uint64_t ev[2] = {any_u64<1>(), any_u64<2>()};
    a_events = array1(ev, 2);
    a_corr = corr;
    call("decode_to_edges_array");
    CHECK(n_calls == 1 && given[0].size() == 2 && given[0][0] == ev[0] && given[0][1] == ev[1]);
    CHECK(given_corr[0] == corr && given_mwpm[0] == &m);
    CHECK(r_pairs.nd == 2 && r_pairs.dim[0] == 3 && r_pairs.dim[1] == 2);
    for (int k = 0; k < 6; k++)
        CHECK(r_pairs.p[k] == (int64_t)vp_any(800 + k));
    REACH();
}
//@ the edges of the solution come back as rows of two, from the decoder that has the search graph
WITNESS(b_edges) {
    GRAPH(2, 1);
    edges_case(m2, false);
}
WITNESS(b_edges_correlated) {
    GRAPH(2, 1);
    edges_case(m2, true);
}
#define MATCHES(f0, t0, f1, t1)              \
    m1.flooder.graph.nodes.resize(4);        \
    m2.flooder.graph.nodes.resize(4);        \
    n_matches = 2;                           \
    from_at[0] = f0;                         \
    to_at[0] = t0;                           \
    from_at[1] = f1;                         \
    to_at[1] = t1;                           \
    uint64_t ev[2] = {any_u64<1>(), any_u64<2>()}; \
    a_events = array1(ev, 2)
inline void handed_over(const uint64_t* ev) {
    CHECK(n_calls == 1 && given[0].size() == 2 && given[0][0] == ev[0] && given[0][1] == ev[1]);
}
//@ matched pairs come back as rows of two, the boundary as -1
WITNESS(b_pairs) {
    GRAPH(4, 1);
    MATCHES(3, 1, 0, SIZE_MAX);
    call("decode_to_matched_detection_events_array");
    handed_over(ev);
    CHECK(r_pairs.nd == 2 && r_pairs.dim[0] == 2 && r_pairs.dim[1] == 2);
    CHECK(r_pairs.p[0] == 3 && r_pairs.p[1] == 1 && r_pairs.p[2] == 0 && r_pairs.p[3] == -1);
    REACH();
}
WITNESS(b_pairs_none) {
    GRAPH(4, 1);
    MATCHES(3, 1, 0, SIZE_MAX);
    n_matches = 0;
    call("decode_to_matched_detection_events_array");
    handed_over(ev);
    CHECK(r_pairs.n == 0);
    REACH();
}
//@ as a dictionary each pair appears in both directions, the boundary as None
WITNESS(b_dict) {
    GRAPH(4, 1);
    MATCHES(3, 1, 0, SIZE_MAX);
    call("decode_to_matched_detection_events_dict");
    handed_over(ev);
    CHECK(r_dict.n == 3);
    CHECK(r_dict[py::object(3)].kind == py::VP_INT && r_dict[py::object(3)].i == 1);
    CHECK(r_dict[py::object(1)].kind == py::VP_INT && r_dict[py::object(1)].i == 3);
    CHECK(r_dict[py::object(0)].kind == py::VP_NONE && r_dict.n == 3);
    REACH();
}
WITNESS(b_dict_to_zero) {
    GRAPH(4, 1);
    MATCHES(2, 0, 3, 1);
    call("decode_to_matched_detection_events_dict");
    handed_over(ev);
    CHECK(r_dict.n == 4);
    CHECK(r_dict[py::object(2)].kind == py::VP_INT && r_dict[py::object(2)].i == 0);
    CHECK(r_dict[py::object(0)].kind == py::VP_INT && r_dict[py::object(0)].i == 2);
    CHECK(r_dict[py::object(3)].kind == py::VP_INT && r_dict[py::object(3)].i == 1);
    CHECK(r_dict[py::object(1)].kind == py::VP_INT && r_dict[py::object(1)].i == 3 && r_dict.n == 4);
    REACH();
}
WITNESS(b_pairs_to_zero) {
    GRAPH(4, 1);
    MATCHES(2, 0, 3, 1);
    call("decode_to_matched_detection_events_array");
    handed_over(ev);
    CHECK(r_pairs.nd == 2 && r_pairs.dim[0] == 2 && r_pairs.dim[1] == 2);
    CHECK(r_pairs.p[0] == 2 && r_pairs.p[1] == 0 && r_pairs.p[2] == 3 && r_pairs.p[3] == 1);
    REACH();
}
WITNESS(b_dict_boundary_first) {
    GRAPH(4, 1);
    MATCHES(2, SIZE_MAX, 0, 3);
    call("decode_to_matched_detection_events_dict");
    handed_over(ev);
    CHECK(r_dict.n == 3);
    CHECK(r_dict[py::object(2)].kind == py::VP_NONE);
    CHECK(r_dict[py::object(0)].i == 3 && r_dict[py::object(3)].kind == py::VP_INT && r_dict[py::object(3)].i == 0 && r_dict.n == 3);
    REACH();
}
