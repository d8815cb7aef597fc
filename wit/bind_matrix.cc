//! property: R19
//! target: the loaders (load_from_check_matrix's sparse_column_check_matrix_to_matching_graph, error models and circuits as text or file) and MatchingGraph.add_noise
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_STRINGS -fno-threadsafe-statics -fno-c++-static-destructors -DVP_CAP=7 -DVP_MAPCAP=6
// Building a graph from a sparse check matrix, an error model or a circuit file.
#include "bind.h"
#include "pymatching/sparse_blossom/driver/user_graph.pybind.cc"
static py::object* a_check;
static py::object* a_faults;
static py::array_t<double> a_w, a_p, a_tw, a_tp;
static std::string* a_strategy;
static bool a_virtual;
static size_t a_reps;
static bool a_corr;
static const char* a_text;
static UserGraph* R;
alignas(UserGraph) static unsigned char r_raw[sizeof(UserGraph)];
static py::array_t<uint8_t> r_err, r_syn;
static py::vp_matrix* eye_of;
static size_t eye_size;
static FILE* the_file;
static int opened, closed, loaded;
static bool from_circuit;

double pm::merge_weights(double, double) {
    vp_overflow();
}
py::vp_matrix* py::vp_eye(size_t n) {
    eye_size = n;
    return eye_of;
}
extern "C" FILE* fopen(const char* path, const char* mode) {
    CHECK(path == a_text && mode[0] == 'r');
    opened++;
    return the_file;
}
extern "C" int fclose(FILE* f) {
    CHECK(f == the_file && opened == 1 && loaded == 1);
    closed++;
    return 0;
}
stim::DetectorErrorModel::DetectorErrorModel(const char* text) {
    CHECK(text == a_text);
    num_detectors = any_u64<71>();
    num_observables = any_u64<72>();
    loaded++;
}
stim::DetectorErrorModel stim::DetectorErrorModel::from_file(FILE* f) {
    CHECK(f == the_file && opened == 1 && closed == 0);
    loaded++;
    DetectorErrorModel d;
    d.num_detectors = any_u64<71>();
    d.num_observables = any_u64<72>();
    return d;
}
stim::Circuit stim::Circuit::from_file(FILE* f) {
    CHECK(f == the_file && opened == 1 && closed == 0);
    loaded++;
    Circuit c;
    c.id = any_u64<73>();
    return c;
}
stim::DetectorErrorModel stim::ErrorAnalyzer::circuit_to_detector_error_model(
    const Circuit& c, bool decompose, bool flatten, bool gauge, double approx, bool ignore, bool block) {
    CHECK(c.id == any_u64<73>() && decompose && flatten && !gauge && approx == 0 && !ignore);
    DetectorErrorModel d;
    d.num_detectors = any_u64<71>();
    d.num_observables = any_u64<72>();
    return d;
}
UserGraph pm::detector_error_model_to_user_graph(
    const stim::DetectorErrorModel& dem, const bool enable_correlations, pm::weight_int distinct) {
    CHECK(dem.num_detectors == any_u64<71>() && dem.num_observables == any_u64<72>());
    CHECK(enable_correlations == a_corr);
    CHECK(distinct == pm::NUM_DISTINCT_WEIGHTS);
    return UserGraph(3, 2);
}
void UserGraph::add_noise(uint8_t* errors, uint8_t* syndrome) const {
    CHECK(this == G);
    CHECK(errors[0] == 0 && errors[1] == 0 && syndrome[0] == 0 && syndrome[1] == 0 && syndrome[2] == 0);
    errors[0] = (uint8_t)any_u64<81>();
    errors[1] = (uint8_t)any_u64<82>();
    syndrome[0] = (uint8_t)any_u64<83>();
    syndrome[1] = (uint8_t)any_u64<84>();
    syndrome[2] = (uint8_t)any_u64<85>();
}
template <class F>
void vp_def(const char* name, F& f) {
    if constexpr (std::is_invocable_r_v<
                      UserGraph, F&, const py::object&, const py::array_t<double>&, const py::array_t<double>&, const std::string&, bool, size_t,
                      const py::array_t<double>&, const py::array_t<double>&, py::object&>) {
        if (named(name) && py::vp_same(name, "sparse_column_check_matrix_to_matching_graph")) {
            R = new (r_raw) UserGraph(f(*a_check, a_w, a_p, *a_strategy, a_virtual, a_reps, a_tw, a_tp, *a_faults));
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_r_v<UserGraph, F&, const char*, bool>) {
        if (named(name)) {
            R = new (r_raw) UserGraph(f(a_text, a_corr));
            was_called = true;
        }
    }
    if constexpr (std::is_invocable_r_v<std::pair<py::array_t<uint8_t>, py::array_t<uint8_t>>, F&, UserGraph&>) {
        if (named(name) && py::vp_same(name, "add_noise")) {
            std::pair<py::array_t<uint8_t>, py::array_t<uint8_t>> r = f(*G);
            r_err = r.first;
            r_syn = r.second;
            was_called = true;
        }
    }
}
inline void call(const char* name) {
    wanted = name;
    py::module_ m;
    py::class_<UserGraph> c(m, "MatchingGraph");
    pm_pybind::pybind_user_graph_methods(m, c);
    if (!was_called)
        vp_overflow();
}
inline void at_throw(int mode) {
    CHECK(!was_called);
    if (mode == 2)
        CHECK(opened == 1 && closed == 0 && loaded == 0);
}
static double w_buf[4], p_buf[4], tw_buf[3], tp_buf[3];
static uint8_t h_data[6], f_data[6];
static int64_t h_idx[6], h_ptr[5], f_idx[6], f_ptr[5];
static py::vp_matrix h_m, f_m;
inline void matrix(py::vp_matrix& m, size_t rows, size_t cols, uint8_t* data, int64_t* idx, int64_t* ptr, size_t nnz) {
    m.is_csc = true;
    m.rows = rows;
    m.cols = cols;
    m.n_data = nnz;
    m.n_indices = nnz;
    m.n_indptr = cols + 1;
    m.data = data;
    m.indices = idx;
    m.indptr = ptr;
    for (size_t k = 0; k < nnz; k++)
        data[k] = 1;
}
#define LOAD(virt, reps)                   \
    py::object check, faults;              \
    check.kind = py::VP_MATRIX;            \
    check.m = &h_m;                        \
    faults.kind = py::VP_MATRIX;           \
    faults.m = &f_m;                       \
    a_check = &check;                      \
    a_faults = &faults;                    \
    std::string strategy("smallest-weight"); \
    a_strategy = &strategy;                \
    a_virtual = virt;                      \
    a_reps = reps;                         \
    a_tw = py::array_t<double>();          \
    a_tw.absent = true;                    \
    a_tp = a_tw;                           \
    was_called = false;                    \
    n_warned = 0;                          \
    on_throw = 0;                          \
    eye_size = 99;                         \
    fill()
inline void fill() {
    w_buf[0] = any_d<1>();
    w_buf[1] = any_d<2>();
    w_buf[2] = any_d<3>();
    w_buf[3] = any_d<4>();
    p_buf[0] = any_d<11>();
    p_buf[1] = any_d<12>();
    p_buf[2] = any_d<13>();
    p_buf[3] = any_d<14>();
    tw_buf[0] = any_d<21>();
    tw_buf[1] = any_d<22>();
    tw_buf[2] = any_d<23>();
    tp_buf[0] = any_d<31>();
    tp_buf[1] = any_d<32>();
    tp_buf[2] = any_d<33>();
}
#define RUN() call("sparse_column_check_matrix_to_matching_graph")
template <size_t K>
inline const UserEdge& nth() {
    auto it = R->edges.begin();
    for (size_t k = 0; k < K; k++)
        ++it;
    return *it;
}
inline void is_edge(const UserEdge& e, size_t u, size_t v, double w, double p) {
    CHECK((e.node1 == u && e.node2 == v) || (e.node1 == v && e.node2 == u));
    CHECK(bits(e.weight, w) && bits(e.error_probability, p));
}
// one column with two ones, one with one, one with none; observables {1}, {0,2}, {}
inline void three_columns() {
    matrix(h_m, 3, 3, h_data, h_idx, h_ptr, 3);
    h_idx[0] = 0;
    h_idx[1] = 2;
    h_idx[2] = 1;
    h_ptr[0] = 0;
    h_ptr[1] = 2;
    h_ptr[2] = 3;
    h_ptr[3] = 3;
    matrix(f_m, 4, 3, f_data, f_idx, f_ptr, 3);
    f_idx[0] = 1;
    f_idx[1] = 0;
    f_idx[2] = 2;
    f_ptr[0] = 0;
    f_ptr[1] = 1;
    f_ptr[2] = 3;
    f_ptr[3] = 3;
    a_w = array1(w_buf, 3);
    a_p = array1(p_buf, 3);
}
inline void three_edges() {
    CHECK(R->get_num_observables() == 4);
    const UserEdge& e = nth<0>();
    is_edge(e, 0, 2, any_d<1>(), any_d<11>());
    CHECK(e.observable_indices.size() == 1 && e.observable_indices[0] == 1);
    const UserEdge& f = nth<1>();
    CHECK(f.node1 == 1 && bits(f.weight, any_d<2>()) && bits(f.error_probability, any_d<12>()));
    CHECK(f.observable_indices.size() == 2 && f.observable_indices[0] == 0 && f.observable_indices[1] == 2);
}
//@ a column with two ones is an edge, with one a boundary edge, with none nothing; its faults are its observables
WITNESS(x_columns_real_boundary) {
    LOAD(false, 1);
    three_columns();
    RUN();
    CHECK(R->edges.size() == 2 && R->nodes.size() == 4);
    three_edges();
    CHECK(nth<1>().node2 == 3);
    CHECK(R->boundary_nodes.size() == 1 && *R->boundary_nodes.begin() == 3);
    REACH();
}
WITNESS(x_columns_virtual_boundary) {
    LOAD(true, 1);
    three_columns();
    RUN();
    CHECK(R->edges.size() == 2 && R->nodes.size() == 3);
    three_edges();
    CHECK(nth<1>().node2 == SIZE_MAX);
    CHECK(R->boundary_nodes.size() == 0);
    REACH();
}
//@ without a column of weight one there is no boundary
WITNESS(x_no_boundary) {
    LOAD(false, 1);
    three_columns();
    h_m.cols = 1;
    h_m.n_indptr = 2;
    h_m.n_data = h_m.n_indices = 2;
    f_m.cols = 1;
    f_m.n_indptr = 2;
    f_m.n_data = f_m.n_indices = 1;
    a_w = array1(w_buf, 1);
    a_p = array1(p_buf, 1);
    RUN();
    CHECK(R->edges.size() == 1 && R->nodes.size() == 3 && R->boundary_nodes.size() == 0);
    is_edge(nth<0>(), 0, 2, any_d<1>(), any_d<11>());
    REACH();
}
//@ without a faults matrix, column c is observable c
WITNESS(x_default_faults) {
    LOAD(true, 1);
    three_columns();
    faults = py::object();
    h_m.rows = 4;
    matrix(f_m, 3, 3, f_data, f_idx, f_ptr, 3);
    f_idx[0] = 0;
    f_idx[1] = 1;
    f_idx[2] = 2;
    f_ptr[0] = 0;
    f_ptr[1] = 1;
    f_ptr[2] = 2;
    f_ptr[3] = 3;
    eye_of = &f_m;
    RUN();
    CHECK(eye_size == 3 && R->edges.size() == 2 && R->get_num_observables() == 3);
    CHECK(nth<0>().observable_indices.size() == 1 && nth<0>().observable_indices[0] == 0);
    CHECK(nth<1>().observable_indices.size() == 1 && nth<1>().observable_indices[0] == 1);
    REACH();
}
inline void two_columns() {
    matrix(h_m, 2, 2, h_data, h_idx, h_ptr, 3);
    h_idx[0] = 0;
    h_idx[1] = 1;
    h_idx[2] = 1;
    h_ptr[0] = 0;
    h_ptr[1] = 2;
    h_ptr[2] = 3;
    matrix(f_m, 2, 2, f_data, f_idx, f_ptr, 2);
    f_idx[0] = 1;
    f_idx[1] = 0;
    f_ptr[0] = 0;
    f_ptr[1] = 1;
    f_ptr[2] = 2;
    a_w = array1(w_buf, 2);
    a_p = array1(p_buf, 2);
}
template <size_t K>
inline void timelike(size_t u, size_t v, double w, double p) {
    is_edge(nth<K>(), u, v, w, p);
    CHECK(nth<K>().observable_indices.size() == 0);
}
inline void has_timelike(size_t u, size_t v, double w, double p) {
    size_t found = 0;
    for (auto& e : R->edges) {
        if ((e.node1 == u && e.node2 == v) || (e.node1 == v && e.node2 == u)) {
            CHECK(bits(e.weight, w) && bits(e.error_probability, p) && e.observable_indices.size() == 0);
            found++;
        }
    }
    CHECK(found == 1);
}
inline void has_edge(size_t u, size_t v, double w, double p, size_t obs) {
    size_t found = 0;
    for (auto& e : R->edges) {
        if ((e.node1 == u && e.node2 == v) || (e.node1 == v && e.node2 == u)) {
            CHECK(bits(e.weight, w) && bits(e.error_probability, p));
            CHECK(e.observable_indices.size() == 1 && e.observable_indices[0] == obs);
            found++;
        }
    }
    CHECK(found == 1);
}
//@ repetitions: one copy of every column per round, and one edge without observables per row between neighbouring rounds
WITNESS(x_two_rounds) {
    LOAD(false, 2);
    two_columns();
    a_tw = array1(tw_buf, 2);
    a_tp = array1(tp_buf, 2);
    RUN();
    CHECK(R->edges.size() == 6 && R->nodes.size() == 5 && R->get_num_observables() == 2);
    CHECK(R->boundary_nodes.size() == 1 && *R->boundary_nodes.begin() == 4);
    has_edge(0, 1, any_d<1>(), any_d<11>(), 1);
    has_edge(1, 4, any_d<2>(), any_d<12>(), 0);
    has_edge(2, 3, any_d<1>(), any_d<11>(), 1);
    has_edge(3, 4, any_d<2>(), any_d<12>(), 0);
    has_timelike(0, 2, any_d<21>(), any_d<31>());
    has_timelike(1, 3, any_d<22>(), any_d<32>());
    REACH();
}
WITNESS(x_three_rounds) {
    LOAD(true, 3);
    matrix(h_m, 1, 1, h_data, h_idx, h_ptr, 1);
    h_idx[0] = 0;
    h_ptr[0] = 0;
    h_ptr[1] = 1;
    matrix(f_m, 1, 1, f_data, f_idx, f_ptr, 1);
    f_idx[0] = 0;
    f_ptr[0] = 0;
    f_ptr[1] = 1;
    a_w = array1(w_buf, 1);
    a_p = array1(p_buf, 1);
    a_tw = array1(tw_buf, 1);
    a_tp = array1(tp_buf, 1);
    RUN();
    CHECK(R->edges.size() == 5 && R->nodes.size() == 3 && R->boundary_nodes.size() == 0);
    has_edge(0, SIZE_MAX, any_d<1>(), any_d<11>(), 0);
    has_edge(1, SIZE_MAX, any_d<1>(), any_d<11>(), 0);
    has_edge(2, SIZE_MAX, any_d<1>(), any_d<11>(), 0);
    has_timelike(0, 1, any_d<21>(), any_d<31>());
    has_timelike(1, 2, any_d<21>(), any_d<31>());
    REACH();
}
WITNESS(x_three_rounds_two_rows) {
    LOAD(true, 3);
    matrix(h_m, 2, 1, h_data, h_idx, h_ptr, 1);
    h_idx[0] = 1;
    h_ptr[0] = 0;
    h_ptr[1] = 1;
    matrix(f_m, 1, 1, f_data, f_idx, f_ptr, 1);
    f_idx[0] = 0;
    f_ptr[0] = 0;
    f_ptr[1] = 1;
    a_w = array1(w_buf, 1);
    a_p = array1(p_buf, 1);
    a_tw = array1(tw_buf, 2);
    a_tp = array1(tp_buf, 2);
    RUN();
    CHECK(R->edges.size() == 7 && R->nodes.size() == 6 && R->boundary_nodes.size() == 0);
    has_edge(1, SIZE_MAX, any_d<1>(), any_d<11>(), 0);
    has_edge(3, SIZE_MAX, any_d<1>(), any_d<11>(), 0);
    has_edge(5, SIZE_MAX, any_d<1>(), any_d<11>(), 0);
    has_timelike(0, 2, any_d<21>(), any_d<31>());
    has_timelike(1, 3, any_d<22>(), any_d<32>());
    has_timelike(2, 4, any_d<21>(), any_d<31>());
    has_timelike(3, 5, any_d<22>(), any_d<32>());
    REACH();
}
WITNESS(x_two_rounds_tall) {
    LOAD(false, 2);
    matrix(h_m, 3, 1, h_data, h_idx, h_ptr, 2);
    h_idx[0] = 1;
    h_idx[1] = 2;
    h_ptr[0] = 0;
    h_ptr[1] = 2;
    matrix(f_m, 5, 1, f_data, f_idx, f_ptr, 1);
    f_idx[0] = 3;
    f_ptr[0] = 0;
    f_ptr[1] = 1;
    a_w = array1(w_buf, 1);
    a_p = array1(p_buf, 1);
    a_tw = array1(tw_buf, 3);
    a_tp = array1(tp_buf, 3);
    RUN();
    CHECK(R->edges.size() == 5 && R->nodes.size() == 6 && R->boundary_nodes.size() == 0 && R->get_num_observables() == 5);
    has_edge(1, 2, any_d<1>(), any_d<11>(), 3);
    has_edge(4, 5, any_d<1>(), any_d<11>(), 3);
    has_timelike(0, 3, any_d<21>(), any_d<31>());
    has_timelike(1, 4, any_d<22>(), any_d<32>());
    has_timelike(2, 5, any_d<23>(), any_d<33>());
    REACH();
}
//@ the merge strategy applies to equal columns
WITNESS(x_strategy_keep) {
    LOAD(true, 1);
    strategy = "keep-original";
    two_columns();
    h_m.rows = 2;
    h_m.n_data = h_m.n_indices = 2;
    h_idx[0] = 1;
    h_idx[1] = 1;
    h_ptr[1] = 1;
    h_ptr[2] = 2;
    RUN();
    CHECK(R->edges.size() == 1);
    has_edge(1, SIZE_MAX, any_d<1>(), any_d<11>(), 1);
    REACH();
}
WITNESS(x_strategy_replace) {
    LOAD(true, 1);
    strategy = "replace";
    two_columns();
    h_m.n_data = h_m.n_indices = 2;
    h_idx[0] = 1;
    h_idx[1] = 1;
    h_ptr[1] = 1;
    h_ptr[2] = 2;
    RUN();
    CHECK(R->edges.size() == 1);
    has_edge(1, SIZE_MAX, any_d<2>(), any_d<12>(), 0);
    REACH();
}
WITNESS(x_strategy_disallow) {
    LOAD(true, 1);
    strategy = "disallow";
    two_columns();
    h_m.n_data = h_m.n_indices = 2;
    h_idx[0] = 1;
    h_idx[1] = 1;
    h_ptr[1] = 1;
    h_ptr[2] = 2;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_strategy_unknown) {
    LOAD(true, 1);
    strategy = "smallest_weight";
    two_columns();
    on_throw = 1;
    RUN();
    ACCEPTED();
}
//@ what does not fit together is rejected
WITNESS(x_three_ones) {
    LOAD(true, 1);
    three_columns();
    h_ptr[1] = 3;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_not_csc) {
    LOAD(true, 1);
    three_columns();
    h_m.is_csc = false;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_faults_not_csc) {
    LOAD(true, 1);
    three_columns();
    f_m.is_csc = false;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_zero_in_data) {
    LOAD(true, 1);
    three_columns();
    h_data[2] = 0;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_other_in_data) {
    LOAD(true, 1);
    three_columns();
    uint8_t x = (uint8_t)any_u64<50>() | 2;
    h_data[1] = x;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_other_in_faults) {
    LOAD(true, 1);
    three_columns();
    uint8_t x = (uint8_t)any_u64<50>() | 2;
    f_data[0] = x;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
// two columns with two ones each, three and two faults
inline void full_columns() {
    matrix(h_m, 3, 2, h_data, h_idx, h_ptr, 4);
    h_idx[0] = 0;
    h_idx[1] = 1;
    h_idx[2] = 1;
    h_idx[3] = 2;
    h_ptr[0] = 0;
    h_ptr[1] = 2;
    h_ptr[2] = 4;
    matrix(f_m, 3, 2, f_data, f_idx, f_ptr, 5);
    f_idx[0] = 0;
    f_idx[1] = 1;
    f_idx[2] = 2;
    f_idx[3] = 0;
    f_idx[4] = 2;
    f_ptr[0] = 0;
    f_ptr[1] = 3;
    f_ptr[2] = 5;
    a_w = array1(w_buf, 2);
    a_p = array1(p_buf, 2);
}
WITNESS(x_full_columns) {
    LOAD(true, 1);
    full_columns();
    RUN();
    CHECK(R->edges.size() == 2 && R->nodes.size() == 3 && R->get_num_observables() == 3);
    is_edge(nth<0>(), 0, 1, any_d<1>(), any_d<11>());
    is_edge(nth<1>(), 1, 2, any_d<2>(), any_d<12>());
    auto& o = nth<0>().observable_indices;
    auto& q = nth<1>().observable_indices;
    CHECK(o.size() == 3 && o[0] == 0 && o[1] == 1 && o[2] == 2 && q.size() == 2 && q[0] == 0 && q[1] == 2);
    REACH();
}
//@ ... at whatever place
template <int AT, bool FAULTS, int VALUE>
inline void bad_entry() {
    LOAD(true, 1);
    full_columns();
    (FAULTS ? f_data : h_data)[AT] = VALUE;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_zero_first) { bad_entry<0, false, 0>(); }
WITNESS(x_zero_last) { bad_entry<3, false, 0>(); }
WITNESS(x_two_first) { bad_entry<0, false, 2>(); }
WITNESS(x_two_last) { bad_entry<3, false, 2>(); }
WITNESS(x_faults_zero_first) { bad_entry<0, true, 0>(); }
WITNESS(x_faults_zero_last) { bad_entry<4, true, 0>(); }
WITNESS(x_faults_255_last) { bad_entry<4, true, 255>(); }
//@ ... when there are more than three
WITNESS(x_four_ones) {
    LOAD(true, 1);
    full_columns();
    h_m.rows = 4;
    h_idx[2] = 2;
    h_idx[3] = 3;
    h_ptr[1] = 4;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_three_ones_last) {
    LOAD(true, 1);
    full_columns();
    h_ptr[1] = 1;
    h_idx[1] = 0;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
//@ ... when a column points behind the last index
template <int END>
inline void beyond() {
    LOAD(true, 1);
    full_columns();
    h_m.n_data = h_m.n_indices = 2;
    h_ptr[2] = END;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_beyond_by_one) { beyond<3>(); }
WITNESS(x_beyond_by_two) { beyond<4>(); }
//@ ... when there are values without an index, or fault indices without a value
WITNESS(x_data_longer) {
    LOAD(true, 1);
    full_columns();
    h_m.n_data = 5;
    h_data[4] = 1;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_faults_data_shorter) {
    LOAD(true, 1);
    full_columns();
    f_m.n_data = 4;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_indptr_longer) {
    LOAD(true, 1);
    full_columns();
    h_m.n_indptr = 4;
    h_ptr[3] = 4;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_too_few_weights) {
    LOAD(true, 1);
    three_columns();
    a_w = array1(w_buf, 2);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_too_many_weights) {
    LOAD(true, 1);
    three_columns();
    a_w = array1(w_buf, 4);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_too_few_probabilities) {
    LOAD(true, 1);
    three_columns();
    a_p = array1(p_buf, 2);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_too_many_probabilities) {
    LOAD(true, 1);
    three_columns();
    a_p = array1(p_buf, 4);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_fewer_fault_columns) {
    LOAD(true, 1);
    three_columns();
    f_m.cols = 2;
    f_m.n_indptr = 3;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_more_fault_columns) {
    LOAD(true, 1);
    three_columns();
    f_m.cols = 4;
    f_m.n_indptr = 5;
    f_ptr[4] = 3;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_indptr_size) {
    LOAD(true, 1);
    three_columns();
    h_m.n_indptr = 3;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_data_indices_size) {
    LOAD(true, 1);
    three_columns();
    h_m.n_data = 2;
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_no_timelike_weights) {
    LOAD(true, 2);
    two_columns();
    a_tp = array1(tp_buf, 2);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_no_measurement_errors) {
    LOAD(true, 2);
    two_columns();
    a_tw = array1(tw_buf, 2);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_timelike_size) {
    LOAD(true, 2);
    two_columns();
    a_tw = array1(tw_buf, 3);
    a_tp = array1(tp_buf, 2);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
WITNESS(x_measurement_size) {
    LOAD(true, 2);
    two_columns();
    a_tw = array1(tw_buf, 2);
    a_tp = array1(tp_buf, 3);
    on_throw = 1;
    RUN();
    ACCEPTED();
}
#define LOADER(corr)                              \
    a_text = "some text";                         \
    a_corr = corr;                                \
    the_file = (FILE*)&w_buf;                     \
    opened = closed = loaded = 0;                 \
    was_called = false;                           \
    on_throw = 0
//@ the graph of an error model given as text, in a file, or of a circuit in a file; files are closed; correlations as asked
WITNESS(x_text) {
    LOADER((bool)(any_u64<60>() & 1));
    call("detector_error_model_to_matching_graph");
    CHECK(loaded == 1 && opened == 0 && R->nodes.size() == 3);
    REACH();
}
WITNESS(x_file) {
    LOADER((bool)(any_u64<60>() & 1));
    call("detector_error_model_file_to_matching_graph");
    CHECK(loaded == 1 && opened == 1 && closed == 1 && R->nodes.size() == 3);
    REACH();
}
WITNESS(x_circuit) {
    LOADER((bool)(any_u64<60>() & 1));
    call("stim_circuit_file_to_matching_graph");
    CHECK(loaded == 1 && opened == 1 && closed == 1 && R->nodes.size() == 3);
    REACH();
}
//@ a file that cannot be opened is rejected
WITNESS(x_no_file) {
    LOADER(false);
    the_file = nullptr;
    on_throw = 2;
    call("detector_error_model_file_to_matching_graph");
    ACCEPTED();
}
WITNESS(x_no_circuit) {
    LOADER(false);
    the_file = nullptr;
    on_throw = 2;
    call("stim_circuit_file_to_matching_graph");
    ACCEPTED();
}
//@ sampled noise: observables first, then syndrome, started from zero
WITNESS(x_noise) {
    Raw<UserGraph> g_raw;
    G = new (g_raw.b) UserGraph(3, 2);
    G->set_boundary({2});
    was_called = false;
    on_throw = 0;
    call("add_noise");
    CHECK(r_err.size() == 2 && r_syn.size() == 3);
    CHECK((uint8_t)(r_err.p[0] ^ any_u64<81>()) == 0 && (uint8_t)(r_err.p[1] ^ any_u64<82>()) == 0);
    CHECK((uint8_t)(r_syn.p[0] ^ any_u64<83>()) == 0 && (uint8_t)(r_syn.p[1] ^ any_u64<84>()) == 0);
    CHECK((uint8_t)(r_syn.p[2] ^ any_u64<85>()) == 0);
    REACH();
}
