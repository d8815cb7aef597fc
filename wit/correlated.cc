//! property: R13
//! target: correlated decoding in pm::decode_detection_events*
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY -DVP_CAP=6
// Correlated decoding: decode to edges, reweight both graphs for exactly those edges, decode again, undo both.
#include "script.h"
inline void at_throw(int mode) {
}
static unsigned passes, rw_m, rw_s, un_m, un_s;
void pm::decode_detection_events_to_edges(Mwpm& m, const std::vector<uint64_t>& ev, std::vector<int64_t>& edges) {
    CHECK(&m == M && ev.size() == 2 && ev[0] == 0 && ev[1] == 1 && edges.size() == 0);
    CHECK(rw_m == passes && rw_s == passes && un_m == 0 && un_s == 0 && n_steps == 0);
    passes++;
    edges.push_back(passes == 1 ? any_u64<30>() : any_u64<32>());
    edges.push_back(passes == 1 ? any_u64<31>() : any_u64<33>());
}
inline void first_pass(const std::vector<int64_t>& e) {
    CHECK(e.size() == 2 && e[0] == any_u64<30>() && e[1] == any_u64<31>());
    CHECK(passes == 1 && n_created == 0 && un_m == 0 && un_s == 0);
}
void MatchingGraph::reweight_for_edges(const std::vector<int64_t>& e) {
    first_pass(e);
    CHECK(this == &M->flooder.graph);
    rw_m++;
}
void SearchGraph::reweight_for_edges(const std::vector<int64_t>& e) {
    first_pass(e);
    CHECK(this == &M->search_flooder.graph);
    rw_s++;
}
void MatchingGraph::undo_reweights() {
    CHECK(rw_m == 1 && rw_s == 1 && this == &M->flooder.graph);
    un_m++;
}
void SearchGraph::undo_reweights() {
    CHECK(rw_m == 1 && rw_s == 1 && this == &M->search_flooder.graph);
    un_s++;
}
void Mwpm::extract_paths_from_match_edges(const std::vector<CompressedEdge>& e, uint8_t* obs, total_weight_int& weight) {
    CHECK(rw_m == 1 && rw_s == 1 && un_m == 0 && un_s == 0 && e.size() == 1);
    weight += any_time<24>();
    obs[0] ^= any_u64<25>() & 1;
}
#define START(m) \
    MWPM(m);     \
    passes = rw_m = rw_s = un_m = un_s = 0
inline void done() {
    CHECK(rw_m == 1 && rw_s == 1 && un_m == 1 && un_s == 1);
}
//@ two passes, reweighting between them, undone afterwards; the answer is the second pass's
WITNESS(cd_mask) {
    START(m);
    auto r = decode_detection_events_for_up_to_64_observables(m, {0, 1}, true);
    CHECK(passes == 1 && n_created == 2 && n_extracted == 1 && r.obs_mask == any_u64<20>() && r.weight == any_time<21>());
    done();
    REACH();
}
WITNESS(cd_bits) {
    START(m);
    uint8_t obs[3] = {0, 0, 0};
    total_weight_int w = 0;
    decode_detection_events(m, {0, 1}, obs, w, true);
    CHECK(passes == 1 && n_created == 2 && n_extracted == 1 && obs[0] == (any_u64<20>() & 1) && w == any_time<21>());
    done();
    REACH();
}
WITNESS(cd_many) {
    START(m);
    m.flooder.graph.num_observables = 65;
    uint8_t obs[3] = {0, 0, 0};
    total_weight_int w = 0;
    decode_detection_events(m, {0, 1}, obs, w, true);
    CHECK(passes == 1 && n_created == 2 && n_extracted == 1 && obs[0] == (any_u64<25>() & 1) && w == any_time<24>());
    done();
    REACH();
}
WITNESS(cd_edges) {
    START(m);
    std::vector<int64_t> e;
    decode_detection_events_to_edges_with_edge_correlations(m, {0, 1}, e);
    CHECK(passes == 2 && e.size() == 2 && e[0] == any_u64<32>() && e[1] == any_u64<33>());
    done();
    REACH();
}
//@ without correlations nothing is reweighted
WITNESS(cd_off) {
    START(m);
    auto r = decode_detection_events_for_up_to_64_observables(m, {0, 1}, false);
    CHECK(passes == 0 && rw_m == 0 && rw_s == 0 && r.obs_mask == any_u64<20>());
    uint8_t obs[3] = {0, 0, 0};
    n_processed = n_steps = 0;
    total_weight_int w = 0;
    decode_detection_events(m, {0, 1}, obs, w, false);
    CHECK(passes == 0 && rw_m == 0 && rw_s == 0);
    REACH();
}
