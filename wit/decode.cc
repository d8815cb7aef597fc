//! property: R13
//! target: pm::decode_detection_events_for_up_to_64_observables / decode_detection_events / decode_detection_events_to_match_edges
//! units: driver
//! defs: -DVP_COLLAPSE_ARRAY
// The decode calls: which detectors light up, that the timeline is run to its end, and that every form of answer contains
// everything that was matched plus the negative-weight offset.  The matcher itself is a script here (it is decided elsewhere).
#include "script.h"
static CompressedEdge path0, path1;
void Mwpm::extract_paths_from_match_edges(const std::vector<CompressedEdge>& e, uint8_t* obs, total_weight_int& weight) {
    n_paths++;
    paths_given = e.size();
    if (e.size() > 0)
        path0 = e[0];
    if (e.size() > 1)
        path1 = e[1];
    weight += any_time<24>();
    obs[0] ^= any_u64<25>() & 1;
    obs[1] ^= any_u64<26>() & 1;
}
inline void nothing_done() {
    CHECK(n_created == 0 && n_steps == 0 && n_extracted == 0);
    for (int i = 0; i < 3; i++)
        CHECK(M->flooder.graph.nodes[i].radius_of_arrival == 0 && M->flooder.graph.nodes[i].region_that_arrived == nullptr);
}
inline void at_throw(int mode) {
    if (mode == 1)
        nothing_done();
    else {
        // no perfect matching: everything is wiped before the rejection
        CHECK(n_processed == script_len && n_resets >= 1 && n_extracted == 0);
    }
}
inline void all_left(Mwpm& m) {
    for (int i = 0; i < 3; i++)
        CHECK(m.flooder.graph.nodes[i].radius_of_arrival == 0 && m.flooder.graph.nodes[i].region_that_arrived == nullptr);
}

//@ every detection event is created once, the timeline runs to its end, every match is collected once
WITNESS(d_plain) {
    MWPM(m);
    script_len = 2;
    auto r = decode_detection_events_for_up_to_64_observables(m, {0, 2, 1}, false);
    CHECK(created[0] == 1 && created[1] == 1 && created[2] == 1 && n_created == 3);
    CHECK(n_processed == 2 && n_extracted == 2 && n_resets == 0);
    CHECK(r.obs_mask == (any_u64<20>() ^ any_u64<22>()) && r.weight == any_time<21>() + any_time<23>());
    all_left(m);
    REACH();
}
//@ no detection event, no error
WITNESS(d_empty) {
    MWPM(m);
    auto r = decode_detection_events_for_up_to_64_observables(m, {}, false);
    CHECK(n_created == 0 && n_extracted == 0 && r.obs_mask == 0 && r.weight == 0);
    REACH();
}
//@ events at boundary nodes are ignored
WITNESS(d_boundary_nodes) {
    MWPM(m);
    m.flooder.graph.is_user_graph_boundary_node.resize(3, false);
    bool b0 = any_u64<1>() & 1, b2 = any_u64<2>() & 1;
    m.flooder.graph.is_user_graph_boundary_node[0] = b0;
    m.flooder.graph.is_user_graph_boundary_node[2] = b2;
    decode_detection_events_for_up_to_64_observables(m, {0, 1, 2}, false);
    CHECK(created[1] == 1);
    if (b0)
        CHECK(created[0] == 0);
    else
        CHECK(created[0] == 1);
    if (b2)
        CHECK(created[2] == 0);
    else
        CHECK(created[2] == 1);
    all_left(m);
    REACH();
}
//@ an event outside the graph is rejected before anything changes, wherever it stands
WITNESS(d_reject_first) {
    MWPM(m);
    on_throw = 1;
    size_t i = any_u64<1>();
    ASSUME(i >= 3);
    decode_detection_events_for_up_to_64_observables(m, {i, 0}, false);
    ACCEPTED();
}
WITNESS(d_reject_last) {
    MWPM(m);
    on_throw = 1;
    size_t i = any_u64<1>();
    ASSUME(i >= 3);
    decode_detection_events_for_up_to_64_observables(m, {0, 2, i}, false);
    ACCEPTED();
}
WITNESS(d_reject_last_negative) {
    MWPM(m);
    m.flooder.negative_weight_detection_events.push_back(0);
    m.flooder.negative_weight_detection_events.push_back(1);
    m.flooder.negative_weight_sum = -2;
    on_throw = 1;
    size_t i = any_u64<1>();
    ASSUME(i >= 3);
    decode_detection_events_for_up_to_64_observables(m, {0, 2, i}, false);
    ACCEPTED();
}
WITNESS(d_reject_bits) {
    MWPM(m);
    on_throw = 1;
    size_t i = any_u64<1>();
    ASSUME(i >= 3);
    uint8_t obs[4] = {0, 0, 0, 0};
    total_weight_int w = 0;
    decode_detection_events(m, {2, i}, obs, w, false);
    ACCEPTED();
}
WITNESS(d_reject_match_edges) {
    MWPM(m);
    on_throw = 1;
    size_t i = any_u64<1>();
    ASSUME(i >= 3);
    decode_detection_events_to_match_edges(m, {2, i});
    ACCEPTED();
}
//@ without a perfect matching the decoder is wiped, then the syndrome rejected
WITNESS(d_no_matching) {
    MWPM(m);
    script_len = 1;
    on_throw = 2;
    AltTreeNode* n = any_ptr<7, AltTreeNode>();
    m.node_arena.allocated.push_back(n);
    decode_detection_events_for_up_to_64_observables(m, {0}, false);
    ACCEPTED();
}
WITNESS(d_matching) {
    MWPM(m);
    script_len = 1;
    AltTreeNode* n = any_ptr<7, AltTreeNode>();
    m.node_arena.allocated.push_back(n);
    m.node_arena.available.push_back(n);
    auto r = decode_detection_events_for_up_to_64_observables(m, {2}, false);
    CHECK(r.obs_mask == any_u64<22>() && r.weight == any_time<23>() && n_resets == 0);
    REACH();
}
//@ negative weights: the events at the ends of negative edges are toggled, offset and observables added
WITNESS(d_negative) {
    MWPM(m);
    m.flooder.negative_weight_detection_events.push_back(1);
    m.flooder.negative_weight_detection_events.push_back(2);
    m.flooder.negative_weight_obs_mask = any_u64<5>();
    m.flooder.negative_weight_sum = any_time<6>();
    auto r = decode_detection_events_for_up_to_64_observables(m, {0, 2}, false);
    CHECK(created[0] == 1 && created[1] == 1 && created[2] == 0 && n_extracted == 1);
    CHECK(r.obs_mask == (any_u64<20>() ^ any_u64<5>()) && r.weight == any_time<21>() + any_time<6>());
    all_left(m);
    REACH();
}
WITNESS(d_negative_only) {
    MWPM(m);
    m.flooder.negative_weight_detection_events.push_back(0);
    m.flooder.negative_weight_detection_events.push_back(1);
    m.flooder.negative_weight_detection_events.push_back(2);
    m.flooder.negative_weight_obs_mask = any_u64<5>();
    m.flooder.negative_weight_sum = any_time<6>();
    auto r = decode_detection_events_for_up_to_64_observables(m, {}, false);
    CHECK(created[0] == 1 && created[1] == 1 && created[2] == 1 && n_extracted == 2);
    CHECK(r.obs_mask == (any_u64<20>() ^ any_u64<22>() ^ any_u64<5>()) && r.weight == any_time<21>() + any_time<23>() + any_time<6>());
    all_left(m);
    REACH();
}
//@ negative edges whose events cancel still contribute offset and observables
WITNESS(d_negative_cancelled) {
    MWPM(m);
    m.flooder.negative_weight_obs_mask = any_u64<5>();
    m.flooder.negative_weight_sum = any_time<6>();
    auto r = decode_detection_events_for_up_to_64_observables(m, {2}, false);
    CHECK(created[2] == 1 && n_created == 1 && r.obs_mask == (any_u64<22>() ^ any_u64<5>()) && r.weight == any_time<23>() + any_time<6>());
    REACH();
}
WITNESS(d_negative_boundary_node) {
    MWPM(m);
    m.flooder.graph.is_user_graph_boundary_node.resize(3, false);
    m.flooder.graph.is_user_graph_boundary_node[2] = true;
    m.flooder.negative_weight_detection_events.push_back(0);
    m.flooder.negative_weight_detection_events.push_back(1);
    m.flooder.negative_weight_sum = any_time<6>();
    decode_detection_events_for_up_to_64_observables(m, {2}, false);
    CHECK(created[0] == 1 && created[1] == 1 && created[2] == 0);
    all_left(m);
    REACH();
}
// Every way in which negative edges (NEG) and the syndrome (DET) overlap on three detectors (bit sets).
template <int NEG, int DET, bool BITS>
inline void overlap() {
    MWPM(m);
    script_len = 1;
    std::vector<uint64_t> det;
    for (int i = 0; i < 3; i++) {
        if (NEG >> i & 1)
            m.flooder.negative_weight_detection_events.push_back(i);
        if (DET >> i & 1)
            det.push_back(i);
    }
    m.flooder.negative_weight_sum = any_time<6>();
    m.flooder.negative_weight_obs_mask = any_u64<5>() & 7;
    constexpr int ON = NEG ^ DET;
    uint64_t mask = (ON & 3 ? any_u64<20>() : 0) ^ (ON & 4 ? any_u64<22>() : 0) ^ (any_u64<5>() & 7);
    int64_t weight = (ON & 3 ? any_time<21>() : 0) + (ON & 4 ? any_time<23>() : 0) + any_time<6>();
    if (BITS) {
        uint8_t obs[3] = {0, 0, 0};
        total_weight_int w = 0;
        decode_detection_events(m, det, obs, w, false);
        CHECK(w == weight && obs[0] == (mask & 1) && obs[1] == (mask >> 1 & 1) && obs[2] == (mask >> 2 & 1));
    } else {
        auto r = decode_detection_events_for_up_to_64_observables(m, det, false);
        CHECK(r.obs_mask == mask && r.weight == weight);
    }
    for (int i = 0; i < 3; i++)
        CHECK(created[i] == (ON >> i & 1));
    all_left(m);
    REACH();
}
//@ every overlap of negative edges and syndrome on three detectors
WITNESS(d_overlap_1_0) { overlap<1, 0, false>(); }
WITNESS(d_overlap_1_1) { overlap<1, 1, true>(); }
WITNESS(d_overlap_1_2) { overlap<1, 2, false>(); }
WITNESS(d_overlap_1_3) { overlap<1, 3, false>(); }
WITNESS(d_overlap_1_4) { overlap<1, 4, true>(); }
WITNESS(d_overlap_1_5) { overlap<1, 5, false>(); }
WITNESS(d_overlap_1_6) { overlap<1, 6, false>(); }
WITNESS(d_overlap_1_7) { overlap<1, 7, true>(); }
WITNESS(d_overlap_2_0) { overlap<2, 0, false>(); }
WITNESS(d_overlap_2_1) { overlap<2, 1, false>(); }
WITNESS(d_overlap_2_2) { overlap<2, 2, true>(); }
WITNESS(d_overlap_2_3) { overlap<2, 3, false>(); }
WITNESS(d_overlap_2_4) { overlap<2, 4, false>(); }
WITNESS(d_overlap_2_5) { overlap<2, 5, true>(); }
WITNESS(d_overlap_2_6) { overlap<2, 6, false>(); }
WITNESS(d_overlap_2_7) { overlap<2, 7, false>(); }
WITNESS(d_overlap_3_0) { overlap<3, 0, true>(); }
WITNESS(d_overlap_3_1) { overlap<3, 1, false>(); }
WITNESS(d_overlap_3_2) { overlap<3, 2, false>(); }
WITNESS(d_overlap_3_3) { overlap<3, 3, true>(); }
WITNESS(d_overlap_3_4) { overlap<3, 4, false>(); }
WITNESS(d_overlap_3_5) { overlap<3, 5, false>(); }
WITNESS(d_overlap_3_6) { overlap<3, 6, true>(); }
WITNESS(d_overlap_3_7) { overlap<3, 7, false>(); }
WITNESS(d_overlap_4_0) { overlap<4, 0, false>(); }
WITNESS(d_overlap_4_1) { overlap<4, 1, true>(); }
WITNESS(d_overlap_4_2) { overlap<4, 2, false>(); }
WITNESS(d_overlap_4_3) { overlap<4, 3, false>(); }
WITNESS(d_overlap_4_4) { overlap<4, 4, true>(); }
WITNESS(d_overlap_4_5) { overlap<4, 5, false>(); }
WITNESS(d_overlap_4_6) { overlap<4, 6, false>(); }
WITNESS(d_overlap_4_7) { overlap<4, 7, true>(); }
WITNESS(d_overlap_5_0) { overlap<5, 0, false>(); }
WITNESS(d_overlap_5_1) { overlap<5, 1, false>(); }
WITNESS(d_overlap_5_2) { overlap<5, 2, true>(); }
WITNESS(d_overlap_5_3) { overlap<5, 3, false>(); }
WITNESS(d_overlap_5_4) { overlap<5, 4, false>(); }
WITNESS(d_overlap_5_5) { overlap<5, 5, true>(); }
WITNESS(d_overlap_5_6) { overlap<5, 6, false>(); }
WITNESS(d_overlap_5_7) { overlap<5, 7, false>(); }
WITNESS(d_overlap_6_0) { overlap<6, 0, true>(); }
WITNESS(d_overlap_6_1) { overlap<6, 1, false>(); }
WITNESS(d_overlap_6_2) { overlap<6, 2, false>(); }
WITNESS(d_overlap_6_3) { overlap<6, 3, true>(); }
WITNESS(d_overlap_6_4) { overlap<6, 4, false>(); }
WITNESS(d_overlap_6_5) { overlap<6, 5, false>(); }
WITNESS(d_overlap_6_6) { overlap<6, 6, true>(); }
WITNESS(d_overlap_6_7) { overlap<6, 7, false>(); }
WITNESS(d_overlap_7_0) { overlap<7, 0, false>(); }
WITNESS(d_overlap_7_3) { overlap<7, 3, false>(); }
WITNESS(d_overlap_7_5) { overlap<7, 5, false>(); }
WITNESS(d_overlap_7_6) { overlap<7, 6, false>(); }
WITNESS(d_overlap_7_7) { overlap<7, 7, true>(); }
//@ the bit-array form gives the same answer as the mask form, toggled into the caller's array
WITNESS(d_bits) {
    MWPM(m);
    script_len = 1;
    m.flooder.negative_weight_detection_events.push_back(2);
    m.flooder.negative_weight_obs_mask = any_u64<5>();
    m.flooder.negative_weight_sum = any_time<6>();
    uint8_t obs[4] = {(uint8_t)(any_u64<11>() & 1), (uint8_t)(any_u64<12>() & 1), (uint8_t)(any_u64<13>() & 1), 0x55};
    uint8_t o0 = obs[0], o1 = obs[1], o2 = obs[2];
    total_weight_int w = any_time<14>();
    decode_detection_events(m, {0, 1}, obs, w, false);
    CHECK(n_created == 3 && n_extracted == 2 && n_processed == 1);
    uint8_t mask8 = any_u64<20>() ^ any_u64<22>() ^ any_u64<5>();
    CHECK(w == any_time<14>() + any_time<21>() + any_time<23>() + any_time<6>());
    CHECK(obs[0] == (uint8_t)((uint8_t)((mask8) & 1) ^ o0));
    CHECK(obs[1] == (uint8_t)((uint8_t)((mask8 >> 1) & 1) ^ o1));
    CHECK(obs[2] == (uint8_t)((uint8_t)((mask8 >> 2) & 1) ^ o2));
    CHECK(obs[3] == 0x55);
    all_left(m);
    REACH();
}
//@ exactly 64 observables still fit the mask and need no search graph
WITNESS(d_exactly_64) {
    MWPM(m);
    m.flooder.graph.num_observables = 64;
    script_len = 1;
    m.flooder.negative_weight_obs_mask = 0;
    uint8_t obs[65];
    for (int i = 0; i < 65; i++)
        obs[i] = 0;
    total_weight_int w = any_time<14>();
    decode_detection_events(m, {2}, obs, w, false);
    CHECK(n_created == 1 && n_extracted == 1 && n_paths == 0);
    CHECK(w == any_time<14>() + any_time<23>());
    CHECK(obs[0] == (any_u64<22>() & 1) && obs[1] == ((any_u64<22>() >> 1) & 1) && obs[62] == ((any_u64<22>() >> 62) & 1) && obs[63] == any_u64<22>() >> 63);
    CHECK(obs[64] == 0);
    REACH();
}
//@ more than 64 observables: all matched pairs are traced, negative edges toggled in
WITNESS(d_many) {
    MWPM(m);
    m.flooder.graph.num_observables = 65;
    script_len = 1;
    m.flooder.match_edges.push_back({nullptr, nullptr, 1});  // left by an earlier call
    m.flooder.negative_weight_detection_events.push_back(2);
    m.flooder.negative_weight_observables.push_back(1);
    m.flooder.negative_weight_observables.push_back(3);
    m.flooder.negative_weight_sum = any_time<6>();
    uint8_t obs[4] = {0, 0, 0, 0};
    total_weight_int w = any_time<14>();
    decode_detection_events(m, {0, 1}, obs, w, false);
    CHECK(n_created == 3 && n_extracted == 2 && n_paths == 1 && paths_given == 2);
    bool first = path0.loc_from == &m.flooder.graph.nodes[0];
    auto &pair = first ? path0 : path1, &single = first ? path1 : path0;
    CHECK(edge_is(pair, &m.flooder.graph.nodes[0], &m.flooder.graph.nodes[1], any_u64<20>()) && edge_is(single, &m.flooder.graph.nodes[2], nullptr, any_u64<22>()));
    CHECK(w == any_time<14>() + any_time<24>() + any_time<6>());
    CHECK(obs[0] == (any_u64<25>() & 1) && obs[1] == ((any_u64<26>() & 1) ^ 1) && obs[2] == 0 && obs[3] == 1);
    all_left(m);
    REACH();
}
//@ matched pairs: only this call's pairs are listed; refused with negative weights
WITNESS(d_match_edges) {
    MWPM(m);
    script_len = 1;
    m.flooder.match_edges.push_back({nullptr, nullptr, 1});
    decode_detection_events_to_match_edges(m, {0, 2, 1});
    CHECK(n_created == 3 && n_extracted == 2 && m.flooder.match_edges.size() == 2);
    auto& me = m.flooder.match_edges;
    bool first = me[0].loc_from == &m.flooder.graph.nodes[0];
    CHECK(edge_is(me[first ? 0 : 1], &m.flooder.graph.nodes[0], &m.flooder.graph.nodes[1], any_u64<20>()));
    CHECK(edge_is(me[first ? 1 : 0], &m.flooder.graph.nodes[2], nullptr, any_u64<22>()));
    all_left(m);
    REACH();
}
WITNESS(d_match_edges_negative) {
    MWPM(m);
    on_throw = 1;
    m.flooder.negative_weight_sum = any_time<6>();
    ASSUME(any_time<6>() != 0);
    decode_detection_events_to_match_edges(m, {0, 1});
    ACCEPTED();
}
//@ masks and bit arrays convert into each other at every position
WITNESS(d_bits_of_mask) {
    on_throw = 0;
    uint8_t obs[65];
    for (int i = 0; i < 65; i++)
        obs[i] = 0;
    uint64_t mask = any_u64<2>();
    fill_bit_vector_from_obs_mask(mask, obs, 64);
    CHECK(obs[0] == (mask & 1) && obs[31] == (mask >> 31 & 1) && obs[32] == (mask >> 32 & 1) && obs[63] == mask >> 63 && obs[64] == 0);
    fill_bit_vector_from_obs_mask(mask, obs, 64);
    CHECK(obs[0] == 0 && obs[31] == 0 && obs[32] == 0 && obs[63] == 0);
    REACH();
}
WITNESS(d_bits_of_mask_few) {
    on_throw = 0;
    uint8_t obs[4] = {1, 0, 1, 0};
    fill_bit_vector_from_obs_mask(any_u64<2>(), obs, 2);
    CHECK(obs[0] == (uint8_t)(1 ^ (any_u64<2>() & 1)) && obs[1] == (uint8_t)(any_u64<2>() >> 1 & 1) && obs[2] == 1 && obs[3] == 0);
    REACH();
}
WITNESS(d_bits_of_mask_reject) {
    MWPM(m);
    on_throw = 1;
    uint8_t obs[4] = {0, 0, 0, 0};
    size_t n = any_u64<1>();
    ASSUME(n > 64);
    fill_bit_vector_from_obs_mask(any_u64<2>(), obs, n);
    ACCEPTED();
}
//@ result algebra: observables toggle, weights add
WITNESS(d_extended) {
    on_throw = 0;
    OBJ(ExtendedMatchingResult, a, 2);
    OBJ(ExtendedMatchingResult, b, 2);
    CHECK(a.weight == 0 && a.obs_crossed.size() == 2 && a.obs_crossed[0] == 0 && a.obs_crossed[1] == 0);
    a.obs_crossed[0] = any_u64<1>();
    a.obs_crossed[1] = any_u64<2>();
    b.obs_crossed[0] = any_u64<3>();
    b.obs_crossed[1] = any_u64<4>();
    a.weight = any_time<5>();
    b.weight = any_time<6>();
    auto c = a + b;
    CHECK(c.weight == any_time<5>() + any_time<6>() && c.obs_crossed.size() == 2 && c.obs_crossed[0] == (uint8_t)(any_u64<1>() ^ any_u64<3>()) && c.obs_crossed[1] == (uint8_t)(any_u64<2>() ^ any_u64<4>()));
    CHECK(a.weight == any_time<5>() && a.obs_crossed[0] == (uint8_t)any_u64<1>());
    a += b;
    CHECK(a == c && !(a != c));
    if (any_time<6>() != 0 && any_u64<3>() == 0 && any_u64<4>() == 0)
        CHECK((c.weight == any_time<5>()) == (any_time<6>() == 0));
    a.reset();
    CHECK(a.weight == 0 && a.obs_crossed.size() == 2 && a.obs_crossed[0] == 0 && a.obs_crossed[1] == 0);
    REACH();
}
WITNESS(d_extended_differ) {
    on_throw = 0;
    OBJ(ExtendedMatchingResult, a, 1);
    OBJ(ExtendedMatchingResult, b, 1);
    a.obs_crossed[0] = any_u64<1>();
    b.obs_crossed[0] = any_u64<1>();
    a.weight = any_time<5>();
    b.weight = any_time<5>();
    CHECK(a == b && !(a != b));
    b.weight = any_time<5>() + 1;
    CHECK(a != b && !(a == b));
    b.weight = any_time<5>();
    b.obs_crossed[0] = any_u64<1>() ^ 1;
    CHECK(a != b && !(a == b));
    REACH();
}
