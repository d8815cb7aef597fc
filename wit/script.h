// A scripted matcher: what the decode calls do around it is what is analysed.
#pragma once
#include "driver.h"
#include "reject.h"
static Mwpm* M;
static GraphFillRegion R0, R1, R2;
static unsigned created[4];   // per node: how often a detection event was created there
static unsigned n_created, n_steps, n_processed, n_resets, script_len;
static unsigned n_extracted;
static bool turned;  // the pair is reported from the other end
static int64_t time_of_creation;
inline GraphFillRegion* region_of(size_t i) {
    return i == 0 ? &R0 : i == 1 ? &R1 : &R2;
}
void Mwpm::create_detection_event(DetectorNode* node) {
    size_t i = node - &flooder.graph.nodes[0];
    // all at one time, before anything happens
    if (n_created == 0)
        time_of_creation = flooder.queue.cur_time;
    CHECK(n_steps == 0 && flooder.queue.cur_time == time_of_creation);
    created[i & 3]++;
    n_created++;
    node->region_that_arrived = region_of(i);
    node->region_that_arrived_top = region_of(i);
    node->reached_from_source = node;
}
// script: script_len notifications, then none
MwpmEvent GraphFlooder::run_until_next_mwpm_notification() {
    CHECK(n_steps == n_processed);
    if (n_steps == 0 && n_created > 0)
        CHECK(queue.cur_time == time_of_creation);
    if (n_steps == script_len)
        return MwpmEvent::no_event();
    n_steps++;
    MwpmEvent e = MwpmEvent::no_event();
    e.event_type = REGION_HIT_BOUNDARY;
    e.region_hit_boundary_event_data.region = region_of(n_steps);
    return e;
}
void Mwpm::process_event(const MwpmEvent& e) {
    n_processed++;
    CHECK(e.event_type == REGION_HIT_BOUNDARY && e.region_hit_boundary_event_data.region == region_of(n_processed));
}
void Mwpm::reset() {
    n_resets++;
}
// nodes 0 and 1 are matched to each other, node 2 to the boundary
inline void leave(Mwpm& m, GraphFillRegion* r) {
    CHECK(n_processed == script_len);
    if (r == &R2) {
        m.flooder.graph.nodes[2].region_that_arrived = nullptr;
        m.flooder.graph.nodes[2].region_that_arrived_top = nullptr;
        m.flooder.graph.nodes[2].reached_from_source = nullptr;
    } else {
        for (int i = 0; i < 2; i++) {
            m.flooder.graph.nodes[i].region_that_arrived = nullptr;
            m.flooder.graph.nodes[i].region_that_arrived_top = nullptr;
            m.flooder.graph.nodes[i].reached_from_source = nullptr;
        }
    }
    n_extracted++;
}
MatchingResult Mwpm::shatter_blossom_and_extract_matches(GraphFillRegion* r) {
    leave(*this, r);
    if (r == &R2)
        return MatchingResult(any_u64<22>(), any_time<23>());
    return MatchingResult(any_u64<20>(), any_time<21>());
}
void Mwpm::shatter_blossom_and_extract_match_edges(GraphFillRegion* r, std::vector<CompressedEdge>& out) {
    leave(*this, r);
    if (r == &R2)
        out.push_back({&flooder.graph.nodes[2], nullptr, any_u64<22>()});
    else if (turned)
        out.push_back({&flooder.graph.nodes[1], &flooder.graph.nodes[0], any_u64<20>()});
    else
        out.push_back({&flooder.graph.nodes[0], &flooder.graph.nodes[1], any_u64<20>()});
}
static unsigned n_paths;
static size_t paths_given;
#define MWPM(m)                                      \
    OBJ(Mwpm, m);                                    \
    m.flooder.graph.nodes.resize(3);                 \
    m.flooder.graph.num_observables = 3;             \
    m.flooder.negative_weight_obs_mask = 0;          \
    m.flooder.negative_weight_sum = 0;               \
    m.flooder.queue.cur_time = any_time<900>();      \
    M = &m;                                          \
    created[0] = created[1] = created[2] = created[3] = 0; \
    n_created = n_steps = n_processed = n_resets = n_extracted = n_paths = 0; \
    paths_given = 0;                                 \
    time_of_creation = 0;                            \
    turned = false;                                  \
    script_len = 0;                                  \
    on_throw = 0
