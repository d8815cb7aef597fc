#pragma once
#include "mw.h"
inline bool child_is(const AltTreeEdge& c, const AltTreeNode* n, const DetectorNode* a, const DetectorNode* b, obs_int o) {
    return c.alt_tree_node == n && edge_is(c.edge, a, b, o);
}
inline bool no_parent(const AltTreeNode& n) {
    return child_is(n.parent, nullptr, nullptr, nullptr, 0);
}
inline bool matched(const GraphFillRegion& x, const GraphFillRegion* y, const DetectorNode* a, const DetectorNode* b, obs_int o) {
    return x.match.region == y && edge_is(x.match.edge, a, b, o);
}
inline bool out_and_still(const GraphFillRegion& x) {
    return x.alt_tree_node == nullptr && x.radius.is_frozen();
}
#define D(x) OBJ(DetectorNode, x)
#define R(x) OBJ(GraphFillRegion, x)
#define MW         \
    OBJ(Mwpm, mw); \
    mw.flooder.queue.cur_time = any_time<900>()
#define GROWING(r, k) r.radius = growing_r<k>()
#define SHRINKING(r, k) r.radius = shrinking_r<k>()
#define NOW mw.flooder.queue.cur_time
#define KEEPS(r, before) (r.radius == before.then_frozen_at_time(NOW))
inline bool in_cycle(const RegionEdge& e, const GraphFillRegion* r, const DetectorNode* a, const DetectorNode* b, obs_int o) {
    return e.region == r && edge_is(e.edge, a, b, o);
}
