#include "inverted.h"
SCENARIO(inv_cluster) { clustering<L2, float>(); }
SCENARIO(inv_search) { searching<L2, float, inv::SparseStrategy>(); }
SCENARIO(inv_random) {
    // Centroids picked by the index itself.
    Rng r("inv-random");
    Setup<L2> s(r);
    size_t n = s.pts.n;
    s.cp.percent_centroids_ = svs::lib::Percent(knob("percent", 1, 95) / 100.0);
    size_t nc = (size_t)std::floor(n * s.cp.percent_centroids_.value());
    nc = std::max<size_t>(nc, 1);
    Armed armed;
    schedule_faults();
    Clusters cl;
    try {
        auto ix = inv::auto_build(inv::InvertedBuildParameters(s.cp, s.bp), to_data<float>(s.pts),
                              svs::distance::DistanceL2(), make_pool(s.threads), inv::SparseStrategy(),
                              inv::PickRandomly(), [&](const auto& c) { cl = contents(c); });
    } catch (const svs::ANNException& e) {
        if (s.cp.max_cluster_size_ && reduced_too_far(e)) {
            return;
        }
        SIM_CHECK(false, "build-failed", "%s", e.what());
        return;
    }
    s.centroids.clear();
    for (auto& kv : cl) {
        s.centroids.push_back(kv.first);
    }
    SIM_CHECK(s.centroids.size() == nc, "centroid-count", "%zu picked, %zu asked of %zu", s.centroids.size(), nc, n);
    check_clusters<L2>(s, cl, nullptr);
    nontrivial();
}
