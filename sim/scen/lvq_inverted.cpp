// A clustered index over compressed data: the clusters, and what is found in them.
#include "inverted.h"
#include "lvq_search.h"
#include "svs/extensions/inverted/lvq.h"

using namespace svsx::search;

namespace {
Floats rows(const Points& p) {
    Floats out;
    for (size_t i = 0; i < p.n; ++i) {
        out.emplace_back(p.row(i), p.row(i) + p.d);
    }
    return out;
}

// Distances are those between the vectors as stored, up to rounding.
template <typename M>
void check_stored(const Setup<M>& s, const Clusters& c, const std::vector<size_t>* reach,
                  const Floats& rec, const std::vector<double>& mid) {
    Quiet quiet;
    SIM_CHECK(c.size() == s.centroids.size(), "cluster-count", "%zu clusters, %zu centroids",
              c.size(), s.centroids.size());
    std::vector<std::vector<std::pair<double, uint32_t>>> where(rec.size());
    for (uint32_t i : s.centroids) {
        auto it = c.find(i);
        SIM_CHECK(it != c.end(), "missing-cluster", "no cluster for centroid %u", i);
        auto& v = it->second;
        SIM_CHECK(s.cp.max_cluster_size_ == 0 || v.size() <= s.cp.max_cluster_size_,
                  "cluster-too-large", "cluster of %u has %zu members, %zu allowed", i, v.size(),
                  s.cp.max_cluster_size_);
        std::set<uint32_t> seen;
        for (size_t j = 0; j < v.size(); ++j) {
            auto [m, dist] = v[j];
            SIM_CHECK(m < rec.size(), "bad-id", "member %u of cluster %u", m, i);
            SIM_CHECK(seen.insert(m).second, "duplicate-member", "%u is twice in the cluster of %u",
                      m, i);
            SIM_CHECK(c.count(m) == 0, "centroid-as-member", "centroid %u is in the cluster of %u",
                      m, i);
            double t = true_dist<M>(rec[m], rec[i]);
            SIM_CHECK(std::fabs(t - dist) <= slack(rec[m], rec[i], mid), "wrong-distance",
                      "member %u of cluster %u: distance %g, truth %g", m, i, (double)dist, t);
            SIM_CHECK(j == 0 || !M::better(dist, v[j - 1].second), "not-sorted",
                      "cluster of %u: member %zu is nearer than member %zu", i, j, j - 1);
            where[m].push_back({t, i});
        }
    }
    for (uint32_t i = 0; i < rec.size(); ++i) {
        if (c.count(i)) {
            continue;
        }
        auto& w = where[i];
        SIM_CHECK(!w.empty(), "lost-vector", "vector %u is in no cluster (%zu vectors, %zu centroids)",
                  i, rec.size(), c.size());
        SIM_CHECK(w.size() <= s.cp.max_replicas_ + 1, "too-many-replicas",
                  "vector %u is in %zu clusters, %zu replicas allowed", i, w.size(),
                  s.cp.max_replicas_);
        if (!reach) {
            continue;
        }
        double nearest = 0, sl = 0;
        bool first = true;
        for (size_t l : *reach) {
            double t = true_dist<M>(rec[i], rec[s.centroids[l]]);
            sl = std::max(sl, slack(rec[i], rec[s.centroids[l]], mid));
            if (first || M::better(t, nearest)) {
                nearest = t;
                first = false;
            }
        }
        double sign = M::better(0, 1) ? 1 : -1;
        double bound = loosen<M>(nearest + sign * sl, s.cp.epsilon_) + sign * sl;
        bool has = false;
        for (auto& [t, ct] : w) {
            SIM_CHECK(!M::better(bound, t), "assigned-too-far",
                      "vector %u is in the cluster of %u at %g; its nearest centroid is at %g "
                      "(epsilon %g)",
                      i, ct, t, nearest, s.cp.epsilon_);
            has |= std::fabs(t - nearest) <= 2 * sl;
        }
        if (s.cp.max_cluster_size_ == 0) {
            SIM_CHECK(has, "not-in-nearest",
                      "vector %u is not in the cluster of a nearest centroid (at %g)", i, nearest);
        }
    }
}

template <typename D, typename M, typename Strategy> void clustered() {
    Rng r("lvq-inverted");
    Setup<M> s(r);
    size_t n = s.pts.n, d = s.pts.d, nc = s.centroids.size();
    svs::threads::SequentialThreadPool one;
    D data = D::compress(to_floats<float>(rows(s.pts), d), one, r.chance(50) ? 0 : 32);
    auto rec = stored(data);
    std::vector<double> mid;
    for (auto e : data.get_centroid(0)) {
        mid.push_back(e);
    }
    auto qs = rows(gen_points(r, 1 + r.below(7), d, 60));
    schedule_faults();
    Armed armed;
    auto ids = std::span<const uint32_t>(s.centroids.data(), nc);
    auto primary =
        inv::build_primary_index(data, ids, s.bp, typename M::dist(), make_pool(s.threads));
    std::vector<float> any(qs[0].begin(), qs[0].end());
    auto reach = reachable(primary, nc, std::span<const float>(any));
    Clusters cl;
    std::optional<inv::Clustering<uint32_t>> kept;
    size_t rounds = 2;
    for (size_t i = 0; i < rounds; ++i) {
        auto cp = s.cp;
        if (i) {
            primary.set_num_threads(1);
            cp.batchsize(n);
        }
        try {
            auto got = inv::cluster_with(data, ids, cp, primary);
            auto c = contents(got);
            if (i) {
                SIM_CHECK(kept && c == cl, "schedule-dependent",
                          "the clustering differs from that of one thread: %s",
                          kept ? difference(cl, c).c_str() : "refused before");
            }
            cl = c;
            kept.emplace(std::move(got));
        } catch (const svs::ANNException& e) {
            SIM_CHECK(s.cp.max_cluster_size_ && reduced_too_far(e), "clustering-failed", "%s",
                      e.what());
            SIM_CHECK(!kept, "schedule-dependent", "accepted once, now: %s", e.what());
            SIM_CHECK(s.cp.max_cluster_size_ < n, "refused-attainable", "limit %zu of %zu vectors",
                      s.cp.max_cluster_size_, n);
        }
    }
    if (!kept) {
        probe("limit unattainable");
        return;
    }
    check_stored<M>(s, cl, s.roomy ? &reach : nullptr, rec, mid);
    auto clusters = Strategy()(data, *kept, svs::HugepageAllocator<std::byte>());
    inv::InvertedIndex index(std::move(primary), std::move(clusters), {ids.begin(), ids.end()},
                             make_pool(s.threads));
    size_t steps = knob("steps", 1, 4);
    std::map<std::tuple<size_t, size_t, size_t, double>, std::vector<std::pair<size_t, float>>> first;
    for (size_t st = 0; st < steps; ++st) {
        Rng o(r.next());
        if (!keep_op((uint32_t)st)) {
            continue;
        }
        if (o.chance(50)) {
            index.set_num_threads(o.below(6));
        }
        auto ask = [&](Rng q, Result& res, size_t& k, size_t& window, double& eps, size_t& lo) {
            k = q.chance(35) ? n + q.below(3) : 1 + q.below(std::min<size_t>(n, 8));
            window = q.chance(60) ? nc + q.below(3) : 1 + q.below(nc);
            eps = pick_eps(q);
            lo = q.below(qs.size());
            size_t hi = lo + 1 + q.below(qs.size() - lo);
            res = Result(hi - lo, k);
            spoil(res);
            inv::InvertedSearchParameters sp;
            sp.primary_parameters(
                vam::VamanaSearchParameters().buffer_config(vam::SearchBufferConfig(window)));
            sp.refinement_epsilon(eps);
            auto part = to_floats<float>(
                Floats(qs.begin() + (ptrdiff_t)lo, qs.begin() + (ptrdiff_t)hi), d);
            index.search(res.view(), part.cview(), sp);
        };
        auto judge = [&](const Result& res, size_t k, size_t window, double eps, size_t lo) {
            Quiet quiet;
            for (size_t i = 0; i < res.n_queries(); ++i) {
                auto& q = qs[lo + i];
                size_t f = sound<M>(res, i, q, rec, mid, [&](size_t id) { return id < n; });
                SIM_CHECK(f > 0, "no-result", "query %zu: nothing found", lo + i);
                std::vector<std::pair<size_t, float>> hits;
                std::set<size_t> seen;
                for (size_t j = 0; j < f; ++j) {
                    hits.push_back({res.index(i, j), res.distance(i, j)});
                    seen.insert(res.index(i, j));
                }
                auto [it, fresh] = first.try_emplace({lo + i, k, window, eps}, hits);
                SIM_CHECK(fresh || it->second == hits, "history-dependent",
                          "query %zu answered differently the second time", lo + i);
                if (k >= n) {
                    std::set<size_t> u;
                    for (size_t id : seen) {
                        auto c = cl.find((uint32_t)id);
                        if (c != cl.end()) {
                            u.insert(id);
                            for (auto& m : c->second) {
                                u.insert(m.first);
                            }
                        }
                    }
                    SIM_CHECK(u == seen, "cluster-mixed-up",
                              "query %zu: %zu results, the clusters of the centroids among them "
                              "hold %zu vectors",
                              lo + i, seen.size(), u.size());
                    probe("whole clusters");
                }
                if (window < nc) {
                    continue;
                }
                double sl = 0, nearest = 0;
                for (auto& x : rec) {
                    sl = std::max(sl, slack(q, x, mid));
                }
                for (size_t j = 0; j < reach.size(); ++j) {
                    double t = true_dist<M>(q, rec[s.centroids[reach[j]]]);
                    if (j == 0 || M::better(t, nearest)) {
                        nearest = t;
                    }
                }
                // Away from the better side by what rounding can do.
                double sign = M::better(0, 1) ? 1 : -1;
                double wide = loosen<M>(nearest + sign * sl, eps) + sign * sl;
                double tight = loosen<M>(nearest - sign * sl, eps) - sign * sl;
                std::set<size_t> may, must;
                for (size_t l : reach) {
                    uint32_t id = s.centroids[l];
                    double t = true_dist<M>(q, rec[id]);
                    for (auto [set, cut] : {std::pair{&may, wide}, std::pair{&must, tight}}) {
                        if (!M::better(cut, t)) {
                            set->insert(id);
                            for (auto& m : cl.at(id)) {
                                set->insert(m.first);
                            }
                        }
                    }
                }
                for (size_t id : seen) {
                    SIM_CHECK(may.count(id), "too-far",
                              "query %zu: %zu is in no cluster within reach", lo + i, id);
                }
                std::vector<double> t;
                for (size_t id : must) {
                    t.push_back(true_dist<M>(q, rec[id]));
                }
                std::sort(t.begin(), t.end(), [](double a, double b) { return M::better(a, b); });
                SIM_CHECK(f >= std::min(k, t.size()), "too-few",
                          "query %zu: %zu results of %zu, %zu vectors in the clusters within reach",
                          lo + i, f, k, t.size());
                for (size_t j = 0; j < std::min(f, t.size()); ++j) {
                    SIM_CHECK(!M::better(t[j] + 2 * sign * sl, res.distance(i, j)), "not-nearest",
                              "query %zu position %zu: %g, the clusters within reach have %g", lo + i,
                              j, res.distance(i, j), t[j]);
                }
                probe("exact over the clusters");
            }
        };
        Result ra(1, 1), rb(1, 1);
        size_t ka, wa, la, kb, wb, lb;
        double ea, eb;
        uint64_t sa = o.next(), sb = o.next();
        if (o.chance(30)) {
            std::thread other([&] { ask(Rng(sb), rb, kb, wb, eb, lb); });
            ask(Rng(sa), ra, ka, wa, ea, la);
            other.join();
            judge(rb, kb, wb, eb, lb);
        } else {
            ask(Rng(sa), ra, ka, wa, ea, la);
        }
        judge(ra, ka, wa, ea, la);
        nontrivial();
    }
}
template <typename M> void any_kind() {
    switch (knob("kind", 0, 3)) {
        case 0: clustered<L8, M, inv::SparseStrategy>(); break;
        case 1: clustered<L4, M, inv::DenseStrategy>(); break;
        case 2: clustered<L4T, M, inv::SparseStrategy>(); break;
        default: clustered<L8, M, inv::DenseStrategy>();
    }
}
} // namespace
SCENARIO(lvq_clusters) {
    if (flag("ip", 40)) {
        any_kind<IP>();
    } else {
        any_kind<L2>();
    }
}
