// Clustered index: assignment of every vector, search over the clusters.
#include "svsx.h"
#include "svs/index/inverted/memory_based.h"

using namespace svsx;
namespace inv = svs::index::inverted;
namespace vam = svs::index::vamana;

namespace {
using Clusters = std::map<uint32_t, std::vector<std::pair<uint32_t, float>>>;

Clusters contents(const inv::Clustering<uint32_t>& c) {
    Clusters out;
    for (const auto& kv : c) {
        SIM_CHECK(kv.first == kv.second.centroid(), "mislabelled-cluster",
                  "cluster of %u calls itself %u", kv.first, kv.second.centroid());
        auto& v = out[kv.first];
        for (const auto& e : kv.second.elements()) {
            v.push_back({e.id(), e.distance()});
        }
    }
    return out;
}

template <typename M> double loosen(double nearest, double eps) {
    if constexpr (std::is_same_v<M, L2>) {
        return nearest * (1 + eps);
    } else {
        return nearest > 0 ? nearest / (1 + eps) : nearest * (1 + eps);
    }
}

// Powers of two keep the bounds exact.
double pick_eps(Rng& r) {
    static const double e[] = {0, 0, 1, 1, 3, 7, 63};
    return e[r.below(7)];
}

struct Given {
    std::vector<uint32_t> ids;
    bool* used;
    template <typename D>
    std::vector<uint32_t, svs::lib::Allocator<uint32_t>>
    operator()(const D&, const inv::ClusteringParameters&, size_t) const {
        *used = true;
        return {ids.begin(), ids.end()};
    }
};

template <typename M> struct Setup {
    Points pts;
    std::vector<uint32_t> centroids; // sorted
    inv::ClusteringParameters cp;
    vam::VamanaBuildParameters bp;
    size_t threads;
    bool roomy; // window covers all centroids

    explicit Setup(Rng& r) {
        size_t n = knob("n", 2, knob("big", 0, 3) == 0 ? 80 : 26), d = knob("dim", 1, 6);
        pts = gen_points(r, n, d, knob("spread", 0, 1) ? 3 : 60, 10);
        if (flag("positive", 30)) {
            for (auto& x : pts.v) {
                x = std::abs(x) + 1;
            }
        }
        size_t nc = knob("centroids", 1, std::max<size_t>(1, n / 2));
        auto ids = iota_ids(n);
        for (size_t i = 0; i < nc; ++i) {
            std::swap(ids[i], ids[i + r.below(n - i)]);
        }
        centroids.assign(ids.begin(), ids.begin() + nc);
        std::sort(centroids.begin(), centroids.end());
        roomy = flag("roomy", 70);
        cp.percent_centroids_ = svs::lib::Percent(0.3);
        cp.epsilon(pick_eps(r))
            .max_replicas(r.below(5))
            .max_cluster_size(r.chance(35) ? 1 + r.below(n) : 0)
            .seed(r.next())
            .batchsize(1 + r.below(n + 3))
            .search_window_size(roomy ? nc + r.below(4) : 1 + r.below(nc))
            .num_intermediate_results(1 + r.below(nc + 3))
            .refinement_alpha(r.chance(50) ? 1.0 : 0.5 + 0.25 * r.below(6));
        bp = vam::VamanaBuildParameters{std::is_same_v<M, L2> ? 1.2f : 0.95f, 2 + r.below(6),
                                        1 + r.below(12), 50, 0, true};
        bp.max_candidate_pool_size = bp.window_size + r.below(10);
        bp.prune_to = r.chance(50) ? bp.graph_max_degree : 1 + r.below(bp.graph_max_degree);
        threads = knob("threads", 1, 5);
    }
};

// Which centroids the primary index can reach, by local number (nothing is ever dropped from a
// search window that holds all of them).
template <typename Index>
std::vector<size_t> reachable(const Index& ix, size_t nc, std::span<const float> q) {
    auto sp = vam::VamanaSearchParameters();
    sp.buffer_config(vam::SearchBufferConfig(nc + 1));
    auto scratch = ix.scratchspace(sp);
    ix.search(q, scratch);
    std::vector<size_t> out;
    for (size_t i = 0; i < scratch.buffer.size(); ++i) {
        out.push_back(scratch.buffer[i].id());
    }
    std::sort(out.begin(), out.end());
    return out;
}

// What must hold of any clustering of the data.
template <typename M>
void check_clusters(const Setup<M>& s, const Clusters& c, const std::vector<size_t>* reach) {
    Quiet quiet;
    const auto& p = s.pts;
    SIM_CHECK(c.size() == s.centroids.size(), "cluster-count", "%zu clusters, %zu centroids",
              c.size(), s.centroids.size());
    std::vector<std::vector<std::pair<double, uint32_t>>> where(p.n);
    for (uint32_t i : s.centroids) {
        auto it = c.find(i);
        SIM_CHECK(it != c.end(), "missing-cluster", "no cluster for centroid %u", i);
        const auto& v = it->second;
        SIM_CHECK(s.cp.max_cluster_size_ == 0 || v.size() <= s.cp.max_cluster_size_,
                  "cluster-too-large", "cluster of %u has %zu members, %zu allowed", i, v.size(),
                  s.cp.max_cluster_size_);
        std::set<uint32_t> seen;
        for (size_t j = 0; j < v.size(); ++j) {
            SIM_CHECK(v[j].first < p.n, "bad-id", "member %u of cluster %u", v[j].first, i);
            SIM_CHECK(seen.insert(v[j].first).second, "duplicate-member",
                      "%u is twice in the cluster of %u", v[j].first, i);
            SIM_CHECK(c.count(v[j].first) == 0, "centroid-as-member",
                      "centroid %u is a member of the cluster of %u", v[j].first, i);
            double t = M::exact(p.row(v[j].first), p.row(i), p.d);
            SIM_CHECK(t == v[j].second, "wrong-distance",
                      "member %u of cluster %u: distance %g, truth %g", v[j].first, i,
                      (double)v[j].second, t);
            SIM_CHECK(j == 0 || !M::better(v[j].second, v[j - 1].second), "not-sorted",
                      "cluster of %u: member %zu is nearer than member %zu", i, j, j - 1);
            where[v[j].first].push_back({t, i});
        }
    }
    for (uint32_t i = 0; i < p.n; ++i) {
        if (c.count(i)) {
            continue;
        }
        auto& w = where[i];
        SIM_CHECK(!w.empty(), "lost-vector", "vector %u is in no cluster (%zu vectors, %zu centroids)",
                  i, p.n, c.size());
        SIM_CHECK(w.size() <= s.cp.max_replicas_ + 1, "too-many-replicas",
                  "vector %u is in %zu clusters, %zu replicas allowed", i, w.size(),
                  s.cp.max_replicas_);
        if (!reach) {
            continue;
        }
        double nearest = 0;
        bool first = true;
        for (size_t l : *reach) {
            double t = M::exact(p.row(i), p.row(s.centroids[l]), p.d);
            if (first || M::better(t, nearest)) {
                nearest = t;
                first = false;
            }
        }
        double bound = loosen<M>(nearest, s.cp.epsilon_);
        bool has_nearest = false;
        for (auto& [t, ct] : w) {
            SIM_CHECK(!M::better(bound, t), "assigned-too-far",
                      "vector %u is in the cluster of %u at %g; its nearest centroid is at %g "
                      "(epsilon %g)",
                      i, ct, t, nearest, s.cp.epsilon_);
            has_nearest |= t == nearest;
        }
        if (s.cp.max_cluster_size_ == 0) {
            SIM_CHECK(has_nearest, "not-in-nearest",
                      "vector %u is not in the cluster of a nearest centroid (at %g)", i, nearest);
        }
    }
}

std::string difference(const Clusters& a, const Clusters& b) {
    for (auto& [i, v] : a) {
        auto it = b.find(i);
        if (it == b.end()) {
            return "cluster of " + std::to_string(i) + " only in one";
        }
        if (it->second != v) {
            return "cluster of " + std::to_string(i) + ": " + std::to_string(v.size()) + " and " +
                   std::to_string(it->second.size()) + " members";
        }
    }
    return "number of clusters";
}

bool reduced_too_far(const svs::ANNException& e) {
    return std::string(e.what()).find("sufficiently reduce") != std::string::npos;
}

// The clustering depends on the primary index only, not on threads, batches or schedule.
template <typename M, typename T> void clustering() {
    Rng r("clustering");
    Setup<M> s(r);
    auto data = to_data<T>(s.pts);
    schedule_faults();
    Armed armed;
    auto ids = std::span<const uint32_t>(s.centroids.data(), s.centroids.size());
    auto index = inv::build_primary_index(data, ids, s.bp, typename M::dist(), make_pool(s.threads));
    auto reach = reachable(index, s.centroids.size(), to_data<float>(s.pts).get_datum(0));
    if (reach.size() < s.centroids.size()) {
        probe("unreachable centroids");
    }
    std::vector<Clusters> got;
    bool refused = false;
    size_t rounds = 2 + knob("rounds", 0, 1);
    for (size_t i = 0; i < rounds; ++i) {
        auto cp = s.cp;
        if (i) {
            // The last round is the sequential definition.
            size_t t = i + 1 == rounds ? 1 : 1 + r.below(5);
            index.set_num_threads(t);
            cp.batchsize(i + 1 == rounds ? s.pts.n : 1 + r.below(s.pts.n + 3));
        }
        log("cluster with %zu threads, batches of %zu", index.get_num_threads(), cp.batchsize_);
        try {
            got.push_back(contents(inv::cluster_with(data, ids, cp, index)));
            SIM_CHECK(!refused, "schedule-dependent", "refused once, accepted now");
        } catch (const svs::ANNException& e) {
            SIM_CHECK(s.cp.max_cluster_size_ && reduced_too_far(e), "clustering-failed", "%s", e.what());
            SIM_CHECK(got.empty(), "schedule-dependent", "accepted once, now: %s", e.what());
            refused = true;
        }
    }
    if (refused) {
        // Some vector set must really be without an alternative: a limit no smaller than the
        // number of vectors is always attainable.
        SIM_CHECK(s.cp.max_cluster_size_ < s.pts.n, "refused-attainable", "limit %zu of %zu vectors",
                  s.cp.max_cluster_size_, s.pts.n);
        probe("limit unattainable");
        return;
    }
    check_clusters<M>(s, got.back(), s.roomy ? &reach : nullptr);
    for (size_t i = 0; i + 1 < got.size(); ++i) {
        SIM_CHECK(got[i] == got.back(), "schedule-dependent",
                  "the clustering differs from that of one thread: %s",
                  difference(got[i], got.back()).c_str());
    }
    probe(s.roomy ? "exact nearest known" : "narrow window");
    nontrivial();
}

template <typename M, typename T, typename Strategy> void searching() {
    Rng r("inv-search");
    Setup<M> s(r);
    size_t n = s.pts.n, d = s.pts.d;
    Points qs = gen_points(r, knob("queries", 1, 7), d, knob("spread", 0, 1) ? 3 : 60);
    for (size_t i = 0; i < qs.n; ++i) {
        if (r.chance(40)) { // a stored vector or a centroid
            std::copy_n(s.pts.row(r.chance(50) ? r.below(n) : s.centroids[r.below(s.centroids.size())]),
                        d, qs.v.data() + i * d);
        }
    }
    auto qdata = to_data<float>(qs);
    schedule_faults();
    Armed armed;
    Clusters cl;
    bool used = false;
    // The order in which a picker names the centroids is its own business.
    auto order = s.centroids;
    if (flag("unsorted", 30)) {
        for (size_t i = order.size(); i > 1; --i) {
            std::swap(order[i - 1], order[r.below(i)]);
        }
    }
    auto capture = [&](const auto& c) { cl = contents(c); };
    auto build = [&] {
        return inv::auto_build(inv::InvertedBuildParameters(s.cp, s.bp), to_data<T>(s.pts),
                               typename M::dist(), make_pool(s.threads), Strategy(),
                               Given{order, &used}, capture);
    };
    using Index = decltype(build());
    std::unique_ptr<Index> ix;
    // Put together by hand, what the primary index can reach is known.
    bool by_hand = flag("by_hand", 60);
    std::vector<size_t> reach;
    try {
        if (by_hand) {
            auto data = to_data<T>(s.pts);
            auto ids = std::span<const uint32_t>(s.centroids.data(), s.centroids.size());
            auto primary =
                inv::build_primary_index(data, ids, s.bp, typename M::dist(), make_pool(s.threads));
            reach = reachable(primary, ids.size(), qdata.get_datum(0));
            auto c = inv::cluster_with(data, ids, s.cp, primary);
            capture(c);
            ix.reset(new Index(std::move(primary),
                               Strategy()(data, c, svs::HugepageAllocator<std::byte>()),
                               {ids.begin(), ids.end()}, make_pool(s.threads)));
        } else {
            ix.reset(new Index(build()));
        }
    } catch (const svs::ANNException& e) {
        SIM_CHECK(s.cp.max_cluster_size_ && reduced_too_far(e), "build-failed", "%s", e.what());
        probe("limit unattainable");
        return;
    }
    check_clusters<M>(s, cl, nullptr);
    size_t nc = s.centroids.size();
    size_t steps = knob("steps", 1, 4);
    // First answer for (query, neighbours, window, epsilon).
    std::map<std::tuple<size_t, size_t, size_t, double>, std::vector<Hit>> first;
    for (size_t st = 0; st < steps; ++st) {
        Rng o(r.next());
        if (!keep_op((uint32_t)st)) {
            continue;
        }
        if (o.chance(50)) {
            ix->set_num_threads(o.below(6));
        }
        struct Call {
            size_t k, window, lo, hi;
            double eps;
            bool set;
            svs::QueryResult<size_t> res;
        };
        auto gen = [&](bool can_set) {
            Call c{o.chance(35) ? n + o.below(3) : 1 + o.below(std::min<size_t>(n, 8)),
                   o.chance(60) ? nc + o.below(3) : 1 + o.below(nc),
                   0, 0, pick_eps(o), can_set && o.chance(50), svs::QueryResult<size_t>(1, 1)};
            c.lo = o.below(qs.n);
            c.hi = c.lo + 1 + o.below(qs.n - c.lo);
            c.res = svs::QueryResult<size_t>(c.hi - c.lo, c.k);
            for (size_t i = 0; i < c.hi - c.lo; ++i) {
                for (size_t j = 0; j < c.k; ++j) {
                    c.res.index(i, j) = 0;
                    c.res.distance(i, j) = -7777;
                }
            }
            return c;
        };
        auto run = [&](Call& c) {
            log("search queries [%zu, %zu), %zu neighbours, window %zu, epsilon %g, %zu threads%s",
                c.lo, c.hi, c.k, c.window, c.eps, ix->get_num_threads(), c.set ? ", set before" : "");
            inv::InvertedSearchParameters sp;
            sp.primary_parameters(vam::VamanaSearchParameters().buffer_config(
                vam::SearchBufferConfig(c.window)));
            sp.refinement_epsilon(c.eps);
            if (c.set) {
                ix->set_search_parameters(sp);
                SIM_CHECK(ix->get_search_parameters() == sp, "parameters", "not as set");
            }
            std::vector<size_t> ids(c.hi - c.lo);
            std::iota(ids.begin(), ids.end(), c.lo);
            Points part;
            part.n = ids.size();
            part.d = d;
            part.v.assign(qs.row(c.lo), qs.row(c.lo) + part.n * d);
            auto q = to_data<float>(part);
            ix->search(c.res.view(), q.cview(), sp);
        };
        auto judge = [&](Call& c) {
            Quiet quiet;
            for (size_t i = c.lo; i < c.hi; ++i) {
                std::vector<Hit> hits;
                std::set<size_t> seen;
                for (size_t j = 0; j < c.k; ++j) {
                    size_t id = c.res.index(i - c.lo, j);
                    double dist = c.res.distance(i - c.lo, j);
                    if (id >= n) {
                        for (; j < c.k; ++j) {
                            SIM_CHECK(c.res.index(i - c.lo, j) >= n, "gap", "a result after no result");
                        }
                        break;
                    }
                    double t = M::exact(s.pts.row(id), qs.row(i), d);
                    SIM_CHECK(t == dist, "wrong-distance", "query %zu, identifier %zu: %g, truth %g",
                              i, id, dist, t);
                    SIM_CHECK(seen.insert(id).second, "duplicate-id", "query %zu returned %zu twice",
                              i, id);
                    SIM_CHECK(hits.empty() || !M::better(dist, hits.back().dist), "not-sorted",
                              "query %zu: place %zu is nearer than place %zu", i, j, j - 1);
                    hits.push_back({id, dist});
                    note(id);
                }
                SIM_CHECK(!hits.empty(), "no-result", "query %zu: nothing found among %zu vectors "
                          "(window %zu, epsilon %g)", i, n, c.window, c.eps);
                auto [it, fresh] = first.try_emplace({i, c.k, c.window, c.eps}, hits);
                SIM_CHECK(fresh || it->second == hits, "history-dependent",
                          "query %zu answered differently the second time", i);
                if (!fresh) {
                    probe("asked again");
                }
                if (c.k >= n) {
                    // Every visited cluster is there completely, and nothing else.
                    std::set<size_t> u;
                    for (auto& h : hits) {
                        auto it = cl.find((uint32_t)h.id);
                        if (it != cl.end()) {
                            u.insert(h.id);
                            for (auto& m : it->second) {
                                u.insert(m.first);
                            }
                        }
                    }
                    SIM_CHECK(u == seen, "cluster-mixed-up",
                              "query %zu: %zu results, the clusters of the centroids among them hold "
                              "%zu vectors",
                              i, seen.size(), u.size());
                    probe("whole clusters");
                }
                if (c.window < nc || !by_hand) {
                    continue;
                }
                std::vector<Hit> near;
                for (size_t l : reach) {
                    near.push_back({s.centroids[l],
                                    M::exact(s.pts.row(s.centroids[l]), qs.row(i), d)});
                }
                std::sort(near.begin(), near.end(),
                          [](const Hit& a, const Hit& b) { return M::better(a.dist, b.dist); });
                double cut = loosen<M>(near[0].dist, c.eps);
                bool same = false;
                size_t want = 0;
                for (int excl = 0; excl < 2; ++excl) { // at the bound itself, either is fine
                    std::set<size_t> u;
                    for (auto& h : near) {
                        if (h.dist == near[0].dist ||
                            (excl ? M::better(h.dist, cut) : !M::better(cut, h.dist))) {
                            u.insert(h.id);
                            for (auto& m : cl.at((uint32_t)h.id)) {
                                u.insert(m.first);
                            }
                        }
                    }
                    auto w = brute<M>(s.pts, qs.row(i), {u.begin(), u.end()});
                    w.resize(std::min(w.size(), c.k));
                    same |= w.size() == hits.size() &&
                            std::equal(w.begin(), w.end(), hits.begin(),
                                       [](auto& a, auto& b) { return a.dist == b.dist; });
                    want = std::max(want, w.size());
                }
                SIM_CHECK(same, "not-nearest",
                          "query %zu: %zu results, not the nearest %zu of the clusters within reach "
                          "(nearest centroid at %g, epsilon %g, window %zu, %zu centroids)",
                          i, hits.size(), want, near[0].dist, c.eps, c.window, nc);
                probe("exact over the clusters");
            }
        };
        if (o.chance(25)) {
            auto a = gen(false), b = gen(false);
            std::thread other([&] { run(b); });
            run(a);
            other.join();
            judge(a);
            judge(b);
            probe("two callers");
        } else {
            auto a = gen(true);
            run(a);
            judge(a);
        }
        nontrivial();
    }
}
} // namespace
