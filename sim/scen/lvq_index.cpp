// Indexes over compressed data: graph search, exhaustive search, building, histories of updates.
#include "lvq_search.h"
#include "svs/extensions/flat/lvq.h"
#include "svs/extensions/vamana/lvq.h"
#include "svs/index/flat/flat.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include <map>

using namespace svsx;
using namespace svsx::search;
namespace fl = svs::index::flat;

namespace {
template <typename D> std::vector<double> centroid(const D& x) {
    auto c = x.get_centroid(0);
    return {c.begin(), c.end()};
}

// ---- fixed data ----------------------------------------------------------------------------
template <typename D, typename M> void searching() {
    Rng r("world");
    size_t n = 1 + knob("n", 0, 50), d = 1 + r.below(r.chance(70) ? 20 : 70);
    size_t degree = 1 + knob("degree", 0, 8);
    auto v = gen_floats(r, n, d, 40), qs = gen_floats(r, 2 + r.below(7), d, 40);
    size_t align = r.chance(50) ? 0 : 32, ep = r.below(n);
    auto g = random_graph(r, n, degree);
    auto reachable = reach(g, ep);
    svs::threads::SequentialThreadPool one;
    auto data = [&] { return D::compress(to_floats<float>(v, d), one, align); };
    D x = data();
    auto rec = stored(x);
    auto c = centroid(x);
    auto copy = [&] {
        Graph h(n, degree);
        for (uint32_t i = 0; i < n; ++i) {
            h.replace_node(i, g.get_node(i));
        }
        return h;
    };
    using Vam = va::VamanaIndex<Graph, D, typename M::dist>;
    using Flat = fl::FlatIndex<D, typename M::dist>;
    schedule_faults();
    arm(true);
    Vam ix(copy(), data(), (uint32_t)ep, typename M::dist(), make_pool(1 + knob("threads", 0, 3)));
    Vam alone(copy(), data(), (uint32_t)ep, typename M::dist(), make_pool(1));
    Flat all(data(), typename M::dist(), make_pool(1 + knob("threads", 0, 3)));
    auto once = [&](Rng q) {
        std::vector<size_t> pick(1 + q.below(6));
        Floats batch;
        for (auto& p : pick) {
            p = q.below(qs.size());
            batch.push_back(qs[p]);
        }
        auto qd = to_floats<float>(batch, d);
        size_t k = 1 + q.below(q.chance(70) ? 6 : n + 3);
        Result res(batch.size(), k);
        spoil(res);
        auto known = [&](size_t id) { return id < n; };
        if (q.chance(30)) {
            fl::FlatParameters par{q.chance(30) ? 0 : 1 + q.below(n + 2), q.below(4)};
            all.search(res.view(), qd.cview(), par);
            Quiet quiet;
            for (size_t i = 0; i < batch.size(); ++i) {
                size_t f = sound<M>(res, i, batch[i], rec, c, known);
                SIM_CHECK(f == std::min(k, n), "too-few", "exhaustive search: %zu of %zu", f, n);
                std::vector<double> t;
                double sl = 0;
                for (auto& y : rec) {
                    t.push_back(true_dist<M>(batch[i], y));
                    sl = std::max(sl, slack(batch[i], y, c));
                }
                std::sort(t.begin(), t.end(), [](double a, double b) { return M::better(a, b); });
                for (size_t j = 0; j < f; ++j) {
                    SIM_CHECK(std::fabs(t[j] - res.distance(i, j)) <= 2 * sl, "not-nearest",
                              "query %zu position %zu: distance %g, the nearest has %g", i, j,
                              res.distance(i, j), t[j]);
                }
            }
            return;
        }
        auto sp = draw(q, n);
        ix.search(res.view(), qd, sp);
        Result again(batch.size(), k);
        spoil(again);
        // Each query by itself.
        for (size_t i = 0; i < batch.size(); ++i) {
            Result one_row(1, k);
            spoil(one_row);
            auto qi = to_floats<float>({batch[i]}, d);
            ix.search(one_row.view(), qi, sp);
            for (size_t j = 0; j < k; ++j) {
                again.index(i, j) = one_row.index(0, j);
                again.distance(i, j) = one_row.distance(0, j);
            }
        }
        Quiet quiet;
        same_answers(res, again, "in a batch and by itself");
        for (size_t i = 0; i < batch.size(); ++i) {
            size_t f = sound<M>(res, i, batch[i], rec, c, known);
            size_t w = sp.buffer_config_.get_search_window_size();
            if (sp.buffer_config_.get_total_capacity() < k) {
                w = k;
            }
            SIM_CHECK(f >= std::min({k, w, reachable.size()}), "too-few",
                      "query %zu: %zu results, %zu can be reached, %zu asked for, window %zu", i, f,
                      reachable.size(), k, w);
            if (w >= reachable.size() && k >= reachable.size()) {
                probe("everything reachable");
            }
        }
        note(res.index(0, 0));
    };
    uint32_t nops = (uint32_t)knob("nops", 1, 5);
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        if (q.chance(30)) {
            size_t t = 1 + q.below(4);
            ix.set_num_threads(t);
            all.set_num_threads(t);
        }
        if (q.chance(30)) {
            std::thread other([&, s = q.next()] { once(Rng(s)); });
            once(Rng(q.next()));
            other.join();
        } else {
            once(Rng(q.next()));
        }
        // The same with one thread.
        auto sp = draw(q, n);
        size_t k = 1 + q.below(5);
        auto qd = to_floats<float>(qs, d);
        Result a(qs.size(), k), b(qs.size(), k);
        ix.search(a.view(), qd, sp);
        alone.search(b.view(), qd, sp);
        Quiet quiet;
        same_answers(a, b, "many threads and one");
        nontrivial();
    }
    arm(false);
}

// Building a graph over compressed data.
template <typename D, typename M> void building() {
    Rng r("world");
    size_t n = 2 + knob("n", 0, 40), d = 1 + r.below(20);
    size_t deg = 1 + knob("degree", 0, 7), slackness = knob("prune_slack", 0, 3);
    auto v = gen_floats(r, n, d, 40);
    va::VamanaBuildParameters bp(std::is_same_v<M, L2> ? 1.2f : 0.95f, deg,
                                 1 + knob("window", 0, 12), 1 + knob("pool", 0, 30),
                                 deg > slackness ? deg - slackness : 1, knob("history", 0, 1));
    svs::threads::SequentialThreadPool one;
    D x = D::compress(to_floats<float>(v, d), one, 0);
    auto rec = stored(x);
    auto c = centroid(x);
    schedule_faults();
    Armed armed;
    auto ix = va::auto_build(bp, std::move(x), typename M::dist(), make_pool(1 + knob("threads", 0, 3)));
    ix.save("config", "graph", "data");
    auto g = svs::lib::load_from_disk<Graph>("graph");
    {
        Quiet quiet;
        for (size_t i = 0; i < n; ++i) {
            auto l = g.get_node(i);
            std::set<uint32_t> s;
            SIM_CHECK(l.size() <= deg, "degree", "node %zu has %zu links", i, l.size());
            for (auto j : l) {
                SIM_CHECK(j < n && j != i && s.insert(j).second, "bad-link",
                          "node %zu: link to %u is itself, repeated or unknown", i, j);
            }
            note_bytes(l.data(), l.size() * 4);
        }
    }
    // Every vector is found where it is reached.
    auto again = va::auto_assemble(
        "config", svs::lib::Lazy([] { return svs::lib::load_from_disk<Graph>("graph"); }),
        svs::lib::Lazy([] { return svs::lib::load_from_disk<D>("data"); }), typename M::dist(),
        size_t{1});
    auto qs = gen_floats(r, 4, d, 40);
    auto qd = to_floats<float>(qs, d);
    auto sp = draw(r, n);
    Result a(4, 3), b(4, 3);
    spoil(a);
    spoil(b);
    ix.search(a.view(), qd, sp);
    again.search(b.view(), qd, sp);
    Quiet quiet;
    same_answers(a, b, "before and after saving");
    for (size_t i = 0; i < 4; ++i) {
        sound<M>(a, i, qs[i], rec, c, [&](size_t id) { return id < n; });
    }
    nontrivial();
}

// ---- changing data -------------------------------------------------------------------------
size_t g_block = 14;
using GData = svs::data::BlockedData<uint32_t, svs::Dynamic, svs::lib::Allocator<uint32_t>>;
class HGraph : public svs::graphs::SimpleGraphBase<uint32_t, GData> {
  public:
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    using data_type = GData;
    static auto blocks() {
        return svs::data::Blocked<svs::lib::Allocator<uint32_t>>(
            svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(g_block)});
    }
    HGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, blocks()} {}
    explicit HGraph(data_type data)
        : parent_type{std::move(data)} {}
    explicit HGraph(parent_type&& p)
        : parent_type(std::move(p)) {}
    void unsafe_resize(size_t n) { parent_type::data_.resize(n); }
    static HGraph load(const svs::lib::LoadTable& table) {
        auto lazy = svs::lib::Lazy([](data_type d) { return HGraph(std::move(d)); });
        return parent_type::load(table, lazy, blocks());
    }
};
using Bytes = svs::data::Blocked<svs::lib::Allocator<std::byte>>;
using B8 = lvq::LVQDataset<8, 0, Dyn_, Seq, Bytes>;
using B4T = lvq::LVQDataset<4, 0, Dyn_, lvq::Turbo<16, 8>, Bytes>;
using B48 = lvq::LVQDataset<4, 8, Dyn_, Seq, Bytes>;
Bytes bytes(size_t log2) {
    return Bytes(svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(log2)});
}

// In a `scarce` history memory runs out during some of the operations.
template <typename D, typename M> void updates(bool scarce = false) {
    Rng r("world");
    using Index = va::MutableVamanaIndex<HGraph, D, typename M::dist>;
    size_t d = 1 + r.below(20);
    size_t block = 8 + knob("block", 0, 4);
    g_block = 7 + knob("graph_block", 0, 5);
    size_t deg = 1 + knob("degree", 0, 8);
    va::VamanaBuildParameters bp(std::is_same_v<M, L2> ? 1.2f : 0.95f, deg,
                                 1 + knob("window", 0, 12), 1 + knob("pool", 0, 30), deg,
                                 knob("history", 0, 1));
    struct Point {
        std::vector<double> was, now;
    };
    std::map<size_t, Point> live;
    std::set<size_t> named;
    auto fresh = [&](Rng& q) {
        for (;;) {
            size_t id = q.chance(60) ? q.below(60) : q.next() >> 1;
            if (!live.count(id)) {
                return id;
            }
        }
    };
    size_t n0 = 1 + knob("n", 0, 20);
    auto v = gen_floats(r, n0, d, 40);
    std::vector<size_t> ids;
    for (size_t i = 0; i < n0; ++i) {
        ids.push_back(fresh(r));
        live[ids[i]].was = v[i];
        named.insert(ids[i]);
    }
    svs::threads::SequentialThreadPool one;
    schedule_faults();
    arm(true);
    D data = D::compress(to_floats<float>(v, d), one, 0, bytes(block));
    auto c = centroid(data);
    auto ix = std::make_unique<Index>(bp, std::move(data), ids, typename M::dist(),
                                      1 + knob("threads", 0, 3));
    auto values = [&](const std::vector<size_t>& which) {
        svs::data::SimpleData<float> out(which.size(), d);
        std::vector<uint64_t> w(which.begin(), which.end());
        ix->reconstruct_at(out.view(), std::span<const uint64_t>(w));
        Floats f;
        Quiet quiet;
        for (size_t i = 0; i < w.size(); ++i) {
            auto s = out.get_datum(i);
            f.emplace_back(s.begin(), s.end());
        }
        return f;
    };
    auto check = [&](const char* when) {
        std::vector<size_t> all;
        for (auto& [id, p] : live) {
            all.push_back(id);
        }
        auto f = values(all);
        Quiet quiet;
        SIM_CHECK(ix->size() == live.size(), "size", "after %s: size() is %zu, %zu live", when,
                  ix->size(), live.size());
        for (size_t id : named) {
            SIM_CHECK(ix->has_id(id) == (live.count(id) != 0), "membership",
                      "after %s: has_id(%zu) is %d", when, id, (int)ix->has_id(id));
        }
        for (size_t i = 0; i < all.size(); ++i) {
            auto& p = live[all[i]];
            if (p.now.empty()) {
                double ok = allowance(p.was, c, D::primary_bits, D::residual_bits, false);
                for (size_t k = 0; k < d; ++k) {
                    SIM_CHECK(std::fabs(f[i][k] - p.was[k]) <= ok, "too-far",
                              "after %s: element %zu of identifier %zu is %g, stored as %g, at most "
                              "%g away is allowed",
                              when, k, all[i], p.was[k], f[i][k], ok);
                }
                p.now = f[i];
            }
            SIM_CHECK(p.now == f[i], "datum", "after %s: the vector of identifier %zu has changed",
                      when, all[i]);
        }
        try {
            ix->debug_check_invariants(true);
        } catch (const std::exception& e) {
            fail("inconsistent", "after %s: %s", when, e.what());
        }
    };
    check("building");
    // Performs an operation; false if it was short of memory.
    auto attempt = [&](Rng& q, const char* name, auto f) {
        bool fail_now = scarce && q.chance(60);
        uint64_t at = q.below(q.chance(60) ? 12 : 200);
        bool ok = true;
        try {
            if (fail_now) {
                fault_at(F_ALLOC, at);
            }
            f();
            fault_clear();
        } catch (const std::exception& e) {
            fault_clear();
            SIM_CHECK(fail_now, "rejected-valid", "%s: %s", name, e.what());
            ok = false;
            probe("failed for lack of memory");
        }
        return ok;
    };
    uint32_t nops = (uint32_t)knob("nops", 1, 10);
    int reloads = 0;
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        size_t kind = q.below(10);
        const char* what = "";
        if (kind < 3) {
            size_t n = 1 + q.below(8);
            auto w = gen_floats(q, n, d, 40);
            std::vector<size_t> nid;
            for (size_t j = 0; j < n; ++j) {
                nid.push_back(fresh(q));
                live[nid[j]].was = w[j];
                named.insert(nid[j]);
            }
            auto pts = to_floats<float>(w, d);
            log("%u: add %zu", i, n);
            what = "adding";
            if (!attempt(q, what, [&] { ix->add_points(pts, nid); })) {
                size_t present = 0;
                for (size_t id : nid) {
                    present += ix->has_id(id);
                }
                SIM_CHECK(present == 0 || present == n, "half-added",
                          "%zu of the %zu points of a failed request are present", present, n);
                for (size_t id : nid) {
                    if (!present) {
                        live.erase(id);
                    }
                }
            }
        } else if (kind < 5 && live.size() > 1) {
            size_t n = 1 + q.below(std::min<size_t>(live.size() - 1, 6));
            std::vector<size_t> gone;
            for (size_t j = 0; j < n; ++j) {
                auto it = live.begin();
                std::advance(it, q.below(live.size()));
                gone.push_back(it->first);
                live.erase(it);
            }
            log("%u: delete %zu", i, n);
            what = "deleting";
            ix->delete_entries(gone);
        } else if (kind == 5) {
            log("%u: consolidate", i);
            what = "consolidating";
            attempt(q, what, [&] { ix->consolidate(); });
        } else if (kind == 6) {
            log("%u: compact", i);
            what = "compacting";
            ix->consolidate();
            attempt(q, what, [&] { ix->compact((uint32_t)(1 + q.below(20))); });
        } else if (kind == 7) {
            std::string base = "s" + std::to_string(reloads++);
            log("%u: save and load", i);
            what = "reloading";
            ix->save(base + "c", base + "g", base + "d");
            auto other = va::auto_dynamic_assemble(
                base + "c",
                svs::lib::Lazy([&] { return svs::lib::load_from_disk<HGraph>(base + "g"); }),
                svs::lib::Lazy([&] {
                    return svs::lib::load_from_disk<D>(base + "d", size_t{0}, bytes(block));
                }),
                typename M::dist(), 1 + q.below(3));
            ix = std::make_unique<Index>(std::move(other));
        } else {
            size_t nq = 1 + q.below(5), k = 1 + q.below(8);
            auto qs = gen_floats(q, nq, d, 40);
            auto qd = to_floats<float>(qs, d);
            Result res(nq, k), again(nq, k);
            spoil(res);
            auto sp = draw(q, live.size());
            log("%u: search", i);
            what = "searching";
            ix->search(res.view(), qd, sp);
            size_t t = ix->get_num_threads();
            ix->set_num_threads(1 + q.below(3));
            ix->search(again.view(), qd, sp);
            ix->set_num_threads(t);
            Quiet quiet;
            same_answers(res, again, "another number of threads");
            Floats rec;
            std::map<size_t, size_t> at;
            for (size_t j = 0; j < nq; ++j) {
                std::set<size_t> seen;
                for (size_t l = 0; l < k; ++l) {
                    size_t id = res.index(j, l);
                    if (id == std::numeric_limits<size_t>::max()) {
                        break;
                    }
                    SIM_CHECK(live.count(id), "dead-result", "identifier %zu is not live", id);
                    SIM_CHECK(seen.insert(id).second, "duplicate-id", "identifier %zu twice", id);
                    double tr = true_dist<M>(qs[j], live[id].now);
                    SIM_CHECK(std::fabs(tr - res.distance(j, l)) <= slack(qs[j], live[id].now, c),
                              "wrong-distance", "identifier %zu: distance %g, truth %g", id,
                              res.distance(j, l), tr);
                    SIM_CHECK(l == 0 || !M::better(res.distance(j, l), res.distance(j, l - 1)),
                              "not-sorted", "position %zu is nearer than position %zu", l, l - 1);
                }
            }
        }
        check(what);
        nontrivial();
    }
    arm(false);
}
} // namespace

SCENARIO(lvq_search) {
    switch (knob("kind", 0, 4)) {
        case 0: searching<L8, L2>(); break;
        case 1: searching<L4T, IP>(); break;
        case 2: searching<L48, L2>(); break;
        case 3: searching<L48T, IP>(); break;
        default: searching<L44, L2>();
    }
}
SCENARIO(lvq_build) {
    switch (knob("kind", 0, 2)) {
        case 0: building<L8, IP>(); break;
        case 1: building<L4T, L2>(); break;
        default: building<L48, L2>();
    }
}
SCENARIO(lvq_updates) {
    switch (knob("kind", 0, 2)) {
        case 0: updates<B8, L2>(); break;
        case 1: updates<B4T, IP>(); break;
        default: updates<B48, L2>();
    }
}
SCENARIO(lvq_scarce) {
    switch (knob("kind", 0, 2)) {
        case 0: updates<B8, L2>(true); break;
        case 1: updates<B48, IP>(true); break;
        default: updates<B48, L2>(true);
    }
}
