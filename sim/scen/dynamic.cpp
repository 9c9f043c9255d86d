// Dynamic graph index: histories of updates, searches, consolidation, compaction and reloading,
// compared with a set of live points; rejected and failing updates.
#include "svsx.h"
#include "svs/core/graph/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include <map>
#include <optional>

using namespace svsx;
namespace va = svs::index::vamana;

namespace {

size_t g_graph_block = 14; // log2 of the bytes per block of the graph

// The library's growable graph with an allocator the heap oracle can see and small blocks.
using GData = svs::data::BlockedData<uint32_t, svs::Dynamic, svs::lib::Allocator<uint32_t>>;
class HGraph : public svs::graphs::SimpleGraphBase<uint32_t, GData> {
  public:
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    using data_type = GData;
    static auto blocks() {
        svs::data::BlockingParameters p;
        p.blocksize_bytes = svs::lib::PowerOfTwo(g_graph_block);
        return svs::data::Blocked<svs::lib::Allocator<uint32_t>>(p);
    }
    HGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, blocks()} {}
    explicit HGraph(data_type data)
        : parent_type{std::move(data)} {}
    explicit HGraph(parent_type&& p)
        : parent_type(std::move(p)) {}
    void unsafe_resize(size_t n) { parent_type::data_.resize(n); }
    static HGraph load(const svs::lib::LoadTable& table) {
        auto lazy = svs::lib::Lazy([](data_type d) { return HGraph(std::move(d)); });
        return parent_type::load(table, lazy, blocks());
    }
};

template <typename T>
using BData = svs::data::BlockedData<T, svs::Dynamic, svs::lib::Allocator<T>>;

template <typename T> svs::data::Blocked<svs::lib::Allocator<T>> dblocks(size_t log2) {
    svs::data::BlockingParameters p;
    p.blocksize_bytes = svs::lib::PowerOfTwo(log2);
    return svs::data::Blocked<svs::lib::Allocator<T>>(p);
}

template <typename M, typename T> struct Dyn {
    using Index = va::MutableVamanaIndex<HGraph, BData<T>, typename M::dist>;

    size_t d = 0;
    int spread = 60;
    size_t block = 8;
    va::VamanaBuildParameters bp{};
    std::vector<std::vector<int>> rows; // every vector ever made
    std::map<size_t, size_t> live;      // external identifier -> row
    std::set<size_t> named;             // identifiers ever used
    std::unique_ptr<Index> ix; // on the heap: fresh memory holds junk
    bool pending = false; // deletions not yet consolidated
    int reloads = 0;

    std::vector<int> fresh_row(Rng& q) {
        if (!rows.empty() && q.chance(10)) {
            return rows[q.below(rows.size())];
        }
        std::vector<int> v(d);
        for (auto& x : v) {
            x = (int)q.below(2 * spread + 1) - spread;
        }
        return v;
    }
    size_t fresh_id(Rng& q, const std::set<size_t>& taken) {
        for (;;) {
            size_t id = q.chance(50) ? q.below(60) : q.chance(70) ? q.below(100000) : q.next() >> 1;
            // Identifiers that were deleted are used again.
            if (q.chance(25) && !named.empty()) {
                auto it = named.begin();
                std::advance(it, q.below(named.size()));
                id = *it;
            }
            if (!live.count(id) && !taken.count(id)) {
                return id;
            }
        }
    }
    Data<T> to_points(const std::vector<std::vector<int>>& v) {
        Data<T> out(v.size(), d);
        std::vector<T> b(d);
        for (size_t i = 0; i < v.size(); ++i) {
            std::copy(v[i].begin(), v[i].end(), b.begin());
            out.set_datum(i, std::span<const T>(b.data(), d));
        }
        return out;
    }

    void create(Rng& r) {
        d = 1 + knob("dim", 0, 5);
        spread = knob("spread", 0, 3) ? 60 : 2;
        block = 6 + knob("block", 0, 6);
        while ((1u << block) < d * sizeof(T)) {
            ++block;
        }
        size_t deg = 1 + knob("degree", 0, 9);
        g_graph_block = 7 + knob("graph_block", 0, 5);
        size_t slack = knob("prune_slack", 0, 2);
        bp = va::VamanaBuildParameters(
            std::is_same_v<M, L2> ? 1.2f : 0.95f, deg, 1 + knob("window", 0, 15),
            1 + knob("pool", 0, 40), deg > slack ? deg - slack : 1, knob("history", 0, 1));
        size_t n = 1 + knob("n", 0, 24);
        std::vector<size_t> ids;
        std::set<size_t> taken;
        BData<T> data(n, d, dblocks<T>(block));
        std::vector<T> b(d);
        for (size_t i = 0; i < n; ++i) {
            ids.push_back(fresh_id(r, taken));
            taken.insert(ids.back());
            rows.push_back(fresh_row(r));
            std::copy(rows[i].begin(), rows[i].end(), b.begin());
            data.set_datum(i, std::span<const T>(b.data(), d));
            live[ids[i]] = i;
            named.insert(ids[i]);
        }
        size_t threads = 1 + knob("threads", 0, 3);
        ix = std::make_unique<Index>(bp, std::move(data), ids, typename M::dist(), threads);
        if (knob("assembled", 0, 4) == 0) {
            // The same index put together from its parts.
            auto whole = std::move(ix);
            ix = std::make_unique<Index>(HGraph(whole->view_graph()), BData<T>(whole->view_data()),
                                         whole->entry_point(), typename M::dist(), ids, threads);
            ix->set_alpha(whole->get_alpha());
            probe("assembled from parts");
        }
    }

    // Everything that can be asked about the stored set.
    void check_state(const char* when) {
        Quiet quiet;
        SIM_CHECK(ix->size() == live.size(), "size", "after %s: size() is %zu, %zu points are live",
                  when, ix->size(), live.size());
        for (size_t id : named) {
            SIM_CHECK(ix->has_id(id) == (live.count(id) != 0), "membership",
                      "after %s: has_id(%zu) is %d, live: %d", when, id, (int)ix->has_id(id),
                      (int)live.count(id));
        }
        auto listed = ix->external_ids();
        std::set<size_t> l(listed.begin(), listed.end());
        SIM_CHECK(l.size() == listed.size() && l.size() == live.size(), "listing",
                  "after %s: %zu identifiers listed (%zu distinct), %zu live", when, listed.size(),
                  l.size(), live.size());
        for (auto [id, row] : live) {
            SIM_CHECK(l.count(id), "listing", "after %s: identifier %zu is not listed", when, id);
            auto v = ix->get_datum(id);
            SIM_CHECK(v.size() == d, "datum", "after %s: vector of %zu elements", when, v.size());
            for (size_t k = 0; k < d; ++k) {
                SIM_CHECK((int)v[k] == rows[row][k], "datum",
                          "after %s: element %zu of the vector of identifier %zu is %d, not %d",
                          when, k, id, (int)v[k], rows[row][k]);
            }
        }
        try {
            ix->debug_check_invariants(true);
        } catch (const std::exception& e) {
            fail("inconsistent", "after %s: %s", when, e.what());
        }
        const auto& g = ix->view_graph();
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            bool del = ix->is_deleted(i);
            if (del) {
                continue;
            }
            std::set<uint32_t> s;
            auto list = g.get_node(i);
            SIM_CHECK(list.size() <= g.max_degree(), "degree", "after %s: node %zu has %zu links",
                      when, i, list.size());
            for (auto j : list) {
                SIM_CHECK(j < g.n_nodes(), "bad-link", "after %s: node %zu links to %u of %zu",
                          when, i, j, g.n_nodes());
                SIM_CHECK(j != i, "self-link", "after %s: node %zu links to itself", when, i);
                SIM_CHECK(s.insert(j).second, "duplicate-link",
                          "after %s: node %zu links to %u twice", when, i, j);
            }
        }
    }
    // Live identifiers a search can reach.
    std::vector<size_t> reachable(size_t& total) {
        Quiet quiet;
        const auto& g = ix->view_graph();
        std::vector<char> seen(g.n_nodes(), 0);
        std::vector<size_t> st{ix->entry_point()}, out;
        total = 0;
        if (st[0] >= g.n_nodes()) {
            fail("entry-point", "entry point %zu of %zu nodes", st[0], g.n_nodes());
        }
        seen[st[0]] = 1;
        while (!st.empty()) {
            size_t i = st.back();
            st.pop_back();
            ++total;
            if (!ix->is_deleted(i)) {
                out.push_back(ix->translate_internal_id((uint32_t)i));
            }
            for (auto j : g.get_node(i)) {
                if (!seen[j]) {
                    seen[j] = 1;
                    st.push_back(j);
                }
            }
        }
        return out;
    }
    std::vector<Hit> exact(const std::vector<size_t>& ids, const std::vector<int>& q) {
        std::vector<Hit> h;
        for (size_t id : ids) {
            h.push_back({id, M::exact(rows[live.at(id)].data(), q.data(), d)});
        }
        std::stable_sort(h.begin(), h.end(),
                         [](const Hit& a, const Hit& b) { return M::better(a.dist, b.dist); });
        return h;
    }
    // One batch of queries; also compared with the answer of a single thread.
    void search(Rng& q, bool compare_threads, bool may_set = true) {
        size_t nq = 1 + q.below(6), k = 1 + q.below(q.chance(70) ? 8 : live.size() + 5);
        std::vector<std::vector<int>> qs;
        for (size_t i = 0; i < nq; ++i) {
            qs.push_back(fresh_row(q));
        }
        size_t n = ix->view_data().size();
        size_t w = 1 + q.below(q.chance(60) ? 10 : n + 6), c = q.chance(60) ? w : w + q.below(9);
        va::VamanaSearchParameters sp;
        sp.buffer_config(va::SearchBufferConfig(w, c));
        sp.search_buffer_visited_set(q.chance(50));
        sp.prefetch_lookahead(q.below(5));
        sp.prefetch_step(q.below(4));
        auto qd = to_points(qs);
        svs::QueryResult<size_t> res(nq, k);
        for (size_t i = 0; i < nq; ++i) {
            for (size_t j = 0; j < k; ++j) {
                res.index(i, j) = 0;
                res.distance(i, j) = -54321;
            }
        }
        if (may_set && q.chance(30)) {
            ix->set_search_parameters(sp);
            ix->search(res.view(), qd, ix->get_search_parameters());
        } else {
            ix->search(res.view(), qd, sp);
        }
        check_answers(res, qs, k, w, c);
        if (compare_threads) {
            size_t t = ix->get_num_threads();
            ix->set_num_threads(1 + q.below(4));
            svs::QueryResult<size_t> again(nq, k);
            ix->search(again.view(), qd, sp);
            ix->set_num_threads(t);
            for (size_t i = 0; i < nq; ++i) {
                for (size_t j = 0; j < k; ++j) {
                    SIM_CHECK(res.index(i, j) == again.index(i, j) &&
                                  res.distance(i, j) == again.distance(i, j),
                              "answer-differs",
                              "query %zu position %zu: (%zu, %g) and (%zu, %g) with another number "
                              "of threads",
                              i, j, res.index(i, j), res.distance(i, j), again.index(i, j),
                              again.distance(i, j));
                }
            }
        }
    }
    void check_answers(const svs::QueryResult<size_t>& res,
                       const std::vector<std::vector<int>>& qs, size_t k, size_t w, size_t c) {
        Quiet quiet;
        size_t total;
        auto reach = reachable(total);
        if (c < k) { // the library widens the buffer
            w = c = k;
        }
        for (size_t i = 0; i < qs.size(); ++i) {
            std::set<size_t> ids;
            size_t found = 0;
            for (size_t j = 0; j < k; ++j) {
                size_t id = res.index(i, j);
                if (!live.count(id)) {
                    SIM_CHECK(id == std::numeric_limits<size_t>::max(), "dead-result",
                              "query %zu position %zu: identifier %zu is not live", i, j, id);
                    break;
                }
                ++found;
                SIM_CHECK(ids.insert(id).second, "duplicate-id", "query %zu: identifier %zu twice",
                          i, id);
                double t = M::exact(rows[live[id]].data(), qs[i].data(), d);
                SIM_CHECK(t == res.distance(i, j), "wrong-distance",
                          "query %zu identifier %zu: distance %g, truth %g", i, id,
                          res.distance(i, j), t);
                SIM_CHECK(j == 0 || !M::better(res.distance(i, j), res.distance(i, j - 1)),
                          "not-sorted", "query %zu: position %zu is nearer than position %zu", i, j,
                          j - 1);
            }
            for (size_t j = found; j < k; ++j) {
                SIM_CHECK(res.index(i, j) == std::numeric_limits<size_t>::max(), "left-over",
                          "query %zu: identifier %zu after the last result", i, res.index(i, j));
            }
            size_t least = std::min({k, w, reach.size()});
            SIM_CHECK(found >= least, "too-few",
                      "query %zu: %zu results although %zu live points can be reached, %zu were "
                      "asked for and the window is %zu",
                      i, found, reach.size(), k, w);
            if (w >= total) {
                auto e = exact(reach, qs[i]);
                size_t m = std::min(k, e.size());
                SIM_CHECK(found == m, "too-few", "query %zu: %zu of %zu reachable live points", i,
                          found, m);
                for (size_t j = 0; j < m; ++j) {
                    SIM_CHECK(e[j].dist == res.distance(i, j), "not-exact",
                              "query %zu position %zu: distance %g, nearest %g", i, j,
                              res.distance(i, j), e[j].dist);
                }
                probe("window covers everything");
            }
        }
    }
    // Several application threads search at the same time.
    void search_together(Rng& q) {
        size_t n = 2 + q.below(2);
        std::vector<std::thread> th;
        std::vector<uint64_t> seeds;
        for (size_t i = 0; i < n; ++i) {
            seeds.push_back(q.next());
        }
        for (size_t i = 1; i < n; ++i) {
            th.emplace_back([this, &seeds, i] {
                Rng mine(seeds[i]);
                search(mine, false, false);
            });
        }
        Rng mine(seeds[0]);
        search(mine, false, false);
        for (auto& t : th) {
            t.join();
        }
    }
    void reconstruct(Rng& q) {
        auto ids = pick_live(q, 1 + q.below(6));
        for (size_t i = 0, n = ids.size(); i < n && q.chance(20); ++i) {
            ids.push_back(ids[q.below(n)]);
        }
        svs::data::SimpleData<float> out(ids.size(), d);
        std::vector<uint64_t> want(ids.begin(), ids.end());
        ix->reconstruct_at(out.view(), std::span<const uint64_t>(want));
        Quiet quiet;
        for (size_t i = 0; i < ids.size(); ++i) {
            for (size_t k = 0; k < d; ++k) {
                SIM_CHECK((int)out.get_datum(i)[k] == rows[live[ids[i]]][k], "datum",
                          "element %zu of the reconstructed vector of identifier %zu is %g, not %d",
                          k, ids[i], out.get_datum(i)[k], rows[live[ids[i]]][k]);
            }
        }
    }
    std::vector<size_t> pick_live(Rng& q, size_t n) {
        std::vector<size_t> all;
        for (auto [id, row] : live) {
            all.push_back(id);
        }
        for (size_t i = 0; i < all.size(); ++i) {
            std::swap(all[i], all[i + q.below(all.size() - i)]);
        }
        all.resize(std::min(n, all.size()));
        return all;
    }
    void reload(Rng& q) {
        std::string base = "s" + std::to_string(reloads++);
        size_t threads = 1 + q.below(4);
        ix->save(base + "c", base + "g", base + "d");
        pending = false;
        check_state("save");
        size_t ep = ix->entry_point();
        size_t win = ix->get_construction_window_size();
        auto fresh = va::auto_dynamic_assemble(
            base + "c", svs::lib::Lazy([&] { return svs::lib::load_from_disk<HGraph>(base + "g"); }),
            svs::lib::Lazy([&] {
                return svs::lib::load_from_disk<BData<T>>(base + "d", dblocks<T>(block));
            }),
            typename M::dist(), threads);
        SIM_CHECK(fresh.entry_point() == ep && fresh.get_construction_window_size() == win &&
                      fresh.get_search_parameters() == ix->get_search_parameters() &&
                      fresh.get_alpha() == ix->get_alpha() &&
                      fresh.get_max_candidates() == ix->get_max_candidates() &&
                      fresh.get_full_search_history() == ix->get_full_search_history(),
                  "reload-settings", "settings differ after saving and loading");
        const auto& a = ix->view_graph();
        const auto& b = fresh.view_graph();
        SIM_CHECK(a.n_nodes() == b.n_nodes(), "reload-graph", "%zu nodes, %zu after loading",
                  a.n_nodes(), b.n_nodes());
        for (size_t i = 0; i < a.n_nodes(); ++i) {
            auto x = a.get_node(i);
            auto y = b.get_node(i);
            SIM_CHECK(std::equal(x.begin(), x.end(), y.begin(), y.end()), "reload-graph",
                      "links of node %zu differ after loading", i);
            SIM_CHECK(ix->translate_internal_id(i) == fresh.translate_internal_id(i), "reload-ids",
                      "node %zu is identifier %zu, %zu after loading", i,
                      ix->translate_internal_id(i), fresh.translate_internal_id(i));
        }
        ix = std::make_unique<Index>(std::move(fresh));
    }
    void add(Rng& q, size_t n, bool may_fail, uint64_t fail_at) {
        std::vector<size_t> ids;
        std::vector<std::vector<int>> vs;
        std::set<size_t> taken;
        for (size_t i = 0; i < n; ++i) {
            ids.push_back(fresh_id(q, taken));
            taken.insert(ids.back());
            vs.push_back(fresh_row(q));
        }
        auto pts = to_points(vs);
        bool ok = true;
        try {
            if (may_fail) {
                fault_at(F_ALLOC, fail_at);
            }
            auto slots = ix->add_points(pts, ids);
            fault_clear();
            SIM_CHECK(slots.size() == n, "slots", "%zu slots for %zu points", slots.size(), n);
        } catch (const std::exception& e) {
            fault_clear();
            if (!may_fail) {
                fail("rejected-valid", "adding %zu new points: %s", n, e.what());
            }
            ok = false;
            probe("add failed for lack of memory");
        }
        named.insert(ids.begin(), ids.end());
        if (ok) {
            for (size_t i = 0; i < n; ++i) {
                rows.push_back(vs[i]);
                live[ids[i]] = rows.size() - 1;
            }
            return;
        }
        pending = true;
        // A failed request may have added all of the points it named or none of them.
        size_t present = 0;
        for (size_t id : ids) {
            present += ix->has_id(id);
        }
        SIM_CHECK(present == 0 || present == n, "half-added",
                  "%zu of the %zu points of a failed request are present", present, n);
        if (present) {
            for (size_t i = 0; i < n; ++i) {
                rows.push_back(vs[i]);
                live[ids[i]] = rows.size() - 1;
            }
        }
    }
    void remove(Rng& q, size_t n, bool may_fail, uint64_t fail_at) {
        auto ids = pick_live(q, n);
        bool ok = true;
        try {
            if (may_fail) {
                fault_at(F_ALLOC, fail_at);
            }
            ix->delete_entries(ids);
            fault_clear();
        } catch (const std::exception& e) {
            fault_clear();
            if (!may_fail) {
                fail("rejected-valid", "deleting %zu live points: %s", ids.size(), e.what());
            }
            ok = false;
            probe("delete failed for lack of memory");
        }
        if (!ok) {
            size_t present = 0;
            for (size_t id : ids) {
                present += ix->has_id(id);
            }
            SIM_CHECK(present == 0 || present == ids.size(), "half-deleted",
                      "%zu of %zu points of a failed deletion remain", present, ids.size());
            ok = present == 0;
        }
        if (ok) {
            for (size_t id : ids) {
                live.erase(id);
            }
            pending = pending || !ids.empty();
        }
    }
    template <typename F> void must_throw(const char* what, F f) {
        bool threw = false;
        try {
            f();
        } catch (const std::exception&) {
            threw = true;
        }
        SIM_CHECK(threw, "accepted-invalid", "%s was accepted", what);
        probe("invalid request rejected");
    }
    void invalid(Rng& q) {
        switch (q.below(5)) {
            case 0: { // adding identifiers that exist
                if (live.empty()) {
                    return;
                }
                size_t n = 1 + q.below(5);
                std::vector<size_t> ids;
                std::vector<std::vector<int>> vs;
                std::set<size_t> taken;
                for (size_t i = 0; i < n; ++i) {
                    ids.push_back(fresh_id(q, taken));
                    taken.insert(ids.back());
                    vs.push_back(fresh_row(q));
                }
                ids[q.below(n)] = pick_live(q, 1)[0];
                auto pts = to_points(vs);
                must_throw("adding an identifier that exists", [&] { ix->add_points(pts, ids); });
                break;
            }
            case 1: { // repeated identifiers
                size_t n = 2 + q.below(5);
                std::vector<size_t> ids;
                std::vector<std::vector<int>> vs;
                std::set<size_t> taken;
                for (size_t i = 0; i < n; ++i) {
                    ids.push_back(fresh_id(q, taken));
                    taken.insert(ids.back());
                    vs.push_back(fresh_row(q));
                }
                ids[n - 1] = ids[q.below(n - 1)];
                auto pts = to_points(vs);
                must_throw("adding an identifier twice", [&] { ix->add_points(pts, ids); });
                break;
            }
            case 2: { // wrong number of identifiers
                std::vector<size_t> ids;
                std::set<size_t> taken;
                size_t n = 1 + q.below(4), m = q.below(5);
                if (m == n) {
                    ++m;
                }
                for (size_t i = 0; i < m; ++i) {
                    ids.push_back(fresh_id(q, taken));
                    taken.insert(ids.back());
                }
                std::vector<std::vector<int>> vs(n, fresh_row(q));
                auto pts = to_points(vs);
                must_throw("a wrong number of identifiers", [&] { ix->add_points(pts, ids); });
                break;
            }
            case 3: { // deleting what is not there
                auto ids = pick_live(q, q.below(4));
                std::set<size_t> none;
                size_t bad = fresh_id(q, none);
                ids.insert(ids.begin() + q.below(ids.size() + 1), bad);
                must_throw("deleting an unknown identifier", [&] { ix->delete_entries(ids); });
                break;
            }
            default: { // deleting one point twice in a request
                if (live.empty()) {
                    return;
                }
                auto ids = pick_live(q, 1 + q.below(3));
                ids.push_back(ids[q.below(ids.size())]);
                must_throw("deleting an identifier twice in one request",
                           [&] { ix->delete_entries(ids); });
            }
        }
    }
};

template <typename M, typename T> void history(bool faults) {
    Rng r("world");
    schedule_faults();
    arm(true);
    Dyn<M, T> w;
    w.create(r);
    w.check_state("building");
    uint32_t nops = (uint32_t)knob("nops", 1, 14);
    bool allow_empty = knob("allow_empty", 0, 5) == 0;
    size_t muts = 0;
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        unsigned kind = (unsigned)q.below(faults ? 130 : 100);
        const char* what = "";
        bool fail_now = faults && q.chance(60);
        uint64_t at = q.below(1ull << q.below(8));
        if (kind < 28) {
            size_t n = q.chance(10) ? 0 : 1 + q.below(q.chance(80) ? 6 : 16);
            what = "add";
            log("%u: add %zu points%s", i, n, fail_now ? " with failing memory" : "");
            w.add(q, n, fail_now, at);
            ++muts;
        } else if (kind < 48) {
            size_t n = w.live.size() > 1 ? q.below(q.chance(75) ? std::min<size_t>(w.live.size(), 6)
                                                               : w.live.size())
                                         : 0;
            if (allow_empty && q.chance(25)) {
                n = w.live.size();
            }
            what = "delete";
            log("%u: delete %zu of %zu%s", i, n, w.live.size(),
                fail_now ? " with failing memory" : "");
            w.remove(q, n, fail_now, at);
            ++muts;
        } else if (kind < 62) {
            what = "consolidate";
            log("%u: consolidate", i);
            bool ok = true;
            try {
                if (fail_now) {
                    fault_at(F_ALLOC, at);
                }
                w.ix->consolidate();
            } catch (const std::exception& e) {
                ok = false;
                SIM_CHECK(fail_now, "rejected-valid", "consolidate: %s", e.what());
                probe("consolidate failed for lack of memory");
            }
            fault_clear();
            w.pending = w.pending && !ok;
        } else if (kind < 72) {
            size_t b = 1 + q.below(q.chance(70) ? 7 : 64);
            what = "compact";
            if (fail_now && q.chance(60) && w.live.size() > 2) {
                // Holes make it move something.
                w.remove(q, 1 + q.below(w.live.size() - 1), false, 0);
                w.ix->consolidate();
                w.pending = false;
                at = q.below(30);
            }
            log("%u: compact(%zu)", i, b);
            try {
                if (fail_now) {
                    fault_at(q.chance(80) ? F_ALLOC : F_MMAP, at);
                }
                w.ix->compact((uint32_t)b);
            } catch (const std::exception& e) {
                SIM_CHECK(fail_now, "rejected-valid", "compact: %s", e.what());
                probe("compact failed for lack of memory");
            }
            fault_clear();
        } else if (kind < 76) {
            size_t t = q.below(6);
            what = "set_num_threads";
            log("%u: set_num_threads(%zu)", i, t);
            w.ix->set_num_threads(t);
        } else if (kind < 78) {
            what = "concurrent searches";
            log("%u: concurrent searches", i);
            w.search_together(q);
            continue;
        } else if (kind < 80) {
            what = "reconstruct";
            log("%u: reconstruct", i);
            w.reconstruct(q);
            continue;
        } else if (kind < 84 && w.live.empty()) {
            what = "save";
            log("%u: save of an empty index", i);
            w.must_throw("saving an index without live points",
                         [&] { w.ix->save("ec", "eg", "ed"); });
        } else if (kind < 84) {
            what = "save and load";
            log("%u: save and load", i);
            w.reload(q);
            ++muts;
        } else if (kind < 100) {
            what = "search";
            log("%u: search", i);
            w.search(q, q.chance(40));
            continue;
        } else {
            what = "invalid request";
            log("%u: invalid request", i);
            w.invalid(q);
        }
        w.check_state(what);
        if (q.chance(50)) {
            w.search(q, false);
        }
    }
    w.search(r, true);
    if (muts) {
        nontrivial();
    }
    note(w.live.size());
}

// More deleted points in the way than a 16 bit counter can tell apart.
void wide() {
    using Index = va::MutableVamanaIndex<HGraph, BData<int8_t>, svs::distance::DistanceL2>;
    Rng r("world");
    g_graph_block = 20;
    size_t n = 65536 + knob("extra", 0, 2000), fan = 120, alive = 1 + knob("alive", 0, 3);
    std::vector<size_t> ids(n);
    std::iota(ids.begin(), ids.end(), size_t{0});
    std::optional<Index> ix;
    std::vector<size_t> keep;
    {
        Quiet quiet;
        // A tree of nodes; nodes later in breadth first order are further from the query.
        HGraph g(fan, n);
        BData<int8_t> data(n, 2, dblocks<int8_t>(20));
        std::vector<uint32_t> links;
        size_t next = 1;
        for (size_t i = 0; i < n; ++i) {
            links.clear();
            while (links.size() < fan && next < n) {
                links.push_back((uint32_t)next++);
            }
            g.replace_node(i, links);
            int8_t v[2] = {(int8_t)(i * 120 / n), 0};
            data.set_datum(i, std::span<const int8_t>(v, 2));
        }
        ix.emplace(std::move(g), std::move(data), 0u, svs::distance::DistanceL2(), ids, size_t{1});
        // The live points are the last ones.
        std::vector<size_t> del;
        for (size_t i = 0; i < n; ++i) {
            if (i + alive < n) {
                del.push_back(i);
            } else {
                keep.push_back(i);
            }
        }
        ix->delete_entries(del);
    }
    Data<int8_t> q(1, 2);
    int8_t zero[2] = {0, 0};
    q.set_datum(0, std::span<const int8_t>(zero, 2));
    size_t k = alive;
    svs::QueryResult<size_t> res(1, k);
    va::VamanaSearchParameters sp;
    sp.buffer_config(va::SearchBufferConfig(k + knob("window", 0, 3)));
    arm(true);
    ix->search(res.view(), q, sp);
    std::set<size_t> got;
    for (size_t j = 0; j < k; ++j) {
        got.insert(res.index(0, j));
    }
    SIM_CHECK(got == std::set<size_t>(keep.begin(), keep.end()), "too-few",
              "%zu live points behind %zu deleted ones can be reached but were not all returned",
              alive, n - alive);
    nontrivial();
}
} // namespace

#ifndef DYN_B
SCENARIO(dyn_wide) { wide(); }
SCENARIO(dyn_history) { history<L2, float>(false); }
SCENARIO(dyn_faults) { history<L2, float>(true); }
#else
SCENARIO(dyn_history_ip) { history<IP, float>(false); }
SCENARIO(dyn_history_i8) { history<L2, int8_t>(false); }
#endif
