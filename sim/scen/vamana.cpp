// Static graph index: search independence, concurrent searching, parallel build.
#include "svsx.h"
#include "svs/core/graph/graph.h"
#include <map>
#include "svs/index/vamana/index.h"

using namespace svsx;
namespace va = svs::index::vamana;

namespace {

using Graph = svs::graphs::SimpleGraph<uint32_t, svs::lib::Allocator<uint32_t>>;

// A graph handle that the harness can look at after handing it to the index.
struct SharedGraph {
    using index_type = uint32_t;
    using value_type = Graph::value_type;
    using const_value_type = Graph::const_value_type;
    using reference = Graph::reference;
    using const_reference = Graph::const_reference;
    std::shared_ptr<Graph> g;
    size_t max_degree() const { return g->max_degree(); }
    size_t n_nodes() const { return g->n_nodes(); }
    const_reference get_node(uint32_t i) const { return std::as_const(*g).get_node(i); }
    size_t get_node_degree(uint32_t i) const { return g->get_node_degree(i); }
    bool has_edge(uint32_t a, uint32_t b) const { return g->has_edge(a, b); }
    void prefetch_node(uint32_t i) const { g->prefetch_node(i); }
    size_t add_edge(uint32_t a, uint32_t b) { return g->add_edge(a, b); }
    void clear_node(uint32_t i) { g->clear_node(i); }
    void reset() { g->reset(); }
    void replace_node(uint32_t i, const std::vector<uint32_t>& v) { g->replace_node(i, v); }
    void replace_node(uint32_t i, std::span<const uint32_t> v) { g->replace_node(i, v); }
};

using Lists = std::vector<std::vector<uint32_t>>;

Lists lists_of(const Graph& g) {
    Lists l(g.n_nodes());
    for (size_t i = 0; i < l.size(); ++i) {
        auto s = g.get_node(i);
        l[i].assign(s.begin(), s.end());
    }
    return l;
}

Lists random_lists(Rng& r, size_t n, size_t degree) {
    Lists l(n);
    // Some graphs have unreachable parts.
    size_t islands = r.chance(40) ? 2 + r.below(3) : 1;
    for (size_t i = 0; i < n; ++i) {
        size_t want = r.below(degree + 1);
        for (size_t k = 0; k < want; ++k) {
            uint32_t j = (uint32_t)r.below(n);
            if (islands > 1) {
                j = (uint32_t)(j / islands * islands + i % islands);
            }
            if (j < n && j != i && std::find(l[i].begin(), l[i].end(), j) == l[i].end()) {
                l[i].push_back(j);
            }
        }
    }
    return l;
}

Graph make_graph(const Lists& l, size_t degree) {
    Graph g(l.size(), degree);
    for (size_t i = 0; i < l.size(); ++i) {
        g.replace_node(i, l[i]);
    }
    return g;
}

std::vector<size_t> reachable(const Lists& l, size_t ep) {
    std::vector<char> seen(l.size(), 0);
    std::vector<size_t> st{ep}, out;
    seen[ep] = 1;
    while (!st.empty()) {
        size_t i = st.back();
        st.pop_back();
        out.push_back(i);
        for (auto j : l[i]) {
            if (!seen[j]) {
                seen[j] = 1;
                st.push_back(j);
            }
        }
    }
    return out;
}

// What the answer to one query must look like, obtained from fresh scratch space.
struct Expected {
    std::vector<Hit> hits;
};

template <typename M, typename T> struct World {
    Points pts, qs;
    Lists lists;
    size_t degree, ep;
    std::vector<size_t> reach;
    std::vector<Data<T>> qdata; // all queries

    using Index = va::VamanaIndex<Graph, Data<T>, typename M::dist>;

    Index index(size_t threads) const {
        return Index(make_graph(lists, degree), to_data<T>(pts), (uint32_t)ep,
                     typename M::dist(), make_pool(threads));
    }

    // Answer of a search of its own: new index, new scratch space, one query.
    Expected alone(size_t q, size_t k, va::VamanaSearchParameters sp) const {
        auto ix = index(1);
        if (sp.buffer_config_.get_total_capacity() < k) {
            sp.buffer_config(va::SearchBufferConfig(k));
        }
        auto scratch = ix.scratchspace(sp);
        ix.search(qdata[0].get_datum(q), scratch);
        Expected e;
        for (size_t j = 0; j < std::min<size_t>(k, scratch.buffer.size()); ++j) {
            e.hits.push_back({scratch.buffer[j].id(), scratch.buffer[j].distance()});
        }
        // Independent facts about the answer.
        std::set<size_t> ids;
        for (size_t j = 0; j < e.hits.size(); ++j) {
            SIM_CHECK(e.hits[j].id < pts.n, "bad-id", "identifier %zu of %zu", e.hits[j].id, pts.n);
            SIM_CHECK(ids.insert(e.hits[j].id).second, "duplicate-id", "identifier %zu twice",
                      e.hits[j].id);
            double t = M::exact(qs.row(q), pts.row(e.hits[j].id), pts.d);
            SIM_CHECK(t == e.hits[j].dist, "wrong-distance",
                      "identifier %zu: distance %g, truth %g", e.hits[j].id, e.hits[j].dist, t);
            SIM_CHECK(j == 0 || !M::better(e.hits[j].dist, e.hits[j - 1].dist), "not-sorted",
                      "position %zu is nearer than position %zu", j, j - 1);
        }
        if (sp.buffer_config_.get_search_window_size() >= reach.size()) {
            // Nothing is ever dropped: exact over everything reachable.
            auto b = brute<M>(pts, qs.row(q), reach);
            b.resize(std::min(b.size(), k));
            SIM_CHECK(b.size() == e.hits.size(), "incomplete",
                      "%zu results, %zu reachable with a window of %zu", e.hits.size(),
                      reach.size(), sp.buffer_config_.get_search_window_size());
            for (size_t j = 0; j < b.size(); ++j) {
                SIM_CHECK(b[j].dist == e.hits[j].dist, "not-exact",
                          "position %zu: distance %g, best reachable %g", j, e.hits[j].dist,
                          b[j].dist);
            }
        }
        return e;
    }
    void compare(const Expected& e, const svs::QueryResult<size_t>& r, size_t row, size_t q,
                 const char* what) const {
        size_t k = r.n_neighbors();
        for (size_t j = 0; j < k; ++j) {
            if (j < e.hits.size()) {
                SIM_CHECK(r.index(row, j) == e.hits[j].id && r.distance(row, j) == e.hits[j].dist,
                          "answer-differs",
                          "%s: query %zu position %zu: (%zu, %g) but alone (%zu, %g)", what, q, j,
                          (size_t)r.index(row, j), r.distance(row, j), e.hits[j].id,
                          e.hits[j].dist);
            } else {
                SIM_CHECK(r.index(row, j) >= pts.n, "left-over",
                          "%s: query %zu position %zu: %zu results exist, but the position holds "
                          "identifier %zu (distance %g)",
                          what, q, j, e.hits.size(), (size_t)r.index(row, j), r.distance(row, j));
                probe("no-result position");
            }
        }
    }
};

va::VamanaSearchParameters draw_params(Rng& q, size_t n) {
    va::VamanaSearchParameters p;
    size_t w = 1 + q.below(q.chance(50) ? 12 : n + 8);
    size_t c = q.chance(60) ? w : w + q.below(10);
    p.buffer_config(va::SearchBufferConfig(w, c));
    p.search_buffer_visited_set(q.chance(50));
    p.prefetch_lookahead(q.below(6));
    p.prefetch_step(q.below(4));
    return p;
}

template <typename M, typename T> World<M, T> draw_world(Rng& r) {
    World<M, T> w;
    size_t n = 1 + knob("n", 0, 70);
    size_t d = 1 + knob("dim", 0, 8);
    int spread = knob("spread", 0, 2) == 0 ? 3 : 60;
    w.degree = 1 + knob("degree", 0, 9);
    w.pts = gen_points(r, n, d, spread, knob("dups", 0, 1) ? 20 : 0);
    w.qs = gen_points(r, 1 + r.below(9), d, spread);
    w.lists = random_lists(r, n, w.degree);
    w.ep = r.below(n);
    w.reach = reachable(w.lists, w.ep);
    w.qdata.push_back(to_data<T>(w.qs));
    return w;
}

template <typename T> Data<T> rows(const Data<T>& src, const std::vector<size_t>& ids) {
    Data<T> out(ids.size(), src.dimensions());
    for (size_t i = 0; i < ids.size(); ++i) {
        out.set_datum(i, src.get_datum(ids[i]));
    }
    return out;
}

// One index, a history of searches in every form.
template <typename M, typename T> void search_history() {
    Rng r("world");
    auto w = draw_world<M, T>(r);
    schedule_faults();
    auto ix = w.index(1 + knob("threads", 0, 4));
    auto reused = ix.scratchspace();
    uint32_t nops = (uint32_t)knob("nops", 1, 6);
    for (uint32_t i = 0; i < nops; ++i) {
        Rng q(r.next());
        if (!keep_op(i)) {
            continue;
        }
        if (q.chance(20)) {
            size_t t = q.below(6);
            log("%u: set_num_threads(%zu)", i, t);
            ix.set_num_threads(t);
        }
        auto sp = draw_params(q, w.pts.n);
        size_t k = 1 + q.below(q.chance(70) ? 6 : w.pts.n + 4);
        bool single = q.chance(25);
        if (single) {
            size_t qi = q.below(w.qs.n);
            log("%u: single search of query %zu with reused scratch", i, qi);
            Expected e = w.alone(qi, reused.buffer.capacity(), ix.get_search_parameters());
            // (the reused scratch space keeps the parameters it was created with)
            auto p0 = va::VamanaSearchParameters();
            (void)p0;
            Armed a;
            ix.search(w.qdata[0].get_datum(qi), reused);
            arm(false);
            auto fresh = w.index(1);
            auto s2 = fresh.scratchspace();
            s2.buffer = reused.buffer.shallow_copy();
            fresh.search(w.qdata[0].get_datum(qi), s2);
            SIM_CHECK(s2.buffer.size() == reused.buffer.size(), "answer-differs",
                      "reused scratch space gives %zu results, new scratch space %zu",
                      reused.buffer.size(), s2.buffer.size());
            for (size_t j = 0; j < s2.buffer.size(); ++j) {
                SIM_CHECK(s2.buffer[j].id() == reused.buffer[j].id() &&
                              s2.buffer[j].distance() == reused.buffer[j].distance(),
                          "answer-differs", "reused scratch space: position %zu differs", j);
            }
            if (q.chance(50)) {
                reused.buffer.change_maxsize(sp.buffer_config_);
            }
            if (q.chance(30)) {
                q.chance(50) ? reused.buffer.enable_visited_set()
                             : reused.buffer.disable_visited_set();
            }
            continue;
        }
        size_t nq = q.below(12);
        std::vector<size_t> ids(nq);
        for (auto& x : ids) {
            x = q.below(w.qs.n);
        }
        std::vector<Expected> exp;
        for (auto x : ids) {
            exp.push_back(w.alone(x, k, sp));
        }
        bool via_default = q.chance(30);
        log("%u: batch of %zu, k=%zu, window %zu capacity %zu visited %d, %zu threads", i, nq, k,
            sp.buffer_config_.get_search_window_size(), sp.buffer_config_.get_total_capacity(),
            (int)sp.search_buffer_visited_set_, ix.get_num_threads());
        auto qb = rows(w.qdata[0], ids);
        svs::QueryResult<size_t> res(nq, k);
        for (size_t a = 0; a < nq; ++a) {
            for (size_t b = 0; b < k; ++b) {
                res.index(a, b) = 0;
                res.distance(a, b) = -12345;
            }
        }
        {
            Armed a;
            if (via_default) {
                ix.set_search_parameters(sp);
                SIM_CHECK(ix.get_search_parameters() == sp, "params-lost",
                          "search parameters read back differ");
                ix.search(res.view(), qb, ix.get_search_parameters());
            } else {
                ix.search(res.view(), qb, sp);
            }
        }
        for (size_t a = 0; a < nq; ++a) {
            w.compare(exp[a], res, a, ids[a], "batch");
            note_bytes(&res.index(a, 0), 8);
        }
        if (nq > 1) {
            nontrivial();
        }
    }
}

// Several application threads search one index at the same time.
template <typename M, typename T> void search_together() {
    Rng r("world");
    auto w = draw_world<M, T>(r);
    schedule_faults();
    auto ix = w.index(1 + knob("threads", 0, 3));
    struct Op {
        va::VamanaSearchParameters sp;
        size_t k;
        std::vector<size_t> ids;
        std::vector<Expected> exp;
        bool single;
    };
    size_t callers = knob("callers", 2, 4);
    std::vector<std::vector<Op>> plan(callers);
    for (size_t c = 0; c < callers; ++c) {
        size_t m = 1 + r.below(3);
        for (size_t i = 0; i < m; ++i) {
            Rng q(r.next());
            if (!keep_op((uint32_t)(c * 16 + i))) {
                continue;
            }
            Op o;
            o.sp = draw_params(q, w.pts.n);
            o.k = 1 + q.below(6);
            o.single = q.chance(40);
            if (o.single && o.sp.buffer_config_.get_total_capacity() < o.k) {
                o.k = 1;
            }
            o.ids.resize(o.single ? 1 : q.below(8));
            for (auto& x : o.ids) {
                x = q.below(w.qs.n);
                o.exp.push_back(w.alone(x, o.k, o.sp));
            }
            plan[c].push_back(std::move(o));
        }
    }
    const auto& cix = ix;
    Armed armed;
    std::vector<std::thread> ts;
    for (size_t c = 0; c < callers; ++c) {
        ts.emplace_back([&, c] {
            for (auto& o : plan[c]) {
                if (o.single) {
                    auto s = cix.scratchspace(o.sp);
                    cix.search(w.qdata[0].get_datum(o.ids[0]), s);
                    for (size_t j = 0; j < o.exp[0].hits.size(); ++j) {
                        SIM_CHECK(s.buffer[j].id() == o.exp[0].hits[j].id &&
                                      s.buffer[j].distance() == o.exp[0].hits[j].dist,
                                  "answer-differs", "caller %zu: single search differs at %zu", c,
                                  j);
                    }
                } else {
                    auto qb = rows(w.qdata[0], o.ids);
                    svs::QueryResult<size_t> res(o.ids.size(), o.k);
                    ix.search(res.view(), qb, o.sp);
                    for (size_t a = 0; a < o.ids.size(); ++a) {
                        w.compare(o.exp[a], res, a, o.ids[a], "concurrent caller");
                    }
                }
                auto p = cix.get_search_parameters();
                (void)p;
                ix.set_search_parameters(o.sp);
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    nontrivial();
}

// ------------------------------------------------------------------------------- building
template <typename M, typename T>
Lists build_once(const Points& pts, const va::VamanaBuildParameters& bp, size_t ep, size_t threads,
                 bool armed) {
    SharedGraph sg{std::make_shared<Graph>(pts.n, bp.graph_max_degree)};
    {
        if (armed) {
            arm(true);
        }
        va::VamanaIndex<SharedGraph, Data<T>, typename M::dist> ix(
            bp, sg, to_data<T>(pts), (uint32_t)ep, typename M::dist(), make_pool(threads));
        arm(false);
        SIM_CHECK(ix.size() == pts.n, "size", "index of %zu vectors reports %zu", pts.n, ix.size());
    }
    return lists_of(*sg.g);
}

void well_formed(const Lists& l, size_t maxdeg) {
    for (size_t i = 0; i < l.size(); ++i) {
        SIM_CHECK(l[i].size() <= maxdeg, "degree", "node %zu has %zu links, %zu allowed", i,
                  l[i].size(), maxdeg);
        std::set<uint32_t> s;
        for (auto j : l[i]) {
            SIM_CHECK(j < l.size(), "bad-link", "node %zu links to %u of %zu", i, j, l.size());
            SIM_CHECK(j != i, "self-link", "node %zu links to itself", i);
            SIM_CHECK(s.insert(j).second, "duplicate-link", "node %zu links to %u twice", i, j);
        }
    }
}

std::set<std::pair<uint32_t, uint32_t>> links(const Lists& l) {
    std::set<std::pair<uint32_t, uint32_t>> s;
    for (size_t i = 0; i < l.size(); ++i) {
        for (auto j : l[i]) {
            s.insert({(uint32_t)i, j});
        }
    }
    return s;
}

// Tight degrees: back links overflow and are pruned.
template <typename M, typename T> void build_tight() {
    Rng r("world");
    size_t n = 2 + knob("n", 0, 70);
    size_t d = 1 + knob("dim", 0, 5);
    auto pts = gen_points(r, n, d, knob("spread", 0, 2) ? 50 : 2, knob("dups", 0, 2) ? 0 : 25);
    size_t deg = 1 + knob("degree", 0, 7);
    size_t win = 1 + knob("window", 0, 15);
    size_t pool = 1 + knob("pool", 0, 40);
    size_t pr = knob("prune_slack", 0, 3);
    float alpha = std::is_same_v<M, L2> ? 1.2f : 0.95f;
    va::VamanaBuildParameters bp(alpha, deg, win, pool, deg > pr ? deg - pr : 1,
                                 knob("history", 0, 1));
    schedule_faults();
    auto l = build_once<M, T>(pts, bp, r.below(n), 1 + knob("threads", 0, 4), true);
    well_formed(l, deg);
    // Within the degree limit a node that was given a link does not end up with none.
    if (n > 1 && n <= 40 && std::is_same_v<M, L2>) {
        for (size_t i = 0; i < n; ++i) {
            if (l[i].empty()) {
                probe("node without links");
            }
        }
    }
    for (auto& v : l) {
        note_bytes(v.data(), v.size() * 4);
    }
    nontrivial();
}

// Room for every link and nothing pruned.
template <typename M, typename T> void build_roomy() {
    Rng r("world");
    size_t n = 2 + knob("n", 0, 60);
    size_t d = 2 + knob("dim", 0, 4);
    auto pts = gen_points(r, n, d, 100000);
    for (auto& x : pts.v) {
        if (!std::is_same_v<T, float>) {
            x = x % 127;
        } else {
            x = x % 1500;
        }
    }
    size_t win = 1 + knob("window", 0, 12);
    bool hist = knob("history", 0, 1);
    float alpha = 1e9f; // the pruning rule never applies
    // (With a tight degree the outcome legitimately depends on the schedule: a link that is
    // already present counts as overflow when it arrives at a list that is just full.)
    size_t deg = n + 2;
    va::VamanaBuildParameters bp(alpha, deg, win, 4 * n, deg, hist);
    size_t ep = r.below(n);
    schedule_faults();
    size_t t = 2 + knob("threads", 0, 3);
    auto l = build_once<M, T>(pts, bp, ep, t, true);
    well_formed(l, deg);
    for (size_t i = 0; i < n; ++i) {
        for (auto j : l[i]) {
            SIM_CHECK(std::find(l[j].begin(), l[j].end(), i) != l[j].end(), "lost-back-link",
                      "%zu links to %u but not the other way round", i, j);
        }
    }
    auto reach = reachable(l, ep);
    SIM_CHECK(reach.size() == n, "unreachable", "%zu of %zu nodes can be reached", reach.size(), n);
    // The same links with one thread when no two distances tie.
    bool ties = false;
    for (size_t i = 0; i < n && !ties; ++i) {
        std::set<double> s;
        for (size_t j = 0; j < n; ++j) {
            if (i != j && !s.insert(M::exact(pts.row(i), pts.row(j), d)).second) {
                ties = true;
            }
        }
        if (s.count(0)) {
            ties = true;
        }
    }
    if (!ties) {
        auto one = build_once<M, T>(pts, bp, ep, 1, false);
        auto a = links(l), b = links(one);
        if (a != b) {
            std::vector<std::pair<uint32_t, uint32_t>> x;
            std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(),
                                          std::back_inserter(x));
            fail("schedule-dependent", "%zu threads give %zu links, one thread gives %zu; e.g. %u -> %u",
                 t, a.size(), b.size(), x[0].first, x[0].second);
        }
        probe("compared with one thread");
    } else {
        probe("ties");
    }
    nontrivial();
}

// Identifiers that agree in their low halves, in an index of more points than those can name.
void wide() {
    Rng r("world");
    using T = int8_t;
    size_t n = 65536 * knob("halves", 1, 4) + r.range(1, 300);
    size_t degree = 2 + r.below(5), d = 2;
    std::vector<uint32_t> low(2 + r.below(4));
    for (auto& x : low) {
        x = r.chance(50) ? (uint32_t)r.below(300) : (uint32_t)r.below(65536);
    }
    std::set<uint32_t> pick;
    // Many, now and then: what a search remembers may be limited.
    size_t want = r.chance(15) ? 300 + r.below(900) : 5 + r.below(30);
    for (size_t i = 0; i < want; ++i) {
        size_t x = (r.chance(80) ? low[r.below(low.size())] : r.below(65536)) + 65536 * r.below(5);
        if (x < n) {
            pick.insert((uint32_t)x);
        }
    }
    pick.insert((uint32_t)(n - 1));
    std::vector<uint32_t> act(pick.begin(), pick.end());
    Lists lists(n);
    for (auto i : act) {
        size_t m = 1 + r.below(degree);
        for (size_t k = 0; k < m; ++k) {
            auto j = act[r.below(act.size())];
            if (j != i && std::find(lists[i].begin(), lists[i].end(), j) == lists[i].end()) {
                lists[i].push_back(j);
            }
        }
    }
    size_t ep = act[r.below(act.size())];
    auto reach = reachable(lists, ep);
    Points pts;
    pts.n = n;
    pts.d = d;
    pts.v.assign(n * d, 100);
    for (auto i : act) {
        for (size_t k = 0; k < d; ++k) {
            pts.v[i * d + k] = (int)r.below(101) - 50;
        }
    }
    Points qs = gen_points(r, 1 + r.below(5), d, 50);
    Graph g(n, degree);
    Data<T> data(n, d);
    {
        Quiet quiet;
        g.reset();
        std::memset((void*)data.data(), 100, n * d);
        for (auto i : act) {
            g.replace_node(i, lists[i]);
            T v[2] = {(T)pts.row(i)[0], (T)pts.row(i)[1]};
            data.set_datum(i, std::span<const T>(v, 2));
        }
    }
    va::VamanaIndex<Graph, Data<T>, svs::distance::DistanceL2> ix(
        std::move(g), std::move(data), (uint32_t)ep, svs::distance::DistanceL2(),
        make_pool(1 + knob("threads", 0, 2)));
    auto qd = to_data<T>(qs);
    schedule_faults();
    std::map<std::tuple<size_t, size_t, size_t>, std::vector<Hit>> first;
    size_t steps = knob("steps", 2, 6);
    for (size_t s = 0; s < steps; ++s) {
        Rng o(r.next());
        if (!keep_op((uint32_t)s)) {
            continue;
        }
        va::VamanaSearchParameters sp;
        size_t w = o.chance(50) ? reach.size() + o.below(3) : 1 + o.below(reach.size());
        size_t k = 1 + o.below(std::min<size_t>(w, 6));
        sp.buffer_config(va::SearchBufferConfig(w));
        sp.search_buffer_visited_set(o.chance(70));
        sp.prefetch_lookahead(o.below(3));
        sp.prefetch_step(o.below(3));
        log("window %zu, %zu neighbours, visited set %d, %zu reachable", w, k,
            (int)sp.search_buffer_visited_set_, reach.size());
        svs::QueryResult<size_t> res(qs.n, k);
        {
            Armed a;
            ix.search(res.view(), qd, sp);
        }
        for (size_t q = 0; q < qs.n; ++q) {
            std::vector<Hit> h;
            std::set<size_t> seen;
            for (size_t j = 0; j < k && res.index(q, j) < n; ++j) {
                h.push_back({res.index(q, j), res.distance(q, j)});
                double t = exact_l2(pts.row(h[j].id), qs.row(q), d);
                SIM_CHECK(t == h[j].dist, "wrong-distance", "identifier %zu: distance %g, truth %g",
                          h[j].id, h[j].dist, t);
                SIM_CHECK(seen.insert(h[j].id).second, "duplicate-id", "identifier %zu twice",
                          h[j].id);
                SIM_CHECK(j == 0 || h[j - 1].dist <= h[j].dist, "not-sorted", "position %zu", j);
            }
            auto [it, fresh] = first.try_emplace({q, w, k}, h);
            SIM_CHECK(fresh || it->second == h, "answer-differs",
                      "query %zu, window %zu: differs from an earlier answer", q, w);
            if (w >= reach.size()) {
                auto b = brute<L2>(pts, qs.row(q), reach);
                SIM_CHECK(h.size() == std::min(k, b.size()), "incomplete",
                          "%zu results, %zu reachable", h.size(), b.size());
                for (size_t j = 0; j < h.size(); ++j) {
                    SIM_CHECK(b[j].dist == h[j].dist, "not-exact",
                              "query %zu position %zu: distance %g, best reachable %g", q, j,
                              h[j].dist, b[j].dist);
                }
                probe("exact");
            }
        }
        nontrivial();
    }
}
} // namespace

SCENARIO(vamana_wide) { wide(); }
SCENARIO(vamana_search) {
    switch (knob("type", 0, 2)) {
        case 0: search_history<L2, float>(); break;
        case 1: search_history<IP, float>(); break;
        default: search_history<L2, int8_t>(); break;
    }
}
SCENARIO(vamana_together) {
    if (knob("type", 0, 1)) {
        search_together<L2, float>();
    } else {
        search_together<IP, float>();
    }
}
SCENARIO(vamana_build) {
    if (knob("type", 0, 2)) {
        build_tight<L2, float>();
    } else {
        build_tight<IP, float>();
    }
}
SCENARIO(vamana_links) {
    build_roomy<L2, float>();
}
