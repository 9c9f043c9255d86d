// Searching graphs over compressed data: what every answer must satisfy.
#pragma once
#include "lvq.h"
#include "svs/core/graph/graph.h"
#include "svs/index/vamana/index.h"

namespace svsx::search {
namespace va = svs::index::vamana;
using Graph = svs::graphs::SimpleGraph<uint32_t, svs::lib::Allocator<uint32_t>>;
using Result = svs::QueryResult<size_t>;

inline Graph random_graph(Rng& r, size_t n, size_t degree) {
    Graph g(n, degree);
    for (uint32_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < degree; ++j) {
            auto x = (uint32_t)r.below(n);
            if (x != i && r.chance(80)) {
                g.add_edge(i, x);
            }
        }
    }
    return g;
}
inline std::vector<size_t> reach(const Graph& g, size_t ep) {
    std::vector<char> seen(g.n_nodes(), 0);
    std::vector<size_t> st{ep}, out;
    seen[ep] = 1;
    while (!st.empty()) {
        size_t i = st.back();
        st.pop_back();
        out.push_back(i);
        for (auto j : g.get_node(i)) {
            if (!seen[j]) {
                seen[j] = 1;
                st.push_back(j);
            }
        }
    }
    return out;
}
inline va::VamanaSearchParameters draw(Rng& q, size_t n) {
    va::VamanaSearchParameters p;
    size_t w = 1 + q.below(q.chance(50) ? 12 : n + 8);
    p.buffer_config(va::SearchBufferConfig(w, q.chance(60) ? w : w + q.below(10)));
    p.search_buffer_visited_set(q.chance(50));
    p.prefetch_lookahead(q.below(5));
    p.prefetch_step(q.below(4));
    return p;
}
inline void spoil(Result& res) {
    for (size_t i = 0; i < res.n_queries(); ++i) {
        for (size_t j = 0; j < res.n_neighbors(); ++j) {
            res.index(i, j) = 0;
            res.distance(i, j) = -54321;
        }
    }
}
// The i-th row of an answer: distinct stored vectors, their distances, in order; how many.
template <typename M, typename Valid>
size_t sound(const Result& res, size_t row, const std::vector<double>& q, const Floats& rec,
             const std::vector<double>& c, Valid valid) {
    std::set<size_t> ids;
    size_t found = 0;
    for (size_t j = 0; j < res.n_neighbors(); ++j) {
        size_t id = res.index(row, j);
        if (!valid(id)) {
            break;
        }
        ++found;
        SIM_CHECK(ids.insert(id).second, "duplicate-id", "query %zu: identifier %zu twice", row, id);
        double t = true_dist<M>(q, rec[id]);
        SIM_CHECK(std::fabs(t - res.distance(row, j)) <= slack(q, rec[id], c), "wrong-distance",
                  "query %zu identifier %zu: distance %g, truth %g", row, id, res.distance(row, j),
                  t);
        SIM_CHECK(j == 0 || !M::better(res.distance(row, j), res.distance(row, j - 1)),
                  "not-sorted", "query %zu: position %zu is nearer than position %zu", row, j,
                  j - 1);
    }
    for (size_t j = found; j < res.n_neighbors(); ++j) {
        SIM_CHECK(!valid(res.index(row, j)), "left-over",
                  "query %zu: identifier %zu after the last result", row,
                  (size_t)res.index(row, j));
    }
    return found;
}
inline void same_answers(const Result& a, const Result& b, const char* what) {
    for (size_t i = 0; i < a.n_queries(); ++i) {
        for (size_t j = 0; j < a.n_neighbors(); ++j) {
            SIM_CHECK(a.index(i, j) == b.index(i, j) && a.distance(i, j) == b.distance(i, j),
                      "answer-differs", "%s: query %zu position %zu: (%zu, %g) and (%zu, %g)", what,
                      i, j, (size_t)a.index(i, j), a.distance(i, j), (size_t)b.index(i, j),
                      b.distance(i, j));
        }
    }
}
} // namespace svsx::search
