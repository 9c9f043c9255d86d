// Helpers for the scenarios that go through the type-erased interfaces: measures chosen at run
// time, including one whose distances are inexact.
#pragma once
#include "svsx.h"
#include <filesystem>

namespace svsx {
namespace fs = std::filesystem;
struct Measure {
    svs::DistanceType type;
    bool near(double a, double b) const { // the same distance
        return type == svs::DistanceType::Cosine ? std::abs(a - b) <= 1e-5 : a == b;
    }
    bool better(double a, double b) const {
        return type == svs::DistanceType::L2 ? a < b : a > b;
    }
    double exact(const int* a, const int* b, size_t d) const {
        switch (type) {
            case svs::DistanceType::L2: return exact_l2(a, b, d);
            case svs::DistanceType::MIP: return exact_ip(a, b, d);
            default:
                return exact_ip(a, b, d) /
                       std::sqrt(exact_ip(a, a, d) * exact_ip(b, b, d));
        }
    }
};
inline Measure pick_measure() {
    static const svs::DistanceType t[] = {svs::DistanceType::Cosine, svs::DistanceType::L2,
                                          svs::DistanceType::MIP};
    return {t[knob("measure", 0, 2)]};
}
// No vector of length zero.
inline void no_zero(Points& p) {
    for (size_t i = 0; i < p.n; ++i) {
        if (exact_ip(p.row(i), p.row(i), p.d) == 0) {
            p.v[i * p.d] = 1;
        }
    }
}
// What a search wrote: distances as bits, so that equality is exact.
using Row = std::vector<std::pair<size_t, uint32_t>>;

struct Request {
    std::vector<size_t> q; // rows of the queries
    size_t k = 1;
    bool narrow = false; // queries of one byte per element
    svs::QueryResult<size_t> res{0, 1};
    void prepare() {
        res = svs::QueryResult<size_t>(q.size(), k);
        for (size_t i = 0; i < q.size(); ++i) {
            for (size_t j = 0; j < k; ++j) {
                res.index(i, j) = 0;
                res.distance(i, j) = -12345;
            }
        }
    }
    Points part(const Points& qs) const {
        Points p;
        p.n = q.size();
        p.d = qs.d;
        for (auto i : q) {
            p.v.insert(p.v.end(), qs.row(i), qs.row(i) + qs.d);
        }
        return p;
    }
    Row row(size_t i) const {
        Row r;
        for (size_t j = 0; j < k; ++j) {
            r.push_back({res.index(i, j), std::bit_cast<uint32_t>((float)res.distance(i, j))});
        }
        return r;
    }
};
template <typename Index, typename P>
void perform(Index& ix, Request& a, const Points& qs, const P& sp, bool by_default) {
    auto part = a.part(qs);
    if (a.narrow) {
        auto d = to_data<int8_t>(part);
        if (by_default) {
            ix.set_search_parameters(sp);
            a.res = ix.search(d, a.k);
        } else {
            ix.search(a.res.view(), d.cview(), sp);
        }
    } else {
        auto d = to_data<float>(part);
        if (by_default) {
            ix.set_search_parameters(sp);
            a.res = ix.search(d, a.k);
        } else {
            ix.search(a.res.view(), d.cview(), sp);
        }
    }
}
// Facts about one answer that need no knowledge of the index. `vec` gives the stored vector of an
// identifier or null. Returns the number of results.
template <typename F>
size_t judge(const Measure& m, const Request& a, size_t i, const Points& qs, F&& vec) {
    std::set<size_t> seen;
    size_t found = 0;
    for (size_t j = 0; j < a.k; ++j) {
        size_t id = a.res.index(i, j);
        double dist = a.res.distance(i, j);
        const int* v = vec(id);
        if (!v) {
            SIM_CHECK(id >= 0xffffffffull, "invented-result",
                      "query %zu, place %zu holds identifier %zu, which is not stored", a.q[i], j, id);
            for (; j < a.k; ++j) {
                SIM_CHECK(a.res.index(i, j) >= 0xffffffffull, "gap",
                          "query %zu: a result after no result", a.q[i]);
            }
            probe("no-result position");
            break;
        }
        SIM_CHECK(seen.insert(id).second, "duplicate-id", "query %zu returned %zu twice", a.q[i], id);
        double t = m.exact(v, qs.row(a.q[i]), qs.d);
        SIM_CHECK(m.near(dist, t), "wrong-distance", "query %zu, identifier %zu: %.9g, truth %.9g",
                  a.q[i], id, dist, t);
        SIM_CHECK(j == 0 || !m.better(dist, a.res.distance(i, j - 1)), "not-sorted",
                  "query %zu: place %zu is nearer than place %zu", a.q[i], j, j - 1);
        ++found;
        note(id);
    }
    return found;
}
// Distances of the results against those of the nearest eligible vectors.
inline void judge_exact(const Measure& m, const Request& a, size_t i, const Points& qs,
                        const Points& pts, const std::vector<size_t>& rows, size_t found) {
    std::vector<double> t;
    for (size_t x : rows) {
        t.push_back(m.exact(pts.row(x), qs.row(a.q[i]), qs.d));
    }
    std::sort(t.begin(), t.end(), [&](double x, double y) { return m.better(x, y); });
    SIM_CHECK(found == std::min(a.k, t.size()), "incomplete", "query %zu: %zu results of %zu",
              a.q[i], found, std::min(a.k, t.size()));
    for (size_t j = 0; j < found; ++j) {
        SIM_CHECK(m.near(t[j], a.res.distance(i, j)), "not-nearest",
                  "query %zu, place %zu: distance %.9g, the %zu-th nearest is at %.9g", a.q[i], j,
                  (double)a.res.distance(i, j), j, t[j]);
    }
}
inline Request draw_request(Rng& o, const Points& qs, size_t n) {
    Request a;
    a.q.resize(o.chance(5) ? 0 : 1 + o.below(7));
    for (auto& x : a.q) {
        x = o.below(qs.n);
    }
    a.k = o.chance(15) ? n + o.below(4) : 1 + o.below(std::min<size_t>(n, 8));
    a.narrow = o.chance(40);
    a.prepare();
    return a;
}
template <typename Index> void reject_type(Index& ix, size_t d) {
    auto q = Data<uint8_t>(2, d);
    std::vector<uint8_t> z(d, 1);
    q.set_datum(0, std::span<const uint8_t>(z));
    q.set_datum(1, std::span<const uint8_t>(z));
    try {
        (void)ix.search(q, 1);
        fail("wrong-type-accepted", "queries of an unsupported type were answered");
    } catch (const svs::ANNException&) {
        probe("unsupported query type");
    }
}
using AskTypes = svs::lib::Types<float, int8_t>;
} // namespace svsx
