// Helpers shared by the index scenarios: generated data, exact distances, brute force.
#pragma once
#include "simrt.h"
#include <bits/stl_algobase.h>
// Filling an array is one instrumented access of its whole range (a fill of the 128 KiB visited
// filter would otherwise dominate every run).
extern "C" void simrt_write_range(void*, unsigned long);
namespace std {
#define SVSX_FILL(T)                                                                             \
    template <>                                                                                  \
    __attribute__((no_sanitize("thread"), noinline)) inline void __fill_a1<T*, T>(               \
        T * b, T * e, const T& x) {                                                              \
        const T v = x;                                                                           \
        simrt_write_range(b, (unsigned long)((char*)e - (char*)b));                             \
        for (; b != e; ++b) {                                                                    \
            *b = v;                                                                              \
        }                                                                                        \
    }
SVSX_FILL(unsigned short)
SVSX_FILL(unsigned int)
#undef SVSX_FILL
} // namespace std
#include "svs/core/data/simple.h"
#include "svs/core/distance.h"
#include "svs/core/query_result.h"
#include "svs/lib/threads.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <numeric>
#include <set>
#include <thread>
#include <vector>

namespace svsx {
using namespace sim;
namespace th = svs::threads;

// Allocator through operator new: every block is seen by the heap oracle.
using DefAlloc = svs::lib::Allocator<float>;
template <typename T> using Data = svs::data::SimpleData<T, svs::Dynamic, svs::lib::Allocator<T>>;

// Values are small integers so that every distance is exact in single precision whatever the
// order of summation.
struct Points {
    size_t n = 0, d = 0;
    std::vector<int> v;
    const int* row(size_t i) const { return v.data() + i * d; }
};

// `spread`: small gives many ties and duplicates, large makes ties rare.
inline Points gen_points(Rng& r, size_t n, size_t d, int spread, unsigned dup_percent = 0) {
    Points p;
    p.n = n;
    p.d = d;
    p.v.resize(n * d);
    for (size_t i = 0; i < n; ++i) {
        if (i && r.chance(dup_percent)) {
            size_t j = r.below(i);
            std::copy_n(p.row(j), d, p.v.data() + i * d);
            continue;
        }
        for (size_t k = 0; k < d; ++k) {
            p.v[i * d + k] = (int)r.below(2 * spread + 1) - spread;
        }
    }
    return p;
}
template <typename T, typename A = svs::lib::Allocator<T>>
svs::data::SimpleData<T, svs::Dynamic, A> to_data(const Points& p) {
    svs::data::SimpleData<T, svs::Dynamic, A> out(p.n, p.d);
    std::vector<T> b(p.d);
    for (size_t i = 0; i < p.n; ++i) {
        for (size_t k = 0; k < p.d; ++k) {
            b[k] = (T)p.row(i)[k];
        }
        out.set_datum(i, std::span<const T>(b.data(), b.size()));
    }
    return out;
}

// Exact values of the two measures used.
inline double exact_l2(const int* a, const int* b, size_t d) {
    double s = 0;
    for (size_t k = 0; k < d; ++k) {
        double x = (double)a[k] - b[k];
        s += x * x;
    }
    return s;
}
inline double exact_ip(const int* a, const int* b, size_t d) {
    double s = 0;
    for (size_t k = 0; k < d; ++k) {
        s += (double)a[k] * b[k];
    }
    return s;
}
struct L2 {
    using dist = svs::distance::DistanceL2;
    static double exact(const int* a, const int* b, size_t d) { return exact_l2(a, b, d); }
    static bool better(double x, double y) { return x < y; }
    static constexpr const char* name = "l2";
};
struct IP {
    using dist = svs::distance::DistanceIP;
    static double exact(const int* a, const int* b, size_t d) { return exact_ip(a, b, d); }
    static bool better(double x, double y) { return x > y; }
    static constexpr const char* name = "ip";
};

struct Hit {
    size_t id;
    double dist;
    bool operator==(const Hit& o) const { return id == o.id && dist == o.dist; }
};

// All of `ids` sorted by distance to the query (stable by id).
template <typename M>
std::vector<Hit> brute(const Points& p, const int* q, const std::vector<size_t>& ids) {
    std::vector<Hit> h;
    h.reserve(ids.size());
    for (size_t i : ids) {
        h.push_back({i, M::exact(p.row(i), q, p.d)});
    }
    std::stable_sort(h.begin(), h.end(),
                     [](const Hit& a, const Hit& b) { return M::better(a.dist, b.dist); });
    return h;
}
inline std::vector<size_t> iota_ids(size_t n) {
    std::vector<size_t> v(n);
    std::iota(v.begin(), v.end(), size_t{0});
    return v;
}

// The share of the true neighbours that was found, computed independently of the library.
template <typename Truth, typename Result>
double recall_of(const Truth& truth, const Result& found, size_t k) {
    size_t hits = 0, n = truth.size();
    for (size_t i = 0; i < n; ++i) {
        auto t = truth.get_datum(i);
        for (size_t j = 0; j < k; ++j) {
            for (size_t l = 0; l < k; ++l) {
                if ((uint64_t)found.index(i, l) == (uint64_t)t[j]) {
                    ++hits;
                    break;
                }
            }
        }
    }
    return (double)hits / (double)(k * n);
}
inline const char* schedules() { return ""; }
inline void schedule_faults() {
    fault_rate(F_CAS_WEAK, knob("rate_cas", 0, 1) ? 20000 : 0);
    fault_rate(F_SPURIOUS_WAKE, knob("rate_spurious", 0, 1) ? 20000 : 0);
}
inline th::NativeThreadPool make_pool(size_t n, uint64_t spin = 0) {
    static const uint64_t v[] = {1, 20, 400};
    uint64_t s = spin ? spin : v[knob("spin", 0, 2)];
    return th::NativeThreadPool(n, th::DefaultBuilder{s});
}
} // namespace svsx
