// Compressed data sets (LVQ): what is known about them, independently of the library.
//
// The vector library that LVQ is written with (EVE) is replaced by a stand-in, see sim/stubs.
#pragma once
#include "svsx.h"
#include "svs/quantization/lvq/lvq.h"

namespace svsx {
namespace lvq = svs::quantization::lvq;
using Floats = std::vector<std::vector<double>>;

// Vectors in multiples of 1/4: sums and means of few of them do not depend on the order.
inline Floats gen_floats(Rng& r, size_t n, size_t d, int scale) {
    Floats v(n, std::vector<double>(d));
    bool near = r.chance(30);
    for (auto& x : v) {
        unsigned kind = (unsigned)r.below(20);
        double c = ((int)r.below(64) - 32) / 4.0;
        for (auto& e : x) {
            e = ((double)r.below(2 * scale + 1) - scale) / 4;
            if (kind == 0) { // one value in every place
                e = c;
            } else if (kind == 1) { // nearly
                e = c + (double)r.below(2) / 256;
            } else if (kind == 2 && r.chance(10)) { // one place far out
                e *= 40;
            }
        }
        if (near && kind > 10 && &x != &v[0]) {
            x = v[r.below((size_t)(&x - &v[0]))];
        }
    }
    return v;
}
template <typename T> svs::data::SimpleData<T> to_floats(const Floats& v, size_t d) {
    svs::data::SimpleData<T> out(v.size(), d);
    std::vector<T> b(d);
    for (size_t i = 0; i < v.size(); ++i) {
        for (size_t k = 0; k < d; ++k) {
            b[k] = (T)(float)v[i][k];
        }
        out.set_datum(i, std::span<const T>(b.data(), d));
    }
    return out;
}
// What the library stores for every vector.
template <typename D> Floats stored(const D& x) {
    Floats out;
    auto dec = x.decompressor();
    for (size_t i = 0; i < x.size(); ++i) {
        auto s = dec(x.get_datum(i));
        out.emplace_back(s.begin(), s.end());
    }
    return out;
}
// How far a compressed vector may be from the original: half a step, the step following from the
// vector's own range, plus what storing the step and the least value in half precision costs.
inline double allowance(const std::vector<double>& x, const std::vector<double>& centroid,
                        size_t primary, size_t residual, bool half) {
    double lo = 1e300, hi = -1e300, mag = 0;
    for (size_t k = 0; k < x.size(); ++k) {
        double v = x[k] - centroid[k];
        lo = std::min(lo, v);
        hi = std::max(hi, v);
        mag = std::max({mag, std::fabs(x[k]), std::fabs(centroid[k])});
    }
    double range = hi - lo, levels = std::pow(2.0, (double)primary) - 1;
    double step = range / levels;
    double err = step / 2;
    if (range <= 8e-5 * levels) { // hardly any range: a step of one
        step = 1;
        err = range;
    }
    if (residual) {
        err = std::min(err, step / (std::pow(2.0, (double)residual) - 1) / 2);
        if (range <= 8e-5 * levels) {
            err = 1 / (std::pow(2.0, (double)residual) - 1) / 2;
        }
    }
    return err * 1.001 + (std::fabs(lo) + range) / 1000 + (half ? mag / 500 : 0) + 1e-4 + mag * 1e-6;
}
template <typename D>
void within_bound(const D& x, const Floats& was, bool half, const char* when) {
    auto now = stored(x);
    SIM_CHECK(now.size() == was.size(), "size", "%s: %zu vectors, %zu compressed", when, was.size(),
              now.size());
    std::vector<double> c;
    for (auto e : x.get_centroid(0)) {
        c.push_back(e);
    }
    for (size_t i = 0; i < was.size(); ++i) {
        double ok = allowance(was[i], c, D::primary_bits, D::residual_bits, half);
        auto lazy = x.get_datum(i);
        double mag = 1;
        for (size_t k = 0; k < c.size(); ++k) {
            mag = std::max({mag, std::fabs(now[i][k]), std::fabs(c[k])});
        }
        for (size_t k = 0; k < was[i].size(); ++k) {
            SIM_CHECK(std::fabs(now[i][k] - was[i][k]) <= ok, "too-far",
                      "%s: element %zu of vector %zu is %g, stored as %g; at most %g away is allowed",
                      when, k, i, was[i][k], now[i][k], ok);
            double one = (double)lazy.get(k) + c[k];
            SIM_CHECK(std::fabs(one - now[i][k]) <= 1e-5 * mag, "decompression",
                      "%s: element %zu of vector %zu is %g by itself and %g with the whole vector",
                      when, k, i, one, now[i][k]);
        }
    }
}
inline double true_l2(const std::vector<double>& a, const std::vector<double>& b) {
    double s = 0;
    for (size_t k = 0; k < a.size(); ++k) {
        s += (a[k] - b[k]) * (a[k] - b[k]);
    }
    return s;
}
inline double true_ip(const std::vector<double>& a, const std::vector<double>& b) {
    double s = 0;
    for (size_t k = 0; k < a.size(); ++k) {
        s += a[k] * b[k];
    }
    return s;
}
template <typename M> double true_dist(const std::vector<double>& a, const std::vector<double>& b) {
    return std::is_same_v<M, L2> ? true_l2(a, b) : true_ip(a, b);
}
// Rounding allowed in a distance.
inline double slack(const std::vector<double>& a, const std::vector<double>& b,
                    const std::vector<double>& c) {
    double s = 0;
    for (size_t k = 0; k < a.size(); ++k) {
        double x = std::fabs(a[k]) + std::fabs(b[k]) + 2 * std::fabs(c[k]);
        s += x * x;
    }
    return 1e-5 * s + 1e-4;
}

using Seq = lvq::Sequential;
constexpr size_t Dyn_ = svs::Dynamic;
using L8 = lvq::LVQDataset<8>;
using L4 = lvq::LVQDataset<4>;
using L5 = lvq::LVQDataset<5>;
using L4T = lvq::LVQDataset<4, 0, Dyn_, lvq::Turbo<16, 8>>;
using L8T = lvq::LVQDataset<8, 0, Dyn_, lvq::Turbo<16, 4>>;
using L48 = lvq::LVQDataset<4, 8>;
using L48T = lvq::LVQDataset<4, 8, Dyn_, lvq::Turbo<16, 8>>;
using L44 = lvq::LVQDataset<4, 4>;
using L88 = lvq::LVQDataset<8, 8>;
template <typename D> struct Of {
    using type = D;
};
template <typename F> void with_kind(size_t kind, F&& f) {
    switch (kind) {
        case 0: f(Of<L8>{}); break;
        case 1: f(Of<L4>{}); break;
        case 2: f(Of<L5>{}); break;
        case 3: f(Of<L4T>{}); break;
        case 4: f(Of<L8T>{}); break;
        case 5: f(Of<L48>{}); break;
        case 6: f(Of<L48T>{}); break;
        case 7: f(Of<L44>{}); break;
        default: f(Of<L88>{});
    }
}
constexpr size_t lvq_kinds = 9;
} // namespace svsx
