// A stand-in for the EVE library (not installed here), as far as the compressed data sets use it:
// fixed-width vectors as plain arrays, every operation lane by lane.  The lanes that a predicate
// leaves out are never read from or written to memory, as with the real library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <type_traits>

namespace eve {
template <int64_t N> struct fixed {};
template <typename T> struct as {};

struct always_ {
    constexpr bool operator()(int64_t) const { return true; }
};
template <typename P, typename A> struct with_else {
    P p;
    A other;
    constexpr bool keeps(int64_t i) const { return p.keeps(i); }
};
struct ignore_none_ {
    constexpr bool keeps(int64_t) const { return true; }
    template <typename A> constexpr with_else<ignore_none_, A> else_(A a) const {
        return {*this, a};
    }
};
inline constexpr ignore_none_ ignore_none{};
struct keep_first {
    int64_t n;
    constexpr explicit keep_first(int64_t n_)
        : n{n_} {}
    template <typename T> constexpr T count(as<T>) const { return static_cast<T>(n); }
    constexpr bool keeps(int64_t i) const { return i < n; }
    template <typename A> constexpr with_else<keep_first, A> else_(A a) const {
        return {*this, a};
    }
};

template <typename T, typename F> struct wide;
template <typename T, int64_t N> struct wide<T, fixed<N>> {
    using value_type = T;
    T v[N];

    wide() = default;
    template <typename U>
        requires(std::is_arithmetic_v<U>)
    explicit wide(U x) {
        for (auto& l : v) {
            l = static_cast<T>(x);
        }
    }
    explicit wide(const T* p) {
        for (int64_t i = 0; i < N; ++i) {
            v[i] = p[i];
        }
    }
    template <typename H>
        requires(N % 2 == 0 && std::is_same_v<H, wide<T, fixed<N / 2>>>)
    wide(const H& lo, const H& hi) {
        for (int64_t i = 0; i < N / 2; ++i) {
            v[i] = lo.v[i];
            v[N / 2 + i] = hi.v[i];
        }
    }
    template <typename... U>
        requires(sizeof...(U) == N && N > 1 && (std::is_arithmetic_v<U> && ...))
    wide(U... x)
        : v{static_cast<T>(x)...} {}
    T get(int64_t i) const { return v[i]; }
};

template <typename T, int64_t N> using w_ = wide<T, fixed<N>>;

#define EVE_STAND_IN_OP(OP)                                                                      \
    template <typename T, int64_t N> w_<T, N> operator OP(const w_<T, N>& a, const w_<T, N>& b) { \
        w_<T, N> r;                                                                              \
        for (int64_t i = 0; i < N; ++i) {                                                        \
            r.v[i] = static_cast<T>(a.v[i] OP b.v[i]);                                           \
        }                                                                                        \
        return r;                                                                                \
    }                                                                                            \
    template <typename T, int64_t N, typename U>                                                 \
        requires(std::is_arithmetic_v<U>)                                                        \
    w_<T, N> operator OP(const w_<T, N>& a, U b) {                                               \
        return a OP w_<T, N>(b);                                                                 \
    }                                                                                            \
    template <typename T, int64_t N, typename U>                                                 \
        requires(std::is_arithmetic_v<U>)                                                        \
    w_<T, N> operator OP(U a, const w_<T, N>& b) {                                               \
        return w_<T, N>(a) OP b;                                                                 \
    }
EVE_STAND_IN_OP(+)
EVE_STAND_IN_OP(-)
EVE_STAND_IN_OP(*)
EVE_STAND_IN_OP(&)
EVE_STAND_IN_OP(<<)
EVE_STAND_IN_OP(>>)
#undef EVE_STAND_IN_OP
template <typename T, int64_t N, typename U> w_<T, N>& operator>>=(w_<T, N>& a, U b) {
    return a = a >> b;
}

struct load_ {
    template <typename U, typename T, int64_t N>
    w_<T, N> operator()(const U* p, as<w_<T, N>>) const {
        w_<T, N> r;
        for (int64_t i = 0; i < N; ++i) {
            r.v[i] = p[i];
        }
        return r;
    }
    template <typename P> struct masked {
        P p;
        template <typename U, typename T, int64_t N>
        w_<T, N> operator()(const U* q, as<w_<T, N>>) const {
            w_<T, N> r;
            for (int64_t i = 0; i < N; ++i) {
                r.v[i] = p.keeps(i) ? static_cast<T>(q[i]) : static_cast<T>(p.other);
            }
            return r;
        }
    };
    template <typename P> masked<P> operator[](P p) const { return {p}; }
};
inline constexpr load_ load{};

struct store_ {
    template <typename T, int64_t N> void operator()(const w_<T, N>& x, T* p) const {
        for (int64_t i = 0; i < N; ++i) {
            p[i] = x.v[i];
        }
    }
    template <typename P> struct masked {
        P p;
        template <typename T, int64_t N> void operator()(const w_<T, N>& x, T* q) const {
            for (int64_t i = 0; i < N; ++i) {
                if (p.keeps(i)) {
                    q[i] = x.v[i];
                }
            }
        }
    };
    template <typename P> masked<P> operator[](P p) const { return {p}; }
};
inline constexpr store_ store{};

struct add_ {
    template <typename P> struct masked {
        P p;
        template <typename T, int64_t N, typename U>
        w_<T, N> operator()(const w_<T, N>& a, const U& b) const {
            auto s = a + b;
            for (int64_t i = 0; i < N; ++i) {
                if (!p.keeps(i)) {
                    s.v[i] = static_cast<T>(p.other);
                }
            }
            return s;
        }
    };
    template <typename P> masked<P> operator[](P p) const { return {p}; }
};
inline constexpr add_ add{};

struct plus_ {
    template <typename A> A operator()(const A& a, const A& b) const { return a + b; }
};
inline constexpr plus_ plus{};

template <typename T, int64_t N, typename U> w_<U, N> convert(const w_<T, N>& x, as<U>) {
    w_<U, N> r;
    for (int64_t i = 0; i < N; ++i) {
        r.v[i] = static_cast<U>(x.v[i]);
    }
    return r;
}
// Pairwise, as the real library does it.
template <typename T, int64_t N, typename Op> T reduce(const w_<T, N>& x, Op op) {
    T t[N];
    for (int64_t i = 0; i < N; ++i) {
        t[i] = x.v[i];
    }
    for (int64_t h = N / 2; h > 0; h /= 2) {
        for (int64_t i = 0; i < h; ++i) {
            t[i] = op(t[i], t[i + h]);
        }
    }
    return t[0];
}
} // namespace eve
