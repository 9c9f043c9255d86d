#pragma once
#include "wide.hpp"
namespace eve::algo {
template <typename R, typename T> T reduce(const R& r, T init) {
    for (const auto& x : r) {
        init += x;
    }
    return init;
}
} // namespace eve::algo
