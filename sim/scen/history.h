// Recorded histories of operations on a few registers, and the search for an order in which
// they could have happened one after the other.
#pragma once
#include "simrt.h"
#include <set>
#include <vector>

namespace history {
constexpr long ANY = -1;  // whatever value is there
constexpr long KEEP = -1; // the value stays
constexpr int NO = -1;

struct Op {
    uint64_t from = 0, to = 0; // interval in which it took effect
    int reg = 0;
    long expect = ANY;         // the register holds this value ...
    long set = KEEP;           // ... and this one afterwards
    int save = NO;             // remember what the register holds in this slot
    int restore = NO;          // the register gets what the slot holds
    int after = NO;            // index of an operation that takes effect first
    const char* what = "";
    uint32_t by = 0;
};

struct Log {
    std::vector<Op> ops;
    std::vector<long> start; // initial values of the registers
    int slots = 0;

    // Records one operation; `f` performs it and fills in what it saw.
    template <typename F> void record(const char* what, F&& f) {
        Op o;
        {
            sim::Quiet q;
            o.what = what;
            o.by = sim::tid();
            o.from = sim::event_seq();
        }
        f(o);
        sim::Quiet q;
        o.to = sim::event_seq();
        ops.push_back(o);
    }
};

struct Search {
    const Log& l;
    std::set<std::vector<long>> seen;
    std::vector<long> reg, slot;
    uint64_t done = 0;
    uint64_t steps = 0;

    explicit Search(const Log& l_)
        : l{l_}
        , reg{l_.start}
        , slot(l_.slots, 0) {}

    bool go() {
        const size_t n = l.ops.size();
        if (done + 1 == (n == 64 ? 0 : 1ull << n)) {
            return true;
        }
        std::vector<long> key(reg);
        key.insert(key.end(), slot.begin(), slot.end());
        key.push_back((long)done);
        if (!seen.insert(std::move(key)).second) {
            return false;
        }
        if (++steps > 2000000) {
            sim::discard("history search too large");
        }
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < n; ++i) {
            if (!(done >> i & 1)) {
                first_end = std::min(first_end, l.ops[i].to);
            }
        }
        for (size_t i = 0; i < n; ++i) {
            const Op& o = l.ops[i];
            if ((done >> i & 1) || o.from > first_end ||
                (o.after != NO && !(done >> o.after & 1)) ||
                (o.expect != ANY && reg[o.reg] != o.expect)) {
                continue;
            }
            long was = reg[o.reg], was_slot = o.save != NO ? slot[o.save] : 0;
            if (o.save != NO) {
                slot[o.save] = was;
            }
            if (o.restore != NO) {
                reg[o.reg] = slot[o.restore];
            } else if (o.set != KEEP) {
                reg[o.reg] = o.set;
            }
            done |= 1ull << i;
            if (go()) {
                return true;
            }
            done &= ~(1ull << i);
            reg[o.reg] = was;
            if (o.save != NO) {
                slot[o.save] = was_slot;
            }
        }
        return false;
    }
};

inline void check(const Log& l, const char* what) {
    sim::Quiet q;
    for (auto& o : l.ops) {
        sim::note(o.expect * 1000003 + o.set);
    }
    if (Search(l).go()) {
        return;
    }
    for (auto& o : l.ops) {
        sim::log("[%llu,%llu] thread %u: %s of %d, expects %ld, sets %ld",
                 (unsigned long long)o.from, (unsigned long long)o.to, o.by, o.what, o.reg,
                 o.expect, o.set);
    }
    sim::fail("not-atomic", "%s: no order of the %zu operations explains what they returned", what,
              l.ops.size());
}
} // namespace history
