// Settings shared by threads, the spin lock and the process-wide logger.
#include "svsx.h"
#include "history.h"
#include "svs/core/graph/graph.h"
#include "svs/core/logging.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/lib/spinlock.h"
#include "spdlog/sinks/base_sink.h"
#include <mutex>
#include <optional>

using namespace svsx;
namespace va = svs::index::vamana;
namespace lg = svs::logging;
using history::Log;
using history::Op;

namespace {
// ---- protected values ------------------------------------------------------------------
struct Wide {
    uint64_t w[9];
};
struct Boxed {
    long v;
    long more[5];
};
template <typename T> struct Kind;
template <> struct Kind<Wide> {
    static Wide make(long v) {
        Wide x;
        for (size_t i = 0; i < 9; ++i) {
            x.w[i] = (uint64_t)v * 1000 + i;
        }
        return x;
    }
    static long value(const Wide& x) {
        for (size_t i = 0; i < 9; ++i) {
            SIM_CHECK(x.w[i] == x.w[0] + i, "mixture", "word %zu is %llu, word 0 is %llu", i,
                      (unsigned long long)x.w[i], (unsigned long long)x.w[0]);
        }
        return (long)(x.w[0] / 1000);
    }
    static constexpr long taken = -2; // a value taken out stays
};
template <> struct Kind<std::shared_ptr<Boxed>> {
    static std::shared_ptr<Boxed> make(long v) {
        return v == 0 ? nullptr
                      : std::make_shared<Boxed>(Boxed{v, {v + 1, v + 2, v + 3, v + 4, v + 5}});
    }
    static long value(const std::shared_ptr<Boxed>& x) {
        if (!x) {
            return 0;
        }
        for (size_t i = 0; i < 5; ++i) {
            SIM_CHECK(x->more[i] == x->v + 1 + (long)i, "mixture", "value %ld, part %ld", x->v,
                      x->more[i]);
        }
        return x->v;
    }
    static constexpr long taken = 0; // nothing is left
};
template <> struct Kind<std::string> {
    // Short ones live in the object, long ones on the heap.
    static std::string make(long v) {
        return v == 0 ? std::string() : std::string(v % 2 ? 6 : 40, (char)('a' + v));
    }
    static long value(const std::string& x) {
        if (x.empty()) {
            return 0;
        }
        long v = x[0] - 'a';
        SIM_CHECK(x == make(v), "mixture", "the string \"%s\"", x.c_str());
        return v;
    }
    static constexpr long taken = -3; // unspecified: not used
};
template <> struct Kind<std::vector<long>> {
    static std::vector<long> make(long v) { return std::vector<long>(v, v); }
    static long value(const std::vector<long>& x) {
        for (auto& y : x) {
            SIM_CHECK(y == (long)x.size(), "mixture", "%zu elements, one is %ld", x.size(), y);
        }
        return (long)x.size();
    }
    static constexpr long taken = -3;
};

template <typename T> void protected_values() {
    using K = Kind<T>;
    using P = svs::lib::ReadWriteProtected<T>;
    Rng r("shared");
    P regs[2] = {P(K::make(1)), P(K::make(2))};
    Log l;
    l.start = {1, 2};
    long next = 3;
    const size_t nthreads = r.range(2, 4), each = r.range(1, nthreads == 2 ? 6 : 4);
    schedule_faults();
    Armed armed;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nthreads; ++t) {
        ts.emplace_back([&, s = r.next()] {
            Rng q(s);
            for (size_t i = 0; i < each; ++i) {
                int a = (int)q.below(2);
                P& x = regs[a];
                long v;
                {
                    Quiet quiet;
                    v = next++;
                }
                switch (q.below(10)) {
                    case 0:
                    case 1: l.record("get", [&](Op& o) {
                        o.reg = a;
                        o.expect = K::value(std::as_const(x).get());
                    }); break;
                    case 2: {
                        T val = K::make(v);
                        l.record("set", [&](Op& o) {
                            o.reg = a;
                            o.set = v;
                            x.set(val);
                        });
                        break;
                    }
                    case 3:
                    case 4: {
                        T val = K::make(v);
                        l.record("set by move", [&](Op& o) {
                            o.reg = a;
                            o.set = v;
                            x.set(std::move(val));
                        });
                        break;
                    }
                    case 5: {
                        std::optional<P> tmp;
                        l.record("copy construction", [&](Op& o) {
                            o.reg = a;
                            tmp.emplace(std::as_const(x));
                            o.expect = K::value(std::as_const(*tmp).get());
                        });
                        break;
                    }
                    case 6: {
                        const P from(K::make(v));
                        l.record("copy assignment", [&](Op& o) {
                            o.reg = a;
                            o.set = v;
                            x = from;
                        });
                        SIM_CHECK(K::value(from.get()) == v, "source-changed",
                                  "assigning from it changed it");
                        break;
                    }
                    case 7: {
                        P from(K::make(v));
                        l.record("move assignment", [&](Op& o) {
                            o.reg = a;
                            o.set = v;
                            x = std::move(from);
                        });
                        break;
                    }
                    case 8: {
                        // From one register to the other, or to itself.
                        int b = q.chance(20) ? a : 1 - a;
                        Op w;
                        l.record("read of a copy", [&](Op& o) {
                            o.reg = b;
                            regs[a] = std::as_const(regs[b]);
                            w = o;
                        });
                        Quiet quiet;
                        if (a != b) {
                            // One interval, two effects.
                            l.ops.back().save = l.slots;
                            w = l.ops.back();
                            w.what = "write of a copy";
                            w.save = history::NO;
                            w.restore = l.slots++;
                            w.reg = a;
                            w.after = (int)l.ops.size() - 1;
                            l.ops.push_back(w);
                        }
                        break;
                    }
                    case 9: {
                        if (K::taken == -3) {
                            break;
                        }
                        if (q.chance(50)) {
                            l.record("take", [&](Op& o) {
                                o.reg = a;
                                o.expect = K::value(std::move(x).get());
                                o.set = K::taken == -2 ? history::KEEP : K::taken;
                            });
                        } else {
                            std::optional<P> tmp;
                            l.record("move construction", [&](Op& o) {
                                o.reg = a;
                                tmp.emplace(std::move(x));
                                o.expect = K::value(std::as_const(*tmp).get());
                                o.set = K::taken == -2 ? history::KEEP : K::taken;
                            });
                        }
                        break;
                    }
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    for (int a = 0; a < 2; ++a) {
        l.record("last get", [&](Op& o) {
            o.reg = a;
            o.expect = K::value(std::as_const(regs[a]).get());
        });
    }
    history::check(l, "protected value");
    nontrivial();
}

// ---- spin lock -------------------------------------------------------------------------
void spin_lock() {
    Rng r("shared");
    auto lock = std::make_unique<svs::SpinLock>();
    Log l;
    l.start = {0};
    uint64_t guarded[3] = {0, 0, 0}; // plain: the lock is all that protects it
    int inside = 0;
    uint64_t entries = 0;
    const size_t nthreads = r.range(2, 4), each = r.range(1, nthreads == 2 ? 5 : 3);
    schedule_faults();
    Armed armed;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nthreads; ++t) {
        ts.emplace_back([&, s = r.next()] {
            Rng q(s);
            for (size_t i = 0; i < each; ++i) {
                bool mine = false;
                switch (q.below(5)) {
                    case 0:
                    case 1: {
                        l.record("lock", [&](Op& o) {
                            o.expect = 0;
                            o.set = 1;
                            lock->lock();
                        });
                        mine = true;
                        break;
                    }
                    case 2: {
                        l.record("lock guard", [&](Op& o) {
                            o.expect = 0;
                            o.set = 1;
                            std::unique_lock<svs::SpinLock> g(*lock);
                            g.release();
                        });
                        mine = true;
                        break;
                    }
                    case 3: {
                        l.record("try_lock", [&](Op& o) {
                            mine = lock->try_lock();
                            o.expect = mine ? 0 : 1;
                            o.set = mine ? 1 : history::KEEP;
                        });
                        if (!mine) {
                            probe("try_lock of a lock that is held");
                        }
                        break;
                    }
                    case 4: {
                        l.record("islocked",
                                 [&](Op& o) { o.expect = lock->islocked() ? 1 : 0; });
                        break;
                    }
                }
                if (mine) {
                    {
                        Quiet quiet;
                        SIM_CHECK(inside++ == 0, "not-exclusive", "%d threads hold the lock",
                                  inside);
                        entries++;
                    }
                    uint64_t before = guarded[0];
                    guarded[2] = before + 1;
                    if (q.chance(50)) {
                        // The holder is stalled, now and then for very long.
                        size_t stall = q.chance(6) ? q.range(500, 5000) : 1;
                        for (size_t k = 0; k < stall; ++k) {
                            yield();
                        }
                        if (stall > 1) {
                            probe("the holder of the spin lock is stalled");
                        }
                    }
                    guarded[1] = before + 1;
                    guarded[0] = before + 1;
                    {
                        Quiet quiet;
                        inside--;
                    }
                    l.record("unlock", [&](Op& o) {
                        o.expect = 1;
                        o.set = 0;
                        lock->unlock();
                    });
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    SIM_CHECK(guarded[0] == entries && guarded[1] == entries && guarded[2] == entries, "lost-update",
              "%llu updates under the lock, %llu are there", (unsigned long long)entries,
              (unsigned long long)guarded[0]);
    SIM_CHECK(!lock->islocked() && lock->try_lock() && lock->islocked(), "not-free",
              "everybody left, and the lock is not free");
    lock->unlock();
    history::check(l, "spin lock");
    nontrivial();
}

// ---- search parameters -------------------------------------------------------------------
using SP = va::VamanaSearchParameters;
SP encode(long v) {
    return SP(va::SearchBufferConfig((size_t)v, (size_t)(v + v * 7 % 11)), v % 2, (size_t)(v * 3),
              (size_t)(v * 5));
}
long decode(const SP& p) {
    long v = (long)p.buffer_config_.get_search_window_size();
    auto q = encode(v);
    SIM_CHECK(q.buffer_config_ == p.buffer_config_ &&
                  q.search_buffer_visited_set_ == p.search_buffer_visited_set_ &&
                  q.prefetch_lookahead_ == p.prefetch_lookahead_ &&
                  q.prefetch_step_ == p.prefetch_step_,
              "mixture", "window %zu, capacity %zu, visited %d, lookahead %zu, step %zu",
              p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(),
              p.search_buffer_visited_set_, p.prefetch_lookahead_, p.prefetch_step_);
    return v;
}

template <typename Index, typename Extra>
void parameters_of(Rng& r, Index& ix, const Points& pts, Extra&& extra) {
    auto qp = gen_points(r, 1, pts.d, 30);
    auto queries = to_data<float>(qp);
    const size_t k = 1 + r.below(3);
    ix.set_search_parameters(encode(1));
    // What a search with each of the values finds.
    const long values = 14;
    std::vector<svs::QueryResult<size_t>> found;
    for (long v = 0; v <= values; ++v) {
        svs::QueryResult<size_t> res(1, k);
        ix.search(res.view(), queries.cview(), encode(v ? v : 1));
        found.push_back(std::move(res));
    }
    auto check_result = [&](const svs::QueryResult<size_t>& res, long v) {
        for (size_t j = 0; j < k; ++j) {
            SIM_CHECK(res.index(0, j) == found[v].index(0, j) &&
                          res.distance(0, j) == found[v].distance(0, j),
                      "other-parameters", "position %zu differs from a search with window %ld", j,
                      v);
        }
    };
    Log l;
    l.start = {1};
    long next = 2;
    const size_t nthreads = r.range(2, 4), each = r.range(1, nthreads == 2 ? 6 : 3);
    bool search = r.chance(60);
    schedule_faults();
    Armed armed;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nthreads; ++t) {
        ts.emplace_back([&, s = r.next()] {
            Rng q(s);
            for (size_t i = 0; i < each; ++i) {
                switch (q.below(6)) {
                    case 0: l.record("get", [&](Op& o) {
                        o.expect = decode(ix.get_search_parameters());
                    }); break;
                    case 1: l.record("populate", [&](Op& o) {
                        SP p = encode(7);
                        ix.populate_search_parameters(p);
                        o.expect = decode(p);
                    }); break;
                    case 2:
                    case 3: {
                        long v;
                        {
                            Quiet quiet;
                            v = next++;
                        }
                        if (v > values) {
                            break;
                        }
                        l.record("set", [&](Op& o) {
                            o.set = v;
                            ix.set_search_parameters(encode(v));
                        });
                        break;
                    }
                    case 4: {
                        if (search) {
                            svs::QueryResult<size_t> res(1, k);
                            long v = 0;
                            l.record("search", [&](Op& o) {
                                auto p = ix.get_search_parameters();
                                o.expect = v = decode(p);
                                ix.search(res.view(), queries.cview(), p);
                            });
                            check_result(res, v);
                        }
                        break;
                    }
                    case 5: extra(l, q, queries); break;
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    l.record("last get", [&](Op& o) { o.expect = decode(ix.get_search_parameters()); });
    history::check(l, "search parameters");
    nontrivial();
}

using Graph = svs::graphs::SimpleGraph<uint32_t, svs::lib::Allocator<uint32_t>>;
using GData = svs::data::BlockedData<uint32_t, svs::Dynamic, svs::lib::Allocator<uint32_t>>;
using BD = svs::data::BlockedData<float, svs::Dynamic, svs::lib::Allocator<float>>;
template <typename T> auto blocks(size_t log2) {
    return svs::data::Blocked<svs::lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(log2)});
}
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GData> {
    using parent = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent{num_nodes, max_degree, blocks<uint32_t>(9)} {}
    explicit SmallGraph(parent&& p)
        : parent(std::move(p)) {}
    void unsafe_resize(size_t n) { parent::data_.resize(n); }
};

// ---- logger --------------------------------------------------------------------------------
struct Recorder : spdlog::sinks::base_sink<std::mutex> {
    long id;
    std::vector<std::vector<long>>* got; // per message: who received it
    Recorder(long id_, std::vector<std::vector<long>>* got_)
        : id{id_}
        , got{got_} {}
    void sink_it_(const spdlog::details::log_msg& m) override {
        std::string text(m.payload.data(), m.payload.size());
        unsigned n = 0;
        char rest[8] = "";
        SIM_CHECK(sscanf(text.c_str(), "message %u en%3s", &n, rest) == 2 && rest[0] == 'd',
                  "mixture", "the message \"%s\"", text.c_str());
        Quiet quiet;
        SIM_CHECK(n < got->size(), "mixture", "message number %u", n);
        (*got)[n].push_back(id);
    }
    void flush_() override {}
};

void logger() {
    Rng r("shared");
    std::vector<std::vector<long>> got(40);
    auto make = [&](long id) {
        auto x = std::make_shared<spdlog::logger>("l", std::make_shared<Recorder>(id, &got));
        x->set_level(spdlog::level::trace);
        return x;
    };
    Log l;
    l.start = {0}; // the default logger: shows nothing below a warning
    long next = 1;
    unsigned message = 0;
    const size_t nthreads = r.range(2, 4), each = r.range(1, nthreads == 2 ? 6 : 4);
    schedule_faults();
    Armed armed;
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nthreads; ++t) {
        ts.emplace_back([&, s = r.next()] {
            Rng q(s);
            for (size_t i = 0; i < each; ++i) {
                switch (q.below(8)) {
                    case 0:
                    case 1:
                    case 2: {
                        unsigned n;
                        {
                            Quiet quiet;
                            n = message++;
                        }
                        auto form = q.below(4);
                        l.record("log", [&](Op& o) {
                            switch (form) {
                                case 0: lg::info("message {} {}", n, "end"); break;
                                case 1: lg::debug("message {} {}", n, "end"); break;
                                case 2: lg::trace("message {} end", n); break;
                                case 3: {
                                    auto own = lg::get();
                                    lg::log(own, lg::Level::Info, "message {} end", n);
                                    break;
                                }
                            }
                            Quiet quiet;
                            SIM_CHECK(got[n].size() <= 1, "delivered-twice",
                                      "message %u went to %zu loggers", n, got[n].size());
                            o.expect = got[n].empty() ? 0 : got[n][0];
                        });
                        break;
                    }
                    case 3:
                    case 4: {
                        long v;
                        {
                            Quiet quiet;
                            v = next++;
                        }
                        auto x = make(v);
                        bool move = q.chance(50);
                        l.record("set", [&](Op& o) {
                            o.set = v;
                            if (move) {
                                lg::set(std::move(x));
                            } else {
                                lg::set(x);
                            }
                        });
                        break;
                    }
                    case 5: l.record("reset", [&](Op& o) {
                        o.set = 0;
                        lg::reset_to_default();
                    }); break;
                    case 6: l.record("get", [&](Op& o) {
                        auto x = lg::get();
                        SIM_CHECK(x != nullptr && x->sinks().size() == 1, "mixture",
                                  "a logger without its sink");
                        auto* y = dynamic_cast<Recorder*>(x->sinks()[0].get());
                        o.expect = y ? y->id : 0;
                    }); break;
                    case 7: {
                        // The level is the logger's own; the recorders' stays as it is.
                        auto level = lg::get_level();
                        SIM_CHECK(level == lg::Level::Trace || level == lg::Level::Warn, "mixture",
                                  "level %d", (int)level);
                        break;
                    }
                }
            }
        });
    }
    for (auto& t : ts) {
        t.join();
    }
    l.record("last get", [&](Op& o) {
        auto x = lg::get();
        auto* y = dynamic_cast<Recorder*>(x->sinks()[0].get());
        o.expect = y ? y->id : 0;
    });
    history::check(l, "logger");
    // Loggers that were replaced are gone.
    lg::set(std::make_shared<spdlog::logger>("none", lg::null_sink()));
    nontrivial();
}
} // namespace

SCENARIO(shared_values) {
    switch (knob("kind", 0, 3)) {
        case 0: protected_values<Wide>(); break;
        case 1: protected_values<std::shared_ptr<Boxed>>(); break;
        case 2: protected_values<std::string>(); break;
        case 3: protected_values<std::vector<long>>(); break;
    }
}
SCENARIO(shared_spinlock) { spin_lock(); }
SCENARIO(shared_logger) { logger(); }
SCENARIO(shared_parameters) {
    Rng r("shared");
    auto pts = gen_points(r, r.range(3, 14), r.range(1, 4), 30);
    if (r.chance(65)) {
        Graph g(pts.n, 2);
        for (uint32_t i = 0; i < pts.n; ++i) {
            g.add_edge(i, (uint32_t)((i + 1) % pts.n));
        }
        using Index = va::VamanaIndex<Graph, Data<float>, svs::distance::DistanceL2>;
        Index ix(std::move(g), to_data<float>(pts), 0u, svs::distance::DistanceL2(),
                 make_pool(r.range(1, 2)));
        parameters_of(r, ix, pts, [&](Log& l, Rng& q, Data<float>& queries) {
            bool go = q.chance(50);
            l.record("scratchspace", [&](Op& o) {
                auto s = ix.scratchspace();
                o.expect = decode(SP(s.buffer.config(), s.buffer.visited_set_enabled(),
                                     s.prefetch_parameters.lookahead, s.prefetch_parameters.step));
                if (go) {
                    ix.search(queries.get_datum(0), s);
                }
            });
        });
    } else {
        BD data(pts.n, pts.d, blocks<float>(8));
        std::vector<float> b(pts.d);
        std::vector<size_t> ids;
        for (size_t i = 0; i < pts.n; ++i) {
            for (size_t k = 0; k < pts.d; ++k) {
                b[k] = (float)pts.row(i)[k];
            }
            data.set_datum(i, std::span<const float>(b.data(), b.size()));
            ids.push_back(100 + i);
        }
        va::VamanaBuildParameters bp{1.2f, 4, 6, 30, 0, true};
        bp.max_candidate_pool_size = 16;
        bp.prune_to = 4;
        va::MutableVamanaIndex<SmallGraph, BD, svs::distance::DistanceL2> ix(
            bp, std::move(data), ids, svs::distance::DistanceL2(), r.range(1, 2));
        parameters_of(r, ix, pts, [](Log&, Rng&, Data<float>&) {});
    }
}
