// Saved dynamic index: what was saved answers and goes on like what was loaded.
#include "io.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"

using namespace svsx;
namespace lib = svs::lib;
namespace va = svs::index::vamana;

namespace {
template <typename T> using BData = svs::data::BlockedData<T, svs::Dynamic, lib::Allocator<T>>;
template <typename T> auto blocking(size_t log2) {
    return svs::data::Blocked<lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2)});
}
// The library's growable graph with small blocks.
using GData = BData<uint32_t>;
class HGraph : public svs::graphs::SimpleGraphBase<uint32_t, GData> {
  public:
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    using data_type = GData;
    HGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, blocking<uint32_t>(9)} {}
    explicit HGraph(data_type data)
        : parent_type{std::move(data)} {}
    void unsafe_resize(size_t n) { parent_type::data_.resize(n); }
    static HGraph load(const lib::LoadTable& table) {
        auto lazy = lib::Lazy([](data_type d) { return HGraph(std::move(d)); });
        return parent_type::load(table, lazy, blocking<uint32_t>(10));
    }
};

template <typename M, typename T> struct DynObject : Object {
    using Index = va::MutableVamanaIndex<HGraph, BData<T>, typename M::dist>;
    std::unique_ptr<Index> ix;
    // External identifiers and their vectors.
    std::map<size_t, std::vector<int>> live;
    size_t d = 0;
    std::shared_ptr<const Points> qs;

    static BData<T> rows_of(const std::vector<std::vector<int>>& v, size_t d) {
        BData<T> out(v.size(), d, blocking<T>(9));
        std::vector<T> b(d);
        for (size_t i = 0; i < v.size(); ++i) {
            std::copy(v[i].begin(), v[i].end(), b.begin());
            out.set_datum(i, std::span<const T>(b.data(), d));
        }
        return out;
    }
    void save(const fs::path& dir) override { ix->save(dir / "config", dir / "graph", dir / "data"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto o = std::make_unique<DynObject>();
        size_t threads = knob("load_threads", 1, 3);
        o->ix.reset(new Index(va::auto_dynamic_assemble(
            dir / "config", lib::Lazy([&] { return lib::load_from_disk<HGraph>(dir / "graph"); }),
            lib::Lazy([&] {
                return lib::load_from_disk<BData<T>>(dir / "data", blocking<T>(9));
            }),
            typename M::dist(), threads)));
        o->ix->set_num_threads(1);
        o->live = live;
        o->d = d;
        o->qs = qs;
        return o;
    }
    std::vector<Hit> answers(size_t window, size_t k) const {
        std::vector<Hit> out;
        auto sp = ix->get_search_parameters();
        if (window) {
            sp.buffer_config(va::SearchBufferConfig(window));
        }
        svs::QueryResult<size_t> r(qs->n, k);
        auto data = to_data<T>(*qs);
        ix->search(r.view(), data, sp);
        for (size_t q = 0; q < qs->n; ++q) {
            for (size_t j = 0; j < k; ++j) {
                out.push_back({r.index(q, j), r.distance(q, j)});
            }
        }
        return out;
    }
    void holds_the_points(const char* cls) const {
        auto ids = ix->external_ids();
        std::sort(ids.begin(), ids.end());
        SIM_CHECK(ids.size() == live.size() && ix->size() == live.size(), cls,
                  "%zu identifiers, size %zu, %zu points", ids.size(), ix->size(), live.size());
        size_t i = 0;
        for (auto& kv : live) {
            SIM_CHECK(ids[i++] == kv.first, cls, "identifier %zu is missing", kv.first);
            auto v = ix->get_datum(kv.first);
            for (size_t c = 0; c < d; ++c) {
                SIM_CHECK((int)v[c] == kv.second[c], cls, "vector of %zu differs", kv.first);
            }
        }
    }
    void compare(const DynObject& b, const char* cls) const {
        SIM_CHECK(ix->size() == b.ix->size(), cls, "%zu points saved, %zu loaded", ix->size(),
                  b.ix->size());
        b.holds_the_points(cls);
        auto shape = [](auto& ix) {
            return std::tuple(ix->get_alpha(), ix->get_max_candidates(),
                              ix->get_construction_window_size(), ix->get_full_search_history(),
                              ix->max_degree(), ix->entry_point());
        };
        SIM_CHECK(shape(ix) == shape(b.ix), cls, "construction parameters or entry point differ");
        SIM_CHECK(ix->get_search_parameters() == b.ix->get_search_parameters(), cls,
                  "search parameters differ");
        auto &g = ix->view_graph(), &h = b.ix->view_graph();
        SIM_CHECK(g.n_nodes() == h.n_nodes(), cls, "%zu nodes saved, %zu loaded", g.n_nodes(),
                  h.n_nodes());
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            auto x = g.get_node((uint32_t)i), y = h.get_node((uint32_t)i);
            SIM_CHECK(std::equal(x.begin(), x.end(), y.begin(), y.end()), cls,
                      "adjacency list %zu differs", i);
        }
        size_t n = ix->size();
        for (size_t w : {size_t{0}, n}) {
            size_t k = std::min<size_t>(n, w ? n : 3);
            auto p = answers(w, k), q = b.answers(w, k);
            for (size_t i = 0; i < p.size(); ++i) {
                bool eq = p[i].id == q[i].id &&
                          (p[i].dist == q[i].dist || (p[i].dist != p[i].dist && q[i].dist != q[i].dist));
                SIM_CHECK(eq, cls, "query %zu neighbour %zu: %zu at %g saved, %zu at %g loaded",
                          i / k, i % k, p[i].id, p[i].dist, q[i].id, q[i].dist);
            }
        }
    }
    // A failed save has changed neither the points nor their vectors.
    void same(const Object& x, const char* cls) const override {
        auto& b = static_cast<const DynObject&>(x);
        holds_the_points("changed-by-save");
        compare(b, cls);
    }
    // Both take the same further updates in the same way.
    void goes_on(DynObject& b, Rng& r) {
        std::vector<size_t> ids, gone;
        std::vector<std::vector<int>> vs;
        size_t n = 1 + r.below(6);
        for (size_t i = 0; ids.size() < n; ++i) {
            size_t id = r.chance(50) ? r.below(200) : (size_t)r.next();
            if (live.count(id) || std::find(ids.begin(), ids.end(), id) != ids.end()) {
                continue;
            }
            ids.push_back(id);
            vs.emplace_back(d);
            for (auto& v : vs.back()) {
                v = (int)r.below(121) - 60;
            }
        }
        for (auto& kv : live) {
            if (r.chance(20) && gone.size() + 1 < live.size()) {
                gone.push_back(kv.first);
            }
        }
        for (DynObject* o : {this, &b}) {
            o->ix->add_points(rows_of(vs, d), ids);
            o->ix->delete_entries(gone);
            o->ix->consolidate();
            for (size_t i = 0; i < ids.size(); ++i) {
                o->live[ids[i]] = vs[i];
            }
            for (size_t id : gone) {
                o->live.erase(id);
            }
        }
        compare(b, "differs-later");
    }
};

template <typename M, typename T> std::unique_ptr<Object> make_dynamic(Rng& r) {
    using O = DynObject<M, T>;
    auto o = std::make_unique<O>();
    size_t n = r.range(1, 25);
    o->d = r.range(1, 7);
    o->qs = std::make_shared<const Points>(gen_points(r, 3, o->d, 50));
    std::vector<size_t> ids;
    std::vector<std::vector<int>> vs;
    while (ids.size() < n) {
        size_t id = r.chance(50) ? r.below(4 * n) : (size_t)r.next();
        if (o->live.count(id)) {
            continue;
        }
        std::vector<int> v(o->d);
        for (auto& x : v) {
            x = (int)r.below(121) - 60;
        }
        ids.push_back(id);
        vs.push_back(v);
        o->live[id] = v;
    }
    size_t degree = r.range(2, 7);
    va::VamanaBuildParameters bp{std::is_same_v<M, L2> ? 1.2f : 0.95f, degree, r.range(2, 20),
                                 r.range(20, 90), r.range(1, degree), r.chance(50)};
    o->ix.reset(new typename O::Index(bp, O::rows_of(vs, o->d), ids, typename M::dist(), 1));
    // A history with holes.
    std::vector<size_t> gone;
    for (size_t id : ids) {
        if (r.chance(25) && gone.size() + 1 < ids.size()) {
            gone.push_back(id);
            o->live.erase(id);
        }
    }
    if (!gone.empty()) {
        o->ix->delete_entries(gone);
        if (r.chance(30)) {
            o->ix->consolidate();
        }
    }
    size_t w = r.range(1, 40);
    o->ix->set_search_parameters(va::VamanaSearchParameters(
        va::SearchBufferConfig(w, w + r.below(20)), r.chance(50), r.below(10), r.below(5)));
    o->ix->set_alpha(std::is_same_v<M, L2> ? 1.0f + (float)r.below(100) / 77 : 0.9f);
    return o;
}
std::unique_ptr<Object> make(Rng& r, size_t kind) {
    return kind == 0 ? make_dynamic<L2, float>(r) : make_dynamic<IP, int8_t>(r);
}
constexpr size_t kinds = 2;

template <typename M, typename T> void continued() {
    Rng r("object");
    std::unique_ptr<Object> o, l;
    {
        Quiet q;
        o = make_dynamic<M, T>(r);
    }
    chop_rates();
    auto dir = fresh("d1");
    {
        Armed a;
        o->save(dir);
        l = o->load(dir);
    }
    Quiet q;
    o->same(*l, "round-trip");
    auto& a = static_cast<DynObject<M, T>&>(*o);
    auto& b = static_cast<DynObject<M, T>&>(*l);
    for (size_t i = 0, n = knob("updates", 1, 4); i < n; ++i) {
        a.goes_on(b, r);
    }
    nontrivial();
}
} // namespace

SCENARIO(io_dynamic_round_trip) { round_trip(make, kinds); }
SCENARIO(io_dynamic_continued) {
    if (knob("kind", 0, 1)) {
        continued<L2, float>();
    } else {
        continued<IP, int8_t>();
    }
}
SCENARIO(io_dynamic_failing_save) { failing_save(make, kinds); }
SCENARIO(io_dynamic_damaged_load) { damaged_load(make, kinds); }
SCENARIO(io_dynamic_crashed_save) { crashed_save(make, kinds); }
SCENARIO(io_dynamic_starved) { starved_io<make>(kinds); }
