// Saved data sets, graphs, translations, clusterings, blobs and vector files.
#include "io.h"
#include "svs/core/graph/graph.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"

using namespace svsx;
namespace lib = svs::lib;

namespace {

// Small, or long enough for several transfers.
size_t pick_n(Rng& r, size_t least = 0) {
    switch (r.below(5)) {
        case 0: return std::max<size_t>(least, r.below(3));
        case 1:
        case 2: return r.range(1, 40);
        case 3: return r.range(30, 300);
        default: return r.range(200, 900);
    }
}
size_t pick_d(Rng& r, size_t least = 1) { return r.range(least, r.chance(80) ? 9 : 70); }

template <typename T> T any_value(Rng& r) {
    if constexpr (std::is_same_v<T, svs::Float16>) {
        return svs::Float16((float)((int)r.below(4096) - 2048));
    } else if constexpr (std::is_floating_point_v<T>) {
        return (T)((int64_t)r.below(1u << 20) - (1 << 19)) / (T)8;
    } else {
        return (T)r.next();
    }
}
template <typename D> void fill(D& d, Rng& r) {
    using T = typename D::element_type;
    std::vector<T> row(d.dimensions());
    for (size_t i = 0; i < d.size(); ++i) {
        for (auto& x : row) {
            x = any_value<T>(r);
        }
        d.set_datum(i, std::span<const T>(row.data(), row.size()));
    }
}
template <typename D> void same_data(const D& a, const D& b, const char* cls) {
    SIM_CHECK(a.size() == b.size(), cls, "%zu vectors saved, %zu loaded", a.size(), b.size());
    SIM_CHECK(a.dimensions() == b.dimensions(), cls, "%zu dimensions saved, %zu loaded",
              a.dimensions(), b.dimensions());
    for (size_t i = 0; i < a.size(); ++i) {
        auto x = a.get_datum(i), y = b.get_datum(i);
        SIM_CHECK(memcmp(x.data(), y.data(), x.size() * sizeof(x[0])) == 0, cls,
                  "vector %zu of %zu differs", i, a.size());
    }
}

template <typename T> using Plain = svs::data::SimpleData<T, svs::Dynamic, lib::Allocator<T>>;
template <typename T> using Blocked = svs::data::BlockedData<T, svs::Dynamic, lib::Allocator<T>>;

template <typename D> struct DataObject : Object {
    D d;
    explicit DataObject(D x)
        : d{std::move(x)} {}
    void save(const fs::path& dir) override { lib::save_to_disk(d, dir / "data"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<DataObject>(lib::load_from_disk<D>(dir / "data"));
    }
    void same(const Object& o, const char* cls) const override {
        same_data(d, static_cast<const DataObject&>(o).d, cls);
    }
};
// Dynamic data, in small blocks (the default is 1 GiB).
template <typename T> auto blocking(size_t log2) {
    return svs::data::Blocked<lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2)});
}
template <typename T> struct BlockedObject : Object {
    Blocked<T> d;
    size_t log2;
    BlockedObject(Blocked<T> x, size_t b)
        : d{std::move(x)}
        , log2{b} {}
    void save(const fs::path& dir) override { lib::save_to_disk(d, dir / "data"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<BlockedObject>(
            lib::load_from_disk<Blocked<T>>(dir / "data", blocking<T>(log2)), log2);
    }
    void same(const Object& o, const char* cls) const override {
        same_data(d, static_cast<const BlockedObject&>(o).d, cls);
    }
};
template <typename D> std::unique_ptr<Object> make_data(Rng& r) {
    D d(pick_n(r), pick_d(r));
    fill(d, r);
    return std::make_unique<DataObject<D>>(std::move(d));
}
template <typename T> std::unique_ptr<Object> make_blocked(Rng& r) {
    size_t log2 = r.range(9, 13);
    Blocked<T> d(pick_n(r), pick_d(r), blocking<T>(log2));
    fill(d, r);
    return std::make_unique<BlockedObject<T>>(std::move(d), r.range(9, 13));
}

// One file, no directory.
template <typename T> struct NativeObject : Object {
    Plain<T> d;
    explicit NativeObject(Plain<T> x)
        : d{std::move(x)} {}
    void save(const fs::path& dir) override { svs::io::save(d, svs::io::NativeFile(dir / "x.svs")); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<NativeObject>(Plain<T>::load(dir / "x.svs"));
    }
    void same(const Object& o, const char* cls) const override {
        same_data(d, static_cast<const NativeObject&>(o).d, cls);
    }
};
template <typename T> struct BinObject : NativeObject<T> {
    using NativeObject<T>::NativeObject;
    using NativeObject<T>::d;
    void save(const fs::path& dir) override {
        svs::io::binary::BinaryWriter<T> w((dir / "x.bin").string(), d.size(), d.dimensions());
        for (size_t i = 0; i < d.size(); ++i) {
            w << d.get_datum(i);
        }
        w.close();
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<BinObject>(Plain<T>::load(dir / "x.bin"));
    }
};
template <typename T> struct VecsObject : NativeObject<T> {
    using NativeObject<T>::NativeObject;
    using NativeObject<T>::d;
    size_t record_bytes() const override { return 4 + d.dimensions() * sizeof(T); }
    void save(const fs::path& dir) override {
        svs::io::vecs::VecsWriter<T> w((dir / "x.fvecs").string(), d.dimensions());
        for (size_t i = 0; i < d.size(); ++i) {
            w << d.get_datum(i);
        }
        w.close();
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<VecsObject>(Plain<T>::load(dir / "x.fvecs"));
    }
};
template <typename O, typename T> std::unique_ptr<Object> make_file(Rng& r, size_t least) {
    Plain<T> d(pick_n(r, least), pick_d(r));
    fill(d, r);
    return std::make_unique<O>(std::move(d));
}

// Search results in the vector file format.
struct ResultObject : Object {
    size_t nq, k;
    std::vector<size_t> ids;
    size_t record_bytes() const override { return 4 + 4 * k; }
    void save(const fs::path& dir) override {
        svs::QueryResult<size_t> q(nq, k);
        for (size_t i = 0; i < nq; ++i) {
            for (size_t j = 0; j < k; ++j) {
                q.index(i, j) = ids[i * k + j];
                q.distance(i, j) = (float)j;
            }
        }
        q.save_vecs(dir / "r.ivecs");
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto d = Plain<uint32_t>::load(dir / "r.ivecs");
        auto o = std::make_unique<ResultObject>();
        o->nq = d.size();
        o->k = d.dimensions();
        for (size_t i = 0; i < o->nq; ++i) {
            for (auto x : d.get_datum(i)) {
                o->ids.push_back(x);
            }
        }
        return o;
    }
    void same(const Object& o, const char* cls) const override {
        auto& b = static_cast<const ResultObject&>(o);
        SIM_CHECK(nq == b.nq && k == b.k, cls, "%zux%zu results saved, %zux%zu loaded", nq, k, b.nq,
                  b.k);
        SIM_CHECK(ids == b.ids, cls, "identifiers differ");
    }
};

template <typename G> struct GraphObject : Object {
    G g;
    explicit GraphObject(G x)
        : g{std::move(x)} {}
    void save(const fs::path& dir) override { lib::save_to_disk(g, dir / "graph"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<GraphObject>(G::load(dir / "graph"));
    }
    void same(const Object& o, const char* cls) const override {
        auto& b = static_cast<const GraphObject&>(o).g;
        SIM_CHECK(g.n_nodes() == b.n_nodes(), cls, "%zu nodes saved, %zu loaded", g.n_nodes(),
                  b.n_nodes());
        SIM_CHECK(g.max_degree() == b.max_degree(), cls, "degree %zu saved, %zu loaded",
                  g.max_degree(), b.max_degree());
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            auto x = g.get_node(i), y = b.get_node(i);
            SIM_CHECK(std::equal(x.begin(), x.end(), y.begin(), y.end()), cls,
                      "adjacency list %zu differs", i);
        }
    }
};
// The growable graph, in small blocks.
using GData = Blocked<uint32_t>;
class BlockedGraph : public svs::graphs::SimpleGraphBase<uint32_t, GData> {
  public:
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GData>;
    BlockedGraph(size_t num_nodes, size_t max_degree)
        : parent_type{num_nodes, max_degree, blocking<uint32_t>(11)} {}
    explicit BlockedGraph(GData data)
        : parent_type{std::move(data)} {}
    static BlockedGraph load(const lib::LoadTable& table) {
        auto lazy = lib::Lazy([](GData d) { return BlockedGraph(std::move(d)); });
        return parent_type::load(table, lazy, blocking<uint32_t>(9));
    }
    static BlockedGraph load(const fs::path& p) { return lib::load_from_disk<BlockedGraph>(p); }
};
class BigGraph : public svs::graphs::SimpleBlockedGraph<uint32_t> {
  public:
    using B = svs::graphs::SimpleBlockedGraph<uint32_t>;
    BigGraph(size_t num_nodes, size_t max_degree)
        : B(max_degree, num_nodes) {}
    BigGraph(B&& b)
        : B(std::move(b)) {}
    static BigGraph load(const fs::path& p) { return BigGraph(B::load(p)); }
};
template <typename G> std::unique_ptr<Object> make_graph(Rng& r) {
    size_t n = pick_n(r, 1), deg = r.range(1, 12);
    G g(n, deg);
    for (size_t i = 0; i < n; ++i) {
        std::vector<uint32_t> l(r.below(deg + 1));
        for (auto& x : l) {
            x = (uint32_t)r.below(n);
        }
        g.replace_node((uint32_t)i, l);
    }
    return std::make_unique<GraphObject<G>>(std::move(g));
}

struct TranslatorObject : Object {
    svs::IDTranslator t;
    void save(const fs::path& dir) override { lib::save_to_disk(t, dir / "t"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto o = std::make_unique<TranslatorObject>();
        o->t = lib::load_from_disk<svs::IDTranslator>(dir / "t");
        return o;
    }
    void same(const Object& o, const char* cls) const override {
        auto& b = static_cast<const TranslatorObject&>(o).t;
        SIM_CHECK(t.size() == b.size(), cls, "%zu translations saved, %zu loaded", t.size(),
                  b.size());
        for (auto i = t.begin(); i != t.end(); ++i) {
            SIM_CHECK(b.has_external(i->first) && b.get_internal(i->first) == i->second &&
                          b.has_internal(i->second) && b.get_external(i->second) == i->first,
                      cls, "translation of %zu differs", (size_t)i->first);
        }
    }
};
svs::IDTranslator random_translator(Rng& r, size_t n) {
    svs::IDTranslator t;
    std::set<uint64_t> ext;
    std::set<uint32_t> in;
    while (ext.size() < n) {
        ext.insert(r.chance(50) ? r.below(4 * n) : r.next());
    }
    while (in.size() < n) {
        in.insert((uint32_t)r.below(2 * n + 1));
    }
    std::vector<uint64_t> e(ext.begin(), ext.end());
    std::vector<uint32_t> v(in.begin(), in.end());
    for (size_t i = n; i > 1; --i) {
        std::swap(v[i - 1], v[r.below(i)]);
    }
    t.insert(e, v);
    return t;
}

// Several parts in one directory: files are told apart by generated name and identifier.
struct Odd {
    uint32_t a;
    uint16_t b;
    uint16_t c;
};
struct Composite {
    Plain<float> f;
    Plain<int8_t> i;
    Blocked<float> b;
    std::vector<uint64_t> blob;
    std::vector<Odd> blob2;
    std::vector<double> empty;
    svs::IDTranslator t;

    static constexpr lib::Version save_version{0, 0, 1};
    static constexpr std::string_view serialization_schema = "composite";
    lib::SaveTable save(const lib::SaveContext& ctx) const {
        return lib::SaveTable(
            serialization_schema, save_version,
            {{"f", lib::save(f, ctx)},
             {"i", lib::save(i, ctx)},
             {"b", lib::save(b, ctx)},
             {"blob", lib::save(lib::BinaryBlobSaver<uint64_t>(blob), ctx)},
             {"blob2", lib::save(lib::BinaryBlobSaver<Odd>(blob2), ctx)},
             {"empty", lib::save(lib::BinaryBlobSaver<double>(empty), ctx)},
             {"t", lib::save(t, ctx)}});
    }
    static Composite load(const lib::LoadTable& table) {
        return Composite{
            lib::load_at<Plain<float>>(table, "f"),
            lib::load_at<Plain<int8_t>>(table, "i"),
            lib::load_at<Blocked<float>>(table, "b", blocking<float>(12)),
            lib::load_at<lib::BinaryBlobLoader<uint64_t>>(table, "blob"),
            lib::load_at<lib::BinaryBlobLoader<Odd>>(table, "blob2"),
            lib::load_at<lib::BinaryBlobLoader<double>>(table, "empty"),
            lib::load_at<svs::IDTranslator>(table, "t")};
    }
};
struct CompositeObject : Object {
    Composite c;
    explicit CompositeObject(Composite x)
        : c{std::move(x)} {}
    void save(const fs::path& dir) override { lib::save_to_disk(c, dir / "all"); }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        return std::make_unique<CompositeObject>(lib::load_from_disk<Composite>(dir / "all"));
    }
    void same(const Object& o, const char* cls) const override {
        auto& b = static_cast<const CompositeObject&>(o).c;
        same_data(c.f, b.f, cls);
        same_data(c.i, b.i, cls);
        same_data(c.b, b.b, cls);
        SIM_CHECK(c.blob == b.blob, cls, "first blob differs");
        SIM_CHECK(c.blob2.size() == b.blob2.size() &&
                      !memcmp(c.blob2.data(), b.blob2.data(), c.blob2.size() * sizeof(Odd)),
                  cls, "second blob differs");
        SIM_CHECK(c.empty == b.empty, cls, "empty blob differs");
        TranslatorObject x, y;
        x.t = c.t;
        y.t = b.t;
        x.same(y, cls);
    }
};
std::unique_ptr<Object> make_composite(Rng& r, bool with_empty) {
    Plain<float> f(pick_n(r), pick_d(r));
    Plain<int8_t> i(r.chance(30) ? f.size() : pick_n(r), r.chance(30) ? f.dimensions() : pick_d(r));
    Blocked<float> b(r.chance(50) ? f.size() : pick_n(r), f.dimensions(), blocking<float>(r.range(9, 13)));
    fill(f, r);
    fill(i, r);
    fill(b, r);
    Composite c{std::move(f), std::move(i), std::move(b), {}, {}, {}, random_translator(r, r.below(60))};
    c.blob.resize(r.range(1, 2000));
    for (auto& x : c.blob) {
        x = r.next();
    }
    c.blob2.resize(r.range(1, 50));
    for (auto& x : c.blob2) {
        x = {(uint32_t)r.next(), (uint16_t)r.next(), (uint16_t)r.next()};
    }
    if (!with_empty) {
        c.empty = {1.5, 2.5};
    }
    return std::make_unique<CompositeObject>(std::move(c));
}

std::unique_ptr<Object> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return make_data<Plain<float>>(r);
        case 1: return make_data<Plain<uint8_t>>(r);
        case 2: return make_data<Plain<svs::Float16>>(r);
        case 3: return make_blocked<float>(r);
        case 4:
            return make_graph<svs::graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>>>(r);
        case 5: return r.chance(3) ? make_graph<BigGraph>(r) : make_graph<BlockedGraph>(r);
        case 6: {
            auto o = std::make_unique<TranslatorObject>();
            o->t = random_translator(r, pick_n(r, 0));
            return o;
        }
        case 7: return make_composite(r, r.chance(50));
        case 8: return make_file<NativeObject<float>, float>(r, 0);
        case 9: return make_file<BinObject<float>, float>(r, 0);
        case 10: return make_file<VecsObject<float>, float>(r, 1);
        default: {
            auto o = std::make_unique<ResultObject>();
            o->nq = r.range(1, 40);
            o->k = r.range(1, 12);
            o->ids.resize(o->nq * o->k);
            for (auto& x : o->ids) {
                x = r.below(1u << 31);
            }
            return o;
        }
    }
}
constexpr size_t kinds = 12;
} // namespace

SCENARIO(io_round_trip) { round_trip(make, kinds); }
SCENARIO(io_failing_save) { failing_save(make, kinds); }
SCENARIO(io_damaged_load) { damaged_load(make, kinds); }
SCENARIO(io_crashed_save) { crashed_save(make, kinds); }
SCENARIO(io_starved) { starved_io<make>(kinds); }
