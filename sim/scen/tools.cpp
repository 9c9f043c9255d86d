// The command-line utilities: converting files of other formats and earlier versions.
//
// The utilities' own sources are linked in with their main functions renamed (bin/simbuild.py).
// A utility that exits with success has to have written everything, whatever the disk does.
#include "io.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/core/io.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"
#include "svs/core/logging.h"

using namespace svsx;
namespace lib = svs::lib;
namespace va = svs::index::vamana;

extern "C" {
int tool_convert_data_to_float16(int, char**);
int tool_convert_legacy(int, char**);
int tool_upgrade_vamana_index_parameters(int, char**);
int tool_assemble_vamana(int, char**);
int tool_compute_recall(int, char**);
}

namespace {
// What the utilities print does not matter, unless it is their result.
void silence() {
    Quiet q;
    static cookie_io_functions_t sink{
        nullptr, [](void*, const char*, size_t n) { return (ssize_t)n; }, nullptr, nullptr};
    static bool done = false;
    if (!done) {
        done = true;
        stdout = fopencookie(nullptr, "w", sink);
        std::cout.setstate(std::ios::failbit);
        std::cerr.setstate(std::ios::failbit);
        svs::logging::set_level(svs::logging::Level::Off);
    }
}
int run_tool(int (*tool)(int, char**), std::vector<std::string> args) {
    silence();
    args.insert(args.begin(), "tool");
    std::vector<char*> argv;
    for (auto& a : args) {
        argv.push_back(a.data());
    }
    argv.push_back(nullptr);
    return tool((int)args.size(), argv.data());
}

fs::path source_name(const char* what) {
    static int n = 0;
    ::mkdir("src", 0777);
    return fs::path("src") / (std::string(what) + std::to_string(n++));
}
template <typename T> using Rows = std::vector<std::vector<T>>;
Data<float> to_plain(const Rows<float>& rows) {
    Data<float> d(rows.size(), rows[0].size());
    for (size_t i = 0; i < rows.size(); ++i) {
        d.set_datum(i, std::span<const float>(rows[i].data(), rows[i].size()));
    }
    return d;
}
size_t pick_n(Rng& r) {
    switch (r.below(4)) {
        case 0: return r.range(1, 3);
        case 1: return r.range(1, 40);
        case 2: return r.range(30, 300);
        default: return r.range(200, 900);
    }
}
size_t pick_d(Rng& r) { return r.range(1, r.chance(80) ? 9 : 70); }

struct Raw {
    std::string bytes;
    template <typename T> void put(const T& x) {
        bytes.append(reinterpret_cast<const char*>(&x), sizeof(T));
    }
    void write(const fs::path& p) {
        std::ofstream f(p, std::ios::binary);
        f.write(bytes.data(), bytes.size());
    }
};

// ---- conversions -------------------------------------------------------------------------
// A source, the utility's arguments and what the result has to be.
struct Conversion : Object {
    fs::path source;
    // Something that damages the source for a format that cannot tell.
    size_t source_record = 0;
    virtual int perform(const fs::path& dir) const = 0;
    void save(const fs::path& dir) override {
        if (int rc = perform(dir)) {
            throw std::runtime_error("exit status " + std::to_string(rc));
        }
    }
};

template <typename T> void same_rows(const Rows<T>& e, const Data<T>& got, const char* cls) {
    SIM_CHECK(got.size() == e.size(), cls, "%zu vectors in, %zu out", e.size(), got.size());
    SIM_CHECK(got.dimensions() == e[0].size(), cls, "%zu dimensions in, %zu out", e[0].size(),
              got.dimensions());
    for (size_t i = 0; i < e.size(); ++i) {
        SIM_CHECK(memcmp(got.get_datum(i).data(), e[i].data(), e[i].size() * sizeof(T)) == 0, cls,
                  "vector %zu of %zu differs", i, e.size());
    }
}

struct ToHalf : Conversion {
    size_t kind; // 0 native, 1 vecs, 2 bin
    Rows<svs::Float16> expect;
    Data<svs::Float16> got{0, 1};
    static const char* ext(size_t kind) {
        return kind == 0 ? ".svs" : kind == 1 ? ".hvecs" : ".bin";
    }
    size_t record_bytes() const override { return kind == 1 ? 4 + 2 * expect[0].size() : 0; }
    int perform(const fs::path& dir) const override {
        return run_tool(tool_convert_data_to_float16,
                        {source.string(), (dir / ("x" + std::string(ext(kind)))).string(),
                         std::to_string(kind)});
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto l = std::make_unique<ToHalf>(*this, 0);
        auto p = dir / ("x" + std::string(ext(kind)));
        l->got = Data<svs::Float16>::load(p);
        return l;
    }
    void same(const Object& o, const char* cls) const override {
        same_rows(expect, static_cast<const ToHalf&>(o).got, cls);
    }
    ToHalf() = default;
    ToHalf(const ToHalf& o, int)
        : Conversion{o}
        , kind{o.kind}
        , expect{o.expect} {}
};
std::unique_ptr<ToHalf> make_half(Rng& r, size_t kind) {
    auto o = std::make_unique<ToHalf>();
    o->kind = kind;
    size_t n = pick_n(r), d = pick_d(r);
    Rows<float> rows(n, std::vector<float>(d));
    o->expect.assign(n, std::vector<svs::Float16>(d));
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d; ++j) {
            // Representable, so that there is nothing to round.
            rows[i][j] = (float)((int)r.below(4096) - 2048) / 4.0f;
            o->expect[i][j] = svs::Float16(rows[i][j]);
        }
    }
    o->source = source_name("full").string() + ToHalf::ext(kind);
    if (kind == 0) {
        svs::io::save(to_plain(rows), svs::io::NativeFile(o->source));
    } else {
        Raw raw;
        if (kind == 2) {
            raw.put((uint32_t)n);
            raw.put((uint32_t)d);
        }
        for (auto& row : rows) {
            if (kind == 1) {
                raw.put((uint32_t)d);
            }
            for (auto x : row) {
                raw.put(x);
            }
        }
        raw.write(o->source);
        o->source_record = kind == 1 ? 4 + 4 * d : 0;
    }
    return o;
}

template <typename T> struct LegacyData : Conversion {
    Rows<T> expect;
    Data<T> got{0, 1};
    int perform(const fs::path& dir) const override {
        return run_tool(tool_convert_legacy,
                        {"data", std::string(svs::name(svs::datatype_v<T>)), source.string(),
                         (dir / "x.svs").string()});
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto l = std::make_unique<LegacyData>();
        l->source = source;
        l->expect = expect;
        l->got = Data<T>::load(dir / "x.svs");
        return l;
    }
    void same(const Object& o, const char* cls) const override {
        same_rows(expect, static_cast<const LegacyData&>(o).got, cls);
    }
};
template <typename T> std::unique_ptr<Object> make_legacy(Rng& r) {
    auto o = std::make_unique<LegacyData<T>>();
    size_t n = pick_n(r), d = pick_d(r);
    Raw raw;
    raw.put((uint64_t)n);
    raw.put((uint64_t)d);
    raw.bytes.resize(64);
    o->expect.assign(n, std::vector<T>(d));
    for (auto& row : o->expect) {
        for (auto& x : row) {
            x = T((float)((int)r.below(200) - (std::is_same_v<T, uint8_t> ? 0 : 100)));
            raw.put(x);
        }
    }
    o->source = source_name("legacy");
    raw.write(o->source);
    return o;
}

struct LegacyGraph : Conversion {
    Rows<uint32_t> lists;
    size_t degree = 0;
    Rows<uint32_t> got;
    size_t got_degree = 0;
    int perform(const fs::path& dir) const override {
        return run_tool(tool_convert_legacy, {"graph", source.string(), (dir / "x.svs").string()});
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto l = std::make_unique<LegacyGraph>();
        l->source = source;
        l->lists = lists;
        l->degree = degree;
        // The result is the file of counts and neighbours that a saved graph consists of.
        auto d = Data<uint32_t>::load(dir / "x.svs");
        Quiet q;
        l->got_degree = d.dimensions() - 1;
        for (size_t i = 0; i < d.size(); ++i) {
            auto row = d.get_datum(i);
            l->got.emplace_back(row.begin(), row.end());
        }
        return l;
    }
    void same(const Object& o, const char* cls) const override {
        auto& b = static_cast<const LegacyGraph&>(o);
        SIM_CHECK(b.got.size() == lists.size(), cls, "%zu lists in, %zu out", lists.size(),
                  b.got.size());
        SIM_CHECK(b.got_degree == degree, cls, "degree %zu in, %zu out", degree, b.got_degree);
        for (size_t i = 0; i < lists.size(); ++i) {
            SIM_CHECK(b.got[i][0] == lists[i].size() &&
                          std::equal(lists[i].begin(), lists[i].end(), b.got[i].begin() + 1),
                      cls, "list %zu differs", i);
        }
    }
};
std::unique_ptr<Object> make_legacy_graph(Rng& r) {
    auto o = std::make_unique<LegacyGraph>();
    size_t n = pick_n(r);
    o->degree = r.range(1, 12);
    Raw raw;
    raw.put((uint64_t)n);
    raw.put((uint64_t)o->degree);
    raw.bytes.resize(64);
    for (size_t i = 0; i < n; ++i) {
        std::vector<uint32_t> l(r.below(o->degree + 1));
        for (auto& x : l) {
            x = (uint32_t)r.below(n);
        }
        raw.put((uint64_t)l.size());
        for (size_t j = 0; j < o->degree; ++j) {
            raw.put(j < l.size() ? l[j] : 0u);
        }
        o->lists.push_back(std::move(l));
    }
    o->source = source_name("legacy");
    raw.write(o->source);
    return o;
}

// ---- parameters of earlier versions ----------------------------------------------------------
const char* truth(bool b) { return b ? "true" : "false"; }
struct Parameters {
    size_t entry, degree, window, candidates, prune_to, search_window, capacity, lookahead, step;
    float alpha;
    bool full, visited;
};
Parameters draw_parameters(Rng& r) {
    Parameters p;
    p.entry = r.below(1u << 20);
    p.degree = r.range(1, 256);
    p.window = r.range(1, 500);
    p.candidates = r.range(1, 1000);
    p.prune_to = r.range(1, p.degree);
    p.search_window = r.range(1, 300);
    p.capacity = p.search_window + r.below(100);
    p.lookahead = r.below(20);
    p.step = r.below(20);
    p.alpha = (float)r.range(1, 16) / 8.0f;
    p.full = r.chance(50);
    p.visited = r.chance(50);
    return p;
}
// The file an earlier version wrote, and what it means now.
std::string write_version(Parameters& p, size_t version, Rng& r) {
    std::string head = "__version__ = 'v0.0.2'\n\n[object]\n__schema__ = 'vamana_index_parameters'\n";
    if (version <= 2) {
        // v0.0.0 to v0.0.2: everything in one table.
        std::vector<std::string> lines{
            "name = 'vamana config parameters'",
            "entry_point = " + std::to_string(p.entry),
            "alpha = " + std::to_string(p.alpha),
            "max_out_degree = " + std::to_string(p.degree),
            "construction_window_size = " + std::to_string(p.window),
            "max_candidates = " + std::to_string(p.candidates),
            "default_search_window_size = " + std::to_string(p.search_window),
            "visited_set = " + std::string(truth(p.visited)),
        };
        if (version >= 1) {
            lines.push_back("use_full_search_history = " + std::string(truth(p.full)));
        } else {
            p.full = true;
        }
        if (version >= 2) {
            lines.push_back("prune_to = " + std::to_string(p.prune_to));
        } else {
            p.prune_to = p.degree;
        }
        p.capacity = p.search_window;
        p.lookahead = 4;
        p.step = 1;
        head += "__version__ = 'v0.0." + std::to_string(version) + "'\n";
        while (!lines.empty()) {
            size_t i = r.below(lines.size());
            head += lines[i] + "\n";
            lines.erase(lines.begin() + i);
        }
        return head;
    }
    // v0.0.3, with the parts in their first or their present version.
    size_t build = r.below(2), search = r.below(2);
    head += "__version__ = 'v0.0.3'\nname = 'vamana index parameters'\nentry_point = " +
            std::to_string(p.entry) + "\n\n[object.build_parameters]\n" +
            "__schema__ = 'vamana_build_parameters'\n__version__ = 'v0.0." + std::to_string(build) +
            "'\nalpha = " + std::to_string(p.alpha) +
            "\ngraph_max_degree = " + std::to_string(p.degree) +
            "\nmax_candidate_pool_size = " + std::to_string(p.candidates) +
            "\nname = 'vamana build parameters'\n" +
            (build ? "prune_to = " + std::to_string(p.prune_to) + "\n" : std::string()) +
            "use_full_search_history = " + truth(p.full) +
            "\nwindow_size = " + std::to_string(p.window) +
            "\n\n[object.search_parameters]\n__schema__ = 'vamana_search_parameters'\n" +
            "__version__ = 'v0.0." + std::to_string(search) + "'\n" +
            (search ? "prefetch_lookahead = " + std::to_string(p.lookahead) +
                          "\nprefetch_step = " + std::to_string(p.step) + "\n"
                    : std::string()) +
            "search_buffer_capacity = " + std::to_string(p.capacity) +
            "\nsearch_buffer_visited_set = " + truth(p.visited) +
            "\nsearch_window_size = " + std::to_string(p.search_window) + "\n";
    if (!build) {
        p.prune_to = p.degree;
    }
    if (!search) {
        p.lookahead = 4;
        p.step = 1;
    }
    return head;
}
void same_parameters(const Parameters& p, const va::VamanaIndexParameters& g, const char* cls) {
#define SAME(what, have, want)                                                                     \
    SIM_CHECK((have) == (want), cls, what " is %g and was %g", (double)(have), (double)(want))
    SAME("entry point", g.entry_point, p.entry);
    auto& b = g.build_parameters;
    SAME("alpha", b.alpha, p.alpha);
    SAME("degree", b.graph_max_degree, p.degree);
    SAME("build window", b.window_size, p.window);
    SAME("candidate pool", b.max_candidate_pool_size, p.candidates);
    SAME("prune_to", b.prune_to, p.prune_to);
    SAME("search history", b.use_full_search_history, p.full);
    auto& s = g.search_parameters;
    SAME("search window", s.buffer_config_.get_search_window_size(), p.search_window);
    SAME("search capacity", s.buffer_config_.get_total_capacity(), p.capacity);
    SAME("visited set", s.search_buffer_visited_set_, p.visited);
    SAME("prefetch lookahead", s.prefetch_lookahead_, p.lookahead);
    SAME("prefetch step", s.prefetch_step_, p.step);
#undef SAME
}
struct Upgrade : Conversion {
    Parameters p;
    std::unique_ptr<va::VamanaIndexParameters> got;
    int perform(const fs::path& dir) const override {
        return run_tool(tool_upgrade_vamana_index_parameters,
                        {source.string(), (dir / "config").string()});
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto l = std::make_unique<Upgrade>();
        l->p = p;
        l->source = source;
        l->got = std::make_unique<va::VamanaIndexParameters>(
            lib::load_from_disk<va::VamanaIndexParameters>(dir / "config"));
        return l;
    }
    void same(const Object& o, const char* cls) const override {
        same_parameters(p, *static_cast<const Upgrade&>(o).got, cls);
    }
};
std::unique_ptr<Object> make_upgrade(Rng& r) {
    auto o = std::make_unique<Upgrade>();
    o->p = draw_parameters(r);
    Raw raw;
    raw.bytes = write_version(o->p, r.below(4), r);
    o->source = source_name("old").string() + ".toml";
    raw.write(o->source);
    return o;
}

// ---- assembling an index ---------------------------------------------------------------------
using Graph = svs::graphs::SimpleGraph<uint32_t>;
struct Assembly : Conversion {
    Rows<float> rows;
    Rows<uint32_t> lists;
    size_t degree;
    Parameters p;
    fs::path graph_source;
    bool ip;
    size_t threads;
    struct Got {
        Data<float> d;
        Rows<uint32_t> lists;
        size_t degree;
        va::VamanaIndexParameters p;
    };
    std::unique_ptr<Got> got;
    int perform(const fs::path& dir) const override {
        return run_tool(
            tool_assemble_vamana,
            {dir.string(), source.string(), graph_source.string(), "float32", ip ? "MIP" : "L2",
             std::to_string(p.alpha), std::to_string(p.window), std::to_string(p.candidates),
             std::to_string(threads)});
    }
    std::unique_ptr<Object> load(const fs::path& dir) const override {
        auto l = std::make_unique<Assembly>(*this, 0);
        auto params = lib::load_from_disk<va::VamanaIndexParameters>(dir / "config");
        auto g = Graph::load(dir / "graph");
        Rows<uint32_t> ls;
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            auto x = g.get_node(i);
            ls.emplace_back(x.begin(), x.end());
        }
        l->got = std::make_unique<Got>(
            Got{Data<float>::load(dir / "data"), std::move(ls), g.max_degree(), params});
        return l;
    }
    void same(const Object& o, const char* cls) const override {
        auto& g = *static_cast<const Assembly&>(o).got;
        same_rows(rows, g.d, cls);
        SIM_CHECK(g.lists == lists, cls, "the graph differs");
        SIM_CHECK(g.degree == degree, cls, "degree %zu in, %zu out", degree, g.degree);
        auto& b = g.p.build_parameters;
        SIM_CHECK(b.alpha == p.alpha && b.window_size == p.window &&
                      b.max_candidate_pool_size == p.candidates,
                  cls, "construction parameters differ");
        // The entry point is a vector nearest the centre.
        SIM_CHECK(g.p.entry_point < rows.size(), cls, "entry point %zu of %zu", g.p.entry_point,
                  rows.size());
        size_t d = rows[0].size();
        std::vector<double> c(d, 0);
        for (auto& row : rows) {
            for (size_t j = 0; j < d; ++j) {
                c[j] += row[j];
            }
        }
        auto dist = [&](size_t i) {
            double s = 0;
            for (size_t j = 0; j < d; ++j) {
                double e = rows[i][j] - c[j] / (double)rows.size();
                s += e * e;
            }
            return s;
        };
        double best = 1e300;
        for (size_t i = 0; i < rows.size(); ++i) {
            best = std::min(best, dist(i));
        }
        SIM_CHECK(dist(g.p.entry_point) <= best * 1.001 + 1e-3, cls,
                  "entry point at distance %g from the centre, another vector at %g",
                  dist(g.p.entry_point), best);
    }
    Assembly() = default;
    Assembly(const Assembly& o, int)
        : Conversion{o}
        , rows{o.rows}
        , lists{o.lists}
        , degree{o.degree}
        , p{o.p}
        , graph_source{o.graph_source}
        , ip{o.ip}
        , threads{o.threads} {}
};
std::unique_ptr<Object> make_assembly(Rng& r) {
    auto o = std::make_unique<Assembly>();
    o->p = draw_parameters(r);
    o->ip = r.chance(40);
    o->threads = r.range(1, 3);
    size_t n = r.range(1, 60), d = r.range(1, 9);
    o->degree = r.range(1, 8);
    o->rows.assign(n, std::vector<float>(d));
    for (auto& row : o->rows) {
        for (auto& x : row) {
            x = (float)((int)r.below(60) - 30);
        }
    }
    Graph g(n, o->degree);
    for (size_t i = 0; i < n; ++i) {
        std::vector<uint32_t> l(r.below(o->degree + 1));
        for (auto& x : l) {
            x = (uint32_t)r.below(n);
        }
        g.replace_node((uint32_t)i, l);
        auto now = g.get_node(i);
        o->lists.emplace_back(now.begin(), now.end());
    }
    o->source = source_name("data").string() + ".svs";
    svs::io::save(to_plain(o->rows), svs::io::NativeFile(o->source));
    o->graph_source = source_name("graph");
    lib::save_to_disk(g, o->graph_source);
    return o;
}

std::unique_ptr<Object> make(Rng& r, size_t kind) {
    switch (kind) {
        case 0:
        case 1:
        case 2: return make_half(r, kind);
        case 3:
            switch (r.below(4)) {
                case 0: return make_legacy<float>(r);
                case 1: return make_legacy<svs::Float16>(r);
                case 2: return make_legacy<uint8_t>(r);
                default: return make_legacy<int8_t>(r);
            }
        case 4: return make_legacy_graph(r);
        case 5: return make_upgrade(r);
        default: return make_assembly(r);
    }
}
constexpr size_t kinds = 7;
} // namespace

SCENARIO(tools_round_trip) { round_trip(make, kinds); }
SCENARIO(tools_full_disk) { failing_save(make, kinds); }
SCENARIO(tools_crashed) { crashed_save(make, kinds); }

// The source is cut short or cannot be read: an error, or the right result.
SCENARIO(tools_bad_source) {
    Rng r("object");
    size_t kind = knob("kind", 0, kinds - 1);
    std::unique_ptr<Object> o;
    {
        Quiet q;
        o = make(r, kind);
    }
    auto& c = static_cast<Conversion&>(*o);
    auto ref = fresh("ref");
    uint64_t before_read = opportunities(F_IO_READ_ERR), before_open = opportunities(F_IO_OPEN);
    {
        Armed a;
        c.save(ref);
    }
    uint64_t reads = opportunities(F_IO_READ_ERR) - before_read,
             opens = opportunities(F_IO_OPEN) - before_open;
    size_t mode = knob("damage", 0, 3);
    uint64_t at = knob("at", 0, 1u << 20);
    const char* cls = "bad-source";
    fault_rate(F_IO_READ_SHORT, knob("rate_short_read", 0, 1) ? 100000 : 0);
    if (mode <= 1) {
        size_t size;
        {
            Quiet q;
            size = fs::file_size(c.source);
        }
        size_t keep = mode == 0 ? at % size : size - 1 - at % std::min<size_t>(size, 64);
        if (c.source_record && keep % c.source_record == 0) {
            discard("ends between two records of a format without a count");
        }
        log("keep %zu of %zu bytes of %s", keep, size, c.source.c_str());
        Quiet q;
        (void)!::truncate(c.source.c_str(), keep);
        count_fault(F_IO_BITROT);
    } else if (mode == 2) {
        if (!reads) {
            discard("no such operation");
        }
        log("read %llu of %llu fails", (unsigned long long)(at % reads), (unsigned long long)reads);
        fault_at(F_IO_READ_ERR, at % reads, 0);
    } else {
        log("open %llu of %llu fails", (unsigned long long)(at % opens), (unsigned long long)opens);
        fault_at(F_IO_OPEN, at % opens, (uint32_t)knob("param", 0, 255));
    }
    auto dir = fresh("d1");
    bool failed = false;
    {
        Armed a;
        try {
            c.save(dir);
        } catch (const std::exception& e) {
            failed = true;
            log("%s", e.what());
        }
    }
    fault_clear();
    nontrivial();
    probe(failed ? "reported" : "exit_status_0");
    if (!failed) {
        std::string err;
        std::unique_ptr<Object> l;
        {
            Armed a;
            l = try_load(*o, dir, err);
        }
        SIM_CHECK(l != nullptr, cls, "success reported, but loading the result raises: %.300s",
                  err.c_str());
        Quiet q;
        o->same(*l, cls);
    }
}

// Earlier versions of the parameters are understood wherever parameters are loaded.
SCENARIO(tools_old_parameters) {
    Rng r("object");
    size_t version = knob("version", 0, 3);
    Parameters p;
    fs::path at;
    {
        Quiet q;
        silence();
        p = draw_parameters(r);
        Raw raw;
        raw.bytes = write_version(p, version, r);
        at = source_name("old").string() + ".toml";
        raw.write(at);
    }
    chop_rates();
    std::unique_ptr<va::VamanaIndexParameters> got, again;
    {
        Armed a;
        got = std::make_unique<va::VamanaIndexParameters>(
            lib::load_from_disk<va::VamanaIndexParameters>(at));
        lib::save_to_disk(*got, "now");
        again = std::make_unique<va::VamanaIndexParameters>(
            lib::load_from_disk<va::VamanaIndexParameters>("now"));
    }
    Quiet q;
    same_parameters(p, *got, "old-version");
    same_parameters(p, *again, "old-version");
    nontrivial();
}

// The utility that reports recall.
SCENARIO(tools_recall) {
    Rng r("object");
    size_t n, k, gk;
    fs::path truth_at, found_at;
    size_t hits = 0;
    {
        Quiet q;
        silence();
        n = r.range(1, 20);
        k = r.range(1, 6);
        gk = k + r.below(5);
        Rows<uint32_t> t(n), f(n);
        for (size_t i = 0; i < n; ++i) {
            std::vector<uint32_t> ids(30);
            for (uint32_t j = 0; j < 30; ++j) {
                ids[j] = j * 7;
            }
            auto draw = [&](size_t m) {
                for (size_t j = 0; j < m; ++j) {
                    std::swap(ids[j], ids[j + r.below(30 - j)]);
                }
                return std::vector<uint32_t>(ids.begin(), ids.begin() + m);
            };
            t[i] = draw(gk);
            f[i] = draw(k);
            for (auto x : f[i]) {
                hits += std::find(t[i].begin(), t[i].begin() + k, x) != t[i].begin() + k;
            }
        }
        auto put = [](const Rows<uint32_t>& rows, const fs::path& p) {
            Raw raw;
            for (auto& row : rows) {
                raw.put((uint32_t)row.size());
                for (auto x : row) {
                    raw.put(x);
                }
            }
            raw.write(p);
        };
        truth_at = source_name("truth").string() + ".ivecs";
        found_at = source_name("found").string() + ".ivecs";
        put(t, truth_at);
        put(f, found_at);
    }
    chop_rates();
    std::ostringstream out;
    auto* old = std::cout.rdbuf(out.rdbuf());
    std::cout.clear();
    int rc;
    {
        Armed a;
        rc = run_tool(tool_compute_recall, {truth_at.string(), found_at.string()});
    }
    std::cout.rdbuf(old);
    Quiet q;
    SIM_CHECK(rc == 0, "recall", "exit status %d", rc);
    double said = atof(out.str().c_str()), want = (double)hits / (double)(n * k);
    SIM_CHECK(std::abs(said - want) < 1e-4, "recall", "reports %s where it is %g",
              out.str().c_str(), want);
    nontrivial();
}
