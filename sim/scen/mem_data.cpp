// Memory runs out while data sets, graphs and pools are made; the mapping allocators.
#include "mem.h"
#include "svs/core/allocator.h"
#include "svs/core/graph/graph.h"
#include <filesystem>
#include <map>
#include <mutex>
#include <optional>

using namespace svsx;
namespace lib = svs::lib;
namespace fs = std::filesystem;

namespace {
template <typename D> void report_data(const D& d, Report& out) {
    Quiet q;
    out.add(d.size());
    out.add(d.dimensions());
    for (size_t i = 0; i < d.size(); ++i) {
        for (auto x : d.get_datum(i)) {
            out.add(x);
        }
    }
}
template <typename T, typename A> using Simple = svs::data::SimpleData<T, svs::Dynamic, A>;
template <typename T> using Blocks = svs::data::BlockedData<T, svs::Dynamic, lib::Allocator<T>>;
template <typename T> auto blocking(size_t log2) {
    return svs::data::Blocked<lib::Allocator<T>>(
        svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(log2)});
}
template <typename D> void fill(D& d, size_t from, uint64_t salt) {
    std::vector<typename D::element_type> b(d.dimensions());
    for (size_t i = from; i < d.size(); ++i) {
        for (size_t k = 0; k < b.size(); ++k) {
            b[k] = (typename D::element_type)((i * 31 + k * 7 + salt) % 100);
        }
        d.set_datum(i, std::span<const typename D::element_type>(b.data(), b.size()));
    }
}

// Data: create, grow, shrink, copy, assign over existing data, compact.
template <typename A> struct DataTask : Task {
    size_t n, d, to;
    Simple<float, A> old, other;
    size_t step;
    explicit DataTask(Rng& r)
        : n{r.range(1, 20)}
        , d{r.range(1, 6)}
        , to{r.range(1, 40)}
        , old(r.range(1, 9), d)
        , other(r.range(1, 9), d)
        , step{r.below(5)} {
        fill(old, 0, 5);
        fill(other, 0, 9);
    }
    void inputs(Report& o) override {
        report_data(old, o);
        report_data(other, o);
    }
    void perform(Report& o) override {
        switch (step) {
            case 0: {
                Simple<float, A> x(n, d);
                fill(x, 0, 1);
                x.resize(to);
                fill(x, n, 2);
                x.shrink_to_fit();
                report_data(x, o);
                break;
            }
            case 1: { // a copy, and a copy assigned over something else
                auto x = old;
                report_data(x, o);
                x = other;
                report_data(x, o);
                break;
            }
            case 2: { // growing data that is in use: intact when it cannot
                std::optional<Simple<float, A>> x;
                {
                    Quiet q;
                    x.emplace(old);
                }
                try {
                    x->resize(x->size() + to);
                } catch (...) {
                    Quiet q;
                    Report a, b;
                    report_data(*x, a);
                    report_data(old, b);
                    same_report(b, a, "target-damaged", "data that could not grow");
                    throw;
                }
                fill(*x, old.size(), 3);
                report_data(*x, o);
                break;
            }
            case 3: { // assigning over data that is in use
                std::optional<Simple<float, A>> x;
                {
                    Quiet q;
                    x.emplace(old);
                }
                try {
                    *x = other;
                } catch (...) {
                    Quiet q;
                    Report a, b;
                    report_data(*x, a);
                    report_data(old, b);
                    same_report(b, a, "target-damaged", "data that could not be assigned to");
                    throw;
                }
                report_data(*x, o);
                break;
            }
            case 4: { // compaction
                std::optional<Simple<float, A>> x;
                {
                    Quiet q;
                    x.emplace(old);
                }
                auto pool = th::NativeThreadPool(2);
                std::vector<uint32_t> keep;
                for (uint32_t i = 0; i < old.size(); i += 2) {
                    keep.push_back(i);
                }
                x->compact(lib::as_const_span(keep), pool, 3);
                report_data(*x, o);
                break;
            }
        }
    }
};

struct BlockTask : Task {
    size_t d, log2, n, to;
    size_t step;
    explicit BlockTask(Rng& r)
        : d{r.range(1, 6)}
        , log2{r.range(6, 9)}
        , n{r.range(0, 20)}
        , to{r.range(0, 90)}
        , step{r.below(3)} {}
    void perform(Report& o) override {
        Blocks<float> x(n, d, blocking<float>(log2));
        fill(x, 0, 1);
        if (step == 0) {
            try {
                x.resize(to);
            } catch (...) {
                Quiet q;
                Blocks<float> y(n, d, blocking<float>(log2));
                fill(y, 0, 1);
                Report a, b;
                report_data(x, a);
                report_data(y, b);
                same_report(b, a, "target-damaged", "data that could not grow");
                throw;
            }
            if (to > n) {
                fill(x, n, 2);
            }
            report_data(x, o);
        } else if (step == 1) {
            auto y = x.copy();
            {
                Quiet q;
                Report a, b;
                report_data(x, a);
                report_data(y, b);
                same_report(a, b, "copy", "a copy of data in blocks");
            }
            report_data(x, o);
            report_data(y, o);
        } else {
            auto pool = th::NativeThreadPool(3);
            std::vector<uint32_t> keep;
            for (uint32_t i = 1; i < n; i += 3) {
                keep.push_back(i);
            }
            x.compact(lib::as_const_span(keep), pool, 2);
            x.resize(keep.size());
            report_data(x, o);
        }
    }
};

struct GraphTask : Task {
    size_t n, deg;
    explicit GraphTask(Rng& r)
        : n{r.range(1, 30)}
        , deg{r.range(1, 9)} {}
    void perform(Report& o) override {
        using G = svs::graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>>;
        G g(n, deg);
        for (uint32_t i = 0; i < n; ++i) {
            for (uint32_t j = 0; j < deg + 2; ++j) {
                uint32_t x = (i * 3 + j * 5) % n;
                if (x != i) {
                    g.add_edge(i, x);
                }
            }
        }
        auto h = g;
        g.reset();
        for (uint32_t i = 0; i < n; ++i) {
            Quiet q;
            o.add(g.get_node_degree(i));
            for (auto x : h.get_node(i)) {
                o.add(x);
            }
        }
    }
};

struct PoolTask : Task {
    size_t a, b, n;
    bool copy;
    explicit PoolTask(Rng& r)
        : a{r.range(1, 5)}
        , b{r.range(1, 6)}
        , n{r.range(0, 30)}
        , copy{r.chance(30)} {}
    static double work(th::NativeThreadPool& p, size_t n) {
        std::vector<double> part(p.size(), 0);
        th::run(p, th::StaticPartition(n), [&](const auto& is, uint64_t tid) {
            for (auto i : is) {
                part[tid] += i;
            }
        });
        double s = 0;
        for (auto x : part) {
            s += x;
        }
        return s;
    }
    void perform(Report& o) override {
        th::NativeThreadPool p(a);
        double s = work(p, n);
        try {
            p.resize(b);
        } catch (...) {
            // A pool that could not grow still works.
            arm(false);
            double x = work(p, n);
            arm(true);
            SIM_CHECK(x == s, "pool-damaged", "a pool that could not be resized");
            throw;
        }
        s += work(p, n);
        if (copy) {
            th::NativeThreadPool c(std::move(p));
            s += work(c, n);
            Quiet q;
            o.add(c.size());
        }
        Quiet q;
        o.add(s);
    }
};

std::unique_ptr<Task> make_data(Rng& r, size_t kind) {
    switch (kind) {
        case 0: return std::make_unique<DataTask<lib::Allocator<float>>>(r);
        case 1: return std::make_unique<BlockTask>(r);
        case 2: return std::make_unique<GraphTask>(r);
        case 3: return std::make_unique<PoolTask>(r);
        default: return std::make_unique<DataTask<svs::HugepageAllocator<float>>>(r);
    }
}

// ---- mapping allocators used from several threads --------------------------------------------
void mapping_threads() {
    Rng r("maps");
    static const uint32_t rates[] = {0, 20000, 150000, 500000};
    uint32_t mmap_rate = rates[knob("rate_mmap", 0, 3)];
    uint32_t alloc_rate = rates[knob("rate_alloc", 0, 2)];
    bool force = flag("force", 25);
    uint32_t huge_rate = rates[knob("rate_huge", 0, 3)];
    size_t nt = knob("threads", 1, 4), ops = knob("ops", 1, 14);
    auto before = svs::detail::GenericHugepageAllocator::get_allocations();
    size_t base_maps = mmap_live_regions();
    SIM_CHECK(before.empty(), "leftover", "allocations at the start");
    schedule_faults();
    fault_rate(F_MMAP, mmap_rate);
    fault_rate(F_MMAP_HUGE, huge_rate);
    fault_rate(F_ALLOC, alloc_rate);
    struct Piece {
        float* p;
        size_t n;
        uint64_t tag;
    };
    std::vector<std::vector<Piece>> held(nt);
    std::vector<Piece> shared; // handed from one thread to another
    std::mutex m;
    {
        Quiet q;
        shared.reserve(256);
        for (auto& h : held) {
            h.reserve(64);
        }
    }
    size_t failures = 0, successes = 0;
    auto body = [&](size_t t) {
        Rng q(seed() * 1000003 + t * 7919 + 5);
        svs::HugepageAllocator<float> alloc(force);
        for (size_t o = 0; o < ops; ++o) {
            if (!keep_op((uint32_t)(t * 100 + o))) {
                continue;
            }
            size_t what = q.below(4);
            if (what < 2 && held[t].size() < 60) {
                size_t n = q.chance(60) ? 1 + q.below(2000) : 1 + q.below(3000000);
                uint64_t tag = q.next();
                try {
                    float* p = alloc.allocate(n);
                    // The whole piece can be written, and belongs to nobody else.
                    p[0] = (float)(tag % 1000);
                    p[n - 1] = (float)(tag % 1000);
                    held[t].push_back({p, n, tag});
                    Quiet quiet;
                    ++successes;
                    SIM_CHECK(!force || mapped_huge(p), "not-forced",
                              "huge pages or nothing, and %zu elements lie on ordinary pages", n);
                } catch (const std::exception&) {
                    Quiet quiet;
                    ++failures;
                }
            } else if (what == 2 && !held[t].empty()) {
                size_t i = q.below(held[t].size());
                auto x = held[t][i];
                held[t][i] = held[t].back();
                held[t].pop_back();
                SIM_CHECK(x.p[0] == (float)(x.tag % 1000) && x.p[x.n - 1] == (float)(x.tag % 1000),
                          "overwritten", "a piece of %zu was altered", x.n);
                if (q.chance(40)) {
                    std::lock_guard lock{m};
                    shared.push_back(x);
                } else {
                    alloc.deallocate(x.p, x.n);
                }
            } else {
                Piece x{nullptr, 0, 0};
                {
                    std::lock_guard lock{m};
                    if (!shared.empty()) {
                        x = shared.back();
                        shared.pop_back();
                    }
                }
                if (x.p) {
                    alloc.deallocate(x.p, x.n);
                }
            }
            if (q.chance(10)) {
                try {
                    auto now = svs::detail::GenericHugepageAllocator::get_allocations();
                    (void)now;
                } catch (const std::bad_alloc&) {
                }
            }
        }
    };
    {
        std::vector<std::thread> ts;
        ts.reserve(nt);
        for (size_t t = 1; t < nt; ++t) {
            ts.emplace_back(body, t);
        }
        Armed a;
        body(0);
        for (auto& t : ts) {
            t.join();
        }
    }
    fault_clear();
    Quiet q;
    // What is recorded, what is mapped, and what the threads hold is the same.
    size_t total = shared.size();
    for (auto& h : held) {
        total += h.size();
    }
    auto now = svs::detail::GenericHugepageAllocator::get_allocations();
    SIM_CHECK(now.size() == total, "registry", "%zu pieces in use, %zu recorded", total, now.size());
    SIM_CHECK(mmap_live_regions() - base_maps == total, "mapping-leak",
              "%zu pieces in use, %zu mapped", total, (size_t)(mmap_live_regions() - base_maps));
    auto check = [&](const Piece& x) {
        auto it = now.find(x.p);
        SIM_CHECK(it != now.end(), "registry", "a piece in use is not recorded");
        SIM_CHECK(it->second >= x.n * sizeof(float), "registry", "%zu bytes in use, %zu recorded",
                  x.n * sizeof(float), (size_t)it->second);
        svs::HugepageAllocator<float>().deallocate(x.p, x.n);
    };
    for (auto& h : held) {
        for (auto& x : h) {
            check(x);
        }
    }
    for (auto& x : shared) {
        check(x);
    }
    SIM_CHECK(mmap_live_regions() == base_maps, "mapping-leak", "mappings left");
    SIM_CHECK(svs::detail::GenericHugepageAllocator::get_allocations().empty(), "registry",
              "records left");
    probe("refused", failures);
    if (nt > 1 || failures) {
        nontrivial();
    }
}

// ---- data mapped from a file -------------------------------------------------------------------
void file_mappings() {
    Rng r("files");
    using Map = svs::MemoryMapper;
    size_t ops = knob("ops", 1, 12);
    static const uint32_t rates[] = {0, 50000, 300000};
    uint32_t rm = rates[knob("rate_mmap", 0, 2)], ro = rates[knob("rate_open", 0, 2)],
             rw = rates[knob("rate_write", 0, 2)], ra = rates[knob("rate_alloc", 0, 2)];
    if (knob("quiet", 0, 3) == 0) {
        rm = ro = rw = ra = 0;
    }
    auto h0 = holdings();
    {
        // What each file holds, as far as it is known.
        struct Known {
            bool exists = false;
            bool sure = true; // a failed creation may have left anything of the right name
            std::vector<char> bytes;
        };
        std::vector<Known> files(3);
        std::vector<std::pair<size_t, svs::MMapPtr<char>>> maps;
        for (size_t o = 0; o < ops; ++o) {
            size_t f = r.below(3);
            size_t n = r.chance(70)   ? 1 + r.below(60)
                       : r.chance(70) ? 1 + r.below(20000)
                       : r.chance(40) ? 4096 * (1 + r.below(40))
                                      : 1 + r.below(300000);
            auto perm = r.chance(50) ? Map::ReadOnly : Map::ReadWrite;
            auto pol = (Map::Policy)r.below(3);
            size_t drop = r.below(4), offset = r.below(n);
            char stamp = (char)r.below(256);
            bool move = r.chance(40);
            if (!keep_op((uint32_t)o)) {
                continue;
            }
            fs::path path;
            {
                Quiet q;
                path = "file" + std::to_string(f);
            }
            if (drop == 0 && !maps.empty()) {
                auto i = o % maps.size();
                std::swap(maps[i], maps.back());
                maps.pop_back();
            }
            auto& k = files[f];
            bool must_fail = k.sure && ((pol == Map::MustCreate && k.exists) ||
                                        (pol == Map::MustUseExisting && !k.exists) ||
                                        (k.exists && k.bytes.size() < n));
            auto h = holdings();
            fault_rate(F_MMAP, rm);
            fault_rate(F_IO_OPEN, ro);
            fault_rate(F_IO_WRITE_ERR, rw);
            fault_rate(F_IO_WRITE_SHORT, rw);
            fault_rate(F_ALLOC, ra);
            uint64_t fired0 = 0, fired1 = 0;
            for (uint32_t i = 0; i < F_COUNT; ++i) {
                fired0 += fired((Fault)i);
            }
            bool ok = false;
            svs::MMapPtr<char> p;
            std::string err;
            {
                Armed a;
                try {
                    auto raw = Map(perm, pol).mmap(path, lib::Bytes(n));
                    p = svs::MMapPtr<char>(std::move(raw));
                    ok = true;
                } catch (const std::exception& e) {
                    Quiet q;
                    err = e.what();
                }
            }
            fault_clear();
            for (uint32_t i = 0; i < F_COUNT; ++i) {
                fired1 += fired((Fault)i);
            }
            log("map %zu bytes of file %zu, %s, policy %d: %s", n, f,
                perm == Map::ReadOnly ? "read" : "write", (int)pol, ok ? "mapped" : err.c_str());
            Quiet q;
            auto now = holdings();
            SIM_CHECK(now.files == h.files, "file-leak", "%llu open files before, %llu after",
                      (unsigned long long)h.files, (unsigned long long)now.files);
            if (!ok) {
                SIM_CHECK(now.maps == h.maps, "mapping-leak", "the mapping failed: %s", err.c_str());
                SIM_CHECK(!k.sure || must_fail || fired1 != fired0, "spurious-error", "%s",
                          err.c_str());
                if (!k.exists && fired1 != fired0 && pol != Map::MustUseExisting) {
                    k.sure = false;
                }
                probe("refused");
                continue;
            }
            SIM_CHECK(!must_fail, "policy-ignored",
                      "mapped %zu bytes, policy %d, file exists %d with %zu bytes", n, (int)pol,
                      (int)k.exists, k.bytes.size());
            SIM_CHECK(now.maps == h.maps + 1, "mapping-count", "%llu mappings before, %llu after",
                      (unsigned long long)h.maps, (unsigned long long)now.maps);
            SIM_CHECK(p.size() == n && p.base() == (void*)p.data() && p, "mapping-shape",
                      "%zu bytes asked, %zu mapped", n, (size_t)p.size());
            if (!k.sure) {
                k.sure = true;
                k.exists = true;
                k.bytes.resize(fs::file_size(path));
                int fd = ::open(path.c_str(), O_RDONLY);
                size_t got = ::read(fd, k.bytes.data(), k.bytes.size());
                ::close(fd);
                SIM_CHECK(got == k.bytes.size(), "harness", "reading %zu", got);
            }
            bool fresh_file = !k.exists;
            if (!k.exists) {
                k.exists = true;
                k.bytes.assign(n, 0);
            }
            SIM_CHECK(memcmp(p.data(), k.bytes.data(), n) == 0, "content",
                      "the mapping does not show what the file holds");
            // Only a mapping that may be written is written.
            if (perm == Map::ReadWrite) {
                p.data()[offset] = stamp;
                k.bytes[offset] = stamp;
            }
            (void)fresh_file;
            // Every mapping of the file shows it.
            for (auto& m : maps) {
                if (m.first == f) {
                    SIM_CHECK(memcmp(m.second.base(), k.bytes.data(), m.second.size()) == 0,
                              "content", "another mapping shows something else");
                }
            }
            p.setoffset(offset);
            SIM_CHECK((char*)p.base() + offset == p.data(), "offset", "setoffset");
            if (move && !maps.empty()) {
                // Assigning over a mapping releases it.
                auto& m = maps[o % maps.size()];
                m.second = std::move(p);
                m.first = f;
                SIM_CHECK(!p && p.base() == nullptr && p.size() == 0, "moved-from",
                          "a moved-from mapping still holds something");
                SIM_CHECK(holdings().maps == h.maps, "mapping-leak", "assigned over a mapping");
            } else {
                maps.emplace_back(f, std::move(p));
            }
            SIM_CHECK(holdings().maps == h0.maps + maps.size(), "mapping-count",
                      "%zu mappings held, %llu exist", maps.size(),
                      (unsigned long long)(holdings().maps - h0.maps));
            nontrivial();
        }
    }
    auto h1 = holdings();
    SIM_CHECK(h1.maps == h0.maps && h1.files == h0.files, "mapping-leak", "%llu mappings left",
              (unsigned long long)(h1.maps - h0.maps));
}
} // namespace

SCENARIO(mem_data) { short_of(make_data, 5); }
SCENARIO(mem_mappings) { mapping_threads(); }
SCENARIO(mem_files) { file_mappings(); }
