// Saving and loading: what is checked for every kind of saved object.
//
// An Object knows how to save itself below a directory, how to load a new Object from there and
// how to compare.  The four drivers add the operating system's behaviour:
//   round_trip   transfers are split, interrupted, directories are listed in any order
//   failing_save the disk fills up, or an operation reports an error
//   damaged_load files are cut, emptied, missing or unreadable
//   crashed_save the process dies at a chosen operation
#pragma once
#include "mem.h"
#include <filesystem>
#include <fstream>
#include <functional>
#include <sys/stat.h>

namespace svsx {
namespace fs = std::filesystem;

struct Object {
    virtual ~Object() = default;
    // Some formats cannot tell a file that ends between two records from a complete one.
    virtual bool self_describing() const { return true; }
    virtual void save(const fs::path& dir) = 0;
    virtual std::unique_ptr<Object> load(const fs::path& dir) const = 0;
    // Compare what was saved (this) with what was loaded.
    virtual void same(const Object& loaded, const char* cls) const = 0;
    // Offset of the records in a file without a count (0: none) and their size.
    virtual size_t record_bytes() const { return 0; }
};
using Maker = std::unique_ptr<Object> (*)(Rng&, size_t kind);

inline fs::path fresh(const char* name) {
    Quiet q;
    ::mkdir(name, 0777);
    return fs::path(name);
}

struct File {
    fs::path path;
    size_t size;
};
inline std::vector<File> files_below(const fs::path& dir) {
    Quiet q;
    std::vector<File> v;
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        if (e.is_regular_file()) {
            v.push_back({e.path(), (size_t)e.file_size()});
        }
    }
    std::sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.path < b.path; });
    return v;
}

// Load; null when an error was raised.
inline std::unique_ptr<Object>
try_load(const Object& o, const fs::path& dir, std::string& error) {
    try {
        auto l = o.load(dir);
        return l;
    } catch (const std::exception& e) {
        error = e.what();
        return nullptr;
    }
}

inline void chop_rates() {
    static const uint32_t r[] = {0, 20000, 200000, 700000};
    fault_rate(F_IO_READ_SHORT, r[knob("rate_short_read", 0, 3)]);
    fault_rate(F_IO_WRITE_SHORT, r[knob("rate_short_write", 0, 3)]);
    fault_rate(F_IO_EINTR, r[knob("rate_eintr", 0, 2)]);
    fault_rate(F_DIR_SHUFFLE, knob("dir_shuffle", 0, 1) ? 1000000 : 0);
}

// ---- round trip --------------------------------------------------------------------------
inline void round_trip(Maker make, size_t kinds) {
    Rng r("object");
    size_t kind = knob("kind", 0, kinds - 1);
    std::unique_ptr<Object> o;
    {
        Quiet q;
        o = make(r, kind);
    }
    chop_rates();
    size_t hops = knob("hops", 1, 3);
    bool reuse = flag("reuse_directory", 30);
    std::unique_ptr<Object> other;
    if (reuse) {
        // The directory holds an older save of another object of the same kind.
        Rng r2("older");
        {
            Quiet q;
            other = make(r2, kind);
        }
        other->save(fresh("d1"));
    }
    std::unique_ptr<Object> keep;
    const Object* last = o.get();
    Object* saver = o.get();
    for (size_t h = 0; h < hops; ++h) {
        auto dir = fresh(h == 0 ? "d1" : h == 1 ? "d2" : "d3");
        std::unique_ptr<Object> l;
        {
            Armed a;
            log("save and load, hop %zu", h);
            saver->save(dir);
            l = last->load(dir);
        }
        {
            Quiet q;
            o->same(*l, "round-trip");
        }
        keep = std::move(l);
        last = saver = keep.get();
    }
    if (flag("twice", 20)) {
        // Loading does not consume or change anything.
        std::unique_ptr<Object> l;
        {
            Armed a;
            l = o->load(fs::path("d1"));
        }
        Quiet q;
        o->same(*l, "round-trip");
    }
    uint64_t f = fired(F_IO_READ_SHORT) + fired(F_IO_WRITE_SHORT) + fired(F_IO_EINTR) +
                 fired(F_DIR_SHUFFLE);
    if (f) {
        probe("chopped");
        nontrivial();
    }
}

// ---- failing save ------------------------------------------------------------------------
inline void failing_save(Maker make, size_t kinds) {
    Rng r("object");
    size_t kind = knob("kind", 0, kinds - 1);
    std::unique_ptr<Object> o;
    {
        Quiet q;
        o = make(r, kind);
    }
    // A clean save tells how many operations there are, and how large the result is.
    auto ref = fresh("ref");
    uint64_t before[F_COUNT];
    for (uint32_t f = 0; f < F_COUNT; ++f) {
        before[f] = opportunities((Fault)f);
    }
    {
        Armed a;
        o->save(ref);
    }
    auto count = [&](Fault f) { return opportunities(f) - before[f]; };
    uint64_t opens = count(F_IO_OPEN), writes = count(F_IO_WRITE_ERR), closes = count(F_IO_CLOSE),
             mkdirs = count(F_IO_MKDIR), renames = count(F_IO_RENAME);
    size_t bytes = 0;
    for (auto& f : files_below(ref)) {
        bytes += f.size;
    }
    size_t mode = knob("failure", 0, 5);
    fault_rate(F_IO_WRITE_SHORT, knob("rate_short_write", 0, 1) ? 200000 : 0);
    fault_rate(F_IO_EINTR, knob("rate_eintr", 0, 1) ? 50000 : 0);
    uint64_t at = knob("at", 0, 1u << 20);
    uint32_t p = (uint32_t)knob("param", 0, 255);
    bool certain = true; // will the failure point be reached?
    auto set = [&](Fault f, uint64_t n) {
        if (n == 0) {
            discard("no such operation in this save");
        }
        fault_at(f, at % n, p);
        log("fail %s number %llu of %llu", fault_names[f], (unsigned long long)(at % n),
            (unsigned long long)n);
    };
    switch (mode) {
        case 0:
            disk_quota(at % (bytes + 1));
            certain = at % (bytes + 1) < bytes;
            log("disk has room for %llu of %zu bytes", (unsigned long long)(at % (bytes + 1)),
                bytes);
            break;
        case 1: set(F_IO_WRITE_ERR, writes); break;
        case 2: set(F_IO_OPEN, opens); break;
        case 3: set(F_IO_MKDIR, mkdirs); break;
        case 4: set(F_IO_CLOSE, closes); break;
        case 5: set(F_IO_RENAME, renames); break;
    }
    (void)certain;
    auto dir = fresh("d1");
    bool threw = false;
    {
        Armed a;
        try {
            o->save(dir);
        } catch (const std::exception& e) {
            threw = true;
            log("save raised an error: %.100s", e.what());
        }
    }
    fault_clear();
    disk_quota(~0ull);
    probe(threw ? "save_raised_error" : "save_succeeded");
    nontrivial();
    if (!threw) {
        std::string err;
        std::unique_ptr<Object> l;
        {
            Armed a;
            l = try_load(*o, dir, err);
        }
        SIM_CHECK(l != nullptr, "silent-save-failure",
                  "save returned normally but loading raises: %.300s", err.c_str());
        Quiet q;
        o->same(*l, "silent-save-failure");
    }
    // The object is still there and can be saved elsewhere.
    auto again = fresh("d2");
    std::unique_ptr<Object> l;
    {
        Armed a;
        o->save(again);
        l = o->load(again);
    }
    Quiet q;
    o->same(*l, "save-after-failure");
}

// ---- damaged files -----------------------------------------------------------------------
// Where does the last line of a configuration file begin?
inline bool cuts_last_line(const fs::path& p, size_t size, size_t keep) {
    Quiet q;
    if (p.extension() != ".toml" || keep == 0) {
        return false;
    }
    std::ifstream f(p, std::ios::binary);
    std::string s(size, 0);
    f.read(s.data(), size);
    while (!s.empty() && s.back() == '\n') {
        s.pop_back();
    }
    size_t nl = s.rfind('\n');
    return nl != std::string::npos && keep > nl + 1 && keep < s.size();
}
inline void damaged_load(Maker make, size_t kinds) {
    Rng r("object");
    size_t kind = knob("kind", 0, kinds - 1);
    std::unique_ptr<Object> o;
    auto dir = fresh("d1");
    {
        Quiet q;
        o = make(r, kind);
        o->save(dir);
    }
    auto files = files_below(dir);
    SIM_CHECK(!files.empty(), "harness", "nothing was saved");
    size_t mode = knob("damage", 0, 5);
    uint64_t at = knob("at", 0, 1u << 20);
    const char* cls = "wrong-contents";
    uint64_t before_read = opportunities(F_IO_READ_ERR), before_open = opportunities(F_IO_OPEN);
    std::unique_ptr<Object> clean;
    {
        Armed a;
        clean = o->load(dir);
    }
    uint64_t reads = opportunities(F_IO_READ_ERR) - before_read,
             opens = opportunities(F_IO_OPEN) - before_open;
    {
        Quiet q;
        o->same(*clean, "round-trip");
    }
    fault_rate(F_IO_READ_SHORT, knob("rate_short_read", 0, 1) ? 100000 : 0);
    fault_rate(F_DIR_SHUFFLE, knob("dir_shuffle", 0, 1) ? 1000000 : 0);
    if (mode <= 3) {
        auto& f = files[knob("file", 0, 1u << 20) % files.size()];
        if (mode == 2) {
            log("remove %s", f.path.c_str());
            Quiet q;
            ::unlink(f.path.c_str());
        } else if (mode == 3) {
            log("empty %s", f.path.c_str());
            Quiet q;
            (void)!::truncate(f.path.c_str(), 0);
        } else {
            if (f.size < 2) {
                discard("empty file");
            }
            // mode 1: near the end
            size_t keep = mode == 0 ? at % f.size : f.size - 1 - at % std::min<size_t>(f.size, 64);
            if (size_t rb = o->record_bytes(); rb && keep % rb == 0) {
                discard("ends between two records of a format without a count");
            }
            if (cuts_last_line(f.path, f.size, keep)) {
                cls = "config-last-line-cut";
            }
            log("keep %zu of %zu bytes of %s", keep, f.size, f.path.c_str());
            Quiet q;
            (void)!::truncate(f.path.c_str(), keep);
        }
        count_fault(F_IO_BITROT);
    } else if (mode == 4) {
        if (!reads) {
            discard("no such operation in this load");
        }
        log("read %llu of %llu fails", (unsigned long long)(at % reads), (unsigned long long)reads);
        fault_at(F_IO_READ_ERR, at % reads, 0);
    } else {
        if (!opens) {
            discard("no such operation in this load");
        }
        log("open %llu of %llu fails", (unsigned long long)(at % opens), (unsigned long long)opens);
        fault_at(F_IO_OPEN, at % opens, (uint32_t)knob("param", 0, 255));
    }
    std::string err;
    std::unique_ptr<Object> l;
    {
        Armed a;
        l = try_load(*o, dir, err);
    }
    nontrivial();
    if (l) {
        probe("load_succeeded");
        Quiet q;
        o->same(*l, cls);
    } else {
        probe("load_raised_error");
        log("load raised: %.120s", err.c_str());
    }
    SIM_CHECK(live_threads() == 1, "thread-left", "%u threads after a failed load",
              live_threads() - 1);
    if (mode >= 4) {
        // The files were never damaged: another attempt succeeds.
        fault_clear();
        std::unique_ptr<Object> l2;
        {
            Armed a;
            l2 = o->load(dir);
        }
        Quiet q;
        o->same(*l2, "load-after-failure");
    }
}

// ---- crash -------------------------------------------------------------------------------
inline void crashed_save(Maker make, size_t kinds) {
    Rng r("object");
    size_t kind = knob("kind", 0, kinds - 1);
    std::unique_ptr<Object> o;
    {
        Quiet q;
        o = make(r, kind);
    }
    if (o->record_bytes()) {
        discard("a format without a count");
    }
    auto ref = fresh("ref");
    uint64_t before = opportunities(F_IO_CRASH);
    {
        Armed a;
        o->save(ref);
    }
    uint64_t ops = opportunities(F_IO_CRASH) - before;
    SIM_CHECK(ops > 0, "harness", "nothing was written");
    fault_rate(F_IO_WRITE_SHORT, knob("rate_short_write", 0, 1) ? 300000 : 0);
    uint64_t at = knob("at", 0, 1u << 20) % ops;
    fault_at(F_IO_CRASH, at, (uint32_t)knob("param", 0, 1u << 16));
    log("the process dies at file operation %llu of %llu", (unsigned long long)at,
        (unsigned long long)ops);
    auto dir = fresh("d1");
    {
        Armed a;
        try {
            o->save(dir);
        } catch (const std::exception& e) {
            // After the crash nothing the process does matters.
        }
    }
    bool died = crashed();
    disk_revive();
    fault_clear();
    fault_rate(F_DIR_SHUFFLE, knob("dir_shuffle", 0, 1) ? 1000000 : 0);
    std::string err;
    std::unique_ptr<Object> l;
    {
        Armed a;
        l = try_load(*o, dir, err);
    }
    if (died) {
        nontrivial();
    }
    if (l) {
        probe(died ? "loaded_after_crash" : "not_reached");
        Quiet q;
        o->same(*l, "plausible-after-crash");
    } else {
        probe("refused_after_crash");
        SIM_CHECK(died, "silent-save-failure", "no crash, but loading raises: %.300s", err.c_str());
    }
    // A second attempt over the remains succeeds.
    if (flag("save_again", 50)) {
        std::unique_ptr<Object> l2;
        {
            Armed a;
            o->save(dir);
            l2 = o->load(dir);
        }
        Quiet q;
        o->same(*l2, "save-after-crash");
    }
}
// ---- memory runs out while saving or loading -----------------------------------------------
struct IoTask : Task {
    std::unique_ptr<Object> o;
    bool only_load;
    IoTask(std::unique_ptr<Object> x, bool l)
        : o{std::move(x)}
        , only_load{l} {
        if (only_load) {
            o->save(fresh("kept"));
        }
    }
    void perform(Report&) override {
        fs::path dir;
        {
            Quiet q;
            dir = only_load ? fs::path("kept") : fresh("d");
        }
        if (!only_load) {
            o->save(dir);
        }
        auto l = o->load(dir);
        Quiet q;
        o->same(*l, "silent-failure");
    }
    void tidy() override {
        if (!only_load) {
            fs::remove_all("d");
        }
    }
};
template <Maker make> std::unique_ptr<Task> make_io_task(Rng& r, size_t kind) {
    auto o = make(r, kind);
    bool l = r.chance(60);
    return std::make_unique<IoTask>(std::move(o), l);
}
template <Maker make> void starved_io(size_t kinds) { short_of(make_io_task<make>, kinds); }
} // namespace svsx
