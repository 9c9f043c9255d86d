// Benchmark results on disk, and the reference a changing index is judged by.
#include "io.h"
#include "svs-benchmark/benchmark.h"
#include "svs-benchmark/build.h"
#include "svs-benchmark/executable.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/misc/dynamic_helper.h"
#include <fcntl.h>
#include <set>
#include <unistd.h>

using namespace svsx;
namespace lib = svs::lib;
namespace sb = svsbenchmark;

// ---- results -------------------------------------------------------------------------------
namespace {
// What the results file is expected to hold, one state per save.
struct Expected {
    std::vector<std::string> states; // state 0: before the first save
    size_t acked = 0;                // this many saves have returned
    size_t begun = 0;                // and this many may have begun
    bool failed_last = false;        // the last one raised an error
    std::string path;
};
Expected* g_x = nullptr;

std::string slurp(const std::string& p, bool& exists) {
    exists = false;
    int fd = ::open(p.c_str(), O_RDONLY);
    if (fd < 0) {
        return {};
    }
    exists = true;
    std::string s;
    char b[4096];
    ssize_t n;
    while ((n = ::read(fd, b, sizeof b)) > 0) {
        s.append(b, (size_t)n);
    }
    ::close(fd);
    return s;
}

// The entries of a results file without its times; null for no file.
std::string digest(const std::string& path) {
    bool exists;
    auto s = slurp(path, exists);
    if (!exists) {
        return "absent";
    }
    // Parsing takes long: the contents seen last are remembered.
    static std::string seen[4], meant[4];
    static size_t next;
    for (size_t i = 0; i < 4; ++i) {
        if (!meant[i].empty() && seen[i] == s) {
            return meant[i];
        }
    }
    toml::table t;
    try {
        t = toml::parse(s);
    } catch (const toml::parse_error& e) {
        return "torn: " + std::to_string(s.size()) + " bytes that do not parse";
    }
    std::string out = t.contains("start_time") ? "started" : "not started";
    for (auto&& [k, v] : t) {
        if (auto* a = v.as_array()) {
            out += std::string(" ") + std::string(k.str()) + "[";
            for (auto&& e : *a) {
                auto* et = e.as_table();
                if (!et) {
                    out += "?,";
                    continue;
                }
                int64_t sum = 0;
                size_t n = 0;
                if (auto* d = et->get_as<toml::array>("data")) {
                    for (auto&& y : *d) {
                        sum = sum * 31 + y.value_or(int64_t{-1});
                        ++n;
                    }
                }
                auto text = (*et)["text"].value_or(std::string("none"));
                out += std::to_string((*et)["id"].value_or(int64_t{-1})) + "." +
                       std::to_string((*et)["part"].value_or(int64_t{-1})) + ":" +
                       std::to_string(n) + ":" + std::to_string(sum) + ":" +
                       std::to_string(std::hash<std::string>()(text) % 100000) + ",";
            }
            out += "]";
        }
    }
    if (t.contains("stop_time")) {
        out += " stopped";
    }
    seen[next % 4] = s;
    meant[next++ % 4] = out;
    return out;
}

// The report of a job after `part` parts.
toml::table report(int64_t id, int64_t part, size_t items, bool in_digest = false,
                   std::string* digest_out = nullptr) {
    toml::array d;
    int64_t sum = 0;
    for (size_t i = 0; i < items; ++i) {
        int64_t v = (int64_t)((id * 1000003 + part * 7919 + (int64_t)i * 131) % 100000);
        d.push_back(v);
        sum = sum * 31 + v;
    }
    std::string text = "report of " + std::to_string(id) + "\n\"part\" = " + std::to_string(part);
    if (digest_out) {
        *digest_out = std::to_string(id) + "." + std::to_string(part) + ":" +
                      std::to_string(items) + ":" + std::to_string(sum) + ":" +
                      std::to_string(std::hash<std::string>()(text) % 100000) + ",";
    }
    toml::table t;
    t.insert("id", id);
    t.insert("part", part);
    t.insert("text", text);
    t.insert("data", std::move(d));
    return t;
}

struct Job {
    int64_t id_;
    int64_t parts_;
    int64_t items_;
    int64_t fail_at_; // -1: the job completes

    static constexpr lib::Version save_version{0, 0, 0};
    static constexpr std::string_view serialization_schema = "sim_job";
    lib::SaveTable save() const {
        return lib::SaveTable(serialization_schema, save_version,
                              {SVS_LIST_SAVE_(id), SVS_LIST_SAVE_(parts), SVS_LIST_SAVE_(items),
                               SVS_LIST_SAVE_(fail_at)});
    }
    static Job load(const lib::ContextFreeLoadTable& table) {
        return Job{SVS_LOAD_MEMBER_AT_(table, id), SVS_LOAD_MEMBER_AT_(table, parts),
                   SVS_LOAD_MEMBER_AT_(table, items), SVS_LOAD_MEMBER_AT_(table, fail_at)};
    }
    template <typename F> auto invoke(F&& f, const sb::Checkpoint& c) const { return f(*this, c); }
};

struct JobFailed : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// A save does not notice that writing failed (see known_findings.txt): what is found afterwards is
// of a class of its own.
const char* unless_unwritten(const char* cls) {
    return fired(F_IO_WRITE_ERR) + fired(F_IO_CLOSE) + fired(F_IO_DISK_FULL) ? "unwritten-unnoticed"
                                                                            : cls;
}
// Saves that returned and saves about to begin, as seen from inside a job.
size_t g_done = 0;          // index of the state reached if everything so far succeeded
bool g_swallow = false;     // jobs go on when a checkpoint could not be written
void entering_save(size_t state) {
    Quiet q;
    if (!crashed()) {
        g_x->begun = std::max(g_x->begun, state);
    }
}
void save_returned(size_t state) {
    Quiet q;
    if (!crashed()) {
        g_x->acked = std::max(g_x->acked, state);
        auto now = digest(g_x->path);
        SIM_CHECK(now == g_x->states[state], unless_unwritten("save-lost"),
                  "save %zu returned, and the file holds: %.300s; expected: %.300s", state,
                  now.c_str(), g_x->states[state].c_str());
    }
}
// A save that raised an error leaves the file as it was.
void save_failed(size_t state) {
    Quiet q;
    if (!crashed()) {
        auto now = digest(g_x->path);
        SIM_CHECK(now == g_x->states[g_x->acked], "failed-save-visible",
                  "save %zu raised an error, and the file holds: %.300s; before: %.300s", state,
                  now.c_str(), g_x->states[g_x->acked].c_str());
    }
}

struct Dispatcher {
    bool has_match(const Job&, const sb::Checkpoint&) const { return true; }
    toml::table invoke(const Job& j, const sb::Checkpoint& c) const {
        {
            Quiet q;
            if (g_done) {
                save_returned(g_done); // of the job before
            }
        }
        for (int64_t p = 0; p < j.parts_; ++p) {
            if (p == j.fail_at_) {
                throw JobFailed("the job fails");
            }
            entering_save(g_done + 1);
            bool ok = true;
            toml::table t;
            {
                Quiet q;
                t = report(j.id_, p, (size_t)(j.items_ * (p + 1)));
            }
            try {
                c.checkpoint(t, "sim-jobs");
            } catch (const std::exception& e) {
                save_failed(g_done + 1);
                if (!g_swallow) {
                    throw;
                }
                ok = false;
                probe("a checkpoint failed and the job went on");
            }
            ++g_done;
            if (ok) {
                save_returned(g_done);
            }
        }
        // The states of the job's end, and of the end of the run.
        entering_save(g_done + 1);
        ++g_done;
        Quiet q;
        return report(j.id_, -1, (size_t)j.items_);
    }
};

struct Jobs {
    using job_type = Job;
    using dispatcher_type = Dispatcher;
    Dispatcher dispatcher() const { return {}; }
    Job example() const { return Job{0, 0, 0, -1}; }
    std::string name() const { return "sim-jobs"; }
    void print_help() const {}
    template <typename F>
    std::optional<std::vector<Job>>
    parse_args_and_invoke(F&& f, std::span<const std::string_view>) const {
        return f();
    }
};

// The same for several tests of a single job.
std::vector<Job>* g_tests = nullptr;
struct Tests {
    using job_type = Job;
    std::vector<std::function<std::pair<std::string, toml::table>(const Job&)>> tests() const {
        std::vector<std::function<std::pair<std::string, toml::table>(const Job&)>> v;
        for (auto j : *g_tests) {
            v.push_back([j](const Job&) {
                if (g_done) {
                    save_returned(g_done);
                }
                if (j.fail_at_ >= 0) {
                    throw JobFailed("the test fails");
                }
                entering_save(g_done + 1);
                ++g_done;
                Quiet q;
                return std::make_pair(std::string(j.id_ % 2 ? "odd" : "even"),
                                      report(j.id_, -1, (size_t)j.items_));
            });
        }
        return v;
    }
    Job example() const { return Job{0, 0, 0, -1}; }
    std::string name() const { return "sim-jobs"; }
    void print_help() const {}
    template <typename F>
    std::optional<Job> parse_args_and_invoke(F&& f, std::span<const std::string_view>) const {
        return f();
    }
};

void results() {
    Rng r("jobs");
    bool tests = flag("tests", 30);
    size_t njobs = knob("jobs", 1, 4);
    static const int64_t sizes[] = {0, 2, 9, 60, 1300};
    std::vector<Job> jobs;
    bool may_fail = flag("failing_job", 20);
    for (size_t i = 0; i < njobs; ++i) {
        Rng q(r.next());
        Job j{(int64_t)(i + 1), (int64_t)q.below(4), sizes[q.chance(8) ? 4 : q.below(4)], -1};
        if (may_fail && q.chance(40)) {
            j.fail_at_ = tests ? 0 : (int64_t)q.below(4);
            if (!tests && j.fail_at_ >= j.parts_) {
                j.fail_at_ = -1;
            }
        }
        if (keep_op((uint32_t)i)) {
            jobs.push_back(j);
        }
    }
    g_swallow = flag("swallow", 50);
    bool older = flag("older_file", 40);
    bool sub = flag("subdirectory", 50);
    bool watch = flag("watcher", 50);
    size_t mode = knob("failure", 0, 7);
    Expected x;
    g_x = &x;
    g_done = 0;
    g_tests = &jobs;
    const char* names[] = {"results.toml", "results", "r.x.toml"};
    fs::path path;
    {
        Quiet q;
        path = names[r.below(3)];
        if (sub) {
            path = fresh("out") / path;
        }
        x.path = path.string();
        if (older) {
            std::ofstream f(path);
            f << "start_time = \"before\"\nolder = [{id = 7, part = 1}]\n";
        }
        // The states in order.
        x.states.push_back(digest(x.path));
        std::map<std::string, std::string> done; // by key, as a table orders them
        auto state = [&](const std::string& key, const std::string& extra, bool stopped) {
            auto all = done;
            if (!key.empty()) {
                all[key] += extra;
            }
            std::string s = "started";
            for (auto& [k, v] : all) {
                s += " " + k + "[" + v + "]";
            }
            x.states.push_back(s + (stopped ? " stopped" : ""));
        };
        bool complete = true;
        for (auto& j : jobs) {
            std::string d, key = tests ? (j.id_ % 2 ? "odd" : "even") : "sim-jobs";
            if (tests && j.fail_at_ >= 0) {
                complete = false;
                break;
            }
            for (int64_t p = 0; !tests && p < j.parts_; ++p) {
                if (p == j.fail_at_) {
                    complete = false;
                    break;
                }
                report(j.id_, p, (size_t)(j.items_ * (p + 1)), true, &d);
                state(key, d, false);
            }
            if (!complete) {
                break;
            }
            report(j.id_, -1, (size_t)j.items_, true, &d);
            state(key, d, false);
            done[key] += d;
        }
        if (complete) {
            state("", "", true);
        }
        // The configuration.
        toml::table cfg;
        if (tests) {
            cfg.insert("sim-jobs", lib::save_to_table(Job{1, 1, 1, -1}));
        } else {
            toml::array a;
            for (auto& j : jobs) {
                a.push_back(lib::save_to_table(j));
            }
            cfg.insert("sim-jobs", std::move(a));
        }
        std::ofstream f("config.toml");
        f << cfg << '\n';
    }
    if (jobs.empty()) {
        discard("no jobs");
    }
    // Something goes wrong at some point.
    static const uint32_t rates[] = {0, 20000, 200000};
    uint64_t at = knob("at", 0, 1u << 20), nsaves = x.states.size();
    fault_rate(F_IO_WRITE_SHORT, rates[knob("rate_short_write", 0, 2)]);
    fault_rate(F_IO_EINTR, rates[knob("rate_eintr", 0, 1)]);
    bool disturbed = false;
    switch (mode) {
        case 0: break;
        case 1: fault_at(F_IO_CRASH, at % (nsaves * 8), (uint32_t)knob("param", 0, 1u << 16)); break;
        case 2:
            fault_at(F_IO_WRITE_ERR, at % (nsaves * 3), (uint32_t)knob("param", 0, 255));
            disturbed = true;
            break;
        case 3: fault_at(F_IO_CLOSE, at % (nsaves * 2), 0); disturbed = true; break;
        case 4: fault_at(F_IO_RENAME, at % nsaves, 0); disturbed = true; break;
        case 5: fault_at(F_IO_OPEN, 1 + at % nsaves, (uint32_t)knob("param", 0, 255));
            disturbed = true;
            break;
        case 6: disk_quota(at % (at % 2 ? 40000 : 1500)); disturbed = true; break;
        case 7:
            fault_rate(F_IO_WRITE_ERR, 60000);
            fault_rate(F_IO_RENAME, 60000);
            fault_rate(F_IO_CLOSE, 60000);
            disturbed = true;
            break;
    }
    fault_rate(F_CLOCK_JUMP, knob("clock", 0, 1) ? 100000 : 0);
    std::atomic<bool> stop{false};
    size_t looks = 0;
    auto in_range = [&](const std::string& s, size_t lo, size_t hi) {
        for (size_t i = lo; i <= hi && i < x.states.size(); ++i) {
            if (x.states[i] == s) {
                return true;
            }
        }
        return false;
    };
    // The last two saves of a run follow each other inside the library.
    auto upper = [&] { return x.begun + (x.begun + 2 == x.states.size() ? 1 : 0); };
    std::thread reader;
    if (watch) {
        reader = std::thread([&] {
            while (!stop.load()) {
                {
                    Quiet q;
                    size_t lo = x.acked;
                    auto s = digest(x.path);
                    SIM_CHECK(in_range(s, lo, upper()), unless_unwritten("torn-results"),
                              "a reader finds: %.300s; after save %zu, with save %zu begun", s.c_str(),
                              lo, x.begun);
                    ++looks;
                }
                for (int i = 0; i < 100 && !stop.load(); ++i) {
                    yield();
                }
            }
        });
    }
    bool threw = false, by_job = false;
    std::string why;
    {
        Armed a;
        try {
            std::vector<std::string_view> args{"config.toml", x.path};
            if (tests) {
                sb::TestBasedExecutable<Tests>().run(args);
            } else {
                sb::JobBasedExecutable<Jobs>().run(args);
            }
        } catch (const JobFailed& e) {
            threw = by_job = true;
        } catch (const std::exception& e) {
            Quiet q;
            threw = true;
            why = e.what();
        }
    }
    stop.store(true);
    if (reader.joinable()) {
        reader.join();
    }
    bool died = crashed();
    disk_revive();
    fault_clear();
    disk_quota(~0ull);
    Quiet q;
    log("%zu jobs, %zu states, %s%s", jobs.size(), x.states.size(),
        died ? "the process died" : threw ? (by_job ? "a job failed" : "raised: ") : "completed",
        why.c_str());
    auto s = digest(x.path);
    uint64_t injected = 0;
    for (auto f : {F_IO_WRITE_ERR, F_IO_CLOSE, F_IO_RENAME, F_IO_OPEN, F_IO_DISK_FULL}) {
        injected += fired(f);
    }
    if (died) {
        SIM_CHECK(in_range(s, x.acked, upper()), unless_unwritten("torn-results"),
                  "after a crash the file holds: %.300s; save %zu had returned, save %zu had begun",
                  s.c_str(), x.acked, x.begun);
        probe("died");
        nontrivial();
    } else if (!threw) {
        SIM_CHECK(s == x.states.back(), unless_unwritten("results-lost"),
                  "the run completed, and the file holds: %.300s; expected: %.300s", s.c_str(),
                  x.states.back().c_str());
        probe("completed");
    } else {
        SIM_CHECK(by_job || (disturbed && injected), "spurious-error", "%s", why.c_str());
        // Nothing that had been saved is lost; the save that failed is not visible.
        SIM_CHECK(in_range(s, x.acked, upper()), unless_unwritten("torn-results"),
                  "after an error (%.80s) the file holds: %.300s; save %zu had returned", why.c_str(),
                  s.c_str(), x.acked);
        probe(by_job ? "a job failed" : "an error was raised");
    }
    if (injected || looks > 1 || by_job) {
        nontrivial();
    }
    probe("looks of the reader", looks);
    if (!died && threw) {
        // Another run over the remains.
        for (auto& j : jobs) {
            j.fail_at_ = -1;
        }
    }
    g_x = nullptr;
}
} // namespace
SCENARIO(bench_results) { results(); }

// ---- reference -----------------------------------------------------------------------------
namespace {
struct Row {
    float d;
    size_t id;
};
template <bool ip>
std::vector<Row> nearest(const svs::data::SimpleData<float>& data, const std::set<size_t>& live,
                         std::span<const float> query) {
    std::vector<Row> v;
    for (auto i : live) {
        auto x = data.get_datum(i);
        float s = 0;
        for (size_t k = 0; k < x.size(); ++k) {
            s += ip ? x[k] * query[k] : (x[k] - query[k]) * (x[k] - query[k]);
        }
        v.push_back({s, i});
    }
    std::sort(v.begin(), v.end(), [](const Row& a, const Row& b) {
        return (ip ? a.d > b.d : a.d < b.d) || (a.d == b.d && a.id < b.id);
    });
    return v;
}

// Rows of a matrix hold exactly the nearest live points.
template <bool ip, typename Indices, typename Distances>
void check_truth(const svs::data::SimpleData<float>& data, const std::set<size_t>& live,
                 const svs::data::SimpleData<float>& queries, size_t k, const Indices& ids,
                 const Distances& ds, const char* when) {
    for (size_t i = 0; i < queries.size(); ++i) {
        auto best = nearest<ip>(data, live, queries.get_datum(i));
        std::set<size_t> seen;
        for (size_t j = 0; j < std::min(k, best.size()); ++j) {
            size_t id = ids(i, j);
            SIM_CHECK(live.count(id), "stale-truth",
                      "%s: query %zu, place %zu holds point %zu, which is not in the set", when, i, j,
                      id);
            SIM_CHECK(seen.insert(id).second, "truth", "%s: query %zu holds point %zu twice", when, i,
                      id);
            float d = ds(i, j);
            float own = 0;
            auto x = data.get_datum(id), y = queries.get_datum(i);
            for (size_t c = 0; c < x.size(); ++c) {
                own += ip ? x[c] * y[c] : (x[c] - y[c]) * (x[c] - y[c]);
            }
            SIM_CHECK(own == best[j].d && (std::isnan(d) || d == own), "truth",
                      "%s: query %zu, place %zu: point %zu at %g (%g reported), the %zu-th nearest is "
                      "at %g",
                      when, i, j, id, own, d, j + 1, best[j].d);
        }
    }
}

template <bool ip> void reference_history() {
    using Dist = std::conditional_t<ip, svs::distance::DistanceIP, svs::distance::DistanceL2>;
    using Ref = svs::misc::ReferenceDataset<size_t, float, svs::Dynamic, Dist>;
    Rng r("reference");
    size_t n = knob("n", 1, 80), d = knob("d", 1, 6), nq = knob("queries", 1, 9);
    size_t k = knob("k", 1, 8), threads = knob("threads", 1, 5);
    size_t bucket = k + knob("bucket_extra", 0, 12), nops = knob("nops", 1, 12);
    int span = (int)knob("span", 1, 40);
    schedule_faults();
    svs::data::SimpleData<float> data(n, d), queries(nq, d);
    {
        Quiet q;
        auto fill = [&](auto& x) {
            std::vector<float> b(d);
            for (size_t i = 0; i < x.size(); ++i) {
                for (auto& y : b) {
                    y = (float)((int)r.below((uint64_t)span * 2 + 1) - span);
                }
                x.set_datum(i, std::span<const float>(b.data(), d));
            }
        };
        fill(data);
        fill(queries);
    }
    Armed armed;
    std::optional<Ref> ref;
    {
        svs::data::SimpleData<float> copy(data);
        ref.emplace(std::move(copy), Dist(), threads, bucket, k, queries, r.next());
    }
    std::set<size_t> live;
    size_t done = 0;
    for (size_t o = 0; o < nops; ++o) {
        Rng q(r.next());
        if (!keep_op((uint32_t)o)) {
            continue;
        }
        size_t what = q.below(5);
        size_t want = q.below(n + 3);
        if (what < 2) {
            bool ok = true;
            std::vector<size_t> ids;
            svs::data::SimpleData<float> vectors;
            try {
                auto p = ref->generate(want);
                vectors = std::move(p.first);
                ids = std::move(p.second);
            } catch (const svs::ANNException& e) {
                ok = false;
                SIM_CHECK(std::min(want, n - live.size()) < bucket, "rejected-valid",
                          "generate(%zu) with %zu points left: %s", want, n - live.size(), e.what());
            }
            log("%zu: generate(%zu): %zu points", o, want, ids.size());
            Quiet quiet;
            if (ok) {
                SIM_CHECK(!ids.empty() && ids.size() <= want && vectors.size() == ids.size(),
                          "generated", "%zu points asked, %zu given with %zu vectors", want,
                          ids.size(), vectors.size());
                for (size_t i = 0; i < ids.size(); ++i) {
                    SIM_CHECK(ids[i] < n && live.insert(ids[i]).second, "generated",
                              "point %zu is not new", ids[i]);
                    for (size_t c = 0; c < d; ++c) {
                        SIM_CHECK(vectors.get_datum(i)[c] == data.get_datum(ids[i])[c], "generated",
                                  "the vector of point %zu differs", ids[i]);
                    }
                }
                ++done;
            }
        } else if (what < 3) {
            bool ok = true;
            std::vector<size_t> ids;
            try {
                ids = ref->get_delete_points(want);
            } catch (const svs::ANNException& e) {
                ok = false;
                SIM_CHECK(std::min(want, live.size()) < bucket, "rejected-valid",
                          "get_delete_points(%zu) with %zu points: %s", want, live.size(), e.what());
            }
            log("%zu: get_delete_points(%zu): %zu points", o, want, ids.size());
            Quiet quiet;
            if (ok) {
                SIM_CHECK(!ids.empty() && ids.size() <= want, "deleted", "%zu points asked, %zu given",
                          want, ids.size());
                for (auto i : ids) {
                    SIM_CHECK(live.erase(i), "deleted", "point %zu was not in the set", i);
                }
                ++done;
            }
        } else {
            auto gt = ref->groundtruth();
            log("%zu: ground truth of %zu points", o, live.size());
            Quiet quiet;
            check_truth<ip>(
                data, live, queries, k, [&](size_t i, size_t j) { return gt.index(i, j); },
                [&](size_t i, size_t j) { return gt.distance(i, j); }, "ground truth");
            try {
                ref->check_ids(gt);
            } catch (const svs::ANNException& e) {
                sim::fail("stale-truth", "%s", e.what());
            }
            note(live.size());
        }
        Quiet quiet;
        SIM_CHECK(ref->valid() == live.size() && ref->size() == n, "size", "%zu points, not %zu",
                  ref->valid(), live.size());
        for (size_t i = 0; i < n; ++i) {
            SIM_CHECK(ref->is_valid(i) == (live.count(i) != 0), "membership", "point %zu", i);
        }
    }
    if (done > 1) {
        nontrivial();
    }
}
} // namespace
SCENARIO(bench_reference) { reference_history<false>(); }
SCENARIO(bench_reference_ip) { reference_history<true>(); }

// ---- the dynamic benchmark -----------------------------------------------------------------
namespace {
struct State {
    int64_t live_;
    static constexpr lib::Version save_version{0, 0, 0};
    static constexpr std::string_view serialization_schema = "sim_state";
    lib::SaveTable save() const {
        return lib::SaveTable(serialization_schema, save_version, {SVS_LIST_SAVE_(live)});
    }
};
struct Config {
    int64_t origin_, hops_;
    static constexpr lib::Version save_version{0, 0, 0};
    static constexpr std::string_view serialization_schema = "sim_config";
    lib::SaveTable save() const {
        return lib::SaveTable(serialization_schema, save_version,
                              {SVS_LIST_SAVE_(origin), SVS_LIST_SAVE_(hops)});
    }
};
struct World {
    svs::data::SimpleData<float> data, queries;
    std::set<size_t> live;
    std::vector<std::string> ops; // what was asked of the index, in order
    size_t k, training, searches = 0;
};
World* g_w = nullptr;

// An index that answers exactly, and knows what it should be asked.
struct Exact {
    int unused = 0;
};
} // namespace

template <> struct svsbenchmark::IndexTraits<Exact> {
    using index_type = Exact;
    using config_type = Config;
    using state_type = State;
    static std::string name() { return "exact"; }
    template <typename Points>
    static void add_points(Exact&, const Points& points, const std::vector<size_t>& ids) {
        Quiet q;
        SIM_CHECK(points.size() == ids.size() && !ids.empty(), "added", "%zu points, %zu identifiers",
                  points.size(), ids.size());
        for (size_t i = 0; i < ids.size(); ++i) {
            SIM_CHECK(ids[i] < g_w->data.size() && g_w->live.insert(ids[i]).second, "added",
                      "point %zu is added twice", ids[i]);
            for (size_t c = 0; c < g_w->data.dimensions(); ++c) {
                SIM_CHECK(points.get_datum(i)[c] == g_w->data.get_datum(ids[i])[c], "added",
                          "the vector of point %zu differs", ids[i]);
            }
        }
        g_w->ops.push_back("add");
    }
    static void delete_points(Exact&, const std::vector<size_t>& ids) {
        Quiet q;
        SIM_CHECK(!ids.empty(), "removed", "nothing is deleted");
        for (auto i : ids) {
            SIM_CHECK(g_w->live.erase(i), "removed", "point %zu is deleted and was not there", i);
        }
        g_w->ops.push_back("delete");
    }
    static void consolidate(Exact&) {
        Quiet q;
        g_w->ops.push_back("consolidate");
    }
    template <typename Queries>
    static svs::QueryResult<size_t>
    search(Exact&, const Queries& queries, size_t k, const Config&) {
        Quiet q;
        svs::QueryResult<size_t> res(queries.size(), k);
        for (size_t i = 0; i < queries.size(); ++i) {
            auto best = nearest<false>(g_w->data, g_w->live, queries.get_datum(i));
            for (size_t j = 0; j < k; ++j) {
                res.index(i, j) = j < best.size() ? best[j].id : ~size_t{0};
                res.distance(i, j) = j < best.size() ? best[j].d : INFINITY;
            }
        }
        ++g_w->searches;
        return res;
    }
    static State report_state(const Exact&) { return State{(int64_t)g_w->live.size()}; }
    template <typename Queries, typename Truth>
    static void look(const Queries& queries, const Truth& truth, size_t k, const char* when) {
        Quiet q;
        SIM_CHECK(k == g_w->k && truth.size() == queries.size() && truth.dimensions() >= k, "split",
                  "%s: %zu queries, %zu rows of ground truth", when, queries.size(), truth.size());
        svs::data::SimpleData<float> copy(queries.size(), queries.dimensions());
        for (size_t i = 0; i < queries.size(); ++i) {
            copy.set_datum(i, queries.get_datum(i));
        }
        check_truth<false>(
            g_w->data, g_w->live, copy, k,
            [&](size_t i, size_t j) { return (size_t)truth.get_datum(i)[j]; },
            [&](size_t, size_t) { return NAN; }, when);
    }
    // The queries are those of the set, from the place given.
    template <typename Queries>
    static void which(const Queries& queries, size_t from, size_t n, const char* when) {
        Quiet q;
        SIM_CHECK(queries.size() == n, "split", "%s: %zu queries, not %zu", when, queries.size(), n);
        for (size_t i = 0; i < n; ++i) {
            for (size_t c = 0; c < queries.dimensions(); ++c) {
                SIM_CHECK(queries.get_datum(i)[c] == g_w->queries.get_datum(from + i)[c], "split",
                          "%s: query %zu is not query %zu of the set", when, i, from + i);
            }
        }
    }
    template <typename Queries, typename Truth, typename Extra>
    static Config calibrate(Exact&, const Queries& queries, const Truth& truth, size_t k, double target,
                            CalibrateContext ctx, const Extra&) {
        SIM_CHECK(ctx == CalibrateContext::InitialTrainingSet, "context", "calibration");
        which(queries, 0, g_w->queries.size() / 2, "initial calibration");
        look(queries, truth, k, "initial calibration");
        return Config{(int64_t)(target * 1000 + 0.5), 0};
    }
    template <typename Queries, typename Truth, typename Extra>
    static Config
    calibrate_with_hint(Exact&, const Queries& queries, const Truth& truth, size_t k, double target,
                        CalibrateContext ctx, const Config& hint, const Extra&) {
        SIM_CHECK(hint.origin_ == (int64_t)(target * 1000 + 0.5), "hint",
                  "the configuration of target %lld is refined for target %g", (long long)hint.origin_,
                  target);
        if (ctx == CalibrateContext::TrainingSetTune) {
            SIM_CHECK(hint.hops_ == 0, "hint", "refined %lld times before", (long long)hint.hops_);
            which(queries, 0, g_w->training, "training set");
            look(queries, truth, k, "training set");
        } else {
            SIM_CHECK(ctx == CalibrateContext::TestSetTune && hint.hops_ == 1, "hint",
                      "the test set is used before the training set");
            which(queries, g_w->training, g_w->queries.size() - g_w->training, "test set");
            look(queries, truth, k, "test set");
        }
        return Config{hint.origin_, hint.hops_ + 1};
    }
};

namespace {
struct DynamicJob {
    sb::build::Schedule schedule_;
    size_t training_;
    const sb::build::Schedule& get_dynamic_schedule() const { return schedule_; }
    size_t queries_in_training_set() const { return training_; }
    static constexpr lib::Version save_version{0, 0, 0};
    static constexpr std::string_view serialization_schema = "sim_dynamic_job";
    lib::SaveTable save() const {
        return lib::SaveTable(serialization_schema, save_version, {SVS_LIST_SAVE_(schedule)});
    }
};

void dynamic_benchmark() {
    Rng r("dynamic");
    World w;
    g_w = &w;
    size_t n = knob("n", 60, 160), d = knob("d", 2, 5), nq = knob("queries", 2, 9);
    size_t threads = knob("threads", 1, 4), cycles = knob("cycles", 1, 3),
           iterations = knob("iterations", 0, 4);
    w.k = knob("k", 1, 5);
    w.training = knob("training", 1, nq - 1);
    {
        Quiet q;
        w.data = svs::data::SimpleData<float>(n, d);
        w.queries = svs::data::SimpleData<float>(nq, d);
        auto fill = [&](auto& x) {
            std::vector<float> b(d);
            for (size_t i = 0; i < x.size(); ++i) {
                for (auto& y : b) {
                    y = (float)((int)r.below(601) - 300);
                }
                x.set_datum(i, std::span<const float>(b.data(), d));
            }
        };
        fill(w.data);
        fill(w.queries);
        // Which of two points at the same distance is returned is not told: have none.
        std::set<size_t> all;
        for (size_t i = 0; i < n; ++i) {
            all.insert(i);
        }
        for (size_t i = 0; i < nq; ++i) {
            auto best = nearest<false>(w.data, all, w.queries.get_datum(i));
            for (size_t j = 1; j < best.size(); ++j) {
                if (best[j].d == best[j - 1].d) {
                    discard("points at the same distance");
                }
            }
        }
        lib::save_to_disk(w.data, fresh("data"));
        lib::save_to_disk(w.queries, fresh("queries"));
    }
    std::vector<double> targets;
    for (size_t i = 0, m = knob("targets", 0, 3); i < m; ++i) {
        targets.push_back(0.5 + 0.1 * (double)i);
    }
    // A bucket of the reference holds modify / divisor of the points.
    size_t divisor = knob("divisor", 1, 3);
    double modify = 0.2;
    auto schedule = sb::build::Schedule(0.5, modify, cycles, iterations, divisor, r.next(),
                                        sb::search::SearchParameters(w.k, targets));
    auto job = DynamicJob{schedule, w.training};
    schedule_faults();
    fault_rate(F_CLOCK_JUMP, knob("clock", 0, 1) ? 20000 : 0);
    fault_rate(F_CLOCK_STALL, knob("clock", 0, 1) ? 20000 : 0);
    size_t reports = 0;
    std::vector<std::string> kinds{"initial"};
    for (size_t i = 0; i < iterations; ++i) {
        kinds.push_back("add");
        kinds.push_back("delete");
        if ((i + 1) % cycles == 0) {
            kinds.push_back("consolidate");
        }
    }
    auto check_table = [&](const toml::table& t, size_t upto, const char* when) {
        Quiet q;
        auto* a = t.get_as<toml::array>("results");
        SIM_CHECK(a && a->size() == upto, "report", "%s: %zu entries, not %zu", when,
                  a ? a->size() : 0, upto);
        for (size_t i = 0; i < upto; ++i) {
            auto& e = *a->get_as<toml::table>(i);
            SIM_CHECK(e["kind"].value_or(std::string()) == kinds[i], "report",
                      "%s: entry %zu is of kind %s, not %s", when, i,
                      e["kind"].value_or(std::string("none")).c_str(), kinds[i].c_str());
            for (auto* what : {"iso_config", "iso_recall"}) {
                auto* runs = e.get_as<toml::array>(what);
                SIM_CHECK(runs && runs->size() == targets.size(), "report", "%s: %s of entry %zu",
                          when, what, i);
                for (size_t j = 0; j < runs->size(); ++j) {
                    auto& x = *runs->get_as<toml::table>(j);
                    double recall = x["recall"].value_or(-1.0);
                    SIM_CHECK(recall == 1.0, "report",
                              "%s: an exact index is reported with recall %g (%s of entry %zu, %s)",
                              when, recall, what, i, kinds[i].c_str());
                    size_t expect = std::string(what) == "iso_config" ? nq : nq - w.training;
                    SIM_CHECK(x["num_queries"].value_or(int64_t{-1}) == (int64_t)expect, "report",
                              "%s: %lld queries", when,
                              (long long)x["num_queries"].value_or(int64_t{-1}));
                    SIM_CHECK(x["config"]["origin"].value_or(int64_t{-1}) ==
                                  (int64_t)(targets[j] * 1000 + 0.5),
                              "report", "%s: configuration of another target", when);
                }
            }
        }
    };
    Armed armed;
    try {
        auto bundle = sb::build::initialize_dynamic<float, float>(
            "data", "queries", svs::distance::DistanceL2(), schedule, threads,
            [&](const svs::data::SimpleData<float>& points, const std::vector<size_t>& ids) {
                Exact e;
                sb::IndexTraits<Exact>::add_points(e, points, ids);
                w.ops.clear();
                return e;
            });
        auto checkpoint = sb::Checkpoint(toml::table(), "results.toml");
        auto final = sb::build::dynamic_test_loop(
            bundle, job,
            [&](const toml::table& t) {
                ++reports;
                check_table(t, reports, "a report");
                checkpoint.checkpoint(t, "dynamic");
                Quiet q;
                auto f = toml::parse_file("results.toml");
                auto* a = f.get_as<toml::array>("dynamic");
                SIM_CHECK(a && a->size() == 1, "report", "the file holds %zu reports",
                          a ? a->size() : 0);
                check_table(*a->get_as<toml::table>(0), reports, "the file");
            },
            0);
        check_table(final, kinds.size(), "the final report");
    } catch (const svs::ANNException& e) {
        std::string why = e.what();
        if (why.find("Bucket size") != std::string::npos) {
            discard("more neighbours than points in a bucket");
        }
        if (why.find("Something went wrong") != std::string::npos) {
            discard("no bucket is small enough");
        }
        throw;
    }
    Quiet q;
    kinds.erase(kinds.begin());
    SIM_CHECK(w.ops == kinds, "operations", "%zu operations on the index, not %zu", w.ops.size(),
              kinds.size());
    if (iterations) {
        nontrivial();
    }
    note(w.live.size());
    g_w = nullptr;
}
} // namespace
SCENARIO(bench_dynamic) { dynamic_benchmark(); }
