// Runner: explores seeds, gates and minimises violations, replays trace files.
#include "internal.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <vector>

namespace sim {
static Scenario* g_scen = nullptr;
Scenario::Scenario(const char* n, void (*f)())
    : name{n}
    , fn{f}
    , next{g_scen} {
    g_scen = this;
}
} // namespace sim

namespace sim::rt {
Thread* new_thread();
void begin_run();
void posix_begin_run();
void hb_init();
void shadow_init();
void init_key();
void start_main_thread();
[[noreturn]] void end_ok();
void* thread_main(void* p);
void kick(Thread* t);
void* stack_for(int& slot);
int real_pthread_create_(pthread_t* t, void* stack, void* (*fn)(void*), void* arg);
int real_pthread_join_(pthread_t t);

static double wall() {
    struct timespec ts;
    raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Scenario* g_cur;
static std::string g_scratch;
static int g_run_wall = 60;

static void on_signal(int sig, siginfo_t* si, void* uc) {
    const char* n = sig == SIGSEGV   ? "SIGSEGV"
                    : sig == SIGABRT ? "SIGABRT"
                    : sig == SIGFPE  ? "SIGFPE"
                    : sig == SIGBUS  ? "SIGBUS"
                                     : "SIGILL";
    char c[64];
    snprintf(c, sizeof c, "crash:%s", n);
    uintptr_t pc = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    uintptr_t a = (uintptr_t)si->si_addr;
    if (sig == SIGSEGV && a >= STACK_BASE && a < STACK_BASE + STACK_SIZE * (size_t)MAXT &&
        (a & (STACK_SIZE - 1)) < 4096) {
        fail("crash:stack-overflow", "stack overflow at pc 0x%llx", (unsigned long long)pc);
    }
    if (sig == SIGSEGV && a < (1ull << 47) && (a >> 40) != 0 && false) {
    }
    fail(c, "%s at site 0x%llx, address %s0x%llx", n, (unsigned long long)(pc - g_base),
         sig == SIGFPE ? "(pc) " : "", (unsigned long long)(sig == SIGABRT ? 0 : a));
}

static void on_terminate() {
    std::exception_ptr e = std::current_exception();
    if (e) {
        try {
            std::rethrow_exception(e);
        } catch (const std::exception& x) {
            fail("crash:terminate", "std::terminate: uncaught exception: %s", x.what());
        } catch (...) {
            fail("crash:terminate", "std::terminate: uncaught exception of another type");
        }
    }
    fail("crash:terminate", "std::terminate called");
}

static void* scen_main(void*) {
    try {
        g_cur->fn();
    } catch (const std::exception& x) {
        fail("uncaught", "the scenario ended with an unexpected exception: %s (%s)", x.what(),
             typeid(x).name());
    } catch (...) {
        fail("uncaught", "the scenario ended with an unexpected exception of another type");
    }
    hash_event(0xe4d, g_acc);
    end_ok();
}

static void child(const std::string& dir) {
    if (mkdir(dir.c_str(), 0755) != 0 && errno != EEXIST) {
        _exit(9);
    }
    if (chdir(dir.c_str()) != 0) {
        _exit(9);
    }
    raw_syscall(SYS_alarm, g_run_wall);
    static char alt[65536];
    (void)alt;
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) {
        sigaction(s, &sa, nullptr);
    }
    signal(SIGPIPE, SIG_IGN);
    std::set_terminate(on_terminate);
    begin_run();
    posix_begin_run();
    io_begin_run();
    start_main_thread();
    init_key();
    heap_begin_run();
    Thread* t = new_thread();
    t->fn = scen_main;
    t->stack = stack_for(t->stack_slot);
    g_active = true;
    if (real_pthread_create_(&t->real, t->stack, thread_main, t) != 0) {
        _exit(9);
    }
    kick(t);
    real_pthread_join_(t->real);
    for (;;) {
        pause();
    }
}

static std::string g_dir;
static uint64_t g_forks = 0;

static void rm_rf(const std::string& d) {
    // The scratch directory is flat or one level of plain sub-directories made by the run.
    if (d.size() < 8 || d.find("svs-sim") == std::string::npos) {
        return;
    }
    pid_t p = fork();
    if (p == 0) {
        execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char*)nullptr);
        _exit(1);
    }
    int st;
    waitpid(p, &st, 0);
}

static bool dir_empty(const std::string& d) {
    return rmdir(d.c_str()) == 0;
}

// Run the plan in a child. Result in *g_sh; returns false when inconclusive.
static bool run_plan() {
    memset((void*)g_sh, 0, offsetof(Shared, sched));
    g_sh->nsched = g_sh->nfaults = g_sh->nknobs = 0;
    g_sh->loglen = 0;
    g_sh->log[0] = 0;
    memset(g_sh->cov, 0, sizeof g_sh->cov);
    std::string d = g_dir + "/r";
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        child(d);
        _exit(9);
    }
    if (p < 0) {
        snprintf(g_sh->cls, sizeof g_sh->cls, "internal");
        snprintf(g_sh->msg, sizeof g_sh->msg, "fork failed");
        g_sh->status = ST_ERROR;
        return false;
    }
    g_forks++;
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
    if (!dir_empty(d)) {
        rm_rf(d);
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        g_sh->status = ST_NONE;
        return false;
    }
    if (g_sh->status == ST_NONE) {
        g_sh->status = ST_ERROR;
        snprintf(g_sh->cls, sizeof g_sh->cls, "internal");
        snprintf(g_sh->msg, sizeof g_sh->msg, "child ended without a verdict (status 0x%x)", st);
        return false;
    }
    return g_sh->status != ST_ERROR;
}

struct Result {
    int status;
    std::string cls, msg, log;
    uint64_t hash;
};
static Result result() {
    return Result{g_sh->status, g_sh->cls, g_sh->msg, std::string(g_sh->log, g_sh->loglen),
                  g_sh->hash};
}

struct Trace {
    uint64_t seed = 0;
    bool expl = false;
    std::vector<SchedRec> sched;
    std::vector<FaultRec> faults;
    std::vector<KnobRec> knobs;
    std::vector<uint32_t> drops;
};

static std::vector<KnobRec> g_fixed_knobs; // from the command line

static void load_plan(const Trace& t) {
    g_plan->seed = t.seed;
    g_plan->explicit_trace = t.expl;
    g_plan->nsched = std::min<size_t>(t.sched.size(), MAX_SCHED);
    std::copy_n(t.sched.begin(), g_plan->nsched, g_plan->sched);
    g_plan->nfaults = std::min<size_t>(t.faults.size(), MAX_FAULTS);
    std::copy_n(t.faults.begin(), g_plan->nfaults, g_plan->faults);
    g_plan->nknobs = 0;
    for (auto& k : g_fixed_knobs) {
        g_plan->knobs[g_plan->nknobs++] = k;
    }
    for (auto& k : t.knobs) {
        if (g_plan->nknobs < MAX_KNOBS) {
            g_plan->knobs[g_plan->nknobs++] = k;
        }
    }
    g_plan->ndrops = std::min<size_t>(t.drops.size(), MAX_DROPS);
    std::copy_n(t.drops.begin(), g_plan->ndrops, g_plan->drops);
}
static bool run_trace(const Trace& t) {
    load_plan(t);
    return run_plan();
}
// The explicit trace of the run that has just finished.
static Trace recorded(const Trace& from) {
    Trace t;
    t.seed = from.seed;
    t.expl = true;
    t.sched.assign(g_sh->sched, g_sh->sched + g_sh->nsched);
    std::sort(t.sched.begin(), t.sched.end(), [](const SchedRec& a, const SchedRec& b) {
        if ((a.at & 1) != (b.at & 1)) {
            return (a.at & 1) < (b.at & 1);
        }
        return a.at < b.at;
    });
    t.faults.assign(g_sh->faults, g_sh->faults + g_sh->nfaults);
    t.knobs.assign(g_sh->knobs, g_sh->knobs + g_sh->nknobs);
    t.drops = from.drops;
    return t;
}

// ---- minimiser ---------------------------------------------------------------------------
struct Minimiser {
    Trace best;
    std::string cls;
    double until;
    int tries = 0;

    bool test(const Trace& t) {
        if (wall() > until) {
            return false;
        }
        tries++;
        run_trace(t);
        return g_sh->status == ST_VIOLATION && cls == g_sh->cls;
    }
    bool out() { return wall() > until; }

    template <typename V, typename Set> void ddmin(V items, Set apply) {
        // Remove chunks of `items`.
        size_t chunk = std::max<size_t>(1, items.size());
        while (!items.empty() && chunk >= 1 && !out()) {
            bool any = false;
            for (size_t i = 0; i < items.size() && !out();) {
                V cand;
                size_t e = std::min(items.size(), i + chunk);
                cand.insert(cand.end(), items.begin(), items.begin() + i);
                cand.insert(cand.end(), items.begin() + e, items.end());
                Trace t = best;
                apply(t, cand);
                if (test(t)) {
                    items = cand;
                    best = t;
                    any = true;
                } else {
                    i = e;
                }
            }
            if (chunk == 1 && !any) {
                break;
            }
            if (chunk > 1) {
                chunk = (chunk + 1) / 2;
            } else if (!any) {
                break;
            }
        }
    }

    void run() {
        for (int round = 0; round < 3 && !out(); ++round) {
            size_t before = best.sched.size() + best.faults.size() - best.drops.size();
            // operations
            run_trace(best);
            uint32_t n = g_sh->nops;
            if (n > 1 && n < MAX_DROPS) {
                std::vector<uint32_t> kept;
                for (uint32_t i = 0; i < n; ++i) {
                    if (std::find(best.drops.begin(), best.drops.end(), i) == best.drops.end()) {
                        kept.push_back(i);
                    }
                }
                ddmin(kept, [n](Trace& t, const std::vector<uint32_t>& keep) {
                    t.drops.clear();
                    for (uint32_t i = 0; i < n; ++i) {
                        if (!std::binary_search(keep.begin(), keep.end(), i)) {
                            t.drops.push_back(i);
                        }
                    }
                });
            }
            ddmin(best.sched, [](Trace& t, const std::vector<SchedRec>& v) { t.sched = v; });
            ddmin(best.faults, [](Trace& t, const std::vector<FaultRec>& v) { t.faults = v; });
            for (size_t k = 0; k < best.knobs.size() && !out(); ++k) {
                for (int step = 0; step < 3 && !out(); ++step) {
                    Trace t = best;
                    KnobRec& r = t.knobs[k];
                    uint64_t target = step == 0 ? r.lo : r.lo + (r.val - r.lo) / 2;
                    if (step == 2 && r.val > r.lo) {
                        target = r.val - 1;
                    }
                    if (target >= r.val) {
                        break;
                    }
                    r.val = target;
                    if (test(t)) {
                        best = t;
                    }
                }
            }
            size_t after = best.sched.size() + best.faults.size() - best.drops.size();
            if (after == before) {
                break;
            }
        }
    }
};

static void write_replay(const std::string& path, const Trace& t, const Result& r, bool trace_used) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) {
        return;
    }
    fprintf(f, "# deterministic simulation replay file (svs)\n");
    fprintf(f, "scenario %s\n", g_cur->name);
    fprintf(f, "seed %llu\n", (unsigned long long)t.seed);
    fprintf(f, "mode %s\n", trace_used ? "trace" : "seed");
    fprintf(f, "class %s\n", r.cls.c_str());
    fprintf(f, "hash %016llx\n", (unsigned long long)r.hash);
    std::string m = r.msg;
    for (auto& c : m) {
        if (c == '\n') {
            c = ' ';
        }
    }
    fprintf(f, "message %s\n", m.c_str());
    for (auto& k : t.knobs) {
        fprintf(f, "knob %s %llu %llu %llu\n", k.name, (unsigned long long)k.val,
                (unsigned long long)k.lo, (unsigned long long)k.hi);
    }
    for (auto d : t.drops) {
        fprintf(f, "drop %u\n", d);
    }
    for (auto& s : t.sched) {
        fprintf(f, "sched %s %llu %u\n", (s.at & 1) ? "access" : "point",
                (unsigned long long)(s.at >> 1), s.tid);
    }
    for (auto& x : t.faults) {
        fprintf(f, "fault %s %llu %u\n", fault_names[x.kind], (unsigned long long)x.idx, x.param);
    }
    // The operations of the minimised run, for the reader.
    size_t i = 0;
    while (i < r.log.size()) {
        size_t e = r.log.find('\n', i);
        if (e == std::string::npos) {
            e = r.log.size();
        }
        fprintf(f, "# %s\n", r.log.substr(i, e - i).c_str());
        i = e + 1;
    }
    fclose(f);
}

static bool read_replay(const char* path, Trace& t, std::string& scen, std::string& cls,
                        uint64_t& hash) {
    FILE* f = fopen(path, "r");
    if (!f) {
        return false;
    }
    static char line[8192];
    while (fgets(line, sizeof line, f)) {
        char a[256], b[64];
        b[0] = 0;
        unsigned long long x, y, z;
        if (sscanf(line, "scenario %200s", a) == 1) {
            scen = a;
        } else if (sscanf(line, "seed %llu", &x) == 1) {
            t.seed = x;
        } else if (sscanf(line, "mode %60s", b) == 1) {
            t.expl = !strcmp(b, "trace");
        } else if (sscanf(line, "class %200s", a) == 1) {
            cls = a;
        } else if (sscanf(line, "hash %llx", &x) == 1) {
            hash = x;
        } else if (sscanf(line, "knob %39s %llu %llu %llu", b, &x, &y, &z) == 4) {
            KnobRec k{};
            snprintf(k.name, sizeof k.name, "%.39s", b);
            k.val = x;
            k.lo = y;
            k.hi = z;
            t.knobs.push_back(k);
        } else if (sscanf(line, "drop %llu", &x) == 1) {
            t.drops.push_back((uint32_t)x);
        } else if (sscanf(line, "sched %60s %llu %llu", b, &x, &y) == 3) {
            t.sched.push_back({(x << 1) | (b[0] == 'a'), (uint32_t)y});
        } else if (sscanf(line, "fault %60s %llu %llu", b, &x, &y) == 3) {
            for (uint32_t k = 0; k < F_COUNT; ++k) {
                if (!strcmp(fault_names[k], b)) {
                    t.faults.push_back({k, (uint32_t)y, x});
                }
            }
        }
    }
    fclose(f);
    return true;
}

static void json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            fprintf(f, "\\%c", c);
        } else if (c == '\n') {
            fputs("\\n", f);
        } else if (c < 32 || c > 126) {
            fprintf(f, "\\u%04x", c);
        } else {
            fputc(c, f);
        }
    }
    fputc('"', f);
}

static uint64_t mixs(uint64_t a, uint64_t b) {
    uint64_t s = a * 0x9e3779b97f4a7c15ull + b;
    prng(s);
    return prng(s);
}

struct Args {
    std::map<std::string, std::string> m;
    std::string get(const char* k, const char* d = "") {
        auto i = m.find(k);
        return i == m.end() ? d : i->second;
    }
    uint64_t num(const char* k, uint64_t d) {
        auto i = m.find(k);
        return i == m.end() ? d : strtoull(i->second.c_str(), nullptr, 10);
    }
};

static int explore(Args& a) {
    uint64_t base = a.num("seed", 1);
    uint64_t worker = a.num("worker", 0), workers = a.num("workers", 1);
    uint64_t count = a.num("count", ~0ull);
    double budget = (double)a.num("time", 10);
    double min_budget = (double)a.num("mintime", 25);
    uint64_t detp = a.num("det", 2);
    std::string out = a.get("out"), repdir = a.get("replays", ".");
    std::set<std::string> known;
    {
        std::string k = a.get("known");
        size_t i = 0;
        while (i < k.size()) {
            size_t e = k.find(',', i);
            if (e == std::string::npos) {
                e = k.size();
            }
            known.insert(k.substr(i, e - i));
            i = e + 1;
        }
    }
    std::map<std::string, uint64_t> known_hits;
    std::map<std::string, std::string> known_msg;
    double t0 = wall();
    uint64_t scenh = 0;
    for (const char* p = g_cur->name; *p; ++p) {
        scenh = scenh * 131 + *p;
    }
    uint64_t runs = 0, ok = 0, nontriv = 0, disc = 0, timeouts = 0, det = 0, rep = 0, rep_over = 0;
    uint64_t points = 0, acc = 0, sw = 0, vt = 0, spins = 0, maxth = 0;
    uint64_t fired[F_COUNT] = {}, opp[F_COUNT] = {};
    std::map<std::string, uint64_t> probes, discs, maxprobe;
    std::vector<uint64_t> hashes;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    static uint8_t cov[COV_BYTES];
    std::string viol_cls, viol_msg, viol_path, err, first_to;
    uint64_t viol_seed = 0, min_tries = 0;

    for (uint64_t i = worker; i / workers < count && wall() - t0 < budget; i += workers) {
        Trace t;
        t.seed = mixs(base * 1000003 + scenh, i);
        bool conclusive = run_trace(t);
        runs++;
        if (!conclusive) {
            if (g_sh->status == ST_ERROR) {
                err = std::string("run seed ") + std::to_string(t.seed) + ": " + g_sh->msg;
                break;
            }
            timeouts++;
            if (first_to.empty()) {
                first_to = std::to_string(t.seed);
            }
            if (timeouts > 3 && timeouts * 50 > runs) {
                err = "too many runs exceeded the wall-clock limit, e.g. seed " + first_to;
                break;
            }
            continue;
        }
        points += g_sh->points;
        acc += g_sh->accesses;
        sw += g_sh->switches;
        vt += g_sh->vtime - 1700000000ull * 1000000000ull;
        spins += g_sh->spin_loops;
        maxth = std::max<uint64_t>(maxth, g_sh->threads);
        for (uint32_t k = 0; k < F_COUNT; ++k) {
            fired[k] += g_sh->fired[k];
            opp[k] += g_sh->opp[k];
        }
        for (uint32_t k = 0; k < g_sh->nprobes; ++k) {
            probes[g_sh->probes[k].name] += g_sh->probes[k].n;
        }
        for (uint32_t k = 0; k < COV_BYTES; ++k) {
            cov[k] |= g_sh->cov[k];
        }
        if (g_sh->status == ST_DISCARD) {
            disc++;
            discs[g_sh->msg]++;
            continue;
        }
        if (g_sh->status == ST_OK) {
            ok++;
            uint64_t rh = mixs(g_sh->sched_hash, g_sh->hash);
            if (g_sh->nontrivial) {
                nontriv++;
                if (distinct.size() < 2000000) {
                    distinct.insert(rh);
                }
            }
            if (samples.size() < 2 && g_sh->nontrivial) {
                std::string s = "seed=" + std::to_string(t.seed) +
                                " points=" + std::to_string(g_sh->points) +
                                " switches=" + std::to_string(g_sh->switches) + " knobs:";
                for (uint32_t k = 0; k < g_sh->nknobs && k < 24; ++k) {
                    s += std::string(" ") + g_sh->knobs[k].name + "=" +
                         std::to_string(g_sh->knobs[k].val);
                }
                if (g_sh->loglen) {
                    s += " log: " + std::string(g_sh->log, std::min<uint32_t>(g_sh->loglen, 500));
                }
                samples.push_back(s);
            }
            // Determinism: the same seed again; and the recorded trace instead of the seed.
            if (runs <= 2 || mixs(t.seed, 99) % 100 < detp) {
                uint64_t h = g_sh->hash;
                Trace rec = recorded(t);
                bool over = g_sh->sched_overflow || g_sh->nfaults >= MAX_FAULTS;
                bool c2 = run_trace(t);
                det++;
                if (!c2 || g_sh->status != ST_OK || g_sh->hash != h) {
                    err = "not deterministic: seed " + std::to_string(t.seed);
                    break;
                }
                if (over) {
                    rep_over++;
                } else {
                    uint64_t pts = g_sh->points, acc = g_sh->accesses;
                    bool c3 = run_trace(rec);
                    rep++;
                    if (!c3 || g_sh->status != ST_OK || g_sh->hash != h) {
                        err = "recorded trace does not replay: seed " + std::to_string(t.seed) +
                              " got " + g_sh->cls + " " + g_sh->msg + " points " +
                              std::to_string(pts) + "/" + std::to_string(g_sh->points) +
                              " accesses " + std::to_string(acc) + "/" +
                              std::to_string(g_sh->accesses) + " faults " +
                              std::to_string(rec.faults.size()) + "/" +
                              std::to_string(g_sh->nfaults) + " log " +
                              std::string(g_sh->log, std::min<uint32_t>(g_sh->loglen, 300));
                        break;
                    }
                }
            }
            continue;
        }
        // A violation.
        Result first = result();
        if (known.count(first.cls)) {
            known_hits[first.cls]++;
            known_msg[first.cls] = first.msg;
            continue;
        }
        bool over = g_sh->sched_overflow || g_sh->nfaults >= MAX_FAULTS;
        Trace rec = recorded(t);
        // Gate: the same seed must do exactly the same again.
        bool c2 = run_trace(t);
        if (!c2 || g_sh->status != ST_VIOLATION || first.cls != g_sh->cls ||
            first.hash != g_sh->hash) {
            err = "a violation did not reproduce: seed " + std::to_string(t.seed) + " " +
                  first.cls + ": " + first.msg + " / second: " + g_sh->cls + ": " + g_sh->msg;
            break;
        }
        viol_cls = first.cls;
        viol_msg = first.msg;
        viol_seed = t.seed;
        mkdir(repdir.c_str(), 0755);
        viol_path = repdir + "/" + g_cur->name + "-" + std::to_string(t.seed) + ".replay";
        bool use_trace = false;
        if (!over) {
            bool c3 = run_trace(rec);
            use_trace = c3 && g_sh->status == ST_VIOLATION && first.cls == g_sh->cls &&
                        first.hash == g_sh->hash;
        }
        if (use_trace) {
            Minimiser m;
            m.best = rec;
            m.cls = first.cls;
            m.until = wall() + min_budget;
            m.run();
            min_tries = m.tries;
            run_trace(m.best);
            Result r = result();
            if (r.status == ST_VIOLATION && r.cls == first.cls) {
                write_replay(viol_path, m.best, r, true);
                viol_msg = r.msg;
            } else {
                run_trace(rec);
                write_replay(viol_path, rec, result(), true);
            }
        } else {
            t.knobs = rec.knobs;
            write_replay(viol_path, t, first, false);
        }
        break;
    }

    FILE* f = fopen(out.c_str(), "w");
    if (!f) {
        fprintf(stderr, "cannot write %s\n", out.c_str());
        return 3;
    }
    fprintf(f, "{\"scenario\":\"%s\",\"runs\":%llu,\"ok\":%llu,\"nontrivial\":%llu,", g_cur->name,
            (unsigned long long)runs, (unsigned long long)ok, (unsigned long long)nontriv);
    fprintf(f, "\"discarded\":%llu,\"timeouts\":%llu,\"det_checked\":%llu,\"trace_checked\":%llu,"
               "\"trace_overflow\":%llu,",
            (unsigned long long)disc, (unsigned long long)timeouts, (unsigned long long)det,
            (unsigned long long)rep, (unsigned long long)rep_over);
    fprintf(f, "\"points\":%llu,\"accesses\":%llu,\"switches\":%llu,\"vtime_ns\":%llu,"
               "\"spin_loops\":%llu,\"max_threads\":%llu,\"forks\":%llu,\"min_tries\":%llu,",
            (unsigned long long)points, (unsigned long long)acc, (unsigned long long)sw,
            (unsigned long long)vt, (unsigned long long)spins, (unsigned long long)maxth,
            (unsigned long long)g_forks, (unsigned long long)min_tries);
    fprintf(f, "\"faults\":{");
    bool c = false;
    for (uint32_t k = 0; k < F_COUNT; ++k) {
        if (fired[k] || opp[k]) {
            fprintf(f, "%s\"%s\":[%llu,%llu]", c ? "," : "", fault_names[k],
                    (unsigned long long)fired[k], (unsigned long long)opp[k]);
            c = true;
        }
    }
    fprintf(f, "},\"probes\":{");
    c = false;
    for (auto& [k, v] : probes) {
        fprintf(f, "%s", c ? "," : "");
        json_str(f, k);
        fprintf(f, ":%llu", (unsigned long long)v);
        c = true;
    }
    fprintf(f, "},\"discards\":{");
    c = false;
    for (auto& [k, v] : discs) {
        fprintf(f, "%s", c ? "," : "");
        json_str(f, k);
        fprintf(f, ":%llu", (unsigned long long)v);
        c = true;
    }
    fprintf(f, "},\"samples\":[");
    c = false;
    for (auto& s : samples) {
        fprintf(f, "%s", c ? "," : "");
        json_str(f, s);
        c = true;
    }
    fprintf(f, "],\"known\":{");
    c = false;
    for (auto& [k, v] : known_hits) {
        fprintf(f, "%s", c ? "," : "");
        json_str(f, k);
        fprintf(f, ":[%llu,", (unsigned long long)v);
        json_str(f, known_msg[k]);
        fprintf(f, "]");
        c = true;
    }
    fprintf(f, "},\"violation\":");
    if (viol_cls.empty()) {
        fprintf(f, "null");
    } else {
        fprintf(f, "{\"class\":");
        json_str(f, viol_cls);
        fprintf(f, ",\"message\":");
        json_str(f, viol_msg);
        fprintf(f, ",\"seed\":\"%llu\",\"replay\":", (unsigned long long)viol_seed);
        json_str(f, viol_path);
        fprintf(f, "}");
    }
    fprintf(f, ",\"error\":");
    if (err.empty()) {
        fprintf(f, "null");
    } else {
        json_str(f, err);
    }
    fprintf(f, ",\"wall_s\":%.3f}\n", wall() - t0);
    fclose(f);
    f = fopen((out + ".bin").c_str(), "w");
    if (f) {
        fwrite(cov, 1, COV_BYTES, f);
        for (uint64_t h : distinct) {
            fwrite(&h, 8, 1, f);
        }
        fclose(f);
    }
    if (!err.empty()) {
        fprintf(stderr, "%s: %s\n", g_cur->name, err.c_str());
        return 3;
    }
    return viol_cls.empty() ? 0 : 1;
}

static Scenario* find(const std::string& n) {
    for (Scenario* s = g_scen; s; s = s->next) {
        if (n == s->name) {
            return s;
        }
    }
    return nullptr;
}

static void* shmap(size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return p == MAP_FAILED ? nullptr : p;
}

extern "C" char** environ;

static int real_main(int argc, char** argv) {
    if (!getenv("SIMRT_CHILD")) {
        // Same addresses and environment every time.
        personality(ADDR_NO_RANDOMIZE);
        char* env[] = {(char*)"SIMRT_CHILD=1", (char*)"LC_ALL=C", (char*)"PATH=/usr/bin:/bin",
                       nullptr};
        execve("/proc/self/exe", argv, env);
        perror("execve");
        return 3;
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    warm_unwinder();
    Args a;
    std::string mode = argc > 1 ? argv[1] : "list";
    std::string file;
    for (int i = 2; i < argc; ++i) {
        std::string s = argv[i];
        if (s.rfind("--", 0) == 0) {
            size_t e = s.find('=');
            if (e != std::string::npos) {
                std::string k = s.substr(2, e - 2), v = s.substr(e + 1);
                if (k == "set") {
                    size_t q = v.find(':');
                    KnobRec r{};
                    snprintf(r.name, sizeof r.name, "%s", v.substr(0, q).c_str());
                    r.val = strtoull(v.c_str() + q + 1, nullptr, 10);
                    r.lo = r.hi = r.val;
                    g_fixed_knobs.push_back(r);
                } else {
                    a.m[k] = v;
                }
            } else {
                a.m[s.substr(2)] = "1";
            }
        } else {
            file = s;
        }
    }
    if (mode == "list") {
        for (Scenario* s = g_scen; s; s = s->next) {
            printf("%s\n", s->name);
        }
        return 0;
    }
    g_plan = (Plan*)shmap(sizeof(Plan));
    g_sh = (Shared*)shmap(sizeof(Shared));
    hb_init();
    shadow_init();
    g_run_wall = (int)a.num("runwall", 60);
    g_scratch = a.get("scratch", "/dev/shm");
    g_dir = g_scratch + "/svs-sim-" + std::to_string(getpid());
    if (mkdir(g_dir.c_str(), 0755) != 0 && errno != EEXIST) {
        fprintf(stderr, "cannot create %s\n", g_dir.c_str());
        return 3;
    }
    int rc = 3;
    if (mode == "explore") {
        g_cur = find(a.get("scen"));
        if (!g_cur) {
            fprintf(stderr, "no scenario %s\n", a.get("scen").c_str());
        } else {
            rc = explore(a);
        }
    } else if (mode == "one") {
        g_cur = find(a.get("scen"));
        Trace t;
        t.seed = a.num("seed", 1);
        bool c = run_trace(t);
        printf("conclusive=%d status=%d class=%s points=%llu acc=%llu switches=%llu threads=%u "
               "nsched=%u faults=%u hash=%016llx\n%s\n",
               c, g_sh->status, g_sh->cls, (unsigned long long)g_sh->points,
               (unsigned long long)g_sh->accesses, (unsigned long long)g_sh->switches,
               g_sh->threads, g_sh->nsched, g_sh->nfaults, (unsigned long long)g_sh->hash,
               g_sh->msg);
        for (uint32_t k = 0; k < g_sh->nknobs; ++k) {
            printf(" %s=%llu", g_sh->knobs[k].name, (unsigned long long)g_sh->knobs[k].val);
        }
        printf("\n%s\n", g_sh->log);
        rc = g_sh->status == ST_OK ? 0 : 1;
    } else if (mode == "replay") {
        Trace t;
        std::string scen, cls;
        uint64_t hash = 0;
        if (!read_replay(file.c_str(), t, scen, cls, hash)) {
            fprintf(stderr, "cannot read %s\n", file.c_str());
        } else if (!(g_cur = find(scen))) {
            fprintf(stderr, "no scenario %s\n", scen.c_str());
        } else {
            run_trace(t);
            printf("class=%s hash=%016llx %s\n%s\n%s", g_sh->cls, (unsigned long long)g_sh->hash,
                   g_sh->status == ST_VIOLATION && cls == g_sh->cls && hash == g_sh->hash
                       ? "REPRODUCED"
                       : "NOT REPRODUCED",
                   g_sh->msg, g_sh->log);
            rc = g_sh->status == ST_VIOLATION && cls == g_sh->cls && hash == g_sh->hash ? 1
                 : g_sh->status == ST_OK                                            ? 0
                                                                                     : 2;
        }
    }
    rm_rf(g_dir);
    return rc;
}
} // namespace sim::rt

int main(int argc, char** argv) { return sim::rt::real_main(argc, argv); }
