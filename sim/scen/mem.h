// Running out of memory (and of threads and files) at a chosen request.
//
// A Task makes something, uses it, destroys it, and reports what it saw.  The driver performs it
// three times: undisturbed, with the nth request refused, and undisturbed again.  The refused
// attempt must raise an error, or report what the undisturbed ones report; it leaves no memory,
// mapping, thread or open file behind and does not alter its inputs.
#pragma once
#include "svsx.h"
#include <fcntl.h>
#include <functional>
#include <sys/stat.h>

namespace svsx {
struct Report {
    std::vector<double> v;
    bool any_order = false; // depends on the schedule: only its presence is compared
    void add(double x) { v.push_back(x); }
};
struct Task {
    virtual ~Task() = default;
    // Makes what exists before (with the schedule on, so it may start threads).
    virtual void prepare() {}
    // Performed with the schedule and faults on.  The report is filled inside Quiet blocks.
    virtual void perform(Report& out) = 0;
    // What existed before: reported before and after each attempt.
    virtual void inputs(Report&) {}
    // Removes whatever an attempt left on disk.
    virtual void tidy() {}
};
using TaskMaker = std::unique_ptr<Task> (*)(Rng&, size_t kind);

struct Holdings {
    uint64_t blocks, bytes, maps, threads, files;
};
inline Holdings holdings() {
    Quiet q;
    Holdings h{heap_live_blocks(), heap_live_bytes(), mmap_live_regions(), live_threads(), 0};
    for (int fd = 0; fd < 200; ++fd) {
        h.files += ::fcntl(fd, F_GETFD) != -1;
    }
    return h;
}
// After an error less may be held than before: a pool may have lost a thread it could not replace.
inline void check_released(const Holdings& a, const Holdings& b, const char* when,
                           bool fewer = false) {
    if (fewer && (b.blocks < a.blocks || b.threads < a.threads)) {
        SIM_CHECK(b.blocks <= a.blocks && b.threads <= a.threads && b.maps <= a.maps && b.files <= a.files, "leak",
                  "%s: blocks %llu, threads %llu, mappings %llu, files %llu; before: %llu, %llu, "
                  "%llu, %llu",
                  when, (unsigned long long)b.blocks,
                  (unsigned long long)b.threads, (unsigned long long)b.maps,
                  (unsigned long long)b.files, (unsigned long long)a.blocks,
                  (unsigned long long)a.threads,
                  (unsigned long long)a.maps, (unsigned long long)a.files);
        return;
    }
    SIM_CHECK(a.threads == b.threads, "thread-leak", "%s: %llu threads before, %llu after", when,
              (unsigned long long)a.threads, (unsigned long long)b.threads);
    SIM_CHECK(a.maps == b.maps, "mapping-leak", "%s: %llu mappings before, %llu after", when,
              (unsigned long long)a.maps, (unsigned long long)b.maps);
    SIM_CHECK(a.files == b.files, "file-leak", "%s: %llu open files before, %llu after", when,
              (unsigned long long)a.files, (unsigned long long)b.files);
    SIM_CHECK(a.blocks == b.blocks, "memory-leak",
              "%s: %llu blocks (%llu bytes) before, %llu (%llu) after", when,
              (unsigned long long)a.blocks, (unsigned long long)a.bytes,
              (unsigned long long)b.blocks, (unsigned long long)b.bytes);
}
inline void same_report(const Report& a, const Report& b, const char* cls, const char* when) {
    if (a.any_order) {
        return;
    }
    SIM_CHECK(a.v.size() == b.v.size(), cls, "%s: %zu values, %zu undisturbed", when, b.v.size(),
              a.v.size());
    for (size_t i = 0; i < a.v.size(); ++i) {
        bool eq = a.v[i] == b.v[i] || (a.v[i] != a.v[i] && b.v[i] != b.v[i]);
        SIM_CHECK(eq, cls, "%s: value %zu is %g, undisturbed %g", when, i, b.v[i], a.v[i]);
    }
}

inline void short_of(TaskMaker make, size_t kinds) {
    Rng r("task");
    size_t kind = knob("kind", 0, kinds - 1);
    std::unique_ptr<Task> t;
    Report in0, clean, in1, tried, in2, again;
    {
        Quiet q;
        t = make(r, kind);
    }
    t->prepare();
    {
        Quiet q;
        t->inputs(in0);
    }
    schedule_faults();
    fault_clear();
    static const Fault kindsof[] = {F_ALLOC, F_MMAP, F_THREAD_CREATE, F_IO_OPEN};
    uint64_t before[4];
    {
        Armed a;
        t->perform(clean); // also sets up what the library keeps for good
    }
    {
        Quiet q;
        t->tidy();
    }
    clean.v.shrink_to_fit();
    for (size_t i = 0; i < 4; ++i) {
        before[i] = opportunities(kindsof[i]);
    }
    auto h0 = holdings();
    {
        Report second;
        Armed a;
        t->perform(second);
        Quiet q;
        t->tidy();
        same_report(clean, second, "not-repeatable", "second time");
    }
    check_released(h0, holdings(), "undisturbed");
    uint64_t n[4];
    for (size_t i = 0; i < 4; ++i) {
        n[i] = opportunities(kindsof[i]) - before[i];
    }
    size_t what = knob("refuse", 0, 7);
    what = what < 4 ? 0 : what - 4; // memory half of the time
    if (n[what] == 0) {
        what = 0;
    }
    if (n[what] == 0) {
        discard("nothing is requested");
    }
    uint64_t at = knob("at", 0, 1u << 20) % n[what];
    size_t run = knob("more", 0, 3); // requests after it are refused as well
    fault_at(kindsof[what], at, (uint32_t)knob("param", 0, 3));
    if (run == 3) {
        fault_clear();
        static const uint32_t p[] = {1000000, 300000, 30000, 3000};
        fault_rate(kindsof[what], p[knob("rate", 0, 3)]);
    }
    log("kind %zu: refuse %s number %llu of %llu", kind, fault_names[kindsof[what]],
        (unsigned long long)at, (unsigned long long)n[what]);
    auto h1 = holdings();
    bool threw = false;
    uint64_t f0 = fired(kindsof[what]);
    {
        Armed a;
        try {
            t->perform(tried);
        } catch (const std::bad_alloc&) {
            threw = true;
            log("std::bad_alloc");
        } catch (const std::exception& e) {
            threw = true;
            log("error: %.120s", e.what());
        }
    }
    fault_clear();
    bool hit = fired(kindsof[what]) != f0;
    SIM_CHECK(hit || !threw, "spurious-error", "an error although nothing was refused");
    {
        Quiet q;
        t->tidy();
    }
    if (threw) {
        std::vector<double>().swap(tried.v);
        probe("raised an error");
    } else {
        same_report(clean, tried, "silent-failure", hit ? "no error was raised" : "not refused");
        std::vector<double>().swap(tried.v);
        check_released(h1, holdings(), "afterwards");
        probe("got by");
    }
    if (hit) {
        nontrivial();
    }
    {
        Quiet q;
        t->inputs(in1);
        same_report(in0, in1, "input-damaged", "what existed before");
    }
    {
        Armed a;
        t->perform(again);
    }
    {
        Quiet q;
        t->tidy();
    }
    same_report(clean, again, "unusable-after-failure", "once there is memory again");
    std::vector<double>().swap(again.v);
    std::vector<double>().swap(in1.v);
    // A pool may have kept the error of a crashed thread until now.
    check_released(h1, holdings(), "after an attempt and another", true);
    Quiet q;
    t->inputs(in2);
    same_report(in0, in2, "input-damaged", "what existed before");
}
} // namespace svsx
