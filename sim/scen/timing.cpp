// Nested timers under a clock that stalls, is coarse, and whose wall time jumps.
#include "svsx.h"
#include "svs/lib/timing.h"
#include <map>
#include <thread>

using namespace svsx;
namespace lib = svs::lib;
using ns = std::chrono::nanoseconds;

namespace {
// What is known about one label: durations lie between what was seen inside and outside.
struct Node {
    uint64_t calls = 0;
    int64_t low = 0, high = 0; // of the total
    int64_t min_low = INT64_MAX, min_high = INT64_MAX, max_low = INT64_MIN, max_high = INT64_MIN;
    std::map<std::string, Node> sub;
    bool open = false;
    void add(int64_t l, int64_t h) {
        calls++;
        low += l;
        high += h;
        min_low = std::min(min_low, l);
        min_high = std::min(min_high, h);
        max_low = std::max(max_low, l);
        max_high = std::max(max_high, h);
    }
};
int64_t read_clock() {
    Quiet q;
    return lib::now().time_since_epoch().count();
}
struct Out {
    size_t levels;
};
struct Driver {
    Rng r;
    lib::Timer& t;
    size_t budget;
    uint64_t step;
    std::vector<std::string> names;

    void pass_time() {
        for (size_t i = r.below(4); i-- > 0;) {
            yield();
        }
        if (r.chance(30)) {
            (void)lib::now(); // where the clock may stall
        }
    }
    void sections(Node& n, size_t depth) {
        while (budget > 0) {
            switch (r.below(depth == 0 ? 4 : 6)) {
                case 0: pass_time(); break;
                case 1:
                case 2:
                case 3: section(n, depth); break;
                case 4: return;
                default:
                    if (r.chance(25)) {
                        throw Out{r.below(depth + 1)};
                    }
                    return;
            }
        }
    }
    void section(Node& n, size_t depth) {
        budget--;
        auto& name = names[r.below(names.size())];
        auto& child = n.sub[name];
        bool early = r.chance(40), twice = r.chance(20), go_on = r.chance(50);
        int64_t a = read_clock(), b = 0, c = 0, d = 0;
        bool counted = false;
        try {
            auto section = t.push_back(name);
            b = read_clock();
            try {
                if (depth < 4) {
                    sections(child, depth + 1);
                } else {
                    pass_time();
                }
            } catch (...) {
                c = read_clock();
                throw;
            }
            c = read_clock();
            auto e = section.elapsed();
            SIM_CHECK(e.count() >= std::max<int64_t>(0, c - b), "elapsed",
                      "%lld ns elapsed, at least %lld ns have passed", (long long)e.count(),
                      (long long)(c - b));
            c = read_clock();
            if (early) {
                auto f = section.finish();
                d = read_clock();
                SIM_CHECK(f.count() >= c - b && f.count() <= d - a, "elapsed",
                          "finishing says %lld ns, between %lld and %lld ns have passed",
                          (long long)f.count(), (long long)(c - b), (long long)(d - a));
                // This is the duration that counts, whatever happens later.
                child.add(f.count(), f.count());
                counted = true;
                pass_time();
                if (twice) {
                    (void)section.finish();
                }
                if (go_on && budget > 0) {
                    // The section above is the current one again.
                    Driver::section(n, depth);
                }
            }
        } catch (Out& o) {
            d = read_clock();
            if (!counted) {
                child.add(c - b, d - a);
            }
            probe("left_by_exception");
            if (o.levels > 0) {
                throw Out{o.levels - 1};
            }
            return;
        }
        d = read_clock();
        if (!counted) {
            child.add(c - b, d - a);
        }
    }
};
void compare(const Node& n, const lib::Timer& t, const std::string& path) {
    auto subs = t.subtimers();
    SIM_CHECK(subs.size() == n.sub.size(), "labels", "%s: %zu labels, %zu were used", path.c_str(),
              subs.size(), n.sub.size());
    int64_t sum = 0, last = INT64_MAX;
    for (auto& s : subs) {
        SIM_CHECK(n.sub.count(s.first) == 1, "labels", "%s: label %s was not used here",
                  path.c_str(), s.first.c_str());
        int64_t x = s.second->get_time().count();
        SIM_CHECK(x <= last, "order", "%s: not in order of time", path.c_str());
        last = x;
        sum += x;
    }
    SIM_CHECK(t.total_sub_time().count() == sum, "total", "%s: %lld ns in all, the parts add up to %lld",
              path.c_str(), (long long)t.total_sub_time().count(), (long long)sum);
    for (auto& [name, c] : n.sub) {
        auto& s = t.get_timer(name);
        auto p = path + "/" + name;
        SIM_CHECK(s.get_num_calls() == c.calls, "calls", "%s: %llu calls counted, %llu made", p.c_str(),
                  (unsigned long long)s.get_num_calls(), (unsigned long long)c.calls);
        int64_t x = s.get_time().count();
        SIM_CHECK(x >= c.low && x <= c.high, "time", "%s: %lld ns, between %lld and %lld ns have passed",
                  p.c_str(), (long long)x, (long long)c.low, (long long)c.high);
        compare(c, s, p);
    }
}
double seconds(const std::string& v, const std::string& u) {
    double f = u == "ns" ? 1e-9 : u == "us" ? 1e-6 : u == "ms" ? 1e-3 : u == "s" ? 1.0 : NAN;
    return atof(v.c_str()) * f;
}
bool within(double x, int64_t low, int64_t high) {
    return x >= (double)low * 1e-9 * 0.999 - 2e-9 && x <= (double)high * 1e-9 * 1.001 + 2e-9;
}
// The table: every label once, below its parent, with its values.
void read_table(const Node& n, std::istringstream& in, size_t indent, const std::string& path) {
    std::map<std::string, bool> seen;
    for (size_t i = 0; i < n.sub.size(); ++i) {
        std::string line;
        SIM_CHECK((bool)std::getline(in, line), "table", "%s: ends early", path.c_str());
        size_t sp = line.find_first_not_of(' ');
        std::istringstream f(line);
        std::string name, calls, tv, tu, share, av, au, mv, mu, xv, xu;
        f >> name >> calls >> tv >> tu >> share >> av >> au >> mv >> mu >> xv >> xu;
        SIM_CHECK(sp == indent && n.sub.count(name) && !seen[name], "table", "%s: line %s",
                  path.c_str(), line.c_str());
        seen[name] = true;
        auto& c = n.sub.at(name);
        SIM_CHECK(strtoull(calls.c_str(), nullptr, 10) == c.calls, "table",
                  "%s/%s: %llu calls, the table says %s", path.c_str(), name.c_str(),
                  (unsigned long long)c.calls, line.c_str());
        SIM_CHECK(within(seconds(tv, tu), c.low, c.high), "table", "%s/%s: total %lld to %lld: %s",
                  path.c_str(), name.c_str(), (long long)c.low, (long long)c.high, line.c_str());
        SIM_CHECK(within(seconds(av, au), c.low / (int64_t)c.calls, c.high / (int64_t)c.calls), "table",
                  "%s/%s: average of %lld to %lld: %s", path.c_str(), name.c_str(), (long long)c.low,
                  (long long)c.high, line.c_str());
        SIM_CHECK(within(seconds(mv, mu), c.min_low, c.min_high), "table",
                  "%s/%s: least %lld to %lld: %s", path.c_str(), name.c_str(), (long long)c.min_low,
                  (long long)c.min_high, line.c_str());
        SIM_CHECK(within(seconds(xv, xu), c.max_low, c.max_high), "table",
                  "%s/%s: greatest %lld to %lld: %s", path.c_str(), name.c_str(),
                  (long long)c.max_low, (long long)c.max_high, line.c_str());
        read_table(c, in, indent + 2, path + "/" + name);
    }
}
} // namespace

SCENARIO(timers) {
    static const uint32_t rate[] = {0, 2000, 100000, 500000};
    schedule_faults();
    fault_rate(F_CLOCK_STALL, rate[knob("rate_stall", 0, 3)]);
    fault_rate(F_CLOCK_JUMP, rate[knob("rate_jump", 0, 3)]);
    static const uint64_t step[] = {0, 0, 1000, 1000000};
    uint64_t st = step[knob("clock_step", 0, 3)];
    clock_step(st);
    size_t threads = knob("threads", 1, 3);
    auto work = [&](size_t w) {
        Rng r("timer");
        for (size_t i = 0; i < w * 13; ++i) {
            r.next();
        }
        size_t rounds = 1 + r.below(2);
        lib::Timer t;
        for (size_t k = 0; k < rounds; ++k) {
            Node root;
            Driver d{r, t, 1 + r.below(25), st, {}};
            for (size_t i = 1 + r.below(5); i-- > 0;) {
                d.names.push_back(std::string(1 + r.below(12), (char)('a' + i)));
            }
            int64_t a = read_clock();
            while (d.budget > 0) {
                try {
                    d.sections(root, 0);
                } catch (Out&) {
                }
            }
            int64_t b = read_clock();
            r = d.r;
            auto all = t.elapsed();
            Quiet q;
            SIM_CHECK(all.count() >= b - a, "elapsed", "%lld ns since the start, %lld passed",
                      (long long)all.count(), (long long)(b - a));
            compare(root, t, "");
            std::istringstream in(t.format());
            // The share of no time at all is no number.
            if (t.total_sub_time().count() > 0) {
                std::string line;
                for (size_t i = 0; i < 4; ++i) {
                    std::getline(in, line);
                }
                read_table(root, in, 0, "");
                SIM_CHECK(std::getline(in, line) && line.find_first_not_of('-') == line.npos, "table",
                          "more lines than labels: %s", line.c_str());
            }
            t.clear();
            SIM_CHECK(t.subtimers().empty() && t.get_num_calls() == 0, "clear", "something is left");
        }
    };
    {
        Armed arm;
        std::vector<std::thread> ts;
        for (size_t w = 1; w < threads; ++w) {
            ts.emplace_back(work, w);
        }
        work(0);
        for (auto& t : ts) {
            t.join();
        }
    }
    nontrivial();
}
