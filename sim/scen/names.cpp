// Identifiers, file names, and finding files by identifier.
#include "svsx.h"
#include "svs/core/data/simple.h"
#include "svs/core/graph/graph.h"
#include "svs/core/io/native.h"
#include "svs/lib/saveload.h"
#include "svs/lib/uuid.h"
#include <filesystem>
#include <fstream>
#include <map>

using namespace svsx;
namespace fs = std::filesystem;
using svs::lib::UUID;

namespace {
void check_form(const std::string& s) {
    bool ok = s.size() == 36;
    for (size_t i = 0; ok && i < s.size(); ++i) {
        if (i == 8 || i == 13 || i == 18 || i == 23) {
            ok = s[i] == '-';
        } else {
            ok = (s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'f');
        }
    }
    SIM_CHECK(ok, "identifier-form", "\"%s\"", s.c_str());
    SIM_CHECK(s[14] == '4', "identifier-form", "version %c in \"%s\"", s[14], s.c_str());
    SIM_CHECK(s[19] == '8' || s[19] == '9' || s[19] == 'a' || s[19] == 'b', "identifier-form",
              "variant %c in \"%s\"", s[19], s.c_str());
    SIM_CHECK(UUID(std::string_view(s)).str() == s, "identifier-text",
              "\"%s\" does not survive being read", s.c_str());
}
bool rejects(const std::string& s) {
    try {
        UUID u{std::string_view(s)};
        return false;
    } catch (const svs::ANNException&) {
        return true;
    }
}

// ---- what the directory holds -----------------------------------------------------------
template <typename T> void put(std::string& b, const T& x) { b.append((const char*)&x, sizeof(T)); }
std::array<uint8_t, 16> bytes_of(Rng& r) {
    std::array<uint8_t, 16> b;
    for (auto& x : b) {
        x = (uint8_t)r.next();
    }
    return b;
}
constexpr uint64_t magic_vtest = 0xf83ad4901d434f04, magic_v1 = 0xcad4a6b2579980fe,
                   magic_database = 0x26b0644ab838c3a3;
std::string content(int kind, const UUID& id, Rng& r) {
    std::string b;
    uint64_t n = 0, d = 3;
    switch (kind) {
        case 0: // v1
            put(b, magic_v1);
            put(b, id);
            put(b, n);
            put(b, d);
            b.resize(1024);
            break;
        case 1: // vtest
            put(b, magic_vtest);
            put(b, n);
            put(b, d);
            put(b, id);
            b.resize(64);
            break;
        case 2: // database
            put(b, magic_database);
            put(b, id);
            b.resize(64);
            break;
        case 3: // cut off
            b = content((int)r.below(3), id, r);
            b.resize(r.below(40));
            break;
        case 4: // the identifier, in something else
            put(b, r.next() | 1);
            put(b, id);
            b.resize(64 + r.below(100), 'x');
            break;
        case 5: // as text
            b = id.str();
            break;
        case 6: // incomplete: the magic number is not there yet
            b = content(0, id, r);
            std::fill_n(b.begin(), 8, 0);
            break;
    }
    return b;
}
void write_file(const fs::path& p, const std::string& b) {
    std::ofstream f(p, std::ios::binary);
    f.write(b.data(), (std::streamsize)b.size());
}

struct Many {
    std::vector<Data<float>> data;
    std::vector<std::vector<uint64_t>> blobs;
    std::vector<svs::graphs::SimpleGraph<uint32_t>> graphs;
    size_t threads = 1;

    static constexpr svs::lib::Version save_version{0, 0, 0};
    static constexpr std::string_view serialization_schema = "many";
    size_t count() const { return data.size() + blobs.size() + graphs.size(); }

    svs::lib::SaveTable save(const svs::lib::SaveContext& ctx) const {
        using Node = decltype(svs::lib::save(data[0], ctx));
        std::vector<Node> nodes(count());
        auto work = [&](size_t t) {
            for (size_t i = t; i < count(); i += threads) {
                if (i < data.size()) {
                    nodes[i] = svs::lib::save(data[i], ctx);
                } else if (i < data.size() + blobs.size()) {
                    nodes[i] = svs::lib::save(
                        svs::lib::BinaryBlobSaver<uint64_t>(blobs[i - data.size()]), ctx);
                } else {
                    nodes[i] = svs::lib::save(graphs[i - data.size() - blobs.size()], ctx);
                }
            }
        };
        std::vector<std::thread> ts;
        for (size_t t = 1; t < threads; ++t) {
            ts.emplace_back(work, t);
        }
        work(0);
        for (auto& t : ts) {
            t.join();
        }
        svs::lib::SaveTable table(serialization_schema, save_version);
        table.insert("ndata", svs::lib::save(data.size()));
        table.insert("nblobs", svs::lib::save(blobs.size()));
        table.insert("ngraphs", svs::lib::save(graphs.size()));
        for (size_t i = 0; i < count(); ++i) {
            table.insert("part" + std::to_string(i), std::move(nodes[i]));
        }
        return table;
    }
    static Many load(const svs::lib::LoadTable& table) {
        Many m;
        auto nd = svs::lib::load_at<size_t>(table, "ndata");
        auto nb = svs::lib::load_at<size_t>(table, "nblobs");
        auto ng = svs::lib::load_at<size_t>(table, "ngraphs");
        for (size_t i = 0; i < nd + nb + ng; ++i) {
            auto key = "part" + std::to_string(i);
            if (i < nd) {
                m.data.push_back(svs::lib::load_at<Data<float>>(table, key));
            } else if (i < nd + nb) {
                m.blobs.push_back(
                    svs::lib::load_at<svs::lib::BinaryBlobLoader<uint64_t>>(table, key));
            } else {
                m.graphs.push_back(
                    svs::lib::load_at<svs::graphs::SimpleGraph<uint32_t>>(table, key));
            }
        }
        return m;
    }
};
bool same(const Data<float>& a, const Data<float>& b) {
    if (a.size() != b.size() || a.dimensions() != b.dimensions()) {
        return false;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        auto x = a.get_datum(i), y = b.get_datum(i);
        if (!std::equal(x.begin(), x.end(), y.begin())) {
            return false;
        }
    }
    return true;
}
} // namespace

// Identifiers from several threads.
SCENARIO(names_identifiers) {
    Rng r("names");
    const size_t nthreads = r.range(1, 4), each = r.range(1, 12);
    std::vector<std::vector<UUID>> got(nthreads);
    schedule_faults();
    if (knob("repeat", 0, 3)) {
        // At most one word comes back, so identifiers drawn from enough words stay distinct.
        fault_at(F_RANDOM_REPEAT, knob("at", 0, knob("far", 0, 1) ? 600 : 12));
    }
    {
        Armed a;
        std::vector<std::thread> ts;
        for (size_t t = 0; t < nthreads; ++t) {
            ts.emplace_back([&, t] {
                for (size_t i = 0; i < each; ++i) {
                    got[t].push_back(UUID());
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
    }
    if (fired(F_RANDOM_REPEAT)) {
        probe("a random word was repeated");
    }
    fault_clear();
    std::map<std::string, size_t> all;
    for (auto& v : got) {
        for (auto& u : v) {
            auto s = u.str();
            check_form(s);
            SIM_CHECK(all.emplace(s, 1).second, "collision", "two identifiers are %s", s.c_str());
            note_bytes(s.data(), s.size());
        }
    }
    // Any sixteen bytes survive being written and read, in either case.
    for (int i = 0; i < 4; ++i) {
        auto b = bytes_of(r);
        UUID u(b);
        auto s = u.str();
        SIM_CHECK(UUID(std::string_view(s)) == u, "identifier-text", "%s", s.c_str());
        auto up = s;
        for (auto& c : up) {
            c = (char)std::toupper(c);
        }
        SIM_CHECK(UUID(std::string_view(up)) == u, "identifier-text", "%s", up.c_str());
        auto b2 = b;
        b2[r.below(16)] ^= (uint8_t)(1 << r.below(8));
        SIM_CHECK(!(UUID(b2) == u) && UUID(b2).str() != s, "collision",
                  "different bytes, the same identifier %s", s.c_str());
        auto bad = s;
        switch (r.below(4)) {
            case 0: bad.resize(r.below(36)); break;
            case 1: bad += "0"; break;
            case 2: {
                static const size_t at[] = {8, 13, 18, 23};
                bad[at[r.below(4)]] = (char)('0' + r.below(10));
                break;
            }
            case 3: {
                size_t p;
                do {
                    p = r.below(36);
                } while (bad[p] == '-');
                bad[p] = "gG-z /:@`"[r.below(9)];
                break;
            }
        }
        SIM_CHECK(rejects(bad), "identifier-text", "\"%s\" is accepted", bad.c_str());
    }
    nontrivial();
}

// Names handed out by one context, from several threads.
SCENARIO(names_context) {
    Rng r("names");
    const size_t nthreads = r.range(1, 4), each = r.range(1, 8);
    fs::path dir = r.chance(50) ? fs::path("out") : fs::current_path() / "a b" / "out.d";
    const svs::lib::SaveContext ctx(dir);
    static const char* const prefixes[] = {"data", "graph", "data_1", "x.y", "data_"};
    static const char* const extensions[] = {"svs", "bin", "binary"};
    struct Name {
        fs::path p;
        std::string prefix, extension;
    };
    std::vector<std::vector<Name>> got(nthreads);
    bool plain = r.chance(50);
    schedule_faults();
    {
        Armed a;
        std::vector<std::thread> ts;
        for (size_t t = 0; t < nthreads; ++t) {
            ts.emplace_back([&, t, s = r.next()] {
                Rng q(s);
                for (size_t i = 0; i < each; ++i) {
                    std::string pre = plain ? "data" : prefixes[q.below(5)];
                    bool dflt = q.chance(40);
                    std::string ext = dflt ? "svs" : extensions[q.below(3)];
                    auto p = dflt ? ctx.generate_name(pre) : ctx.generate_name(pre, ext);
                    got[t].push_back({p, pre, ext});
                }
            });
        }
        for (auto& t : ts) {
            t.join();
        }
    }
    std::set<std::string> all;
    for (auto& v : got) {
        for (auto& n : v) {
            auto f = n.p.filename().string();
            SIM_CHECK(all.insert(f).second, "collision", "two files are called %s", f.c_str());
            SIM_CHECK(n.p.parent_path() == dir, "name-form", "%s is not in %s", n.p.c_str(),
                      dir.c_str());
            SIM_CHECK(f.starts_with(n.prefix) && f.ends_with("." + n.extension), "name-form",
                      "%s for %s and %s", f.c_str(), n.prefix.c_str(), n.extension.c_str());
        }
    }
    nontrivial();
}

// A directory of many files, looked at in any order.
SCENARIO(names_find) {
    Rng r("names");
    fs::create_directories("d/sub");
    struct File {
        fs::path p;
        UUID id;
        bool findable;
    };
    std::vector<File> files;
    const size_t n = r.range(1, 14);
    for (size_t i = 0; i < n; ++i) {
        UUID id(bytes_of(r));
        if (!files.empty() && r.chance(30)) {
            // Nearly another one's.
            std::array<uint8_t, 16> b;
            std::memcpy(b.data(), &files[r.below(files.size())].id, 16);
            b[r.below(16)] ^= (uint8_t)(1 << r.below(8));
            id = UUID(b);
        }
        int kind = r.chance(60) ? (int)r.below(3) : (int)r.range(3, 6);
        auto name = "f" + std::to_string(i) + (r.chance(50) ? ".svs" : ".bin");
        bool inside = r.chance(15);
        fs::path p = inside ? fs::path("d/sub") / name : fs::path("d") / name;
        bool dup = false;
        for (auto& f : files) {
            dup = dup || f.id == id;
        }
        if (dup) {
            continue;
        }
        write_file(p, content(kind, id, r));
        files.push_back({p, id, kind < 3 && !inside});
    }
    if (r.chance(30)) {
        fs::create_symlink("nowhere", "d/dangling");
    }
    // The real writer's files as well.
    UUID own(bytes_of(r));
    {
        auto w = svs::io::v1::NativeFile(fs::path("d/own.svs"))
                     .writer(svs::lib::Type<float>(), 2, own);
        w << std::vector<float>{1, 2};
        w.writeheader();
    }
    files.push_back({"d/own.svs", own, true});
    for (auto& f : files) {
        fault_rate(F_DIR_SHUFFLE, 900000);
        fault_rate(F_IO_READ_SHORT, knob("rate_short", 0, 1) ? 200000 : 0);
        fault_rate(F_IO_EINTR, knob("rate_intr", 0, 1) ? 100000 : 0);
        std::optional<fs::path> got;
        try {
            Armed a;
            got = svs::io::find_uuid("d", f.id);
        } catch (const std::exception& e) {
            sim::fail("spurious-error", "looking for %s: %.200s", f.id.str().c_str(), e.what());
        }
        fault_clear();
        if (f.findable) {
            SIM_CHECK(got.has_value(), "not-found", "%s is not found", f.p.c_str());
            SIM_CHECK(fs::equivalent(*got, f.p), "wrong-file", "%s instead of %s", got->c_str(),
                      f.p.c_str());
        } else {
            SIM_CHECK(!got.has_value(), "wrong-file", "%s has no identifier, %s is found",
                      f.p.c_str(), got->c_str());
        }
    }
    UUID absent(bytes_of(r));
    fault_rate(F_DIR_SHUFFLE, 900000);
    Armed a;
    SIM_CHECK(!svs::io::find_uuid("d", absent).has_value(), "wrong-file",
              "an identifier no file has is found");
    nontrivial();
}

// Several parts saved into one directory, from several threads, each found again.
SCENARIO(names_saved_together) {
    Rng r("names");
    Many m;
    m.threads = r.range(1, 3);
    for (size_t i = 0, n = r.range(1, 4); i < n; ++i) {
        m.data.push_back(to_data<float>(gen_points(r, r.below(4), r.range(1, 5), 1000)));
    }
    for (size_t i = 0, n = r.below(3); i < n; ++i) {
        std::vector<uint64_t> b(r.below(4));
        for (auto& x : b) {
            x = r.chance(20) ? magic_v1 : r.next();
        }
        m.blobs.push_back(b);
    }
    for (size_t i = 0, n = r.below(3); i < n; ++i) {
        svs::graphs::SimpleGraph<uint32_t> g(r.range(2, 4), 2);
        g.add_edge(0, 1);
        m.graphs.push_back(std::move(g));
    }
    // Files of an earlier save under other names.
    if (r.chance(40)) {
        fs::create_directories("there");
        for (size_t i = 0, n = r.range(1, 4); i < n; ++i) {
            write_file("there/old_" + std::to_string(i) + ".svs",
                       content((int)r.below(7), UUID(bytes_of(r)), r));
        }
    }
    schedule_faults();
    static const uint32_t rate[] = {0, 20000, 200000};
    fault_rate(F_IO_WRITE_SHORT, rate[knob("rate_wshort", 0, 2)]);
    fault_rate(F_IO_READ_SHORT, rate[knob("rate_rshort", 0, 2)]);
    fault_rate(F_IO_EINTR, rate[knob("rate_intr", 0, 2)]);
    fault_rate(F_DIR_SHUFFLE, 900000);
    if (knob("repeat", 0, 1)) {
        fault_at(F_RANDOM_REPEAT, knob("at", 0, 60));
    }
    {
        Armed a;
        svs::lib::save_to_disk(m, "there");
        auto back = svs::lib::load_from_disk<Many>("there");
        fault_clear();
        SIM_CHECK(back.data.size() == m.data.size() && back.blobs == m.blobs &&
                      back.graphs.size() == m.graphs.size(),
                  "wrong-contents", "not what was saved");
        for (size_t i = 0; i < m.data.size(); ++i) {
            SIM_CHECK(same(m.data[i], back.data[i]), "wrong-contents",
                      "data set %zu of %zu is another", i, m.data.size());
        }
        for (size_t i = 0; i < m.graphs.size(); ++i) {
            SIM_CHECK(m.graphs[i].n_nodes() == back.graphs[i].n_nodes(), "wrong-contents",
                      "graph %zu is another", i);
        }
    }
    nontrivial();
}
