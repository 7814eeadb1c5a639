// M03: the rendered report against the counters it renders, in random, boundary and initial states.
#include "vh.hpp"

#include <map>
#include <sstream>

#include "arena/metrics.hpp"

using namespace stdb::memory;
using vh::P;
using vh::R;

namespace {
std::vector<std::string> lines_of(const std::string& s) {
    std::vector<std::string> l;
    std::istringstream is(s);
    std::string x;
    while (std::getline(is, x)) {
        l.push_back(x);
    }
    return l;
}

// the value after "name:" in the part of the report before the distributions
bool value_of(const std::vector<std::string>& l, size_t end, const std::string& name, uint64_t& out, int& times) {
    times = 0;
    for (size_t i = 0; i < end; ++i) {
        size_t b = l[i].find_first_not_of(" \t");
        if (b == std::string::npos || l[i].compare(b, name.size() + 1, name + ":") != 0) {
            continue;
        }
        ++times;
        out = strtoull(l[i].c_str() + b + name.size() + 1, nullptr, 10);
    }
    return times == 1;
}

uint64_t num(uint64_t bits) { return bits == 0 ? 0 : vh::rng.next() >> (64 - bits); }

void check_report(const GlobalArenaMetrics& g, const std::map<std::string, uint64_t>& loc) {
    std::string text = g.string();
    EVENT("report-rendered");
    auto l = lines_of(text);
    size_t a = l.size();
    size_t b = l.size();
    size_t c = l.size();
    for (size_t i = 0; i < l.size(); ++i) {
        if (l[i].find("AllocSize distribution") != std::string::npos && a == l.size()) {
            a = i;
        } else if (l[i].find("Lifetime distribution") != std::string::npos && b == l.size()) {
            b = i;
        } else if (l[i].find("Location") != std::string::npos && c == l.size()) {
            c = i;
        }
    }
    ORACLE("M03", "M03/sections", a < b && b < c && c < l.size(), "the report lacks a section: %s", text.c_str());
    std::pair<const char*, uint64_t> vals[] = {{"init_count", g.init_count.load()},           {"reset_count", g.reset_count.load()},
                                               {"destruct_count", g.destruct_count.load()},   {"alloc_count", g.alloc_count.load()},
                                               {"newblock_count", g.newblock_count.load()},   {"space_allocated", g.space_allocated.load()},
                                               {"space_used", g.space_used.load()},           {"space_wasted", g.space_wasted.load()},
                                               {"space_resettled", g.space_resettled.load()}};
    for (auto& [name, v] : vals) {
        uint64_t got = 0;
        int times = 0;
        ORACLE("M03", "M03/counter-line", value_of(l, a, name, got, times), "%s is shown %d times", name, times);
        ORACLE("M03", "M03/counter-value", got == v, "%s is shown as %llu, is %llu", name, (unsigned long long)got, (unsigned long long)v);
    }
    static const uint64_t lim1[8] = {64, 128, 256, 512, 1024, 2048, 4096, 1 << 20};
    static const uint64_t lim2[8] = {1, 5, 10, 50, 100, 200, 500, 1000};
    for (int part = 0; part < 2; ++part) {
        size_t from = part == 0 ? a : b;
        size_t to = part == 0 ? b : c;
        uint64_t total = part == 0 ? g.alloc_count.load() : g.destruct_count.load();
        ORACLE("M03", "M03/bucket-lines", to - from == 9, "%zu bucket lines", to - from - 1);
        uint64_t cum = 0;
        for (size_t i = 0; i < 8; ++i) {
            cum += part == 0 ? g.alloc_size_bucket_counter.at(i).load() : g.destruct_lifetime_bucket_counter.at(i).load();
            unsigned long long le = 0;
            unsigned long long pc = 0;
            int k = part == 0 ? sscanf(l[from + 1 + i].c_str(), " le=%llu: %llu", &le, &pc) : sscanf(l[from + 1 + i].c_str(), " le=%llums: %llu", &le, &pc);
            ORACLE("M03", "M03/bucket-line", k == 2 && le == (part == 0 ? lim1[i] : lim2[i]), "bucket line %zu reads '%s'", i, l[from + 1 + i].c_str());
            if (total != 0) {
                ORACLE("M03", "M03/share", pc == cum * 100 / total, "bucket %zu of part %d shows %llu, the cumulative share is %llu of %llu", i, part, pc,
                       (unsigned long long)cum, (unsigned long long)total);
                EVENT("share-compared");
            }
            vh::state(1, uint64_t(part), i, pc);
        }
    }
    std::map<std::string, uint64_t> seen;
    for (size_t i = c + 1; i < l.size(); ++i) {
        size_t p = l[i].rfind(": ");
        size_t q = l[i].find_first_not_of(' ');
        ORACLE("M03", "M03/location-line", p != std::string::npos && q < p, "location line reads '%s'", l[i].c_str());
        std::string key = l[i].substr(q, p - q);
        ORACLE("M03", "M03/location-twice", seen.emplace(key, strtoull(l[i].c_str() + p + 2, nullptr, 10)).second, "location %s is shown twice", key.c_str());
    }
    for (auto& [k, v] : loc) {
        auto it = seen.find(k);
        ORACLE("M03", "M03/location", it != seen.end() && it->second == v, "location %s: %llu bytes, shown %s", k.c_str(), (unsigned long long)v,
               it == seen.end() ? "nothing" : std::to_string(it->second).c_str());
        EVENT("location-compared");
    }
    ORACLE("M03", "M03/location-count", seen.size() == loc.size(), "%zu locations are shown, there are %zu", seen.size(), loc.size());
}
}  // namespace

void vh::run_case() {
    NoTrack nt;
    uint64_t kind = R(10);
    if (kind == 0) {
        // the initial state
        GlobalArenaMetrics g;
        LOG("initial state");
        step(0);
        check_report(g, {});
        g.reset();
        check_report(g, {});
        return;
    }
    GlobalArenaMetrics local;
    bool process_wide = P(1, 3);
    auto& g = process_wide ? global_arena_metrics : local;
    if (process_wide) {
        g.reset();
        const std::lock_guard<std::mutex> lock(g.arena_alloc_mutex);
        g.arena_alloc_counter.clear();
    }
    std::map<std::string, uint64_t> loc;
    uint64_t rounds = 1 + R(3);
    for (uint64_t q = 0; q < rounds; ++q) {
        uint64_t bits = R(50);
        if (process_wide && P(1, 2)) {
            // through the thread's counters
            auto& l = local_arena_metrics;
            l.reset();
            uint64_t n = R(40);
            for (uint64_t i = 0; i < n; ++i) {
                uint64_t sz = rng.pick<uint64_t>({0, 1, 63, 64, 65, 128, 129, 256, 512, 1000, 1024, 2048, 4096, 4097, 1 << 20, (1 << 20) + 1, R(5000)});
                ArenaMetricsCookie ck(std::chrono::steady_clock::now(), boost::source_location("/src/x.cc", uint32_t(R(5)), "f"));
                metrics_probe_on_arena_allocation(nullptr, sz, &ck);
                loc["/src/x.cc:" + std::to_string(ck.init_location.line())] += sz;
            }
            l.destruct_count = R(20);
            uint64_t left = l.destruct_count;
            for (auto& b : l.destruct_lifetime_bucket_counter) {
                uint64_t v = R(left + 1);
                b = v;
                left -= v;
            }
            l.report_to_global_metrics();
        } else {
            std::atomic<uint64_t>* f[] = {&g.init_count, &g.reset_count, &g.newblock_count, &g.space_allocated, &g.space_used, &g.space_wasted, &g.space_resettled};
            for (auto* p : f) {
                *p = P(1, 5) ? 0 : num(P(1, 10) ? 64 : R(64));
            }
            uint64_t tot = P(1, 5) ? 0 : num(bits);
            g.alloc_count = tot;
            uint64_t left = tot;
            for (auto& b : g.alloc_size_bucket_counter) {
                uint64_t v = P(1, 3) ? left : P(1, 3) ? 0 : R(left + 1);
                b = v;
                left -= v;
            }
            tot = P(1, 5) ? 0 : num(bits);
            g.destruct_count = tot;
            left = tot;
            for (auto& b : g.destruct_lifetime_bucket_counter) {
                uint64_t v = P(1, 3) ? left : P(1, 3) ? 0 : R(left + 1);
                b = v;
                left -= v;
            }
            uint64_t n = R(6);
            for (uint64_t i = 0; i < n; ++i) {
                std::string k = std::string(rng.pick<const char*>({"/a/b.cc", "c.hpp", "/x y/z.cpp", "", "/{}/a.cc", "/{x}/%s%n.cc", "}{", "{0}", "\\n", "/\xc3\xa9/a.cc"})) + ":" + std::to_string(R(2000));
                uint64_t v = P(1, 6) ? 0 : num(R(60));
                g.arena_alloc_counter[k] += v;
                loc[k] += v;
            }
        }
        step(kind, cls(g.alloc_count.load()), cls(g.destruct_count.load()));
        LOG("alloc_count %llu destruct_count %llu, %zu locations", (unsigned long long)g.alloc_count.load(), (unsigned long long)g.destruct_count.load(), loc.size());
        check_report(g, loc);
    }
    if (P(1, 3)) {
        g.reset();
        for (auto& [k, v] : loc) {
            v = 0;
        }
        check_report(g, loc);
        EVENT("report-after-reset");
    }
}
auto vh::scripts() -> std::vector<Script> { return {}; }
void vh::finish() {}
