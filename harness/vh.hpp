// Common part of every monitored workload: command line, random numbers, oracles, event counters, evidence, and the
// tracking of heap memory (leaks, mismatched release, injected allocation failures).
//
// A binary runs cases [start, start+count) of one property. A case is determined by (property, seed, case number) only,
// so every failure can be replayed by running that one case again with --verbose.
#pragma once
#include <unistd.h>

#include <array>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <new>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
#define VH_ASAN 1
#include <sanitizer/asan_interface.h>
#else
#define VH_ASAN 0
#endif

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
}

namespace vh {

// ------------------------------------------------------------------------------------------------ command line / state
inline std::string prop;         // the property being decided
inline uint64_t seed = 1;
inline bool verbose = false;     // print every step
inline uint64_t cur_case = 0;
inline const char* cur_script = nullptr;

// ------------------------------------------------------------------------------------------------ random numbers
inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

struct Rng
{
    uint64_t s{0};
    explicit Rng(uint64_t x = 0) : s(x) {}
    uint64_t next() { return mix64(s++ * 0xd1342543de82ef95ULL + 0x2545F4914F6CDD1DULL); }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }  // inclusive
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
    template <typename T>
    auto pick(std::initializer_list<T> l) -> T {
        return *(l.begin() + below(l.size()));
    }
    template <typename C>
    auto& of(C& c) {
        return c[below(c.size())];
    }
};

inline Rng rng;
inline auto R(uint64_t n) -> uint64_t { return rng.below(n); }
inline auto RR(uint64_t lo, uint64_t hi) -> uint64_t { return rng.range(lo, hi); }
inline auto P(uint64_t num, uint64_t den = 100) -> bool { return rng.chance(num, den); }

// ------------------------------------------------------------------------------------------------ heap tracking
enum class Kind : uint8_t { None = 0, Malloc, New, NewArr };

struct Heap
{
    struct Rec
    {
        void* p{nullptr};
        size_t n{0};
        uint64_t seq{0};
        Kind k{Kind::None};
        bool used{false};
        bool dead{false};
    };
    std::array<Rec, 1 << 17> tab{};
    std::array<uint32_t, 1 << 17> dirty{};
    uint64_t live{0};
    uint64_t slots{0};
    uint64_t seq{0};
};
inline Heap heap;
inline thread_local int track = 0;     // > 0: allocations are recorded and may be made to fail
inline thread_local int64_t fail_in = -1;  // >= 0: that many tracked allocations succeed, the next one fails
inline thread_local bool fail_all_after = false;  // every later one fails too
inline thread_local uint64_t allocs = 0;   // tracked allocations so far
inline thread_local uint64_t alloc_bytes = 0;
inline thread_local uint64_t injected = 0;  // failures injected so far
inline size_t alloc_limit = size_t(1) << 31;  // larger requests always fail (a bounded machine)

struct NoTrack
{
    int old;
    NoTrack() : old(track) { track = 0; }
    ~NoTrack() { track = old; }
    NoTrack(const NoTrack&) = delete;
};
struct Track
{
    int old;
    Track() : old(track) { track = 1; }
    ~Track() { track = old; }
    Track(const Track&) = delete;
};

// ------------------------------------------------------------------------------------------------ log and failures
inline std::string* capture = nullptr;  // the log of a sample case

__attribute__((format(printf, 1, 2), noinline, cold)) inline void logf(const char* f, ...) {
    if (!verbose && capture == nullptr) {
        return;
    }
    NoTrack nt;
    char buf[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (verbose) {
        fputs(buf, stdout);
        fputc('\n', stdout);
        fflush(stdout);
    }
    if (capture != nullptr && capture->size() < 600) {
        *capture += buf;
        *capture += "; ";
    }
}
#define LOG(...)                                                 \
    do {                                                         \
        if (vh::verbose || vh::capture) [[unlikely]] {           \
            vh::logf(__VA_ARGS__);                               \
        }                                                        \
    } while (0)

void write_stats(bool partial);

[[noreturn]] __attribute__((format(printf, 2, 3), noinline, cold)) inline void fail(const char* key, const char* f, ...) {
    track = 0;
    fail_in = -1;
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    for (char* c = buf; *c != 0; ++c) {
        if (*c == '\n') {
            *c = ' ';
        }
    }
    printf("\nFAIL key=%s case=%llu msg=%s\n", key, (unsigned long long)cur_case, buf);
    fflush(stdout);
    write_stats(true);
    _exit(97);
}
// trouble in the workload itself (never a verdict on the code under test)
[[noreturn]] inline void harness_error(const char* what) {
    printf("\nHARNESS-ERROR %s case=%llu\n", what, (unsigned long long)cur_case);
    fflush(stdout);
    _exit(96);
}

// an oracle belongs to the properties named in tags ("*" = all)
inline bool active(const char* tags) { return tags[0] == '*' || strstr(tags, prop.c_str()) != nullptr; }
inline uint64_t oracle_checks = 0;
#define ORACLE(tags, key, cond, ...)                             \
    do {                                                         \
        ++vh::oracle_checks;                                     \
        if (!(cond)) [[unlikely]] {                              \
            if (vh::active(tags)) {                              \
                vh::fail(key, __VA_ARGS__);                      \
            }                                                    \
            vh::count_event("ignored-oracle-of-other-property"); \
        }                                                        \
    } while (0)

// ------------------------------------------------------------------------------------------------ evidence
struct Counter
{
    const char* name;
    uint64_t n{0};
    Counter* next{nullptr};
    static inline Counter* head = nullptr;
    explicit Counter(const char* nm) : name(nm) {
        next = head;
        head = this;
    }
};
inline auto counter(const char* name) -> Counter& {
    for (Counter* c = Counter::head; c != nullptr; c = c->next) {
        if (strcmp(c->name, name) == 0) {
            return *c;
        }
    }
    NoTrack nt;
    return *new Counter(name);
}
inline void count_event(const char* name, uint64_t n = 1) { counter(name).n += n; }
#define EVENT_N(nm, k)                                 \
    do {                                               \
        static vh::Counter& c_ = vh::counter(nm);      \
        c_.n += (k);                                   \
    } while (0)
#define EVENT(nm) EVENT_N(nm, 1)

// state coverage: distinct abstract states / transitions the monitors saw
struct HashSet
{
    std::vector<uint64_t> t;
    size_t n{0};
    bool insert(uint64_t h) {
        if (h == 0) {
            h = 1;
        }
        if (t.empty() || n * 2 >= t.size()) {
            NoTrack nt;
            std::vector<uint64_t> o(t.empty() ? 1024 : t.size() * 2, 0);
            o.swap(t);
            n = 0;
            for (uint64_t x : o) {
                if (x != 0) {
                    insert(x);
                }
            }
        }
        size_t i = mix64(h) & (t.size() - 1);
        while (t[i] != 0) {
            if (t[i] == h) {
                return false;
            }
            i = (i + 1) & (t.size() - 1);
        }
        t[i] = h;
        ++n;
        return true;
    }
};
inline HashSet states;      // distinct abstract (operation, state) pairs
inline HashSet nontrivial;  // distinct non-trivial cases
inline uint64_t case_hash = 0;
inline uint64_t case_weight = 0;  // how many relevant steps the case has had
inline void step(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
    case_hash = mix64(case_hash ^ mix64(a + 0x51 * mix64(b + 0x37 * mix64(c))));
    ++case_weight;
}
inline void state(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0) {
    states.insert(mix64(a + 0x9E37 * mix64(b + 0x85EB * mix64(c + 0xC2B2 * mix64(d + 0x27D4 * mix64(e + 7))))));
}
// log2-like size class: exact for small values
inline uint64_t cls(uint64_t n) { return n < 8 ? n : 8 + (63 - __builtin_clzll(n)) * 4 + ((n >> (61 - __builtin_clzll(n))) & 3); }

inline uint64_t evaluations = 0;
inline std::vector<std::string> samples;
inline std::string stats_path;

inline void json_escape(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            fprintf(f, "\\%c", c);
        } else if (c < 32 || c > 126) {
            fprintf(f, "\\u%04x", c);
        } else {
            fputc(c, f);
        }
    }
    fputc('"', f);
}
inline void write_stats(bool) {
    if (stats_path.empty()) {
        return;
    }
    FILE* f = fopen(stats_path.c_str(), "w");
    if (f == nullptr) {
        return;
    }
    fprintf(f, "{\"evaluations\":%llu,\"oracle_checks\":%llu,\"heap_allocations\":%llu,\"injected_failures\":%llu,\"events\":{",
            (unsigned long long)evaluations, (unsigned long long)oracle_checks, (unsigned long long)allocs,
            (unsigned long long)injected);
    bool first = true;
    for (Counter* c = Counter::head; c != nullptr; c = c->next) {
        if (c->n == 0) {
            continue;
        }
        if (!first) {
            fputc(',', f);
        }
        first = false;
        json_escape(f, c->name);
        fprintf(f, ":%llu", (unsigned long long)c->n);
    }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) {
        if (i != 0) {
            fputc(',', f);
        }
        json_escape(f, samples[i]);
    }
    fprintf(f, "]}");
    fclose(f);
    f = fopen((stats_path + ".hash").c_str(), "wb");
    if (f != nullptr) {
        uint64_t k = nontrivial.n;
        fwrite(&k, 8, 1, f);
        for (uint64_t x : nontrivial.t) {
            if (x != 0) {
                fwrite(&x, 8, 1, f);
            }
        }
        for (uint64_t x : states.t) {
            if (x != 0) {
                fwrite(&x, 8, 1, f);
            }
        }
        fclose(f);
    }
}

// ------------------------------------------------------------------------------------------------ heap tracking impl
#ifndef VH_NO_TRACK
inline auto heap_find(void* p) -> Heap::Rec* {
    size_t m = heap.tab.size() - 1;
    size_t i = mix64(reinterpret_cast<uint64_t>(p)) & m;
    while (heap.tab[i].used) {
        if (heap.tab[i].p == p && !heap.tab[i].dead) {
            return &heap.tab[i];
        }
        i = (i + 1) & m;
    }
    return nullptr;
}
inline void heap_reset() {
    for (uint64_t i = 0; i < heap.slots; ++i) {
        heap.tab[heap.dirty[i]] = Heap::Rec{};
    }
    heap.live = heap.slots = heap.seq = 0;
}
inline void heap_add(void* p, size_t n, Kind k) {
    size_t m = heap.tab.size() - 1;
    if (heap.slots * 4 > heap.tab.size() * 3) {
        harness_error("heap table full");
    }
    size_t i = mix64(reinterpret_cast<uint64_t>(p)) & m;
    while (heap.tab[i].used && !heap.tab[i].dead) {
        i = (i + 1) & m;
    }
    if (!heap.tab[i].used) {
        heap.dirty[heap.slots++] = uint32_t(i);
    }
    heap.tab[i] = {p, n, heap.seq++, k, true, false};
    ++heap.live;
}
inline bool should_fail(size_t n) {
    if (n > alloc_limit) {
        return true;
    }
    if (track == 0) {
        return false;
    }
    if (fail_in >= 0) {
        if (fail_in == 0) {
            ++injected;
            if (!fail_all_after) {
                fail_in = -1;
            }
            return true;
        }
        --fail_in;
    }
    return false;
}
inline auto do_alloc(size_t n, Kind k, size_t align = 0) -> void* {
    if (should_fail(n)) {
        return nullptr;
    }
    void* p = nullptr;
    if (align > 16) {
        if (__real_posix_memalign(&p, align, n) != 0) {
            p = nullptr;
        }
    } else {
        p = __real_malloc(n);
    }
    if (p != nullptr && track > 0) {
        ++allocs;
        alloc_bytes += n;
        heap_add(p, n, k);
    }
    return p;
}
inline void do_free(void* p, Kind k) {
    if (p == nullptr) {
        return;
    }
    if (heap.live != 0) {
        if (auto* r = heap_find(p); r != nullptr) {
            if (r->k != k) {
                fail("mismatched-release", "memory of kind %d (1 malloc, 2 new, 3 new[]) released as kind %d", int(r->k),
                     int(k));
            }
            r->dead = true;
            --heap.live;
        }
    }
    __real_free(p);
}
#endif

struct Script
{
    const char* key;
    void (*fn)();
};

// supplied by each workload
extern void run_case();
extern std::vector<Script> scripts();
extern void finish();

inline uint64_t str_hash(const std::string& s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ULL;
    }
    return h;
}

inline int main_impl(int argc, char** argv) {
    uint64_t start = 0;
    uint64_t count = 1;
    uint64_t want_samples = 0;
    std::string progress;
    std::string script;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") {
            prop = val();
        } else if (a == "--seed") {
            seed = strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--start") {
            start = strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--count") {
            count = strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--stats") {
            stats_path = val();
        } else if (a == "--progress") {
            progress = val();
        } else if (a == "--samples") {
            want_samples = strtoull(val().c_str(), nullptr, 10);
        } else if (a == "--verbose") {
            verbose = true;
        } else if (a == "--script") {
            script = val();
        } else if (a == "--list-scripts") {
            for (auto& s : scripts()) {
                printf("%s\n", s.key);
            }
            return 0;
        }
    }
    if (!script.empty()) {
        for (auto& s : scripts()) {
            if (script == s.key) {
                cur_script = s.key;
                prop = script.substr(0, script.find('/'));
                s.fn();
                finish();
                printf("OK\n");
                return 0;
            }
        }
        harness_error("no such script");
    }
    FILE* pf = progress.empty() ? nullptr : fopen(progress.c_str(), "w");
    uint64_t base = mix64(str_hash(prop) ^ mix64(seed));
    for (uint64_t i = start; i < start + count; ++i) {
        cur_case = i;
        if (pf != nullptr) {
            rewind(pf);
            fprintf(pf, "%020llu\n", (unsigned long long)i);
            fflush(pf);
        }
        rng = Rng(mix64(base ^ mix64(i * 2 + 1)));
        case_hash = 0;
        case_weight = 0;
        std::string sample;
        if (samples.size() < want_samples) {
            capture = &sample;
        }
#ifndef VH_NO_TRACK
        heap_reset();
#endif
        run_case();
        track = 0;
        fail_in = -1;
        fail_all_after = false;
#ifndef VH_NO_TRACK
        if (heap.live != 0) {
            for (auto& r : heap.tab) {
                if (r.used && !r.dead) {
                    if (verbose) {
                        printf("not released: %zu bytes, allocation no %llu kind %d\n", r.n, (unsigned long long)r.seq,
                               int(r.k));
                    }
                }
            }
            fail("leak", "%llu allocations were never released", (unsigned long long)heap.live);
        }
#endif
        capture = nullptr;
        ++evaluations;
        if (case_weight > 1) {
            nontrivial.insert(case_hash);
        }
        if (!sample.empty()) {
            samples.push_back("case " + std::to_string(i) + ": " + sample);
        }
    }
    finish();
    write_stats(false);
    printf("OK\n");
    fflush(stdout);
    return 0;
}
}  // namespace vh

#ifndef VH_NO_TRACK
extern "C" {
void* __wrap_malloc(size_t n) { return vh::do_alloc(n, vh::Kind::Malloc); }
void* __wrap_calloc(size_t a, size_t b) {
    if (vh::should_fail(b != 0 && a > SIZE_MAX / b ? SIZE_MAX : a * b)) {
        return nullptr;
    }
    void* p = __real_calloc(a, b);
    if (p != nullptr && vh::track > 0) {
        ++vh::allocs;
        vh::heap_add(p, a * b, vh::Kind::Malloc);
    }
    return p;
}
void* __wrap_realloc(void* q, size_t n) {
    if (vh::should_fail(n)) {
        return nullptr;
    }
    if (q != nullptr && vh::heap.live != 0) {
        if (auto* r = vh::heap_find(q); r != nullptr) {
            if (r->k != vh::Kind::Malloc) {
                vh::fail("mismatched-release", "realloc of memory from new");
            }
            r->dead = true;
            --vh::heap.live;
        }
    }
    void* p = __real_realloc(q, n);
    if (p != nullptr && vh::track > 0) {
        ++vh::allocs;
        vh::heap_add(p, n, vh::Kind::Malloc);
    }
    return p;
}
void __wrap_free(void* p) { vh::do_free(p, vh::Kind::Malloc); }
void* __wrap_aligned_alloc(size_t al, size_t n) {
    if (vh::should_fail(n)) {
        return nullptr;
    }
    void* p = __real_aligned_alloc(al, n);
    if (p != nullptr && vh::track > 0) {
        ++vh::allocs;
        vh::alloc_bytes += n;
        vh::heap_add(p, n, vh::Kind::Malloc);
    }
    return p;
}
int __wrap_posix_memalign(void** out, size_t al, size_t n) {
    if (vh::should_fail(n)) {
        return 12;  // ENOMEM
    }
    int rc = __real_posix_memalign(out, al, n);
    if (rc == 0 && *out != nullptr && vh::track > 0) {
        ++vh::allocs;
        vh::alloc_bytes += n;
        vh::heap_add(*out, n, vh::Kind::Malloc);
    }
    return rc;
}
}
inline auto vh_new(size_t n, vh::Kind k, size_t al = 0) -> void* {
    void* p = vh::do_alloc(n == 0 ? 1 : n, k, al);
    if (p == nullptr) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new(size_t n) { return vh_new(n, vh::Kind::New); }
void* operator new[](size_t n) { return vh_new(n, vh::Kind::NewArr); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vh::do_alloc(n == 0 ? 1 : n, vh::Kind::New); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vh::do_alloc(n == 0 ? 1 : n, vh::Kind::NewArr); }
void* operator new(size_t n, std::align_val_t a) { return vh_new(n, vh::Kind::New, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return vh_new(n, vh::Kind::NewArr, size_t(a)); }
void operator delete(void* p) noexcept { vh::do_free(p, vh::Kind::New); }
void operator delete[](void* p) noexcept { vh::do_free(p, vh::Kind::NewArr); }
void operator delete(void* p, size_t) noexcept { vh::do_free(p, vh::Kind::New); }
void operator delete[](void* p, size_t) noexcept { vh::do_free(p, vh::Kind::NewArr); }
void operator delete(void* p, std::align_val_t) noexcept { vh::do_free(p, vh::Kind::New); }
void operator delete[](void* p, std::align_val_t) noexcept { vh::do_free(p, vh::Kind::NewArr); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vh::do_free(p, vh::Kind::New); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vh::do_free(p, vh::Kind::NewArr); }
#endif

int main(int argc, char** argv) { return vh::main_impl(argc, argv); }
