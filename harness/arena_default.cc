// S10: arena strings without an arena. Release builds fall back to the default memory resource, which must get every
// byte back exactly once and in the size it handed out. (Debug builds refuse with logic_error; only release builds run this.)
#include "strops.hpp"

#include "arena/arena.hpp"
#include "string/arena_string.hpp"

using namespace stdb::memory;

namespace {
#ifndef VERIF_CHAR
#define VERIF_CHAR char
#endif
using Char = VERIF_CHAR;
using AStr = arena_basic_string<Char>;
using Std = std::basic_string<Char>;
using View = std::basic_string_view<Char>;

// the default resource: fenced memory, a record of every allocation, failures on demand
struct Resource : std::pmr::memory_resource
{
    struct B
    {
        size_t n, align;
    };
    std::map<void*, B> live;
    int64_t fail_in{-1};
    bool burst{false};
    uint64_t failures{0};
    uint64_t count{0};
    void* do_allocate(size_t n, size_t align) override {
        vh::NoTrack nt;
        ++count;
        if (n > (size_t(1) << 31)) {
            throw std::bad_alloc();
        }
        if (fail_in >= 0) {
            if (fail_in == 0) {
                ++failures;
                ++vh::injected;
                if (!burst) {
                    fail_in = -1;
                }
                throw std::bad_alloc();
            }
            --fail_in;
        }
        void* p = __real_malloc(n);
        memset(p, 0xA5, n);
        live[p] = {n, align};
        EVENT("default-resource-allocations");
        return p;
    }
    void do_deallocate(void* p, size_t n, size_t align) override {
        vh::NoTrack nt;
        auto it = live.find(p);
        ORACLE("S10", "S10/not-allocated", it != live.end(), "memory was given back that the default resource has not handed out or has back already");
        if (it == live.end()) {
            vh::harness_error("unknown memory given back");
        }
        ORACLE("S10", "S10/size", it->second.n == n && it->second.align == align, "%zu bytes aligned to %zu were given back as %zu bytes aligned to %zu", it->second.n,
               it->second.align, n, align);
        memset(p, 0x5A, it->second.n);
        live.erase(it);
        __real_free(p);
        EVENT("default-resource-deallocations");
    }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
Resource* resource = nullptr;

struct World
{
    static constexpr const char* tag_value_clamped = "S10";
    static constexpr const char* tag_ret_clamped = "S10";
    static constexpr const char* tag_search_clamped = "S10";
    static constexpr const char* tag_value = "S10";
    static constexpr const char* key_value = "S10/contents";
    static constexpr const char* tag_other = "S10";
    static constexpr const char* key_other = "S10/other-string-changed";
    static constexpr const char* tag_ret = "S10";
    static constexpr const char* key_ret = "S10/returned-value";
    static constexpr const char* tag_store = "S10";
    static constexpr const char* key_store = "S10/storage";
    static constexpr const char* tag_invalid = "S10";
    static constexpr const char* key_invalid = "S10/errors";
    static constexpr const char* tag_oom = "S10";
    static constexpr const char* key_oom = "S10/out-of-memory";
    static constexpr const char* tag_search = "S10";
    static constexpr const char* key_search = "S10/search";
    static constexpr const char* tag_io = "S10";
    static constexpr const char* key_io = "S10/io";
    static constexpr bool kStdCtor = false;
    static constexpr bool kFmtSpec = true;
    static constexpr bool kStickyShare = false;
    static constexpr size_t kPool = 6;
#ifdef NDEBUG
    static constexpr bool release = true;
#else
    static constexpr bool release = false;
#endif
    bool injecting{false};
    Resource res;
    std::pmr::memory_resource* before;
    World() : before(std::pmr::set_default_resource(&res)) { resource = &res; }
    ~World() {
        std::pmr::set_default_resource(before);
        resource = nullptr;
    }
    static bool may_be_too_long(uint64_t) { return false; }
    static int home() { return 0; }
    static auto alloc(int) -> std::pmr::polymorphic_allocator<Char> { return {}; }
    static void* raw(size_t n, size_t, int) { return __real_malloc(n); }
    static void unraw(void* p, int) { __real_free(p); }
    bool inject() const { return injecting; }
    bool pause() {
        bool o = injecting;
        injecting = false;
        return o;
    }
    void resume(bool o) { injecting = o; }
    void arm(int64_t k, bool b = false) {
        res.fail_in = k;
        res.burst = b;
    }
    void disarm() { res.fail_in = -1; }
    uint64_t injected() const { return res.failures; }
    uint64_t mark() const { return res.count; }
    static void heap_use(const char* op, uint64_t n) { ORACLE("S10", "S10/other-memory", n == 0, "%s allocated %llu times outside the resource", op, (unsigned long long)n); }
    template <class L, class T>
    void check_storage(L& l, const T& t) {
        auto* p = reinterpret_cast<const char*>(t.s->data());
        auto* o = reinterpret_cast<const char*>(t.s);
        bool in = p >= o && p + (t.s->size() + 1) * sizeof(Char) <= o + sizeof(AStr);
        if (!in) {
            auto it = res.live.upper_bound(const_cast<char*>(p));
            if (it != res.live.begin()) {
                --it;
                auto* b = static_cast<const char*>(it->first);
                in = p >= b && p + (t.s->capacity() + 1) * sizeof(Char) <= b + it->second.n;
            }
        }
        ORACLE("S10", "S10/storage-elsewhere", in, "%s: the %zu characters of a string lie neither in the string nor in memory of the default resource", l.opname, t.s->size());
    }
    template <class T>
    static void fix_home(T&) {}
    template <class T, class N>
    static bool conversions(const T& s, const N& m) {
        return View(s.toStdString()) == m && View(s) == m;
    }
};

using LabD = Lab<AStr, World>;
}  // namespace

namespace vh {
void run_case() {
#ifdef NDEBUG
    World w;
    LabD lab(w);
    LabD::choose_scale(150);
    int kind = int(R(60));
    if (kind == 0) {
        lab.many_copies();
    } else if (kind <= 2) {
        lab.long_growth();
    } else {
        w.injecting = P(1, 4);
        size_t n = 3 + R(LabD::big ? 12 : 30);
        std::array<int, 11> wt = {20, 14, 16, 12, 10, 14, 8, 4, 3, 3, 8};
        for (size_t i = 0; i < n; ++i) {
            lab.step(wt);
        }
        w.injecting = false;
        lab.destroy_all();
    }
    ORACLE("S10", "S10/leak", w.res.live.empty(), "%zu pieces of memory are left after every string is gone", w.res.live.size());
    EVENT("default-resource-balanced");
#endif
}
std::vector<Script> scripts() { return {}; }
void finish() {}
}  // namespace vh
