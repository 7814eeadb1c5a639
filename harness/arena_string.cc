// S08, S09 (and the arena side of S03, S04, S06, S07): arena-backed strings against std::string; where their characters live.
#include "strops.hpp"

#include "arena/arena.hpp"
#include "container/stdb_vector.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"

using namespace stdb::memory;

namespace {
#ifndef VERIF_CHAR
#define VERIF_CHAR char
#endif
using Char = VERIF_CHAR;
using AStr = arena_basic_string<Char>;
using Std = std::basic_string<Char>;
using View = std::basic_string_view<Char>;
static_assert(!std::is_same_v<Char, char> || std::is_same_v<AStr, arena_string>);

struct World;
World* world = nullptr;

struct Blocks
{
    struct B
    {
        char* p;
        size_t n;
    };
    std::vector<B> v;
    bool has(const void* q, size_t n) const {
        auto* c = static_cast<const char*>(q);
        for (auto& b : v) {
            if (c >= b.p && c + n <= b.p + b.n) {
                return true;
            }
        }
        return false;
    }
};

struct World
{
    // an operation with a count that reaches past the end
    static constexpr const char* tag_value_clamped = "S04 S08 S09";
    static constexpr const char* tag_ret_clamped = "S04 S08";
    static constexpr const char* tag_search_clamped = "S04 S06 S08";
    static constexpr const char* tag_value = "S08 S09";
    static constexpr const char* key_value = "S08/contents";
    static constexpr const char* tag_other = "S08";
    static constexpr const char* key_other = "S08/other-string-changed";
    static constexpr const char* tag_ret = "S08";
    static constexpr const char* key_ret = "S08/returned-value";
    static constexpr const char* tag_store = "S03 S08";
    static constexpr const char* key_store = "S03/storage";
    static constexpr const char* tag_invalid = "S04 S08";
    static constexpr const char* key_invalid = "S04/errors";
    static constexpr const char* tag_oom = "S09";
    static constexpr const char* key_oom = "S09/arena-exhausted";
    static constexpr const char* tag_search = "S06 S08";
    static constexpr const char* key_search = "S06/search";
    static constexpr const char* tag_io = "S07 S08";
    static constexpr const char* key_io = "S07/io";
    static constexpr bool kStdCtor = false;
    static constexpr bool kFmtSpec = true;
    static constexpr bool kStickyShare = true;
    static constexpr size_t kPool = 7;
#ifdef NDEBUG
    static constexpr bool release = true;
#else
    static constexpr bool release = false;
#endif
    bool injecting{false};
    int64_t fail_in{-1};
    bool burst{false};
    uint64_t failures{0};
    std::array<Blocks, 2> blocks;
    std::array<std::unique_ptr<Arena>, 2> arenas;
    bool closing{false};

    template <int K>
    static void* block_alloc(size_t n) {
        vh::NoTrack nt;
        World& w = *world;
        if (n > (size_t(1) << 31)) {
            return nullptr;
        }
        if (w.fail_in >= 0) {
            if (w.fail_in == 0) {
                ++w.failures;
                ++vh::injected;
                if (!w.burst) {
                    w.fail_in = -1;
                }
                return nullptr;
            }
            --w.fail_in;
        }
        auto* p = static_cast<char*>(__real_malloc(n));
        memset(p, 0xA5, n);
        w.blocks[K].v.push_back({p, n});
        return p;
    }
    template <int K>
    static void block_dealloc(void* p) {
        vh::NoTrack nt;
        World& w = *world;
        ORACLE("S09", "S09/block-returned-early", w.closing, "an arena block was returned while strings use the arena");
        auto& v = w.blocks[K].v;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].p == p) {
                v.erase(v.begin() + int64_t(i));
                __real_free(p);
                return;
            }
        }
        ORACLE("S09", "S09/unknown-block", false, "a block was returned that the arena does not have");
    }
    World() {
        world = this;
        for (int k = 0; k < 2; ++k) {
            Arena::Options o = Arena::Options::GetDefaultOptions();
            o.normal_block_size = size_t(128) << R(7);
            o.suggested_init_block_size = o.normal_block_size >> R(2);
            o.huge_block_size = o.normal_block_size << (1 + R(8));
            o.block_alloc = k == 0 ? &block_alloc<0> : &block_alloc<1>;
            o.block_dealloc = k == 0 ? &block_dealloc<0> : &block_dealloc<1>;
            arenas[size_t(k)] = std::make_unique<Arena>(o);
        }
    }
    ~World() {
        closing = true;
        arenas[0].reset();
        arenas[1].reset();
        ORACLE("S09", "S09/block-not-returned", blocks[0].v.empty() && blocks[1].v.empty(), "blocks are left after the arenas are gone");
        world = nullptr;
    }

    static bool may_be_too_long(uint64_t) { return false; }
    static int home() { return P(1, 4) ? 1 : 0; }
    auto alloc(int k) -> std::pmr::polymorphic_allocator<Char> { return {arenas[size_t(k)]->get_memory_resource()}; }
    static void* raw(size_t n, size_t, int) { return __real_malloc(n); }
    static void unraw(void* p, int) { __real_free(p); }
    bool inject() const { return injecting; }
    bool pause() {
        bool o = injecting;
        injecting = false;
        return o;
    }
    void resume(bool o) { injecting = o; }
    void arm(int64_t k, bool b = false) {
        fail_in = k;
        burst = b;
    }
    void disarm() { fail_in = -1; }
    uint64_t injected() const { return failures; }
    uint64_t mark() {
        uint64_t m = 0;
        for (auto& a : arenas) {
            m += a->SpaceAllocated() * 4 - a->SpaceRemains();
        }
        return m;
    }
    static void heap_use(const char* op, uint64_t n) {
        EVENT("heap-use-watched");
        ORACLE("S09", "S09/heap-allocation", n == 0, "%s allocated %llu times outside the arena", op, (unsigned long long)n);
    }
    bool inside(const AStr& s, int k) const {
        auto* p = reinterpret_cast<const char*>(s.data());
        auto* o = reinterpret_cast<const char*>(&s);
        if (p >= o && p + (s.size() + 1) * sizeof(Char) <= o + sizeof(AStr)) {
            return true;
        }
        return blocks[size_t(k)].has(p, (s.capacity() + 1) * sizeof(Char));
    }
    template <class L, class T>
    void check_storage(L& l, const T& t) {
        EVENT("storage-locations-checked");
        ORACLE("S09", "S09/storage-elsewhere", inside(*t.s, t.home), "%s: the %zu characters of a string of arena %d lie neither in the string nor in the arena%s", l.opname,
               t.s->size(), t.home, inside(*t.s, 1 - t.home) ? " but in the other arena" : "");
    }
    template <class T>
    void fix_home(T& t) {
        for (int k = 0; k < 2; ++k) {
            if (t.s->get_allocator().resource() == arenas[size_t(k)]->get_memory_resource()) {
                t.home = k;
            }
        }
    }
    template <class T, class N>
    static bool conversions(const T& s, const N& m) {
        using Plain = basic_string<Char>;
        Plain p(s.data(), s.size());
        Plain q{View(s)};
        auto r = s.toStdString();
        if constexpr (std::is_same_v<typename T::value_type, char>) {
            using stdb::memory::toStdString;
            if (toStdString(s) != m || std::string(s) != m) {
                return false;
            }
        }
        return View(p) == m && View(q) == m && View(r) == m;
    }
};

using LabA = Lab<AStr, World>;

// containers of arena strings: growth, sorting and erasing move strings around
template <class C>
void container_op(World& w, LabA& lab, C& c) {
    std::vector<Std> m;
    std::vector<int> home;
    size_t n = 1 + R(30);
    lab.opname = "container of strings";
    bool one = P(1, 2);
    for (size_t i = 0; i < n; ++i) {
        auto& t = lab.pick();
        if (one && t.home != 0) {
            continue;
        }
        switch (R(8)) {
            case 0:
                if (!m.empty()) {
                    size_t k = R(m.size());
                    c.erase(c.begin() + int64_t(k));
                    m.erase(m.begin() + int64_t(k));
                    home.erase(home.begin() + int64_t(k));
                }
                break;
            case 1:
                if (one) {  // rearranging by moves and swaps needs one arena
                    std::sort(c.begin(), c.end());
                    std::sort(m.begin(), m.end());
                }
                break;
            case 2: {
                auto x = LabA::rtext();
                c.emplace_back(x.data(), x.size(), w.alloc(0));
                m.push_back(x);
                home.push_back(0);
                break;
            }
            case 3:
                if (!m.empty()) {
                    size_t k = R(m.size());
                    auto x = LabA::rtext();
                    c[k].append(x.data(), x.size());
                    m[k] += x;
                }
                break;
            default:
                t.shared = true;
                c.push_back(static_cast<const AStr&>(*t.s));
                m.push_back(t.m);
                home.push_back(t.home);
        }
        for (size_t k = 0; k < m.size(); ++k) {
            ORACLE("S08", "S08/container", LabA::same(c[k], m[k]), "element %zu of a container is %s, should be %s", k, LabA::show(View(c[k])).c_str(),
                   LabA::show(m[k]).c_str());
            ORACLE("S09", "S09/container", w.inside(c[k], home[k]), "the characters of element %zu lie outside arena %d", k, home[k]);
        }
    }
    EVENT_N("container-elements-checked", m.size());
    vh::step(500, vh::cls(n), vh::cls(m.size()));
    vh::state(500, vh::cls(m.size()), one);
    lab.check_all(nullptr);
}

std::array<int, 11> weights() {
    const std::string& p = vh::prop;
    //        construct assign append insert replace erase access toolong search io destroy
    if (p == "S03") {
        return {12, 6, 25, 14, 6, 25, 4, 2, 0, 2, 3};
    }
    if (p == "S04") {
        return {14, 10, 10, 12, 12, 10, 12, 20, 6, 0, 2};
    }
    if (p == "S06") {
        return {14, 5, 6, 5, 5, 6, 3, 0, 55, 0, 3};
    }
    if (p == "S07") {
        return {12, 5, 5, 3, 3, 5, 3, 0, 0, 60, 3};
    }
    if (p == "S09") {
        return {22, 12, 18, 12, 12, 10, 6, 0, 0, 0, 3};
    }
    return {16, 12, 16, 14, 14, 12, 12, 1, 3, 3, 4};
}
}  // namespace

namespace vh {
void run_case() {
    World w;
    {
        LabA lab(w);
        LabA::choose_scale(150);
        if (prop == "S08" && P(1, 80)) {
            lab.many_copies();
            return;
        }
        if (prop == "S03" && P(1, 12)) {
            lab.long_growth();
            return;
        }
        if constexpr (std::is_same_v<Char, wchar_t>) {
            if (prop == "S06" && P(1, 8)) {
                hash_only<arena_basic_string<char32_t>>("S06", std::pmr::polymorphic_allocator<char32_t>(w.arenas[0]->get_memory_resource()));
            }
        }
        if (prop == "S08" && P(1, 40)) {
            using Core = stdb::memory::arena_string_core<Char>;
            other_traits<stdb::memory::basic_string<Char, Fold<Char>, std::pmr::polymorphic_allocator<Char>, Core>>(
              "S08", std::pmr::polymorphic_allocator<Char>(w.arenas[0]->get_memory_resource()));
        }
        if ((prop == "S06" || prop == "S08") && P(1, 12)) {
            left_out<AStr>("S06 S08", "S08", std::pmr::polymorphic_allocator<Char>(w.arenas[0]->get_memory_resource()));
        }
        w.injecting = prop == "S09" && P(3, 4);
        auto wt = weights();
        size_t n = prop == "S06" || prop == "S07" ? 2 + R(10) : 3 + R(LabA::big ? 12 : 30);
        for (size_t i = 0; i < n; ++i) {
            lab.step(wt);
            if ((prop == "S08" || prop == "S09") && !lab.pool.empty() && P(1, 30)) {
                bool inj = w.pause();
                if (P(1, 2)) {
                    std::vector<AStr> c;
                    container_op(w, lab, c);
                } else {
                    stdb::container::stdb_vector<AStr> c;
                    container_op(w, lab, c);
                }
                w.resume(inj);
            }
            if ((prop == "S08" || prop == "S09") && P(1, 25)) {
                // an object of the arena itself
                bool inj = w.pause();
                auto x = LabA::rtext();
                auto* s = w.arenas[0]->Create<AStr>(View(x));
                ORACLE("S09 S08", "S09/created", s != nullptr && LabA::same(*s, x) && w.inside(*s, 0) && w.blocks[0].has(s, sizeof(AStr)),
                       "a string created in the arena is not what was asked for");
                EVENT("strings-created-in-the-arena");
                w.resume(inj);
            }
        }
        w.injecting = false;
        if (P(1, 4)) {
            // strings need not be destroyed: the arena owns everything
            for (auto& t : lab.pool) {
                World::unraw(t.s, t.home);
            }
            lab.pool.clear();
            EVENT("abandoned-without-destruction");
        }
        lab.destroy_all();
    }
}

// as in string.cc: writing through non-const data() of a large string reaches its copies
std::vector<Script> scripts() { return {}; }
void finish() {}
}  // namespace vh
