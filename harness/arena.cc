// A01-A08, A10 (and the thread-local half of M01): random histories over real arenas against an exact reference model.
// The monitors sit in the callbacks the arena is configured with (block allocator, cleanups, destructors, hooks) and in
// the values the arena returns; the model predicts every one of them.
#include "vh.hpp"

#include <sys/mman.h>

#include <chrono>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <variant>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"

using namespace stdb::memory;
using vh::P;
using vh::R;
using vh::RR;

// ---------------------------------------------------------------------------------------------------- fake clock (M01)
static int64_t fake_now_ns = 1'000'000'000;
// takes the place of the library's definition in this program
std::chrono::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept {
    return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(fake_now_ns));
}

namespace {

constexpr uint64_t kHeader = kBlockHeaderSize;
constexpr uint64_t kNode = kCleanupNodeSize;
constexpr uint64_t kMax = std::numeric_limits<uint64_t>::max();

struct Blk
{
    char* base;
    uint64_t size;
    uint64_t pos;
    uint64_t limit;
    char* raw;
    uint64_t off;
    bool giant;  // mapped, and touched here and there only
};
constexpr uint64_t kGiant = 1ULL << 25;  // larger memory is checked at its ends only
bool giants = false;                     // this case works beyond the 4 GiB boundary

struct Alloc
{
    char* p;
    uint64_t n;
    uint64_t tag;  // content is a function of the tag; 0: content is not checked
};

struct Pend
{
    void* element;
    uint64_t id;
    int kind;  // 0 cleanup function, 1 destructor, 2 deletion
};

enum class Hk : uint8_t
{
    Init = 1,
    Reset,
    Alloc,
    NewBlock,
    Destroy
};
struct Ev
{
    Hk k;
    const void* arena;
    void* cookie;
    uint64_t a;
    uint64_t b;
    const std::type_info* t;
};

struct Call
{
    uint64_t size;
    char* p;
    char* raw;
    uint64_t off;
};

struct Metrics
{
    uint64_t init = 0, destruct = 0, alloc = 0, newblock = 0, reset = 0, space_allocated = 0, resettled = 0, used = 0,
             wasted = 0;
    std::array<uint64_t, 8> sizes{};
    std::array<uint64_t, 8> lifes{};
    std::map<std::string, uint64_t> loc;
};
Metrics met;

struct Model
{
    Arena* a{nullptr};
    Arena::Options opt{};
    std::vector<Blk> blks;
    uint64_t sum{0};
    std::map<char*, Alloc> live;  // by address, non-empty allocations
    std::vector<Pend> pend;
    void* cookie{nullptr};
    bool in_release{false};  // inside Reset or the destructor
    bool in_reset{false};
    bool hooks{false};
    bool metrics{false};
    int64_t born{0};
    std::string place;
    uint64_t resets{0};
    uint64_t moves{0};
    uint64_t id{0};
};

Model* cur = nullptr;             // the arena an operation is running on
std::vector<Call> calls;          // block_alloc calls not matched by the model yet
std::vector<Ev> evs;              // hook events not matched by the model yet
std::vector<Ev> want;             // predicted hook events
int64_t block_fail_in = -1;       // the block allocation that fails
uint64_t block_fail_more = 0;     // how many fail after it
uint64_t block_bytes = 0;         // held by all arenas
uint64_t next_id = 1;
const std::type_info* no_type = nullptr;
bool constructing = false;
int objects_alive = 0;  // tracked objects that were constructed and not destroyed
std::vector<uint64_t> dead_ids;
std::vector<std::unique_ptr<Model>> models;

void fill(char* p, uint64_t n, uint64_t tag) {
    if (n > kGiant) {
        fill(p, 4096, tag);
        fill(p + n - 4096, 4096, tag + 1);
        return;
    }
    uint64_t x = vh::mix64(tag);
    uint64_t i = 0;
    for (; i + 8 <= n; i += 8) {
        memcpy(p + i, &x, 8);
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    }
    for (; i < n; ++i) {
        p[i] = char(x >> (8 * (i & 7)));
    }
}
bool intact(const char* p, uint64_t n, uint64_t tag) {
    if (n > kGiant) {
        return intact(p, 4096, tag) && intact(p + n - 4096, 4096, tag + 1);
    }
    uint64_t x = vh::mix64(tag);
    uint64_t i = 0;
    for (; i + 8 <= n; i += 8) {
        if (memcmp(p + i, &x, 8) != 0) {
            return false;
        }
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    }
    for (; i < n; ++i) {
        if (p[i] != char(x >> (8 * (i & 7)))) {
            return false;
        }
    }
    return true;
}

// -------------------------------------------------------------------------------------------------- block allocator
void* blk_alloc(size_t n) {
    vh::NoTrack nt;
    ORACLE("A03 A04", "A03/alloc-outside-operation", cur != nullptr && !cur->in_release,
           "block allocation of %zu bytes while no request is running", n);
    Call c{n, nullptr, nullptr, 0};
    bool failing = false;
    if (block_fail_in == 0) {
        failing = true;
        if (block_fail_more == 0) {
            block_fail_in = -1;
        } else {
            --block_fail_more;
        }
    } else if (block_fail_in > 0) {
        --block_fail_in;
    }
    if (!failing && giants && n > kGiant && n <= (24ULL << 30) && block_bytes + n <= (64ULL << 30)) {
        c.off = 16 * (n & 1);
        void* map = mmap(nullptr, n + c.off, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (map == MAP_FAILED) {
            EVENT("block-alloc-failed");
        } else {
            c.raw = static_cast<char*>(map);
            memset(c.raw, 0xC7, c.off);
            c.p = c.raw + c.off;
            block_bytes += n;
            EVENT("block-alloc");
            EVENT("giant-block");
        }
    } else if (!failing && n <= kGiant && block_bytes + n <= (giants ? 64ULL << 30 : 64ULL << 20)) {
        c.off = 8 * (vh::mix64(next_id * 77 + n) & 3);
        if (P(1, 2)) {
            c.off &= 16;
        }
        c.raw = static_cast<char*>(__real_malloc(c.off + n));
        if (c.raw == nullptr) {
            vh::harness_error("no memory");
        }
        memset(c.raw, 0xC7, c.off);
        c.p = c.raw + c.off;
        memset(c.p, int(R(255) + 1), n);  // whatever the memory contained before
#if VH_ASAN
        ASAN_POISON_MEMORY_REGION(c.raw, c.off);
#endif
        block_bytes += n;
        EVENT("block-alloc");
    } else {
        EVENT("block-alloc-failed");
        ++vh::injected;
    }
    LOG("  block_alloc(%zu) -> %s", n, c.p != nullptr ? "ok" : "null");
    calls.push_back(c);
    return c.p;
}

void release_block(Blk& b) {
#if VH_ASAN
    ASAN_UNPOISON_MEMORY_REGION(b.raw, b.off);
#endif
    for (uint64_t i = 0; i < b.off; ++i) {
        ORACLE("A01 A03", "A01/write-before-block", b.raw[i] == char(0xC7), "byte %d before a block was overwritten", int(b.off - i));
    }
    block_bytes -= b.size;
    if (b.giant) {
        munmap(b.raw, b.off + b.size);
        return;
    }
    memset(b.base, 0xDD, b.size);
    __real_free(b.raw);
}

void blk_dealloc(void* p) {
    vh::NoTrack nt;
    EVENT("block-dealloc");
    LOG("  block_dealloc");
    ORACLE("A03 A08", "A03/dealloc-outside-release", cur != nullptr && cur->in_release,
           "a block was released outside of reset and destruction");
    if (cur == nullptr) {
        vh::harness_error("dealloc outside");
    }
    size_t i = 0;
    while (i < cur->blks.size() && cur->blks[i].base != p) {
        ++i;
    }
    ORACLE("A03 A08", "A03/unknown-block", i < cur->blks.size(),
           "a pointer was released that is no block the arena holds (or was released before)");
    if (i == cur->blks.size()) {
        vh::harness_error("unknown block released");
    }
    ORACLE("A02 A03", "A03/released-before-cleanups", cur->pend.empty(), "%zu cleanups are pending when a block is released",
           cur->pend.size());
    if (cur->in_reset) {
        ORACLE("A03", "A03/first-block-released", i != 0, "reset released the first block");
    }
    release_block(cur->blks[i]);
    cur->sum -= cur->blks[i].size;
    cur->blks.erase(cur->blks.begin() + int64_t(i));
}

std::string last_log;
void on_log(const std::string& s) {
    vh::NoTrack nt;
    last_log = s;
    EVENT("logger-call");
}

// -------------------------------------------------------------------------------------------------- hooks
std::vector<std::pair<std::string, uint64_t>> init_locs;
void* cookies[64];
uint64_t cookie_no = 0;
void* hk_init(Arena* a, const boost::source_location& loc) {
    vh::NoTrack nt;
    void* c = P(1, 8) ? nullptr : &cookies[cookie_no++ % 64];
    init_locs.emplace_back(loc.file_name(), loc.line());
    evs.push_back({Hk::Init, a, c, 0, 0, nullptr});
    return c;
}
void hk_reset(Arena* a, void* c, uint64_t used, uint64_t wasted) {
    vh::NoTrack nt;
    evs.push_back({Hk::Reset, a, c, used, wasted, nullptr});
}
void hk_alloc(const std::type_info* t, uint64_t n, void* c) {
    vh::NoTrack nt;
    evs.push_back({Hk::Alloc, nullptr, c, n, 0, t});
}
void hk_newblock(uint64_t no, uint64_t n, void* c) {
    vh::NoTrack nt;
    evs.push_back({Hk::NewBlock, nullptr, c, no, n, nullptr});
}
void* hk_destroy(Arena* a, void* c, uint64_t used, uint64_t wasted) {
    vh::NoTrack nt;
    evs.push_back({Hk::Destroy, a, c, used, wasted, nullptr});
    return nullptr;
}

void met_apply(const Ev& e) {
    switch (e.k) {
        case Hk::Init:
            ++met.init;
            break;
        case Hk::Reset:
            ++met.reset;
            met.resettled += e.a;
            met.wasted += e.b;
            break;
        case Hk::Alloc: {
            ++met.alloc;
            met.space_allocated += e.a;
            static const uint64_t lim[8] = {64, 128, 256, 512, 1024, 2048, 4096, 1 << 20};
            for (int i = 0; i < 8; ++i) {
                if (e.a <= lim[i]) {
                    ++met.sizes[size_t(i)];
                    break;
                }
            }
            met.loc[cur->place] += e.a;
            break;
        }
        case Hk::NewBlock:
            ++met.newblock;
            break;
        case Hk::Destroy: {
            ++met.destruct;
            met.used += e.a;
            met.wasted += e.b;
            int64_t ms = (fake_now_ns - cur->born) / 1000000;
            static const int64_t lim[8] = {1, 5, 10, 50, 100, 200, 500, 1000};
            for (int i = 0; i < 8; ++i) {
                if (ms <= lim[i]) {
                    ++met.lifes[size_t(i)];
                    break;
                }
            }
            break;
        }
    }
}

void met_check() {
    auto& l = local_arena_metrics;
    EVENT("metrics-comparison");
#define M1(f, g) ORACLE("M01", "M01/" #f, l.f == met.g, "is %llu, the arenas of this thread did %llu", (unsigned long long)l.f, (unsigned long long)met.g)
    M1(init_count, init);
    M1(destruct_count, destruct);
    M1(alloc_count, alloc);
    M1(newblock_count, newblock);
    M1(reset_count, reset);
    M1(space_allocated, space_allocated);
    M1(space_resettled, resettled);
    M1(space_used, used);
    M1(space_wasted, wasted);
    for (size_t i = 0; i < 8; ++i) {
        ORACLE("M01", "M01/size-bucket", l.alloc_size_bucket_counter.at(i) == met.sizes[i], "bucket %zu: %llu, want %llu", i,
               (unsigned long long)l.alloc_size_bucket_counter.at(i), (unsigned long long)met.sizes[i]);
        ORACLE("M01", "M01/lifetime-bucket", l.destruct_lifetime_bucket_counter.at(i) == met.lifes[i], "bucket %zu: %llu, want %llu",
               i, (unsigned long long)l.destruct_lifetime_bucket_counter.at(i), (unsigned long long)met.lifes[i]);
    }
    uint64_t seen = 0;
    for (auto& [k, v] : l.arena_alloc_counter) {
        auto it = met.loc.find(k);
        uint64_t w = it == met.loc.end() ? 0 : it->second;
        ORACLE("M01", "M01/location", v == w, "%s is credited %llu bytes, want %llu", k.c_str(), (unsigned long long)v,
               (unsigned long long)w);
        seen += v;
    }
    uint64_t all = 0;
    for (auto& [k, v] : met.loc) {
        all += v;
    }
    ORACLE("M01", "M01/location-sum", seen == all, "locations sum to %llu, want %llu", (unsigned long long)seen,
           (unsigned long long)all);
}

const char* hk_name(Hk k) {
    static const char* n[] = {"?", "init", "reset", "allocation", "newblock", "destruction"};
    return n[int(k)];
}

// compare what the hooks saw with the prediction
void match_events() {
    if (cur->metrics) {
        for (auto& e : want) {
            met_apply(e);
        }
        want.clear();
        met_check();
        return;
    }
    // only the hooks that are installed fire
    std::vector<Ev> w;
    for (auto& e : want) {
        bool on = (e.k == Hk::Reset && cur->opt.on_arena_reset) || (e.k == Hk::Alloc && cur->opt.on_arena_allocation) ||
                  (e.k == Hk::NewBlock && cur->opt.on_arena_newblock) || (e.k == Hk::Init && cur->opt.on_arena_init) ||
                  (e.k == Hk::Destroy && cur->opt.on_arena_destruction);
        if (on) {
            w.push_back(e);
        }
    }
    want.clear();
    for (size_t i = 0; i < w.size() || i < evs.size(); ++i) {
        ORACLE("A07 A08", "A07/missing-event", i < evs.size(), "hook %s did not fire", hk_name(w[i].k));
        ORACLE("A07 A08", "A07/extra-event", i < w.size(), "hook %s fired without cause", hk_name(evs[i].k));
        if (i >= w.size() || i >= evs.size()) {
            break;
        }
        auto& e = evs[i];
        auto& x = w[i];
        EVENT("hook-event");
        vh::state(1, uint64_t(e.k), vh::cls(e.a), vh::cls(e.b));
        ORACLE("A07 A08", "A07/kind", e.k == x.k, "hook %s fired where %s was due", hk_name(e.k), hk_name(x.k));
        ORACLE("A07 A08", "A07/cookie", e.cookie == x.cookie, "hook %s got a cookie the init hook did not return", hk_name(e.k));
        ORACLE("A07 A08", "A07/arena", e.arena == x.arena, "hook %s got another arena", hk_name(e.k));
        ORACLE("A07 A08", "A07/value1", e.a == x.a, "hook %s got %llu, true value %llu", hk_name(e.k), (unsigned long long)e.a,
               (unsigned long long)x.a);
        ORACLE("A07 A08", "A07/value2", e.b == x.b, "hook %s got %llu, true value %llu", hk_name(e.k), (unsigned long long)e.b,
               (unsigned long long)x.b);
        ORACLE("A07", "A07/type", (e.t == nullptr) == (x.t == nullptr) && (e.t == nullptr || *e.t == *x.t), "hook %s got another type",
               hk_name(e.k));
    }
    evs.clear();
}

// -------------------------------------------------------------------------------------------------- model steps
uint64_t align8(uint64_t n) { return (n + 7) & ~uint64_t(7); }

uint64_t new_block_size(uint64_t min_bytes) {
    uint64_t req = min_bytes + kHeader;
    uint64_t size = 0;
    auto& o = cur->opt;
    if (cur->blks.empty()) {
        size = o.suggested_init_block_size;
    } else if (req <= o.normal_block_size) {
        size = o.normal_block_size;
    } else if (req <= o.huge_block_size / 4) {
        size = (min_bytes + o.normal_block_size - 1) / o.normal_block_size * o.normal_block_size;
    } else if (req <= o.huge_block_size) {
        size = o.huge_block_size;
    }
    return size < req ? req : size;
}

// match block_alloc calls of one request that needs a new block (or not); true: the request can be served
bool match_block(bool need, bool too_large, uint64_t min_bytes) {
    if (too_large) {
        for (auto& c : calls) {
            ORACLE("A06 A04", "A06/block-for-unrepresentable-request", c.size >= min_bytes && min_bytes != 0,
                   "a block of %llu bytes was requested for a request that can not be represented", (unsigned long long)c.size);
        }
        if (!calls.empty()) {
            // an attempt that was refused is fine
            for (auto& c : calls) {
                if (c.p != nullptr) {
                    vh::harness_error("out of sync");
                }
            }
            calls.clear();
        }
        return false;
    }
    if (!need) {
        ORACLE("A04", "A04/needless-block", calls.empty(), "a new block of %llu bytes was obtained, the request fits in the current one",
               calls.empty() ? 0ULL : (unsigned long long)calls[0].size);
        if (!calls.empty()) {
            vh::harness_error("out of sync");
        }
        return true;
    }
    ORACLE("A04 A01", "A04/no-new-block", calls.size() == 1, "%zu blocks were requested, exactly one is needed", calls.size());
    if (calls.size() != 1) {
        vh::harness_error("out of sync");
    }
    Call c = calls[0];
    calls.clear();
    uint64_t w = new_block_size(min_bytes);
    ORACLE("A04 A06 A01", "A04/block-too-small", c.size >= min_bytes + kHeader, "new block of %llu bytes, the request needs %llu",
           (unsigned long long)c.size, (unsigned long long)(min_bytes + kHeader));
    ORACLE("A04", "A04/block-size", c.size == w, "new block of %llu bytes, the configuration gives %llu", (unsigned long long)c.size,
           (unsigned long long)w);
    vh::state(2, vh::cls(c.size), vh::cls(min_bytes), cur->blks.empty());
    if (c.p == nullptr) {
        return false;
    }
    want.push_back({Hk::NewBlock, nullptr, cur->cookie, cur->blks.size(), c.size, nullptr});
    cur->blks.push_back({c.p, c.size, kHeader, c.size, c.raw, c.off, c.size > kGiant});
    cur->sum += c.size;
    return true;
}

Blk* blk_of(const Model& m, const char* p, uint64_t n) {
    for (auto& b : m.blks) {
        if (p >= b.base && p + n <= b.base + b.size) {
            return const_cast<Blk*>(&b);
        }
    }
    return nullptr;
}

// the memory part of a request: bytes at align, the arena returned p (null: refused)
bool commit_alloc(uint64_t bytes, uint64_t align, const void* vp, uint64_t type_align, bool track_content, uint64_t* tag) {
    vh::NoTrack nt;
    auto* p = const_cast<char*>(static_cast<const char*>(vp));
    uint64_t need = align8(bytes);
    uint64_t slack = align - 8;
    bool too_large = need < bytes || need > kMax - slack - kHeader;
    bool fits = false;
    uint64_t waste = 0;
    if (!cur->blks.empty() && need >= bytes) {
        Blk& b = cur->blks.back();
        auto at = reinterpret_cast<uint64_t>(b.base) + b.pos;
        waste = (align - at % align) % align;
        uint64_t rem = b.limit - b.pos;
        fits = waste <= rem && need <= rem - waste;
    }
    if (fits) {
        too_large = false;
    }
    bool ok = match_block(!fits, too_large, too_large ? 0 : need + slack);
    vh::state(3, ok, fits, vh::cls(bytes), align);
    if (!ok) {
        ORACLE("A06 A01", "A06/success-without-memory", p == nullptr, "a request of %llu bytes succeeded, but there is no memory for it",
               (unsigned long long)bytes);
        if (p != nullptr) {
            vh::harness_error("out of sync");
        }
        EVENT("request-refused");
        return false;
    }
    ORACLE("A06 A04 A01", "A06/refused-with-memory", p != nullptr, "a request of %llu bytes was refused, but there is memory for it",
           (unsigned long long)bytes);
    if (p == nullptr) {
        vh::harness_error("out of sync");
    }
    EVENT("request-served");
    Blk& b = cur->blks.back();
    auto at = reinterpret_cast<uint64_t>(b.base) + b.pos;
    waste = (align - at % align) % align;
    auto addr = reinterpret_cast<uint64_t>(p);
    ORACLE("A01 A06", "A01/alignment", addr % 8 == 0 && addr % align == 0 && addr % type_align == 0, "%p is not aligned to %llu", vp,
           (unsigned long long)std::max(align, type_align));
    Blk* in = blk_of(*cur, p, bytes);
    ORACLE("A01 A06", "A01/outside-blocks", in != nullptr, "%llu bytes do not lie inside one block of the arena", (unsigned long long)bytes);
    if (in == nullptr) {
        vh::harness_error("out of sync");
    }
    ORACLE("A01", "A01/overlaps-header", p >= in->base + kHeader, "the memory overlaps a block header");
    ORACLE("A01", "A01/overlaps-cleanups", p + bytes <= in->base + in->limit, "the memory overlaps cleanup records");
    if (bytes != 0) {
        auto it = cur->live.lower_bound(p);
        ORACLE("A01", "A01/overlap", it == cur->live.end() || it->first >= p + bytes, "the memory overlaps a live allocation");
        if (it != cur->live.begin()) {
            --it;
            ORACLE("A01", "A01/overlap", it->first + it->second.n <= p, "the memory overlaps a live allocation");
        }
    }
    b.pos += waste + need;
    uint64_t t = 0;
    if (track_content && bytes != 0) {
        t = next_id++;
        fill(p, bytes, t);
    }
    if (bytes != 0) {
        cur->live[p] = {p, bytes, t};
    }
    if (tag != nullptr) {
        *tag = t;
    }
    return true;
}

// the cleanup part of a request
bool commit_cleanup(void* element, uint64_t id, int kind, bool registered) {
    vh::NoTrack nt;
    bool fits = false;
    if (!cur->blks.empty()) {
        Blk& b = cur->blks.back();
        fits = b.limit - b.pos >= kNode;
    }
    bool ok = match_block(!fits, false, kNode);
    vh::state(4, ok, fits, uint64_t(kind));
    ORACLE("A06 A02", "A06/cleanup-success", ok == registered, "registering a cleanup reported %s, memory is %savailable",
           registered ? "success" : "failure", ok ? "" : "not ");
    if (ok != registered) {
        vh::harness_error("out of sync");
    }
    if (!ok) {
        EVENT("cleanup-refused");
        return false;
    }
    EVENT("cleanup-registered");
    cur->blks.back().limit -= kNode;
    cur->pend.push_back({element, id, kind});
    return true;
}

void verify_content(Model& m, const char* when) {
    for (auto& [p, al] : m.live) {
        if (al.tag != 0) {
            ORACLE("A01 A02 A03 A06 A08", "A01/content", intact(p, al.n, al.tag), "%llu bytes stored by the user changed (%s)",
                   (unsigned long long)al.n, when);
        }
    }
}

uint64_t wasted(const Model& m) {
    uint64_t w = 0;
    for (auto& b : m.blks) {
        w += b.limit - b.pos;
    }
    return w;
}

ArenaContainStatus classify(const Model& m, const char* p) {
    for (auto& b : m.blks) {
        if (p >= b.base && p < b.base + b.size) {
            auto off = uint64_t(p - b.base);
            if (off < kHeader) {
                return ArenaContainStatus::BlockHeader;
            }
            if (off < b.pos) {
                return ArenaContainStatus::BlockUsed;
            }
            if (off < b.limit) {
                return ArenaContainStatus::BlockUnUsed;
            }
            return ArenaContainStatus::BlockCleanup;
        }
    }
    return ArenaContainStatus::NotContain;
}

std::vector<const char*> stale;  // addresses of blocks that were released

void probe(Model& m, const char* p) {
    auto got = m.a->check(p);
    auto w = classify(m, p);
    EVENT("address-classified");
    vh::state(5, uint64_t(got), m.blks.size(), 0);
    ORACLE("A05 A08", "A05/class", got == w, "address classified as %d, is %d (0 foreign, 1 header, 2 cleanups, 3 used, 4 unused)", int(got),
           int(w));
}

void probes(Model& m, bool thorough) {
    if (m.a == nullptr) {
        return;
    }
    size_t nb = m.blks.size();
    for (size_t i = 0; i < nb; ++i) {
        if (!thorough && nb > 3 && !P(3, int(nb))) {
            continue;
        }
        auto& b = m.blks[i];
        for (uint64_t o : {uint64_t(0), uint64_t(1), kHeader - 1, kHeader, b.pos - 1, b.pos, b.pos + 1, b.limit - 1, b.limit, b.limit + 1,
                           b.size - 1, b.size, R(b.size)}) {
            probe(m, b.base + o);
        }
        probe(m, b.base - 1);
    }
    if (thorough) {
        int here = 0;
        probe(m, nullptr);
        probe(m, reinterpret_cast<const char*>(&here));
        probe(m, reinterpret_cast<const char*>(&m));
        probe(m, reinterpret_cast<const char*>(vh::rng.next()));
        for (auto& o : models) {
            if (o.get() != &m && !o->blks.empty()) {
                probe(m, o->blks.back().base + R(o->blks.back().size));
            }
        }
        if (!stale.empty()) {
            probe(m, vh::rng.of(stale));
        }
        if (nb != 0) {
            auto& b = vh::rng.of(m.blks);
            probe(m, reinterpret_cast<const char*>(reinterpret_cast<uint64_t>(b.base) ^ (1ULL << 63)));
            probe(m, reinterpret_cast<const char*>(reinterpret_cast<uint64_t>(b.base + R(b.size)) + (1ULL << 32)));
            // sweep one block in full, when small enough
            if (b.size <= 512) {
                for (uint64_t o = 0; o < b.size; ++o) {
                    probe(m, b.base + o);
                }
            }
        }
    }
}

// after every operation
void audit(Model& m, bool full) {
    vh::NoTrack nt;
    match_events();
    ORACLE("A04 A03", "A04/unmatched-block", calls.empty(), "a block of %llu bytes was obtained without cause",
           calls.empty() ? 0ULL : (unsigned long long)calls[0].size);
    if (!calls.empty()) {
        vh::harness_error("out of sync");
    }
    ORACLE("A04 A06 A08 A03", "A04/space-allocated", m.a->SpaceAllocated() == m.sum, "reports %llu allocated, the blocks sum to %llu",
           (unsigned long long)m.a->SpaceAllocated(), (unsigned long long)m.sum);
    uint64_t rem = m.blks.empty() ? 0 : m.blks.back().limit - m.blks.back().pos;
    ORACLE("A04 A06 A08", "A04/space-remains", m.a->SpaceRemains() == rem, "reports %llu remaining, %llu are left",
           (unsigned long long)m.a->SpaceRemains(), (unsigned long long)rem);
    ORACLE("A02 A08", "A02/pending-count", m.a->cleanups() == m.pend.size(), "%llu cleanups are recorded, %zu are pending",
           (unsigned long long)m.a->cleanups(), m.pend.size());
    vh::state(6, m.blks.size() < 6 ? m.blks.size() : 6, vh::cls(rem), m.pend.size() < 8 ? m.pend.size() : 8);
    if (full || vh::prop == "A05") {
        probes(m, full || P(1, 4));
    }
    if (full || P(1, 10)) {
        verify_content(m, "checked after an operation");
    }
}

// -------------------------------------------------------------------------------------------------- cleanups
const void* offered = nullptr;  // an object that the arena is asked to own, and may refuse
void release_event(void* element, int kind) {
    vh::NoTrack nt;
    EVENT("cleanup-run");
    ORACLE("A02 A06", "A06/offered-object-deleted", offered == nullptr || element != offered, "an object was deleted by the call that offered it to the arena");
    ORACLE("A02 A08", "A02/early-cleanup", cur != nullptr && cur->in_release, "a cleanup ran outside of reset and destruction");
    if (cur == nullptr) {
        vh::harness_error("cleanup outside");
    }
    ORACLE("A02 A08", "A02/extra-cleanup", !cur->pend.empty(), "a cleanup ran that is not pending");
    if (cur->pend.empty()) {
        vh::harness_error("out of sync");
    }
    Pend top = cur->pend.back();
    if (top.element != element || top.kind != kind) {
        bool is_pending = false;
        for (auto& q : cur->pend) {
            is_pending = is_pending || (q.element == element && q.kind == kind);
        }
        ORACLE("A02 A08", "A02/order", !is_pending, "a cleanup ran before a newer one");
        ORACLE("A02 A08", "A02/not-pending", false, "a cleanup ran that is not pending (or again)");
        vh::harness_error("out of sync");
    }
    cur->pend.pop_back();
    auto it = cur->live.find(static_cast<char*>(element));
    if (it != cur->live.end() && it->second.tag != 0) {
        ORACLE("A02 A01", "A02/content", intact(it->second.p, it->second.n, it->second.tag), "the memory of the object changed before its cleanup");
    }
}
void cleanup_fn(void* p) { release_event(p, 0); }
void cleanup_fn2(void* p) { release_event(p, 0); }

// -------------------------------------------------------------------------------------------------- object types
bool throw_in_ctor = false;
bool ctor_refused = false;  // a constructor could not get the memory it wanted
struct Stage
{
    uint64_t bytes{0};
    uint64_t align{8};
    uint64_t type_align{1};
    bool open{false};
    bool served{false};
};
Stage stage;

// called by the first constructor that runs for a request: the memory part is done by then
void entered(const void* self) {
    vh::NoTrack nt;
    if (stage.open) {
        stage.open = false;
        stage.served = true;
        commit_alloc(stage.bytes, stage.align, self, stage.type_align, false, nullptr);
    }
}

// an object with a destructor
template <size_t N, size_t A = 8>
struct alignas(A) Obj
{
    ArenaFullManagedTag;
    uint64_t id;
    uint64_t* flag;
    unsigned char body[N];
    explicit Obj(uint64_t i, uint64_t* f = nullptr) : id(i), flag(f) {
        entered(this);
        ++objects_alive;
        fill(reinterpret_cast<char*>(body), N, id);
    }
    Obj(const Obj&) = delete;
    ~Obj() {
        vh::NoTrack nt;
        if (!constructing || cur->in_release) {
            release_event(this, 1);
        }
        --objects_alive;
        if (flag != nullptr) {
            ++*flag;
        }
        ORACLE("A02 A01 A03", "A02/object-content", intact(reinterpret_cast<char*>(body), N, id), "the object changed before its destructor ran");
    }
};

struct SkipObj
{
    ArenaManagedCreateOnlyTag;
    uint64_t id;
    std::array<char, 24> body;
    explicit SkipObj(uint64_t i) : id(i) {
        entered(this);
        fill(body.data(), body.size(), i);
    }
    ~SkipObj() { ORACLE("A02", "A02/skipped-destructor", false, "the destructor of a type that opted out was called"); }
};

template <size_t N, size_t A>
struct alignas(A) Pod
{
    char b[N];
};

// nothing to store, and still something to destroy
struct alignas(16) EmptyAligned
{};
template <typename Base>
struct Empty : Base
{
    ArenaFullManagedTag;
    Empty() {
        entered(this);
        ++objects_alive;
    }
    Empty(const Empty&) = delete;
    ~Empty() {
        vh::NoTrack nt;
        if (!constructing || cur->in_release) {
            release_event(this, 1);
        }
        --objects_alive;
    }
};
struct Nothing
{};
struct Virtual
{
    virtual ~Virtual() = default;
};

// owned through a base class that is not the first one
struct OwnedBase
{
    uint64_t id;
    explicit OwnedBase(uint64_t i) : id(i) {}
    OwnedBase(const OwnedBase&) = delete;
    virtual ~OwnedBase() { release_event(this, 2); }
};
struct OwnedDerived final : Virtual, OwnedBase
{
    char body[40];
    explicit OwnedDerived(uint64_t i) : OwnedBase(i) {
        ++objects_alive;
        fill(body, sizeof(body), id);
    }
    ~OwnedDerived() override {
        --objects_alive;
        ORACLE("A02", "A02/owned-content", intact(body, sizeof(body), id), "an owned object changed");
    }
};

// heap objects given to the arena
template <size_t N>
struct Owned
{
    uint64_t id;
    char body[N];
    explicit Owned(uint64_t i) : id(i) { fill(body, N, i); }
    ~Owned() {
        release_event(this, 2);
        ORACLE("A02", "A02/owned-content", intact(body, N, id), "an owned object changed");
    }
};

// wants the arena: creates another object inside
struct Nest
{
    ArenaFullManagedTag;
    uint64_t id;
    Arena* arena;
    uint64_t depth;
    Nest* child{nullptr};
    Obj<8>* leaf{nullptr};
    Nest(Arena& a, uint64_t i, uint64_t d);
    ~Nest() {
        if (!constructing || cur->in_release) {
            release_event(this, 1);
        }
        --objects_alive;
        // what it refers to was created before it, so it is destroyed after it
        if (leaf != nullptr) {
            ORACLE("A02", "A02/nested-content", intact(reinterpret_cast<char*>(leaf->body), 8, leaf->id), "an older object is gone already");
        }
    }
};

// allocates from the memory resource while being constructed, and touches that memory while being destroyed
struct ResUser
{
    ArenaFullManagedTag;
    uint64_t id;
    pmr::memory_resource* res;
    std::array<Alloc, 4> mem{};
    ResUser(uint64_t i, uint64_t n, pmr::polymorphic_allocator<ResUser> al);
    ~ResUser() {
        if (!constructing || cur->in_release) {
            release_event(this, 1);
        }
        --objects_alive;
        for (auto& m : mem) {
            if (m.p != nullptr) {
                ORACLE("A02 A01 A03", "A02/member-memory", intact(m.p, m.n, m.tag), "the memory an object obtained for itself is gone before its destructor");
                res->deallocate(m.p, m.n, 8);
            }
        }
    }
};

struct Thrower
{
    ArenaFullManagedTag;
    char b[40];
    explicit Thrower(int) {
        entered(this);
        if (throw_in_ctor) {
            throw std::bad_alloc();
        }
        ++objects_alive;
    }
    ~Thrower() {
        if (!constructing || cur->in_release) {
            release_event(this, 1);
        }
        --objects_alive;
    }
};

// -------------------------------------------------------------------------------------------------- operations
struct Op
{
    Op(Model& m) {
        cur = &m;
        constructing = false;
    }
    ~Op() { cur = nullptr; }
};

uint64_t pick_size(Model& m) {
    auto& o = m.opt;
    uint64_t rem = m.blks.empty() ? o.suggested_init_block_size : m.blks.back().limit - m.blks.back().pos;
    auto around = [](uint64_t x) -> uint64_t {
        int64_t d = int64_t(R(8)) * 8 - 32 + (P(1, 3) ? int64_t(R(8)) : 0);
        return d < 0 && uint64_t(-d) > x ? 0 : x + uint64_t(d);
    };
    switch (R(12)) {
        case 0:
        case 1:
        case 2:
            return R(48);
        case 3:
        case 4:
            return R(300);
        case 5:
            return around(rem);
        case 6:
            return rem / (1 + R(3));
        case 7:
            return around(o.normal_block_size - kHeader);
        case 8:
            return around(o.huge_block_size / 4 - kHeader);
        case 9:
            return P(1, 3) ? around(o.huge_block_size - kHeader) : R(64);
        case 10:
            return P(1, 4) ? R(2 * o.huge_block_size) : o.normal_block_size * R(5);
        default:
            return 8 * R(16);
    }
}
uint64_t pick_huge() {
    uint64_t k = R(100);
    switch (R(6)) {
        case 0:
            return kMax - k;
        case 1:
            return kMax - 8 * k;
        case 2:
            return (1ULL << 63) - k;
        case 3:
            return (1ULL << 63) + k;
        case 4:
            return kMax / 2 - k;
        default:
            return (1ULL << (33 + R(30))) + k;
    }
}
// sizes around the powers of two that 32-bit arithmetic cannot represent
uint64_t pick_giant() {
    uint64_t k = R(100);
    switch (R(5)) {
        case 0:
            return (1ULL << 32) - k;
        case 1:
            return (1ULL << 32) + k;
        case 2:
            return (1ULL << 31) - k;
        case 3:
            return (1ULL << 32) * (1 + R(3)) + R(5000);
        default:
            return (1ULL << 31) + R(1ULL << 32);
    }
}
uint64_t any_size(Model& m, bool oversized) {
    if (giants && P(1, 5)) {
        return pick_giant();
    }
    return oversized ? pick_huge() : pick_size(m);
}
uint64_t pick_align() { return vh::rng.pick<uint64_t>({8, 8, 8, 16, 16, 32, 32}); }

void op_alloc(Model& m, uint64_t n, uint64_t al) {
    Op op(m);
    LOG("AllocateAligned(%llu, %llu)", (unsigned long long)n, (unsigned long long)al);
    vh::step(10, vh::cls(n), al);
    char* p = nullptr;
    {
        vh::Track t;
        p = (al == 8 && P(1, 2)) ? m.a->AllocateAligned(n) : m.a->AllocateAligned(n, al);
    }
    if (commit_alloc(n, al, p, 1, true, nullptr)) {
        want.push_back({Hk::Alloc, nullptr, m.cookie, n, 0, nullptr});
    }
    audit(m, false);
}

void op_alloc_cleanup(Model& m, uint64_t n) {
    Op op(m);
    static char elements[16];
    void* el = P(1, 3) ? &elements[R(16)] : nullptr;
    LOG("AllocateAlignedAndAddCleanup(%llu, fn, %s)", (unsigned long long)n, el != nullptr ? "element" : "null");
    vh::step(11, vh::cls(n), el != nullptr);
    char* p = nullptr;
    {
        vh::Track t;
        p = el == nullptr && P(1, 2) ? m.a->AllocateAlignedAndAddCleanup(n, &cleanup_fn)
                                     : m.a->AllocateAlignedAndAddCleanup(n, P(1, 2) ? &cleanup_fn : &cleanup_fn2, el);
    }
    // the memory may have been served even though the registration failed: ask the model which it was
    uint64_t need = align8(n);
    bool mem_ok = true;
    bool fits = !m.blks.empty() && need >= n && need <= m.blks.back().limit - m.blks.back().pos;
    if (!fits) {
        mem_ok = !calls.empty() && calls[0].p != nullptr;
    }
    if (p != nullptr || !mem_ok) {
        std::vector<Call> later;
        if (!fits && calls.size() > 1) {
            later.assign(calls.begin() + 1, calls.end());
            calls.resize(1);
        } else if (fits) {
            later.swap(calls);
        }
        if (commit_alloc(n, 8, p, 1, true, nullptr)) {
            calls = later;
            if (commit_cleanup(el == nullptr ? p : el, next_id++, 0, true)) {
                want.push_back({Hk::Alloc, nullptr, m.cookie, n, 0, nullptr});
            }
        } else {
            calls.insert(calls.end(), later.begin(), later.end());
        }
    } else {
        // memory was served, the cleanup record was refused
        std::vector<Call> later;
        if (!fits && calls.size() > 1) {
            later.assign(calls.begin() + 1, calls.end());
            calls.resize(1);
        } else if (fits) {
            later.swap(calls);
        }
        if (!fits) {
            match_block(true, false, need);
        }
        m.blks.back().pos += need;
        calls = later;
        commit_cleanup(nullptr, 0, 0, false);
        EVENT("allocation-without-cleanup-refused");
    }
    audit(m, false);
}

// common part of every creation. The constructor calls entered(), so the memory part is matched before it runs.
template <typename T, typename F>
T* create(Model& m, bool destructible, F&& call, bool ctor_throws = false) {
    constructing = true;
    Stage outer = stage;
    stage = {sizeof(T), std::max<uint64_t>(8, alignof(T)), alignof(T), true, false};
    auto before = int64_t(objects_alive) - int64_t(cur->pend.size());
    T* p = nullptr;
    ctor_refused = false;
    {
        vh::Track t;
        p = call();
    }
    ctor_throws = ctor_throws || ctor_refused;
    ctor_refused = false;
    vh::NoTrack nt;
    constructing = false;
    bool served = stage.served;
    if (stage.open) {
        // no constructor ran: plain memory, or no memory
        stage.open = false;
        served = commit_alloc(sizeof(T), std::max<uint64_t>(8, alignof(T)), p, alignof(T), false, nullptr);
    }
    stage = outer;
    if (!served || ctor_throws) {
        ORACLE("A06 A10", "A06/created-without-memory", p == nullptr, "creation succeeded although %s", served ? "the constructor failed" : "there is no memory");
        if (p != nullptr) {
            vh::harness_error("out of sync");
        }
        return nullptr;
    }
    if (destructible) {
        bool ok = commit_cleanup(p, next_id++, 1, p != nullptr);
        if (!ok) {
            ORACLE("A06 A02", "A06/object-left", int64_t(objects_alive) - int64_t(cur->pend.size()) == before, "creation failed, but the constructed object was not destroyed");
            return nullptr;
        }
    } else {
        ORACLE("A06 A02 A10", "A06/refused-plain", p != nullptr, "creation failed although there was memory");
    }
    want.push_back({Hk::Alloc, nullptr, m.cookie, sizeof(T), 0, &typeid(T)});
    return p;
}

Nest::Nest(Arena& a, uint64_t i, uint64_t d) : id(i), arena(&a), depth(d) {
    entered(this);
    ++objects_alive;
    ORACLE("A10", "A10/arena-argument", &a == cur->a, "the constructor got another arena");
    constructing = false;
    leaf = create<Obj<8>>(*cur, true, [&] { return a.Create<Obj<8>>(next_id++); });
    if (d > 0) {
        child = create<Nest>(*cur, true, [&] { return a.Create<Nest>(next_id++, d - 1); });
    }
    constructing = true;
}

ResUser::ResUser(uint64_t i, uint64_t n, pmr::polymorphic_allocator<ResUser> al) : id(i), res(al.resource()) {
    entered(this);
    ++objects_alive;
    ORACLE("A10 A08", "A10/resource-argument", res == cur->a->get_memory_resource(), "the constructor got another memory resource");
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t sz = 1 + vh::mix64(i * 31 + k) % 200;
        void* p = nullptr;
        try {
            p = res->allocate(sz, 8);
        } catch (const std::bad_alloc&) {
        }
        vh::NoTrack nt;
        if (!commit_alloc(sz, 8, p, 1, false, nullptr)) {
            --objects_alive;
            ctor_refused = true;
            throw std::bad_alloc();
        }
        mem[k] = {static_cast<char*>(p), sz, next_id++};
        fill(mem[k].p, sz, mem[k].tag);
    }
}

template <typename T>
void op_create_pod(Model& m) {
    Op op(m);
    LOG("Create<Pod<%zu,%zu>>", sizeof(T), alignof(T));
    vh::step(12, sizeof(T), alignof(T));
    T* p = create<T>(m, false, [&] { return m.a->Create<T>(); });
    if (p != nullptr) {
        bool zero = true;
        for (size_t i = 0; i < sizeof(T); ++i) {
            zero = zero && reinterpret_cast<char*>(p)[i] == 0;
        }
        ORACLE("A10", "A10/not-value-initialised", zero, "an object created without arguments is not value-initialised");
        // from now on it is user memory
        vh::NoTrack nt;
        auto& al = m.live[reinterpret_cast<char*>(p)];
        al.tag = next_id++;
        fill(al.p, al.n, al.tag);
    }
    audit(m, false);
}

template <typename T>
void op_create_obj(Model& m) {
    Op op(m);
    LOG("Create<Obj size %zu align %zu>", sizeof(T), alignof(T));
    vh::step(13, sizeof(T), alignof(T));
    create<T>(m, true, [&] { return m.a->Create<T>(next_id++); });
    audit(m, false);
}

template <typename T>
void op_array(Model& m, uint64_t n) {
    Op op(m);
    LOG("CreateArray<size %zu align %zu>(%llu)", sizeof(T), alignof(T), (unsigned long long)n);
    vh::step(14, sizeof(T), vh::cls(n));
    T* p = nullptr;
    {
        vh::Track t;
        p = m.a->CreateArray<T>(n);
    }
    uint64_t bytes = 0;
    bool over = __builtin_mul_overflow(n, sizeof(T), &bytes);
    if (over) {
        ORACLE("A06", "A06/array-overflow", p == nullptr && calls.empty(), "an array of %llu elements was created", (unsigned long long)n);
        if (p != nullptr) {
            vh::harness_error("out of sync");
        }
        EVENT("request-refused");
    } else if (commit_alloc(bytes, std::max<uint64_t>(8, alignof(T)), p, alignof(T), false, nullptr)) {
        bool zero = true;
        for (uint64_t i = 0; i < bytes; ++i) {
            zero = zero && reinterpret_cast<char*>(p)[i] == 0;
        }
        ORACLE("A10", "A10/array-not-value-initialised", zero, "%llu elements were not all value-initialised", (unsigned long long)n);
        want.push_back({Hk::Alloc, nullptr, m.cookie, bytes, 0, &typeid(T)});
        if (bytes != 0) {
            vh::NoTrack nt;
            auto& al = m.live[reinterpret_cast<char*>(p)];
            al.tag = next_id++;
            fill(al.p, al.n, al.tag);
        }
    }
    audit(m, false);
}

template <size_t N>
void op_own(Model& m) {
    Op op(m);
    LOG("Own<%zu>", N);
    vh::step(15, N);
    Owned<N>* o = nullptr;
    {
        vh::Track t;
        o = new Owned<N>(next_id++);
    }
    bool ok = false;
    {
        vh::Track t;
        offered = o;
        ok = m.a->Own(o);
        offered = nullptr;
    }
    if (!commit_cleanup(o, o->id, 2, ok)) {
        // still ours
        m.pend.push_back({o, o->id, 2});
        m.in_release = true;
        delete o;
        m.in_release = false;
    }
    audit(m, false);
}

void op_own_base(Model& m) {
    Op op(m);
    LOG("Own<base class>");
    vh::step(24);
    OwnedBase* o = nullptr;
    {
        vh::Track t;
        o = new OwnedDerived(next_id++);
    }
    bool ok = false;
    {
        vh::Track t;
        offered = o;
        ok = m.a->Own(o);
        offered = nullptr;
    }
    if (!commit_cleanup(o, o->id, 2, ok)) {
        m.pend.push_back({o, o->id, 2});
        m.in_release = true;
        delete o;
        m.in_release = false;
    }
    audit(m, false);
}

template <typename T>
void op_create_empty(Model& m) {
    Op op(m);
    LOG("Create<empty, size %zu align %zu>", sizeof(T), alignof(T));
    vh::step(25, sizeof(T), alignof(T));
    create<T>(m, true, [&] { return m.a->Create<T>(); });
    audit(m, false);
}

void op_resource(Model& m, uint64_t n) {
    Op op(m);
    uint64_t al = vh::rng.pick<uint64_t>({1, 2, 4, 8, 8, 16, 32});
    LOG("resource->allocate(%llu, %llu)", (unsigned long long)n, (unsigned long long)al);
    vh::step(16, vh::cls(n), al);
    void* p = nullptr;
    bool thrown = false;
    {
        vh::Track t;
        try {
            p = m.a->get_memory_resource()->allocate(n, al);
        } catch (const std::bad_alloc&) {
            thrown = true;
        }
    }
    ORACLE("A06 A09", "A06/resource-null", thrown == (p == nullptr), "the memory resource returned null");
    if (commit_alloc(n, std::max<uint64_t>(8, al), p, al, true, nullptr)) {
        if (P(1, 3)) {
            m.a->get_memory_resource()->deallocate(p, n, al);  // a no-op: the content must stay
            EVENT("resource-deallocate");
        }
    }
    audit(m, false);
}

void op_reset(Model& m) {
    Op op(m);
    LOG("Reset");
    vh::step(17, m.blks.size() < 4 ? m.blks.size() : 4, m.pend.size() < 4 ? m.pend.size() : 4);
    verify_content(m, "before a reset");
    uint64_t before = m.sum;
    want.push_back({Hk::Reset, m.a, m.cookie, m.sum, wasted(m), nullptr});
    for (size_t i = 1; i < m.blks.size(); ++i) {
        stale.push_back(m.blks[i].base + 40);
    }
    bool had = !m.blks.empty();
    m.in_release = m.in_reset = true;
    uint64_t got = 0;
    {
        vh::Track t;
        got = m.a->Reset();
    }
    m.in_release = m.in_reset = false;
    ++m.resets;
    EVENT("reset");
    ORACLE("A04 A03", "A04/reset-value", got == before, "Reset returned %llu, %llu were allocated", (unsigned long long)got,
           (unsigned long long)before);
    ORACLE("A02", "A02/cleanup-not-run", m.pend.empty(), "%zu cleanups did not run at the reset", m.pend.size());
    ORACLE("A03", "A03/blocks-after-reset", m.blks.size() == (had ? 1 : 0), "%zu blocks are held after a reset", m.blks.size());
    if (!m.pend.empty() || m.blks.size() > 1) {
        vh::harness_error("out of sync");
    }
    m.live.clear();
    if (had) {
        m.blks[0].pos = kHeader;
        m.blks[0].limit = m.blks[0].size;
    }
    audit(m, true);
}

struct Inert
{
    void* storage;
    Arena* a;
};
std::vector<Inert> inert;

void* arena_storage() {
    vh::NoTrack nt;
    return __real_malloc(sizeof(Arena));
}

void check_inert(const Inert& s) {
    ORACLE("A08", "A08/source-allocated", s.a->SpaceAllocated() == 0, "a moved-from arena reports %llu allocated",
           (unsigned long long)s.a->SpaceAllocated());
    ORACLE("A08", "A08/source-remains", s.a->SpaceRemains() == 0, "a moved-from arena reports %llu remaining",
           (unsigned long long)s.a->SpaceRemains());
    ORACLE("A08", "A08/source-cleanups", s.a->cleanups() == 0, "a moved-from arena has cleanups");
    for (auto& m : models) {
        if (m->a != nullptr && !m->blks.empty()) {
            auto& b = vh::rng.of(m->blks);
            ORACLE("A08 A05", "A08/source-contains", s.a->check(b.base + R(b.size)) == ArenaContainStatus::NotContain,
                   "a moved-from arena still claims memory");
        }
    }
}

void destroy_inert(size_t i) {
    LOG("destroy a moved-from arena");
    vh::NoTrack nt;
    Inert s = inert[i];
    inert.erase(inert.begin() + int64_t(i));
    cur = nullptr;
    evs.clear();
    {
        vh::Track t;
        s.a->~Arena();
    }
    ORACLE("A08 A07", "A08/source-hook", evs.empty(), "destroying a moved-from arena fired hook %s", evs.empty() ? "" : hk_name(evs[0].k));
    ORACLE("A08", "A08/source-block", calls.empty(), "destroying a moved-from arena obtained memory");
    memset(s.storage, 0xEE, sizeof(Arena));
    __real_free(s.storage);
}

void op_move(Model& m) {
    LOG("move construct");
    vh::step(18, m.blks.size() < 4 ? m.blks.size() : 4);
    {
        Op op(m);
        void* st = arena_storage();
        Arena* old = m.a;
        auto* res = old->get_memory_resource();
        {
            vh::Track t;
            m.a = new (st) Arena(std::move(*old));
        }
        inert.push_back({old, old});
        ++m.moves;
        EVENT("arena-moved");
        ORACLE("A08", "A08/resource", m.a->get_memory_resource() == res, "the memory resource did not move");
        ORACLE("A08 A09", "A08/resource-arena", m.a->get_memory_resource()->get_arena() == m.a, "the moved memory resource allocates from another arena");
        audit(m, true);
    }
    check_inert(inert.back());
    if (P(1, 2)) {
        destroy_inert(inert.size() - 1);
    }
    Op op(m);
    audit(m, false);
}

// places given explicitly: files that differ in a part of their name only, the same name at two addresses, any line
const char* file_name(uint64_t i) {
    static const std::vector<std::string> names = [] {
        std::string dir(300, 'd');
        std::vector<std::string> n{"/a/x.cc", "/b/x.cc", "x.cc", "x.c", "", ":7", "a:1", dir + "/x.cc", dir + "/y.cc", "e" + dir + "/x.cc"};
        n.push_back(n[0]);
        n.push_back(n[7]);
        n.push_back(std::string(5000, 'l') + ".cc");
        return n;
    }();
    return names[i % names.size()].c_str();
}
const uint_least32_t kLines[] = {1, 7, 17, 70, 255, 256, 4097, 65535, 65536, 70000, 70000 - 65536, 16777217, 4294967295U, 0};

// creation places, for the metrics by location
Arena* make_at(uint64_t place, void* st, const Arena::Options& o, std::string* key) {
    auto k = [&](int line) { *key = std::string(__FILE__) + ":" + std::to_string(line); };
    vh::NoTrack nt;
    switch (place) {
        case 3: {
            boost::source_location loc(file_name(R(20)), P(1, 2) ? 7 : kLines[R(14)], "f", 3);
            *key = std::string(loc.file_name()) + ":" + std::to_string(loc.line());
            vh::Track t;
            return new (st) Arena(o, loc);
        }
        case 0: {
            k(__LINE__ + 2);
            vh::Track t;
            return new (st) Arena(o);
        }
        case 4: {
            boost::source_location loc(file_name(R(3)), uint_least32_t(R(3)), "f", 3);
            *key = std::string(loc.file_name()) + ":" + std::to_string(loc.line());
            Arena::Options tmp = o;
            vh::Track t;
            return new (st) Arena(std::move(tmp), loc);
        }
        case 1: {
            Arena::Options tmp = o;
            k(__LINE__ + 2);
            vh::Track t;
            return new (st) Arena(std::move(tmp));
        }
        default: {
            k(__LINE__ + 2);
            vh::Track t;
            return new (st) Arena{o};
        }
    }
}

void new_arena(bool metrics) {
    vh::NoTrack nt;
    auto mp = std::make_unique<Model>();
    Model& m = *mp;
    auto& o = m.opt;
    static const uint64_t norm[] = {64, 96, 128, 256, 256, 512, 1024, 1024, 4096};
    o.normal_block_size = norm[R(9)];
    o.huge_block_size = o.normal_block_size * (4 + 4 * R(8)) + (P(1, 4) ? 16 * R(16) : 0);
    if (P(1, 40)) {
        o = Arena::Options::GetDefaultOptions();
    }
    if (giants && P(1, 2)) {
        (P(1, 2) ? o.huge_block_size : o.normal_block_size) = (1ULL << 31) * (1 + R(3)) + 16 * R(8);
    }
    o.suggested_init_block_size = P(1, 3) ? o.normal_block_size : 16 * R(1 + o.normal_block_size / 8);
    if (giants && P(1, 3)) {
        o.suggested_init_block_size = (1ULL << 32) + 16 * R(1000);
    }
    if (P(1, 12)) {  // room for hundreds of allocations and cleanups in one block
        (P(1, 2) ? o.suggested_init_block_size : o.normal_block_size) = 1024 * (8 + R(25));
        o.huge_block_size = std::max(o.huge_block_size, 4 * o.normal_block_size);
    }
    o.block_alloc = &blk_alloc;
    o.block_dealloc = &blk_dealloc;
    o.logger_func = P(1, 4) ? nullptr : &on_log;
    m.hooks = metrics || !P(1, 8);
    m.metrics = metrics;
    if (metrics) {
        o.on_arena_init = &metrics_probe_on_arena_init;
        o.on_arena_reset = &metrics_probe_on_arena_reset;
        o.on_arena_allocation = &metrics_probe_on_arena_allocation;
        o.on_arena_newblock = &metrics_probe_on_arena_newblock;
        o.on_arena_destruction = &metrics_probe_on_arena_destruction;
    } else if (m.hooks) {
        bool all = P(3, 4);
        o.on_arena_init = all || P(1, 2) ? &hk_init : nullptr;
        o.on_arena_reset = all || P(1, 2) ? &hk_reset : nullptr;
        o.on_arena_allocation = all || P(1, 2) ? &hk_alloc : nullptr;
        o.on_arena_newblock = all || P(1, 2) ? &hk_newblock : nullptr;
        o.on_arena_destruction = all || P(1, 2) ? &hk_destroy : nullptr;
    }
    m.id = next_id++;
    void* st = arena_storage();
    memset(st, 0xBB, sizeof(Arena));
    LOG("new arena: normal %llu huge %llu init %llu%s", (unsigned long long)o.normal_block_size, (unsigned long long)o.huge_block_size,
        (unsigned long long)o.suggested_init_block_size, metrics ? " metrics" : m.hooks ? " hooks" : "");
    cur = &m;
    m.born = fake_now_ns;
    evs.clear();
    init_locs.clear();
    m.a = make_at(R(metrics ? 6 : 4), st, o, &m.place);
    if (!metrics && o.on_arena_init != nullptr) {
        ORACLE("A07", "A07/init-count", evs.size() == 1 && evs[0].k == Hk::Init, "%zu hook events while an arena was created", evs.size());
        m.cookie = evs.empty() ? nullptr : evs[0].cookie;
        if (!init_locs.empty()) {
            std::string got = init_locs[0].first + ":" + std::to_string(init_locs[0].second);
            ORACLE("M01 A07", "M01/creation-place", got == m.place, "the init hook got %s, the arena was created at %s", got.c_str(),
                   m.place.c_str());
        }
    }
    want.push_back({Hk::Init, m.a, m.cookie, 0, 0, nullptr});
    models.push_back(std::move(mp));
    ORACLE("A03 A04", "A03/eager-block", calls.empty(), "creating an arena obtained a block");
    audit(m, true);
    cur = nullptr;
}

void destroy_arena(size_t i) {
    vh::NoTrack nt;
    Model& m = *models[i];
    cur = &m;
    LOG("destroy arena (%zu blocks, %zu cleanups)", m.blks.size(), m.pend.size());
    verify_content(m, "before destruction");
    want.push_back({Hk::Destroy, m.a, m.cookie, m.sum, wasted(m), nullptr});
    m.in_release = true;
    {
        vh::Track t;
        m.a->~Arena();
    }
    EVENT("arena-destroyed");
    m.in_release = false;
    memset(static_cast<void*>(m.a), 0xEE, sizeof(Arena));
    __real_free(m.a);
    ORACLE("A02 A08", "A02/cleanup-not-run", m.pend.empty(), "%zu cleanups did not run at the destruction", m.pend.size());
    ORACLE("A03 A08", "A03/block-kept", m.blks.empty(), "%zu blocks were not returned at the destruction", m.blks.size());
    if (!m.blks.empty()) {
        vh::harness_error("blocks kept");
    }
    match_events();
    cur = nullptr;
    models.erase(models.begin() + int64_t(i));
}

// -------------------------------------------------------------------------------------------------- A10
struct Val
{
    int copies = 0, moves = 0;
    int v = 0;
    Val() = default;
    explicit Val(int x) : v(x) {}
    Val(const Val& o) : copies(o.copies + 1), moves(o.moves), v(o.v) {}
    Val(Val&& o) noexcept : copies(o.copies), moves(o.moves + 1), v(o.v) { o.v = -1; }
};
struct Rec
{
    ArenaManagedCreateOnlyTag;
    Val a, b;
    const Val* ref;
    std::unique_ptr<int> up;
    uint64_t made;
    static inline uint64_t count = 0;
    Rec(const Val& x, Val&& y, const Val& z, std::unique_ptr<int> u) : a(x), b(std::move(y)), ref(&z), up(std::move(u)), made(++count) { entered(this); }
    Rec() : ref(nullptr), made(++count) { entered(this); }
};
struct AllocLast
{
    ArenaManagedCreateOnlyTag;
    int x;
    pmr::memory_resource* r;
    int which;
    AllocLast(int v, pmr::polymorphic_allocator<AllocLast> al) : x(v), r(al.resource()), which(1) { entered(this); }
    explicit AllocLast(int v) : x(v), r(nullptr), which(0) { entered(this); }
    explicit AllocLast(pmr::polymorphic_allocator<AllocLast> al) : x(77), r(al.resource()), which(1) { entered(this); }
};
struct ArenaFirst
{
    ArenaManagedCreateOnlyTag;
    Arena* a;
    int x;
    explicit ArenaFirst(int v) : a(nullptr), x(v) { entered(this); }
    ArenaFirst(Arena& ar, int v) : a(&ar), x(v) { entered(this); }
    explicit ArenaFirst(Arena& ar) : a(&ar), x(5) { entered(this); }
};
struct Both
{
    ArenaManagedCreateOnlyTag;
    Arena* a{nullptr};
    pmr::memory_resource* r{nullptr};
    Both(Arena& ar, int) : a(&ar) { entered(this); }
    Both(int, pmr::polymorphic_allocator<Both> al) : r(al.resource()) { entered(this); }
};
// types that take N arguments, and the resource, the arena or nothing besides
template <size_t>
using Int = int;
template <typename Seq>
struct ManyAlloc;
template <size_t... I>
struct ManyAlloc<std::index_sequence<I...>>
{
    ArenaManagedCreateOnlyTag;
    std::array<int, sizeof...(I) + 1> v;
    pmr::memory_resource* r;
    explicit ManyAlloc(Int<I>... x, pmr::polymorphic_allocator<> al = {}) : v{x..., -1}, r(al.resource()) { entered(this); }
};
template <typename Seq>
struct ManyArena;
template <size_t... I>
struct ManyArena<std::index_sequence<I...>>
{
    ArenaManagedCreateOnlyTag;
    std::array<int, sizeof...(I) + 1> v;
    Arena* a;
    explicit ManyArena(Int<I>... x) : v{x..., -1}, a(nullptr) { entered(this); }
    explicit ManyArena(Arena& ar, Int<I>... x) : v{x..., -1}, a(&ar) { entered(this); }
};
template <typename Seq>
struct ManyPlain;
template <size_t... I>
struct ManyPlain<std::index_sequence<I...>>
{
    ArenaManagedCreateOnlyTag;
    std::array<int, sizeof...(I) + 1> v;
    explicit ManyPlain(Int<I>... x) : v{x..., -1} { entered(this); }
};
template <size_t... I>
void many(Model& m, int kind, int x, std::index_sequence<I...> /*unused*/) {
    LOG("Create<type of kind %d>(%zu arguments)", kind, sizeof...(I));
    vh::step(32, uint64_t(kind), sizeof...(I));
    using Seq = std::index_sequence<I...>;
    const std::array<int, sizeof...(I) + 1> w{(x + int(I))..., -1};
    if (kind == 0) {
        auto* p = create<ManyAlloc<Seq>>(m, false, [&] { return m.a->Create<ManyAlloc<Seq>>((x + int(I))...); });
        ORACLE("A10", "A10/many-allocator", p == nullptr || (p->v == w && p->r == m.a->get_memory_resource()),
               "the type did not get its %zu arguments and the resource of the arena", sizeof...(I));
    } else if (kind == 1) {
        auto* p = create<ManyArena<Seq>>(m, false, [&] { return m.a->Create<ManyArena<Seq>>((x + int(I))...); });
        ORACLE("A10", "A10/many-arena", p == nullptr || (p->v == w && p->a == m.a), "the type did not get the arena and its %zu arguments",
               sizeof...(I));
    } else {
        auto* p = create<ManyPlain<Seq>>(m, false, [&] { return m.a->Create<ManyPlain<Seq>>((x + int(I))...); });
        ORACLE("A10", "A10/many-plain", p == nullptr || p->v == w, "the type did not get its %zu arguments", sizeof...(I));
    }
}
uint64_t elem_ctor = 0;
struct Elem
{
    ArenaFullManagedTag;
    uint64_t self;
    uint32_t pad{0x5a5a5a5a};
    uint8_t z{};
    Elem() : self(reinterpret_cast<uint64_t>(this)) {
        entered(this);
        ++elem_ctor;
    }
};
struct ElemArena
{
    ArenaFullManagedTag;
    Arena* a;
    uint64_t self;
    explicit ElemArena(Arena& ar) : a(&ar), self(reinterpret_cast<uint64_t>(this)) { entered(this); ++elem_ctor; }
};
struct ElemAlloc
{
    pmr::memory_resource* r;
    uint64_t self;
    explicit ElemAlloc(pmr::polymorphic_allocator<ElemAlloc> al) : r(al.resource()), self(reinterpret_cast<uint64_t>(this)) { entered(this); ++elem_ctor; }
};
struct ElemThrow
{
    ArenaFullManagedTag;
    uint64_t v{3};
    static inline int64_t left = -1;
    ElemThrow() {
        entered(this);
        if (left == 0) {
            throw std::bad_alloc();
        }
        --left;
    }
};
using Var = std::variant<std::monostate, stdb::memory::string, stdb::memory::arena_string>;

template <typename T, typename F>
void arr10(Model& m, uint64_t n, F&& ok) {
    Op op(m);
    LOG("CreateArray<type of size %zu>(%llu)", sizeof(T), (unsigned long long)n);
    vh::step(31, sizeof(T), vh::cls(n));
    elem_ctor = 0;
    stage = {n * sizeof(T), std::max<uint64_t>(8, alignof(T)), alignof(T), n != 0, false};
    T* p = nullptr;
    {
        vh::Track t;
        p = m.a->CreateArray<T>(n);
    }
    bool served = stage.served;
    if (stage.open || n == 0) {
        stage.open = false;
        served = commit_alloc(n * sizeof(T), std::max<uint64_t>(8, alignof(T)), p, alignof(T), false, nullptr);
    }
    if (!served) {
        ORACLE("A06 A10", "A06/array-without-memory", p == nullptr, "an array was created without memory");
        audit(m, false);
        return;
    }
    ORACLE("A10", "A10/array-null", p != nullptr, "the array was not created");
    ORACLE("A10", "A10/array-count", elem_ctor == n, "%llu elements were constructed, %llu requested", (unsigned long long)elem_ctor,
           (unsigned long long)n);
    for (uint64_t i = 0; i < n; ++i) {
        ORACLE("A10", "A10/array-element", ok(p[i]) && p[i].self == reinterpret_cast<uint64_t>(&p[i]), "element %llu of %llu is not initialised in place",
               (unsigned long long)i, (unsigned long long)n);
    }
    EVENT_N("array-elements", n);
    want.push_back({Hk::Alloc, nullptr, m.cookie, n * sizeof(T), 0, &typeid(T)});
    audit(m, false);
}

void op_a10(Model& m) {
    Op op(m);
    int v = int(R(1000));
    switch (R(15)) {
        case 14: {
            int kind = int(R(3));
            switch (R(9)) {
                case 0:
                    many(m, kind, v, std::make_index_sequence<0>());
                    break;
                case 1:
                    many(m, kind, v, std::make_index_sequence<1>());
                    break;
                case 2:
                    many(m, kind, v, std::make_index_sequence<2>());
                    break;
                case 3:
                    many(m, kind, v, std::make_index_sequence<3>());
                    break;
                case 4:
                    many(m, kind, v, std::make_index_sequence<4>());
                    break;
                case 5:
                    many(m, kind, v, std::make_index_sequence<5>());
                    break;
                case 6:
                    many(m, kind, v, std::make_index_sequence<6>());
                    break;
                case 7:
                    many(m, kind, v, std::make_index_sequence<8>());
                    break;
                default:
                    many(m, kind, v, std::make_index_sequence<16>());
            }
            break;
        }
        case 0: {
            LOG("Create<Rec>(const&, &&, const&, unique_ptr)");
            vh::step(30, 0);
            Val x(v);
            Val y(v + 1);
            Val z(v + 2);
            auto u = std::make_unique<int>(v + 3);
            int* raw = u.get();
            uint64_t c = Rec::count;
            auto* p = create<Rec>(m, false, [&] {
                vh::NoTrack nt;
                return m.a->Create<Rec>(x, std::move(y), z, std::move(u));
            });
            if (p != nullptr) {
                ORACLE("A10", "A10/one-object", Rec::count == c + 1, "%llu objects were constructed", (unsigned long long)(Rec::count - c));
                ORACLE("A10", "A10/lvalue", p->a.v == v && p->a.copies == 1 && p->a.moves == 0 && x.v == v, "an lvalue argument was not copied once");
                ORACLE("A10", "A10/rvalue", p->b.v == v + 1 && p->b.copies == 0 && p->b.moves == 1 && y.v == -1, "an rvalue argument was not moved once");
                ORACLE("A10", "A10/reference", p->ref == &z, "a reference argument was not passed through");
                ORACLE("A10", "A10/move-only", p->up.get() == raw && *p->up == v + 3 && u == nullptr, "a move-only argument was not passed through");
                p->up.reset();
            }
            break;
        }
        case 1: {
            LOG("Create<AllocLast>(int)");
            vh::step(30, 1);
            auto* p = create<AllocLast>(m, false, [&] { return m.a->Create<AllocLast>(v); });
            if (p != nullptr) {
                ORACLE("A10", "A10/allocator-last", p->which == 1 && p->x == v && p->r == m.a->get_memory_resource(), "the type did not get the resource of the arena as last argument");
            }
            break;
        }
        case 2: {
            LOG("Create<AllocLast>()");
            vh::step(30, 2);
            auto* p = create<AllocLast>(m, false, [&] { return m.a->Create<AllocLast>(); });
            if (p != nullptr) {
                ORACLE("A10", "A10/allocator-only", p->which == 1 && p->x == 77 && p->r == m.a->get_memory_resource(), "the type did not get the resource of the arena");
            }
            break;
        }
        case 3: {
            LOG("Create<ArenaFirst>(int)");
            vh::step(30, 3);
            auto* p = create<ArenaFirst>(m, false, [&] { return m.a->Create<ArenaFirst>(v); });
            if (p != nullptr) {
                ORACLE("A10", "A10/arena-first", p->a == m.a && p->x == v, "the type did not get the arena as first argument");
            }
            auto* q = create<ArenaFirst>(m, false, [&] { return m.a->Create<ArenaFirst>(); });
            if (q != nullptr) {
                ORACLE("A10", "A10/arena-only", q->a == m.a && q->x == 5, "the type did not get the arena");
            }
            break;
        }
        case 4: {
            LOG("Create<Both>(int)");
            vh::step(30, 4);
            auto* p = create<Both>(m, false, [&] { return m.a->Create<Both>(v); });
            if (p != nullptr) {
                ORACLE("A10", "A10/both", p->a == nullptr && p->r == m.a->get_memory_resource(), "a type that accepts an allocator did not get it");
            }
            break;
        }
        case 5: {
            LOG("Create<Rec>()");
            vh::step(30, 5);
            auto* p = create<Rec>(m, false, [&] { return m.a->Create<Rec>(); });
            if (p != nullptr) {
                ORACLE("A10", "A10/no-arguments", p->ref == nullptr && p->a.v == 0, "default construction failed");
            }
            break;
        }
        case 6:
            arr10<Elem>(m, R(20), [](Elem& e) { return e.pad == 0x5a5a5a5a && e.z == 0; });
            break;
        case 7:
            arr10<ElemArena>(m, R(20), [&](ElemArena& e) { return e.a == m.a; });
            break;
        case 8:
            arr10<ElemAlloc>(m, R(20), [&](ElemAlloc& e) { return e.r == m.a->get_memory_resource(); });
            break;
        case 9: {
            LOG("Create<variant<string, arena_string>>");
            vh::step(30, 9);
            std::string text(R(600), char('a' + R(26)));
            constructing = true;
            stage = {};
            bool as_arena = P(1, 2);
            Var* p = nullptr;
            uint64_t sum0 = m.a->SpaceAllocated();
            {
                vh::NoTrack nt;
                // no exact prediction: the string allocates from the arena by itself. Use an arena of its own.
                Arena::Options o = Arena::Options::GetDefaultOptions();
                Arena own(o);
                p = as_arena ? own.Create<Var>(stdb::memory::arena_string(text.data(), text.size(), own.get_memory_resource()))
                             : own.Create<Var>(stdb::memory::string(text.data(), text.size()));
                ORACLE("A10", "A10/variant", p != nullptr && p->index() == (as_arena ? 2 : 1), "the variant was not created from its argument");
                if (as_arena) {
                    auto& s = std::get<2>(*p);
                    ORACLE("A10", "A10/variant-value", std::string_view(s.data(), s.size()) == text, "another value");
                } else {
                    auto& s = std::get<1>(*p);
                    ORACLE("A10", "A10/variant-value", std::string_view(s.data(), s.size()) == text, "another value");
                }
            }
            ORACLE("A10", "A10/other-arena", sum0 == m.a->SpaceAllocated(), "another arena was used");
            constructing = false;
            break;
        }
        case 10: {
            uint64_t n = 1 + R(10);
            LOG("CreateArray<ElemThrow>(%llu)", (unsigned long long)n);
            vh::step(30, 10, n);
            ElemThrow::left = P(1, 2) ? int64_t(R(n)) : -1;
            bool throws = ElemThrow::left >= 0;
            stage = {n * sizeof(ElemThrow), 8, 8, true, false};
            ElemThrow* p = m.a->CreateArray<ElemThrow>(n);
            bool served = stage.served;
            if (stage.open) {
                stage.open = false;
                served = commit_alloc(n * sizeof(ElemThrow), 8, p, 8, false, nullptr);
            }
            ORACLE("A06 A10", "A06/array-throw", (p != nullptr) == (served && !throws), "an array whose element ran out of memory was reported as created");
            if (p != nullptr) {
                want.push_back({Hk::Alloc, nullptr, m.cookie, n * sizeof(ElemThrow), 0, &typeid(ElemThrow)});
            }
            break;
        }
        case 11: {
            LOG("Create<pmr containers>");
            vh::step(30, 11);
            vh::NoTrack nt;
            Arena own(Arena::Options::GetDefaultOptions());
            auto* p = own.Create<pmr::vector<pmr::string>>(size_t(R(9)), pmr::string(size_t(R(300)), 'q'));
            ORACLE("A10", "A10/pmr-resource", p != nullptr && p->get_allocator().resource() == own.get_memory_resource(), "the container does not use the arena");
            if (p != nullptr) {
                for (auto& s : *p) {
                    ORACLE("A10 A09", "A10/pmr-nested", s.get_allocator().resource() == own.get_memory_resource(), "a nested element does not use the arena");
                }
            }
            auto* q = own.Create<pmr::string>("some text that is longer than the small buffer of a string");
            ORACLE("A10", "A10/pmr-string", q != nullptr && q->get_allocator().resource() == own.get_memory_resource() &&
                                              *q == "some text that is longer than the small buffer of a string",
                   "the string is not what was asked for");
            break;
        }
        case 12: {
            uint64_t n = R(40);
            LOG("Create<Pod>(value)");
            vh::step(30, 12);
            struct Agg
            {
                int a;
                int b;
            };
            Agg src{int(n), 7};
            auto* p = create<Agg>(m, false, [&] { return m.a->Create<Agg>(src); });
            if (p != nullptr) {
                ORACLE("A10", "A10/copy-pod", p->a == src.a && p->b == 7, "the copy differs");
            }
            auto* d = create<double>(m, false, [&] { return m.a->Create<double>(double(v) / 2); });
            if (d != nullptr) {
                ORACLE("A10", "A10/scalar", *d == double(v) / 2, "the scalar differs");
            }
            break;
        }
        default: {
            LOG("CreateArray<int>(%d)", v % 50);
            vh::step(30, 13);
            auto n = uint64_t(v % 50);
            auto* p = m.a->CreateArray<int>(n);
            if (commit_alloc(n * sizeof(int), 8, p, 4, false, nullptr)) {
                for (uint64_t i = 0; i < n; ++i) {
                    ORACLE("A10", "A10/int-array", p[i] == 0, "element %llu is %d", (unsigned long long)i, p[i]);
                    p[i] = -1;
                }
                want.push_back({Hk::Alloc, nullptr, m.cookie, n * sizeof(int), 0, &typeid(int)});
            }
        }
    }
    cur = &m;
    audit(m, false);
}

// -------------------------------------------------------------------------------------------------- histories
void burst(Model& m) {
    const uint64_t kind = R(4);
    uint64_t n = vh::rng.pick<uint64_t>({20, 70, 140, 270, 300, 540});
    LOG("burst of %llu", (unsigned long long)n);
    vh::step(23, kind, n);
    EVENT("burst");
    for (uint64_t i = 0; i < n; ++i) {
        switch (kind) {
            case 0:
                op_alloc_cleanup(m, R(10));
                break;
            case 1:
                op_own<8>(m);
                break;
            case 2:
                op_create_obj<Obj<4>>(m);
                break;
            default:
                op_alloc(m, R(20), 8);
        }
    }
}

void any_op(Model& m) {
    const std::string& pr = vh::prop;
    if (P(1, pr == "A02" ? 300 : 1500)) {
        burst(m);
        return;
    }
    uint64_t w = R(100);
    bool many_cleanups = pr == "A02" || P(1, 10);
    bool oversized = pr == "A06" ? P(1, 5) : P(1, 60);
    if (pr == "A10" && P(2, 3)) {
        op_a10(m);
        return;
    }
    if (w < 4 || (pr == "A03" && w < 9)) {
        op_reset(m);
    } else if (w < 6 || (pr == "A08" && w < 14)) {
        op_move(m);
    } else if (w < 34) {
        op_alloc(m, any_size(m, oversized), pick_align());
    } else if (w < 46 || (many_cleanups && w < 60)) {
        op_alloc_cleanup(m, any_size(m, oversized));
    } else if (w < 54) {
        op_resource(m, any_size(m, oversized));
    } else if (w < 60) {
        oversized = oversized && !giants;  // the elements would be constructed, all of them
        uint64_t n = oversized ? pick_huge() / (1 + R(20)) : R(30);
        switch (R(4)) {
            case 0:
                op_array<int>(m, n);
                break;
            case 1:
                op_array<Pod<24, 8>>(m, n);
                break;
            case 2:
                op_array<Pod<32, 32>>(m, n);
                break;
            default:
                op_array<char>(m, oversized ? n : giants ? R(5000) : pick_size(m));
        }
    } else if (w < 68) {
        if (P(1, 6)) {
            op_own_base(m);
        } else {
            P(1, 2) ? op_own<8>(m) : op_own<100>(m);
        }
    } else if (w < 76) {
        switch (R(5)) {
            case 0:
                op_create_pod<Pod<1, 1>>(m);
                break;
            case 1:
                op_create_pod<Pod<20, 4>>(m);
                break;
            case 2:
                op_create_pod<Pod<64, 32>>(m);
                break;
            case 3:
                op_create_pod<Pod<16, 16>>(m);
                break;
            default:
                op_create_pod<Pod<200, 8>>(m);
        }
    } else if (w < 88) {
        switch (R(8)) {
            case 5:
                op_create_empty<Empty<Nothing>>(m);
                break;
            case 6:
                op_create_empty<Empty<EmptyAligned>>(m);
                break;
            case 7:
                op_create_empty<Empty<Virtual>>(m);
                break;
            case 0:
                op_create_obj<Obj<4>>(m);
                break;
            case 1:
                op_create_obj<Obj<16>>(m);
                break;
            case 2:
                op_create_obj<Obj<100>>(m);
                break;
            case 3:
                op_create_obj<Obj<16, 16>>(m);
                break;
            default:
                op_create_obj<Obj<16, 32>>(m);
        }
    } else if (w < 91) {
        Op op(m);
        LOG("Create<SkipObj>");
        vh::step(19);
        create<SkipObj>(m, false, [&] { return m.a->Create<SkipObj>(next_id++); });
        audit(m, false);
    } else if (w < 94) {
        Op op(m);
        uint64_t d = R(4);
        LOG("Create<Nest>(depth %llu)", (unsigned long long)d);
        vh::step(20, d);
        create<Nest>(m, true, [&] { return m.a->Create<Nest>(next_id++, d); });
        audit(m, false);
    } else if (w < 98) {
        Op op(m);
        uint64_t n = R(5);
        uint64_t i = next_id++;
        LOG("Create<ResUser>(%llu chunks)", (unsigned long long)n);
        vh::step(21, n);
        create<ResUser>(m, true, [&] { return m.a->Create<ResUser>(i, n); });
        audit(m, false);
    } else {
        Op op(m);
        throw_in_ctor = P(1, 2);
        bool th = throw_in_ctor;
        LOG("Create<Thrower>(%s)", th ? "throws" : "ok");
        vh::step(22, th);
        create<Thrower>(m, true, [&] { return m.a->Create<Thrower>(1); }, th);
        throw_in_ctor = false;
        audit(m, false);
    }
}

// -------------------------------------------------------------------------------------------------- active cleanups
// cleanups that use the arena they run for: allocate, create, register further cleanups
namespace re {
struct B
{
    char* p;
    uint64_t n;
    bool back;
};
struct Mem
{
    char* p;
    uint64_t n;
    uint64_t tag;
};
struct Reg
{
    void* element;
    uint64_t round;     // of the release it was registered in (0: outside)
    char* mem;          // the memory it owns in the arena
    uint64_t n;
    uint64_t tag;
    int runs;
};
struct World
{
    Arena* a{nullptr};
    std::vector<B> blocks;
    std::vector<Mem> live;
    std::vector<Reg> regs;
    bool releasing{false};
    uint64_t rounds{0};
    uint64_t budget{0};
    int64_t fail_in{-1};
    int building{0};
    bool no_resource{false};  // the heap was exhausted when the arena was made
};
World* w = nullptr;
uint64_t logged = 0;
void log_line(const std::string&) { ++logged; }

void* get(size_t n) {
    vh::NoTrack nt;
    if (n > (4U << 20) || (w->fail_in >= 0 && w->fail_in-- == 0)) {
        ++vh::injected;
        EVENT("block-alloc-failed");
        return nullptr;
    }
    auto* p = static_cast<char*>(__real_malloc(n));
    memset(p, 0x5A, n);
    w->blocks.push_back({p, n, false});
    EVENT(w->releasing ? "block-alloc-in-cleanup" : "block-alloc");
    return p;
}
void put(void* p) {
    vh::NoTrack nt;
    B* b = nullptr;
    for (auto& x : w->blocks) {
        if (x.p == p && !x.back) {
            b = &x;
        }
    }
    ORACLE("A03", "A03/active-unknown-block", b != nullptr, "a pointer was returned that is no block held");
    ORACLE("A03", "A03/active-outside", w->releasing, "a block was returned outside of reset and destruction");
    uint64_t open = 0;
    for (auto& r : w->regs) {
        open += r.runs == 0;
    }
    ORACLE("A02 A03", "A03/active-early", open == 0, "%llu cleanups have not run when a block is returned", (unsigned long long)open);
    if (b == nullptr) {
        vh::harness_error("unknown block");
    }
    b->back = true;
    memset(b->p, 0xDD, b->n);
    __real_free(b->p);
}
void contents(const char* when) {
    for (auto& m : w->live) {
        ORACLE("A01 A02", "A01/active-content", intact(m.p, m.n, m.tag), "%llu bytes changed (%s)", (unsigned long long)m.n, when);
    }
}
// memory the arena handed out
void served(char* p, uint64_t n, uint64_t tag_given = 0) {
    bool inside = false;
    for (auto& b : w->blocks) {
        inside = inside || (!b.back && p >= b.p + kHeader && p + n <= b.p + b.n);
    }
    ORACLE("A01", "A01/active-inside", inside, "memory handed out in a cleanup does not lie in a block");
    for (auto& m : w->live) {
        ORACLE("A01", "A01/active-overlap", p + n <= m.p || m.p + m.n <= p || n == 0 || m.n == 0, "memory handed out in a cleanup overlaps a live allocation");
    }
    ORACLE("A05", "A05/active-class", n == 0 || (w->a->check(p) == ArenaContainStatus::BlockUsed && w->a->check(p + n - 1) == ArenaContainStatus::BlockUsed),
           "memory handed out is not classified as used");
    uint64_t t = tag_given;
    if (t == 0) {
        t = next_id++;
        fill(p, n, t);
    }
    w->live.push_back({p, n, t});
    vh::state(40, w->releasing, vh::cls(n), w->blocks.size());
}
void act();
void ran(void* element) {
    vh::NoTrack nt;
    EVENT(w->releasing ? "active-cleanup-run" : "cleanup-run");
    ORACLE("A02", "A02/active-early", w->releasing, "a cleanup ran outside of reset and destruction");
    size_t at = w->regs.size();
    for (size_t i = 0; i < w->regs.size(); ++i) {
        if (w->regs[i].element == element && (at == w->regs.size() || w->regs[i].runs == 0)) {
            at = i;
        }
    }
    ORACLE("A02", "A02/active-unknown", at < w->regs.size(), "a cleanup ran that was not registered");
    if (at == w->regs.size()) {
        vh::harness_error("unknown cleanup");
    }
    ++w->regs[at].runs;
    ORACLE("A02", "A02/active-twice", w->regs[at].runs == 1, "a cleanup ran %d times", w->regs[at].runs);
    if (w->regs[at].round == 0) {
        for (size_t i = at + 1; i < w->regs.size(); ++i) {
            ORACLE("A02", "A02/active-order", w->regs[i].round != 0 || w->regs[i].runs == 1, "a cleanup ran before a newer one");
        }
    }
    if (w->regs[at].mem != nullptr) {
        ORACLE("A01 A02", "A02/active-object", intact(w->regs[at].mem, w->regs[at].n, w->regs[at].tag), "the object changed before its cleanup");
    }
    if (P(1, 4)) {
        contents("in a cleanup");
    }
    for (uint64_t k = P(1, 2) ? R(4) : 0; k > 0; --k) {
        act();
    }
}
void ran_fn(void* p) { ran(p); }
template <size_t N>
struct Thing
{
    ArenaFullManagedTag;
    uint64_t id;
    char body[N];
    explicit Thing(uint64_t i) : id(i) { fill(body, N, i); }
    ~Thing() {
        if (w->building == 0) {
            ran(this);
        }
    }
};
template <size_t N>
struct Heap
{
    char body[N]{};
    ~Heap() {
        if (w->building == 0) {
            ran(this);
        }
    }
};
void reg(void* e, char* mem, uint64_t n, uint64_t tag) {
    w->regs.push_back({e, w->releasing ? w->rounds : 0, mem, n, tag, 0});
    EVENT(w->releasing ? "cleanup-registered-in-cleanup" : "cleanup-registered");
    vh::state(41, w->releasing, w->regs.size());
}
template <size_t N>
void make() {
    uint64_t id = next_id++;
    ++w->building;
    auto* t = w->a->Create<Thing<N>>(id);
    --w->building;
    if (t != nullptr) {
        served(reinterpret_cast<char*>(t->body), N, id);
        reg(t, t->body, N, id);
    }
}
uint64_t size() { return P(1, 4) ? R(2000) : P(1, 12) ? R(60000) : R(80); }
void act() {
    if (w->releasing && w->budget == 0) {
        return;
    }
    if (w->releasing) {
        --w->budget;
    }
    uint64_t kind = R(7);
    LOG("%suse %llu", w->releasing ? "  in cleanup: " : "", (unsigned long long)kind);
    vh::step(42, kind, w->releasing);
    switch (kind) {
        case 0: {
            uint64_t n = size();
            if (char* p = w->a->AllocateAligned(n, vh::rng.pick<uint64_t>({8, 8, 16, 32}))) {
                served(p, n);
            }
            break;
        }
        case 1: {
            if (w->no_resource) {
                break;
            }
            uint64_t n = size();
            try {
                served(static_cast<char*>(w->a->get_memory_resource()->allocate(n, 8)), n);
            } catch (const std::bad_alloc&) {
            }
            break;
        }
        case 2: {
            uint64_t n = 1 + size();
            if (char* p = w->a->AllocateAlignedAndAddCleanup(n, &ran_fn)) {
                served(p, n);
                reg(p, w->live.back().p, n, w->live.back().tag);
            }
            break;
        }
        case 3: make<8>(); break;
        case 4: make<300>(); break;
        case 5: {
            auto* h = new Heap<24>;
            if (w->a->Own(h)) {
                reg(h, nullptr, 0, 0);
            } else {
                ++w->building;
                delete h;
                --w->building;
            }
            break;
        }
        default: {
            uint64_t n = R(50);
            if (auto* p = w->a->CreateArray<uint64_t>(n)) {
                served(reinterpret_cast<char*>(p), n * 8);
            }
        }
    }
}
uint64_t held(const B** last = nullptr) {
    uint64_t n = 0;
    for (auto& b : w->blocks) {
        if (!b.back) {
            ++n;
            if (last != nullptr) {
                *last = &b;
            }
        }
    }
    return n;
}
void all_ran(const char* when) {
    for (auto& r : w->regs) {
        ORACLE("A02", "A02/active-not-run", r.runs == 1, "a cleanup registered %s ran %d times by the end of %s", r.round != 0 ? "by another cleanup" : "before", r.runs, when);
    }
    w->regs.clear();
    w->live.clear();
}
void run() {
    World world;
    w = &world;
    Arena::Options o = Arena::Options::GetDefaultOptions();
    o.normal_block_size = 1ULL << RR(7, 12);
    o.huge_block_size = o.normal_block_size * 16;
    o.suggested_init_block_size = P(1, 2) ? o.normal_block_size : 16 * R(125);
    o.block_alloc = &get;
    o.block_dealloc = &put;
    o.logger_func = nullptr;
    std::optional<Arena> a;
    if (P(1, 10)) {
        // no heap memory for the memory resource: everything else of the arena works
        const bool listens = P(1, 2);
        o.logger_func = listens ? &log_line : nullptr;
        logged = 0;
        w->no_resource = true;
        {
            vh::Track t;
            vh::fail_in = 0;
            vh::fail_all_after = false;
            a.emplace(o);
            vh::fail_in = -1;
        }
        ORACLE("A06", "A06/resource-logged", logged == (listens ? 1 : 0), "an arena that got no memory for its resource said so %llu times", (unsigned long long)logged);
        EVENT("arena-without-resource");
    } else {
        a.emplace(o);
    }
    w->a = &*a;
    LOG("active cleanups: normal %llu init %llu", (unsigned long long)o.normal_block_size, (unsigned long long)o.suggested_init_block_size);
    for (uint64_t round = RR(1, 4); round > 0; --round) {
        for (uint64_t k = R(P(1, 6) ? 60 : 14); k > 0; --k) {
            w->fail_in = P(1, 25) ? 0 : -1;
            act();
        }
        w->fail_in = P(1, 8) ? int64_t(R(3)) : -1;
        contents("before a release");
        ++w->rounds;
        w->budget = R(30);
        w->releasing = true;
        if (round == 1) {
            LOG("destroy");
            a.reset();
            w->releasing = false;
            all_ran("the destruction");
            ORACLE("A03", "A03/active-block-kept", held() == 0, "%llu blocks were not returned at the destruction", (unsigned long long)held());
        } else {
            LOG("reset");
            bool any = !w->blocks.empty();
            char* head = nullptr;
            for (auto& b : w->blocks) {
                head = head == nullptr && !b.back ? b.p : head;
            }
            a->Reset();
            w->releasing = false;
            all_ran("the reset");
            const B* b = nullptr;
            uint64_t n = held(&b);
            ORACLE("A03", "A03/active-reset", n == (any ? 1 : 0), "%llu blocks are held after a reset", (unsigned long long)n);
            if (n == 1) {
                ORACLE("A03", "A03/active-first", b->p == head, "another block than the first one was retained");
                ORACLE("A04", "A04/active-reset", a->SpaceAllocated() == b->n && a->SpaceRemains() == b->n - kHeader, "%llu of %llu bytes are allocated after a reset",
                       (unsigned long long)a->SpaceAllocated(), (unsigned long long)b->n);
            } else {
                ORACLE("A04", "A04/active-reset", a->SpaceAllocated() == 0, "memory is reported without a block");
            }
            ORACLE("A02", "A02/active-left", a->cleanups() == 0, "%llu cleanups are recorded after a reset", (unsigned long long)a->cleanups());
        }
    }
    EVENT("active-case");
    for (auto& b : w->blocks) {
        if (!b.back) {
            __real_free(b.p);
        }
    }
    w = nullptr;
}
}  // namespace re

}  // namespace

void vh::run_case() {
    NoTrack nt;
    if (P(1, prop == "A02" || prop == "A03" ? 8 : prop == "A01" || prop == "A04" || prop == "A05" || prop == "A06" ? 25 : 4000)) {
        re::run();
        return;
    }
    models.clear();
    inert.clear();
    stale.clear();
    calls.clear();
    evs.clear();
    want.clear();
    block_fail_in = -1;
    block_fail_more = 0;
    stage = {};
    objects_alive = 0;
    bool metrics = prop == "M01" && !P(1, 6);
    giants = P(1, 25);
    met = {};
    local_arena_metrics.reset();
    uint64_t na = 1 + (P(1, 3) ? R(2) : 0);
    for (uint64_t i = 0; i < na; ++i) {
        new_arena(metrics);
    }
    uint64_t steps = 4 + R(P(1, 4) ? 150 : 40);
    bool faults = prop == "A06" ? P(4, 5) : P(1, 5);
    for (uint64_t s = 0; s < steps; ++s) {
        if (faults && block_fail_in < 0 && P(1, 6)) {
            block_fail_in = int64_t(R(3));
            block_fail_more = P(1, 3) ? R(4) : 0;
        }
        if (metrics && P(1, 4)) {
            static const int64_t ms[] = {0, 1, 2, 5, 6, 10, 11, 50, 51, 100, 101, 200, 201, 500, 501, 1000, 1001, 5000};
            fake_now_ns += ms[R(18)] * 1000000;
        }
        if (models.empty() || (models.size() < 4 && P(1, 60)) || (metrics && models.size() < 4 && P(1, 10))) {
            new_arena(metrics);
        }
        size_t i = R(models.size());
        if (P(1, 50) || (metrics && P(1, 12))) {
            destroy_arena(i);
            continue;
        }
        if (!inert.empty() && P(1, 8)) {
            size_t k = R(inert.size());
            check_inert(inert[k]);
            destroy_inert(k);
        }
        any_op(*models[i]);
    }
    block_fail_in = -1;
    while (!models.empty()) {
        if (!inert.empty() && P(1, 2)) {
            destroy_inert(R(inert.size()));
        }
        destroy_arena(R(models.size()));
    }
    while (!inert.empty()) {
        destroy_inert(inert.size() - 1);
    }
    local_arena_metrics = LocalArenaMetrics();
    ORACLE("A02 A06", "A02/objects-left", objects_alive == 0, "%d objects were never destroyed", objects_alive);
    ORACLE("A03", "A03/blocks-left", block_bytes == 0, "%llu bytes of blocks were never returned", (unsigned long long)block_bytes);
}

auto vh::scripts() -> std::vector<Script> { return {}; }
void vh::finish() {}
