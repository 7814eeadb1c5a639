// A09: standard pmr containers on an arena, step by step against the same containers on the default resource. While an
// operation on an arena container runs, any use of the heap or of the default resource is an escape.
#include "vh.hpp"

#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <memory_resource>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "arena/arena.hpp"

using namespace stdb::memory;
using vh::P;
using vh::R;

namespace {
bool in_op = false;

struct TrapResource : std::pmr::memory_resource
{
    void* do_allocate(size_t n, size_t al) override {
        if (in_op) {
            in_op = false;
            ORACLE("A09", "A09/default-resource", false, "the default resource was used for %zu bytes", n);
        }
        return std::pmr::new_delete_resource()->allocate(n, al);
    }
    void do_deallocate(void* p, size_t n, size_t al) override { std::pmr::new_delete_resource()->deallocate(p, n, al); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
TrapResource trap;

struct Blk
{
    char* p;
    size_t n;
};
std::vector<Blk> blks;
void* blk_alloc(size_t n) {
    vh::NoTrack nt;
    bool o = in_op;
    in_op = false;
    EVENT("block-alloc");
    auto* p = static_cast<char*>(__real_malloc(n));
    memset(p, 0xB7, n);
    blks.push_back({p, n});
    in_op = o;
    return p;
}
void blk_dealloc(void* p) {
    vh::NoTrack nt;
    size_t i = 0;
    while (i < blks.size() && blks[i].p != p) {
        ++i;
    }
    ORACLE("A09", "A09/unknown-block", i < blks.size(), "unknown block released");
    __real_free(p);
    blks.erase(blks.begin() + int64_t(i));
}

struct Scope
{
    uint64_t a0;
    std::optional<vh::Track> t;
    Scope() {
        t.emplace();
        in_op = true;
        a0 = vh::allocs;
    }
    ~Scope() {
        in_op = false;
        t.reset();
        ORACLE("A09", "A09/heap", vh::allocs == a0, "%llu heap allocations during an operation on an arena container",
               (unsigned long long)(vh::allocs - a0));
        EVENT("container-operation");
    }
};

struct World
{
    std::optional<Arena> a[2];
};
World* w = nullptr;

void inside(int ar, const void* p, size_t n, const char* what) {
    if (n == 0 || p == nullptr) {
        return;
    }
    auto* c = static_cast<const char*>(p);
    EVENT("address-checked");
    ORACLE("A09", "A09/outside-arena",
           w->a[ar]->check(c) == ArenaContainStatus::BlockUsed && w->a[ar]->check(c + n - 1) == ArenaContainStatus::BlockUsed,
           "%s does not lie in allocated space of its arena", what);
}

std::string rnd_text() {
    size_t n = P(1, 3) ? R(14) : P(1, 8) ? R(2000) : R(80);
    std::string s(n, '\0');
    for (auto& c : s) {
        c = char(P(1, 20) ? 0 : 'a' + R(26));
    }
    return s;
}

using PS = std::pmr::string;

// ---- visiting: contents compare equal, storage is inside
void conf(int ar, const PS& s) {
    auto* self = reinterpret_cast<const char*>(&s);
    if (s.data() >= self && s.data() < self + sizeof(PS)) {
        return;  // in the object, which is checked by its owner
    }
    inside(ar, s.data(), s.capacity() + 1, "a string");
}
void conf(int, int) {}
void conf(int, char) {}
void conf(int, double) {}
template <typename A, typename B>
void conf(int ar, const std::pair<A, B>& p);
template <typename C>
    requires requires(const C& c) { c.begin(); }
void conf(int ar, const C& c);
template <typename A, typename B>
void conf(int ar, const std::pair<A, B>& p) {
    conf(ar, p.first);
    conf(ar, p.second);
}
template <typename C>
    requires requires(const C& c) { c.begin(); }
void conf(int ar, const C& c) {
    for (const auto& e : c) {
        inside(ar, &e, sizeof e, "an element");
        conf(ar, e);
    }
    if constexpr (requires { c.data(); c.capacity(); }) {
        inside(ar, c.data(), c.capacity() * sizeof(*c.data()), "a buffer");
    }
}

struct Slot
{
    virtual ~Slot() = default;
    virtual void op() = 0;
    virtual void audit() = 0;
    int ar{0};
};

template <typename C, typename D>
struct Typed : Slot
{
    // the object itself lives outside of the arena
    std::optional<C> x[2];
    D y[2];
    explicit Typed(int which) {
        ar = which;
        for (auto& c : x) {
            Scope s;
            c.emplace(w->a[ar]->get_memory_resource());
        }
    }
    void audit() override {
        for (int i = 0; i < 2; ++i) {
            ORACLE("A09", "A09/size", x[i]->size() == y[i].size(), "sizes differ: %zu, %zu on the heap", x[i]->size(), y[i].size());
            ORACLE("A09", "A09/content", equal(*x[i], y[i]), "contents differ from the container on the heap");
            ORACLE("A09", "A09/resource", x[i]->get_allocator().resource() == w->a[ar]->get_memory_resource(), "the container lost its resource");
            conf(ar, *x[i]);
            vh::state(1, typeid(C).hash_code(), vh::cls(x[i]->size()));
        }
    }
    static bool equal(const C& a, const D& b) {
        if constexpr (requires { a.bucket_count(); }) {
            if (a.size() != b.size()) {
                return false;
            }
            for (auto& [k, v] : a) {
                auto it = b.find(typename D::key_type(k.data(), k.size()));
                if (it == b.end() || !eq(v, it->second)) {
                    return false;
                }
            }
            return true;
        } else {
            return eq(a, b);
        }
    }
    template <typename A, typename B>
    static bool eq(const A& a, const B& b) {
        if constexpr (std::is_arithmetic_v<A>) {
            return a == b;
        } else if constexpr (requires { a.first; }) {
            return eq(a.first, b.first) && eq(a.second, b.second);
        } else {
            auto i = a.begin();
            auto j = b.begin();
            for (; i != a.end() && j != b.end(); ++i, ++j) {
                if (!eq(*i, *j)) {
                    return false;
                }
            }
            return i == a.end() && j == b.end();
        }
    }
    virtual void grow(C& c, D& d) = 0;
    virtual void shrink(C& c, D& d) {
        if (c.empty()) {
            return;
        }
        auto k = int64_t(R(c.size()));
        if constexpr (requires { c.bucket_count(); }) {
            auto key = d.begin()->first;
            d.erase(key);
            PS k2(key.data(), key.size(), std::pmr::new_delete_resource());
            Scope s;
            c.erase(k2);
        } else {
            d.erase(std::next(d.begin(), k));
            Scope s;
            c.erase(std::next(c.begin(), k));
        }
    }
    void op() override {
        int i = int(R(2));
        auto& c = *x[i];
        auto& d = y[i];
        uint64_t k = R(20);
        vh::step(typeid(C).hash_code(), k < 10 ? 0 : k, vh::cls(c.size()));
        if (k < 10) {
            LOG("grow");
            grow(c, d);
        } else if (k < 13) {
            LOG("erase");
            shrink(c, d);
        } else if (k == 13) {
            LOG("clear");
            d.clear();
            Scope s;
            c.clear();
        } else if (k == 14) {
            LOG("copy assign from the sibling");
            d = y[1 - i];
            Scope s;
            c = *x[1 - i];
        } else if (k == 15) {
            LOG("move assign from the sibling");
            d = std::move(y[1 - i]);
            y[1 - i].clear();
            Scope s;
            c = std::move(*x[1 - i]);
            x[1 - i]->clear();
        } else if (k == 16) {
            LOG("swap");
            std::swap(y[0], y[1]);
            Scope s;
            std::swap(*x[0], *x[1]);
        } else if (k == 17) {
            LOG("rebuild with allocator-extended copy");
            Scope s;
            C tmp(c, w->a[ar]->get_memory_resource());
            c.clear();
            c = std::move(tmp);
        } else if (k == 18) {
            LOG("copy through the other arena");
            Scope s;
            C tmp(c, w->a[1 - ar]->get_memory_resource());
            C back(w->a[ar]->get_memory_resource());
            back = tmp;
            tmp.clear();
            c = std::move(back);
        } else {
            LOG("destroy and recreate");
            C tmp2(c);  // default resource
            {
                Scope s;
                x[i].reset();
            }
            {
                Scope s;
                x[i].emplace(w->a[ar]->get_memory_resource());
                *x[i] = tmp2;
            }
        }
    }
};

struct VecInt : Typed<std::pmr::vector<int>, std::vector<int>>
{
    using Typed::Typed;
    void grow(std::pmr::vector<int>& c, std::vector<int>& d) override {
        int v = int(R(1000));
        auto pos = int64_t(R(c.size() + 1));
        auto n = R(20);
        switch (R(5)) {
            case 0: {
                d.insert(d.begin() + pos, n, v);
                Scope s;
                c.insert(c.begin() + pos, n, v);
                break;
            }
            case 1: {
                d.resize(n * 3, v);
                Scope s;
                c.resize(n * 3, v);
                break;
            }
            case 2: {
                d.shrink_to_fit();
                d.reserve(n);
                Scope s;
                c.shrink_to_fit();
                c.reserve(n);
                break;
            }
            default: {
                d.push_back(v);
                Scope s;
                c.push_back(v);
            }
        }
    }
};
struct VecStr : Typed<std::pmr::vector<PS>, std::vector<std::string>>
{
    using Typed::Typed;
    void grow(std::pmr::vector<PS>& c, std::vector<std::string>& d) override {
        auto t = rnd_text();
        auto pos = int64_t(R(c.size() + 1));
        switch (R(4)) {
            case 0: {
                d.insert(d.begin() + pos, t);
                Scope s;
                c.emplace(c.begin() + pos, t.data(), t.size());
                break;
            }
            case 1: {
                if (d.empty()) {
                    return;
                }
                auto k = R(d.size());
                d[k] += t;
                Scope s;
                c[k].append(t.data(), t.size());
                break;
            }
            default: {
                d.push_back(t);
                Scope s;
                c.emplace_back(t.data(), t.size());
            }
        }
    }
};
struct Str : Typed<PS, std::string>
{
    using Typed::Typed;
    void grow(PS& c, std::string& d) override {
        auto t = rnd_text();
        auto pos = R(c.size() + 1);
        switch (R(4)) {
            case 0: {
                d.insert(pos, t);
                Scope s;
                c.insert(pos, t.data(), t.size());
                break;
            }
            case 1: {
                d.replace(pos, 3, t);
                Scope s;
                c.replace(pos, 3, t.data(), t.size());
                break;
            }
            default: {
                d += t;
                Scope s;
                c.append(t.data(), t.size());
            }
        }
    }
};
struct MapStr : Typed<std::pmr::map<int, PS>, std::map<int, std::string>>
{
    using Typed::Typed;
    void grow(std::pmr::map<int, PS>& c, std::map<int, std::string>& d) override {
        int k = int(R(40));
        auto t = rnd_text();
        d[k] = t;
        Scope s;
        c[k].assign(t.data(), t.size());
    }
};
struct UMap : Typed<std::pmr::unordered_map<PS, int>, std::unordered_map<std::string, int>>
{
    using Typed::Typed;
    void grow(std::pmr::unordered_map<PS, int>& c, std::unordered_map<std::string, int>& d) override {
        auto t = rnd_text();
        int v = int(R(99));
        d[t] = v;
        PS tmp(t.data(), t.size(), std::pmr::new_delete_resource());
        Scope s;
        c[tmp] = v;
    }
};
struct ListVec : Typed<std::pmr::list<std::pmr::vector<int>>, std::list<std::vector<int>>>
{
    using Typed::Typed;
    void grow(std::pmr::list<std::pmr::vector<int>>& c, std::list<std::vector<int>>& d) override {
        size_t n = R(30);
        int v = int(R(9));
        if (P(1, 3) && !d.empty()) {
            d.front().resize(n, v);
            Scope s;
            c.front().resize(n, v);
        } else {
            d.emplace_front(n, v);
            Scope s;
            c.emplace_front(n, v);
        }
    }
};
struct Deq : Typed<std::pmr::deque<double>, std::deque<double>>
{
    using Typed::Typed;
    void grow(std::pmr::deque<double>& c, std::deque<double>& d) override {
        double v = double(R(1000)) / 7;
        bool f = P(1, 2);
        size_t n = 1 + R(60);
        for (size_t i = 0; i < n; ++i) {
            f ? d.push_front(v) : d.push_back(v);
        }
        Scope s;
        for (size_t i = 0; i < n; ++i) {
            f ? c.push_front(v) : c.push_back(v);
        }
    }
};
struct Deep : Typed<std::pmr::map<int, std::pmr::vector<std::pmr::map<int, PS>>>, std::map<int, std::vector<std::map<int, std::string>>>>
{
    using Typed::Typed;
    void grow(std::pmr::map<int, std::pmr::vector<std::pmr::map<int, PS>>>& c, std::map<int, std::vector<std::map<int, std::string>>>& d) override {
        int k = int(R(6));
        auto t = rnd_text();
        int k2 = int(R(5));
        {
            auto& v = d[k];
            if (v.empty() || P(1, 3)) {
                v.emplace_back();
            }
            v.back()[k2] = t;
        }
        bool grow_it = false;
        auto it = c.find(k);
        grow_it = it == c.end() || it->second.size() != d[k].size();
        Scope s;
        auto& v = c[k];
        if (grow_it) {
            v.emplace_back();
        }
        v.back()[k2].assign(t.data(), t.size());
    }
};
struct SetStr : Typed<std::pmr::set<PS>, std::set<std::string>>
{
    using Typed::Typed;
    void grow(std::pmr::set<PS>& c, std::set<std::string>& d) override {
        auto t = rnd_text();
        d.insert(t);
        Scope s;
        c.emplace(t.data(), t.size());
    }
};

void equality() {
    auto* r0 = w->a[0]->get_memory_resource();
    auto* r1 = w->a[1]->get_memory_resource();
    Arena::memory_resource again(&*w->a[0]);
    std::pmr::monotonic_buffer_resource mono;
    const std::pmr::memory_resource& b0 = *r0;
    EVENT("resource-comparison");
    ORACLE("A09", "A09/equal-self", b0.is_equal(*r0) && *r0 == *r0, "a resource does not equal itself");
    ORACLE("A09", "A09/equal-same-arena", b0.is_equal(again) && again.is_equal(b0), "two resources of one arena differ");
    ORACLE("A09", "A09/equal-other-arena", !b0.is_equal(*r1) && !r1->is_equal(b0) && *r0 != *r1, "resources of two arenas are equal");
    ORACLE("A09", "A09/equal-other-kind", !b0.is_equal(mono) && !b0.is_equal(*std::pmr::new_delete_resource()) && !b0.is_equal(*std::pmr::null_memory_resource()) && !mono.is_equal(b0),
           "an arena resource equals another kind of resource");
}
}  // namespace

void vh::run_case() {
    NoTrack nt;
    std::pmr::set_default_resource(&trap);
    in_op = false;
    {
        World world;
        w = &world;
        for (auto& a : world.a) {
            Arena::Options o = Arena::Options::GetDefaultOptions();
            o.normal_block_size = rng.pick<uint64_t>({256, 1024, 4096});
            o.huge_block_size = o.normal_block_size * (4 + R(60));
            o.suggested_init_block_size = 64 * (1 + R(20));
            o.block_alloc = &blk_alloc;
            o.block_dealloc = &blk_dealloc;
            Track t;
            a.emplace(o);
        }
        std::vector<std::unique_ptr<Slot>> slots;
        size_t n = 1 + R(4);
        for (size_t i = 0; i < n; ++i) {
            int ar = int(R(2));
            uint64_t k = R(9);
            LOG("container kind %d on arena %d", int(k), ar);
            step(k, uint64_t(ar));
            switch (k) {
                case 0:
                    slots.push_back(std::make_unique<VecInt>(ar));
                    break;
                case 1:
                    slots.push_back(std::make_unique<VecStr>(ar));
                    break;
                case 2:
                    slots.push_back(std::make_unique<Str>(ar));
                    break;
                case 3:
                    slots.push_back(std::make_unique<MapStr>(ar));
                    break;
                case 4:
                    slots.push_back(std::make_unique<UMap>(ar));
                    break;
                case 5:
                    slots.push_back(std::make_unique<ListVec>(ar));
                    break;
                case 6:
                    slots.push_back(std::make_unique<Deq>(ar));
                    break;
                case 7:
                    slots.push_back(std::make_unique<SetStr>(ar));
                    break;
                default:
                    slots.push_back(std::make_unique<Deep>(ar));
            }
        }
        equality();
        size_t steps = 5 + R(60);
        std::vector<std::pair<char*, size_t>> raw;  // unrelated memory that was handed out and "deallocated"
        for (size_t i = 0; i < steps; ++i) {
            auto& s = rng.of(slots);
            if (P(1, 8)) {
                // deallocation is a no-op: the memory stays as it is, and is not handed out again
                size_t m = 8 + R(100);
                auto* res = world.a[s->ar]->get_memory_resource();
                auto* p = static_cast<char*>(res->allocate(m, 8));
                memset(p, 0x42, m);
                uint64_t before = world.a[s->ar]->SpaceRemains();
                uint64_t total = world.a[s->ar]->SpaceAllocated();
                res->deallocate(p, m, 8);
                EVENT("explicit-deallocate");
                ORACLE("A09", "A09/deallocate-acts", before == world.a[s->ar]->SpaceRemains() && total == world.a[s->ar]->SpaceAllocated(), "deallocation changed the arena");
                raw.emplace_back(p, m);
            }
            s->op();
            s->audit();
            if (P(1, 5)) {
                for (auto& o : slots) {
                    o->audit();
                }
            }
        }
        for (auto& [p, m] : raw) {
            for (size_t i = 0; i < m; ++i) {
                ORACLE("A09", "A09/reused", p[i] == 0x42, "memory given back to the resource was handed out again");
            }
        }
        equality();
        // containers go before their arena
        {
            Track t;
            slots.clear();
        }
    }
    w = nullptr;
    ORACLE("A09", "A09/blocks-left", blks.empty(), "%zu blocks were never returned", blks.size());
}
auto vh::scripts() -> std::vector<Script> { return {}; }
void vh::finish() {}
