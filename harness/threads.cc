// A11: threads working on their own arenas, strings and vectors, against the same work done alone; under ThreadSanitizer
// and, with more pressure, without it. M02: conservation of the global metrics under concurrent reports.
#include "vh.hpp"

#include <atomic>
#include <memory>
#include <optional>
#include <sstream>
#include <thread>
#include <unordered_map>

#include "arena/arena.hpp"
#include "arena/metrics.hpp"
#include "container/stdb_vector.hpp"
#include "optparse/optparse.hpp"
#include "string/arena_string.hpp"
#include "string/string.hpp"

using namespace stdb::memory;
using stdb::container::stdb_vector;
using vh::P;
using vh::R;
using vh::Rng;

namespace {

// ------------------------------------------------------------------------------------------------- schedule
std::atomic<uint64_t> arrivals{0};
std::atomic<int> ready{0};
std::atomic<bool> noise{false};

struct Delay
{
    Rng r;
    explicit Delay(uint64_t s) : r(s) {}
    void here() {
        if (!noise.load(std::memory_order_relaxed)) {
            return;
        }
        switch (r.below(12)) {
            case 0:
                std::this_thread::yield();
                break;
            case 1:
                for (volatile uint64_t i = 0, n = r.below(400); i < n; i = i + 1) {
                }
                break;
            case 2:
                if (r.below(20) == 0) {
                    std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
                }
                break;
            default:
                break;
        }
    }
};

void start_line(int n) {
    ready.fetch_add(1);
    while (ready.load() < n) {
        std::this_thread::yield();
    }
}

// ------------------------------------------------------------------------------------------------- the work of a thread
struct Digest
{
    uint64_t h{0};
    uint64_t n{0};
    void add(uint64_t x) {
        h = vh::mix64(h ^ vh::mix64(x));
        ++n;
    }
    void add(const char* p, size_t k) {
        uint64_t x = k;
        for (size_t i = 0; i < k; ++i) {
            x = x * 1099511628211ULL ^ static_cast<unsigned char>(p[i]);
        }
        add(x);
    }
};

struct Cnt
{
    ArenaFullManagedTag;
    uint64_t* c;
    uint64_t v;
    Cnt(uint64_t* p, uint64_t x) : c(p), v(x) {}
    ~Cnt() { *c = vh::mix64(*c ^ v); }
};

void bump(void* p) { ++*static_cast<uint64_t*>(p); }

std::string text(Rng& r) {
    static const size_t around[] = {0, 1, 7, 8, 15, 16, 22, 23, 24, 25, 63, 64, 200, 253, 254, 255, 256, 300, 1000, 5000};
    size_t n = around[r.below(20)];
    std::string s(n, 'x');
    for (auto& c : s) {
        c = char(r.below(30) == 0 ? 0 : 'a' + r.below(20));
    }
    return s;
}

template <typename S>
void string_ops(Digest& d, Rng& r, Delay& dl, std::vector<S>& v) {
    auto t = text(r);
    auto& s = v[r.below(v.size())];
    auto& o = v[r.below(v.size())];
    size_t pos = r.below(s.size() + 1);
    size_t len = r.below(40);
    dl.here();
    switch (r.below(20)) {
        case 0:
            s.append(t.data(), t.size());
            break;
        case 1:
            s.insert(pos, t.data(), t.size());
            break;
        case 2:
            s.replace(pos, len, t.data(), t.size());
            break;
        case 3:
            s.erase(pos, len);
            break;
        case 4:
            s = o;
            break;
        case 5:
            s += o;
            break;
        case 6:
            s.resize(r.below(600), 'z');
            break;
        case 7:
            s.reserve(r.below(800));
            break;
        case 8:
            s.assign(t.data(), t.size());
            break;
        case 9:
            s.push_back(char(r.below(256)));
            break;
        case 10:
            if (!s.empty()) {
                s[r.below(s.size())] = 'Q';
                s.pop_back();
            }
            break;
        case 11:
            d.add(s.find(t.data(), 0, t.size() < 3 ? t.size() : 3));
            d.add(s.rfind('a'));
            d.add(s.find_first_of("xyz"));
            d.add(s.find_last_not_of("abc"));
            break;
        case 12:
            d.add(std::hash<S>()(s));
            d.add(uint64_t(s.compare(o) < 0));
            d.add(s == o);
            break;
        case 13:
            s.insert(pos, s);
            if (s.size() > 20000) {
                s.clear();
            }
            break;
        case 14: {
            S c(s);
            c.append(o);
            s.swap(c);
            break;
        }
        case 15:
            s.shrink_to_fit();
            break;
        case 16: {
            std::ostringstream os;
            os << s;
            d.add(os.str().data(), os.str().size());
            break;
        }
        case 17: {
            auto sub = s.substr(pos, len);
            d.add(sub.data(), sub.size());
            break;
        }
        case 18: {
            std::string u(s.data(), s.size());
            d.add(u.data(), u.size());
            std::string_view sv(s);
            d.add(sv.size());
            break;
        }
        default: {
            S m(std::move(s));
            s = std::move(m);
        }
    }
    if (s.size() > 20000) {
        s.clear();
    }
    d.add(s.data(), s.size());
    d.add(s.c_str()[s.size()] == 0);
}

template <typename T>
void vector_ops(Digest& d, Rng& r, Delay& dl, std::vector<stdb_vector<T>>& v, T (*mk)(uint64_t), uint64_t (*val)(const T&)) {
    auto& s = v[r.below(v.size())];
    auto& o = v[r.below(v.size())];
    auto n = r.below(40);
    auto pos = r.below(s.size() + 1);
    uint64_t x = r.next() % 100000;
    dl.here();
    switch (r.below(14)) {
        case 0:
        case 1:
            s.push_back(mk(x));
            break;
        case 2:
            s.insert(s.begin() + int64_t(pos), mk(x));
            break;
        case 3:
            s.insert(s.begin() + int64_t(pos), n, mk(x));
            break;
        case 4:
            if (pos < s.size()) {
                s.erase(s.begin() + int64_t(pos));
            }
            break;
        case 5:
            s.resize(n);
            break;
        case 6:
            s.reserve(n * 7);
            break;
        case 7:
            s.shrink_to_fit();
            break;
        case 8:
            s = o;
            break;
        case 9:
            s.assign(n, mk(x));
            break;
        case 10: {
            stdb_vector<T> c(s);
            c.push_back(mk(x));
            s.swap(c);
            break;
        }
        case 11: {
            stdb_vector<T> c(std::move(s));
            s = std::move(c);
            break;
        }
        case 12:
            if (!s.empty()) {
                s.pop_back();
            }
            break;
        default:
            s.emplace_back(mk(x));
    }
    if (s.size() > 3000) {
        s.clear();
    }
    d.add(s.size());
    uint64_t h = 0;
    for (auto& e : s) {
        h = h * 31 + val(e);
    }
    d.add(h);
}

// objects that every thread reads and nobody changes
struct Common
{
    std::vector<string> ss;
    std::vector<std::unique_ptr<arena_string>> as;
    std::vector<stdb_vector<uint64_t>> vi;
    stdb_vector<std::string> vs;
};

template <typename S>
void read_string(Digest& d, Rng& r, const S& s, const S& o) {
    auto t = text(r);
    switch (r.below(8)) {
        case 0:
            d.add(s.data(), s.size());
            d.add(uint64_t(s.c_str()[s.size()]));
            break;
        case 1:
            d.add(s.find(t.data(), 0, t.size() < 3 ? t.size() : 3));
            d.add(s.rfind('a'));
            d.add(s.find_first_not_of("xyz"));
            d.add(s.find_last_of("abc"));
            break;
        case 2:
            d.add(std::hash<S>()(s));
            d.add(uint64_t(s.compare(o) < 0));
            d.add(s == o);
            break;
        case 3:
            d.add(s.capacity() >= s.size());
            d.add(s.empty());
            if (!s.empty()) {
                d.add(uint64_t(s.front()) * 256 + uint64_t(s.back()));
                d.add(uint64_t(s[s.size() / 2]) + uint64_t(s.at(s.size() - 1)));
            }
            break;
        case 4: {
            uint64_t h = 0;
            for (char c : s) {
                h = h * 31 + uint64_t(c);
            }
            for (auto it = s.rbegin(); it != s.rend(); ++it) {
                h = h * 31 + uint64_t(*it);
            }
            d.add(h);
            break;
        }
        case 5: {
            std::ostringstream os;
            os << s;
            d.add(os.str().data(), os.str().size());
            break;
        }
        case 6: {
            std::string_view sv(s);
            char buf[64];
            d.add(sv.size());
            d.add(buf, s.copy(buf, 64, s.size() / 2));
            break;
        }
        default:
            d.add(s < o);
            d.add(uint64_t(s.begin() <= s.end()));
    }
}

void read_common(Digest& d, Rng& r, const Common& c) {
    switch (r.below(5)) {
        case 0:
        case 1: {
            const auto& s = c.ss[r.below(c.ss.size())];
            read_string(d, r, s, c.ss[r.below(c.ss.size())]);
            // the count a large string shares its buffer by is not atomic (string.hpp at
            // clone), so only the owner copies or clones it: read it instead
            string mine(s.data(), s.size());
            mine.push_back('!');
            d.add(mine.data(), mine.size());
            break;
        }
        case 2:
            read_string(d, r, *c.as[r.below(c.as.size())], *c.as[r.below(c.as.size())]);
            break;
        case 3: {
            const auto& v = c.vi[r.below(c.vi.size())];
            const auto& w = c.vi[r.below(c.vi.size())];
            uint64_t h = v.size() + uint64_t(v.empty());
            for (auto x : v) {
                h = h * 31 + x;
            }
            if (!v.empty()) {
                h += v.front() + v.back() + v[v.size() / 2] + v.at(0);
            }
            d.add(h);
            d.add(uint64_t(v == w) * 2 + uint64_t(v < w));
            stdb_vector<uint64_t> mine(v);
            mine.push_back(1);
            d.add(mine.size());
            break;
        }
        default: {
            stdb_vector<std::string> mine(c.vs);
            mine.emplace_back("mine");
            for (auto& x : mine) {
                d.add(x.data(), x.size());
            }
        }
    }
}

void parse_options(Digest& d, Rng& r) {
    namespace op = stdb::optparse;
    op::OptionParser p;
    p.program("prog");
    p.add_option("-n", "--number").dest("n").action(op::Action::Store).type(op::Type::Long);
    p.add_option("-l", "--list").dest("l").action(op::Action::Append).type(op::Type::Int);
    p.add_option("-d", "--double").dest("d").action(op::Action::Store).type(op::Type::Double).default_value("0.5");
    p.add_option("-t", "--true").dest("t").action(op::Action::StoreTrue).type(op::Type::Bool);
    p.add_option("-s", "--string").dest("s").action(op::Action::Store).env("VERIF_THREADS_UNSET");
    p.add_option("-c", "--choice").dest("c").action(op::Action::Store).choices({"red", "green"});
    std::string num = std::to_string(r.below(1000000));
    std::string list = "--list=" + std::to_string(r.below(100)) + "," + num;
    std::string word = text(r).substr(0, 20);
    for (auto& ch : word) {
        ch = ch == 0 ? 'z' : ch;
    }
    std::vector<const char*> av{"prog", "-n", num.c_str(), list.c_str(), "-c", r.below(2) != 0 ? "red" : "blue", "-t"};
    if (r.below(2) != 0) {
        av.push_back("--unknown");
        av.push_back("left");
    }
    if (!word.empty()) {
        av.push_back("-s");
        av.push_back(word.c_str());
    }
    auto st = p.parse_args(int(av.size()), av.data());
    d.add(uint64_t(st.get<int64_t>("n").value_or(-1)));
    if (auto l = st.get_list<int32_t>("l")) {
        for (auto x : *l) {
            d.add(uint64_t(x));
        }
    }
    d.add(uint64_t(st.get<double>("d").value_or(0) * 1000));
    d.add(st.get<bool>("t").value_or(false));
    auto s = st.get<std::string>("s").value_or("?");
    d.add(s.data(), s.size());
    s = st.get<std::string>("c").value_or("?");
    d.add(s.data(), s.size());
    d.add(uint64_t(p.get_raw_argc()));
    for (auto* x : p.invalid_args()) {
        d.add(x, strlen(x));
    }
    s = p.format_help();
    d.add(s.data(), s.size());
}

thread_local uint64_t refuse_blocks = 0;  // how many blocks the allocator refuses to this thread
thread_local uint64_t logged = 0;

struct Owned
{
    uint64_t* c;
    explicit Owned(uint64_t* p) : c(p) {}
    ~Owned() { ++*c; }
};

auto work(uint64_t seed, uint64_t steps, std::vector<string>& given, const Common& common) -> Digest {
    Digest d;
    Rng r(seed);
    Delay dl(seed ^ 0xABCD);
    local_arena_metrics.reset();
    uint64_t destroyed = 0;
    uint64_t bumped = 0;
    {
        Arena::Options o = Arena::Options::GetDefaultOptions();
        o.normal_block_size = 256 << r.below(4);
        o.suggested_init_block_size = 128 << r.below(4);
        o.huge_block_size = o.normal_block_size * 64;
        // block addresses decide padding: the same alignment in every run
        o.block_alloc = [](uint64_t n) -> void* {
            if (n > (1ULL << 30)) {
                return nullptr;
            }
            if (refuse_blocks != 0) {
                --refuse_blocks;
                return nullptr;
            }
            void* p = nullptr;
            return posix_memalign(&p, 256, n) == 0 ? p : nullptr;
        };
        o.block_dealloc = [](void* p) { free(p); };
        o.logger_func = r.below(3) == 0 ? nullptr : +[](const std::string& s) { logged = vh::mix64(logged + s.size()); };
        logged = 0;
        refuse_blocks = 0;
        o.on_arena_init = &metrics_probe_on_arena_init;
        o.on_arena_reset = &metrics_probe_on_arena_reset;
        o.on_arena_allocation = &metrics_probe_on_arena_allocation;
        o.on_arena_newblock = &metrics_probe_on_arena_newblock;
        o.on_arena_destruction = &metrics_probe_on_arena_destruction;
        std::optional<Arena> a;
        a.emplace(o);
        Arena sa(Arena::Options::GetDefaultOptions());
        std::vector<string> ss(3);
        for (auto& x : given) {
            ss.push_back(std::move(x));
        }
        given.clear();
        std::vector<stdb_vector<uint64_t>> vi(2);
        std::vector<stdb_vector<string>> vs(2);
        {
            std::vector<arena_string> as;
            for (int i = 0; i < 3; ++i) {
                as.emplace_back(sa.get_memory_resource());
            }
            for (uint64_t i = 0; i < steps; ++i) {
                dl.here();
                switch (r.below(14)) {
                    case 10:
                        read_common(d, r, common);
                        read_common(d, r, common);
                        break;
                    case 11:
                        if (r.below(6) == 0) {
                            parse_options(d, r);
                        } else {
                            read_common(d, r, common);
                        }
                        break;
                    case 12: {
                        // requests that cannot be served
                        switch (r.below(4)) {
                            case 0:
                                d.add(a->AllocateAligned(~0ULL - r.below(80)) == nullptr);
                                break;
                            case 1:
                                d.add(a->CreateArray<uint64_t>(~0ULL - r.below(80)) == nullptr);
                                break;
                            case 2:
                                refuse_blocks = 1;
                                d.add(a->AllocateAligned(100000) == nullptr);
                                refuse_blocks = 0;
                                break;
                            default:
                                try {
                                    (void)a->get_memory_resource()->allocate(~0ULL - r.below(80), 8);
                                } catch (const std::bad_alloc&) {
                                    d.add(1);
                                }
                        }
                        d.add(logged);
                        break;
                    }
                    case 13:
                        switch (r.below(4)) {
                            case 0:
                                d.add(a->Own(new Owned(&bumped)));
                                break;
                            case 1: {
                                auto* v = a->Create<std::pmr::vector<std::pmr::string>>();
                                v->emplace_back("a text that does not fit into the object itself");
                                v->emplace_back("b");
                                d.add(v->size());
                                break;
                            }
                            case 2: {
                                int here = 0;
                                d.add(uint64_t(a->check(reinterpret_cast<const char*>(&here))));
                                d.add(a->get_memory_resource()->is_equal(*sa.get_memory_resource()));
                                d.add(a->get_memory_resource()->is_equal(*std::pmr::get_default_resource()));
                                break;
                            }
                            default: {
                                Arena tmp(o);
                                (void)tmp.Create<Cnt>(&destroyed, i);
                                Arena moved(std::move(tmp));
                                d.add(moved.Create<Cnt>(&destroyed, i + 1)->v);
                            }
                        }
                        break;
                    case 0: {
                        auto n = r.below(400);
                        auto* p = a->AllocateAligned(n, 8 << r.below(3));
                        memset(p, int(i), n);
                        d.add(a->SpaceRemains() / 64);
                        if (n > 0) {  // an empty allocation at the end of a block may have the address of another block
                            d.add(uint64_t(a->check(p)));
                        }
                        break;
                    }
                    case 1:
                        d.add(a->Create<Cnt>(&destroyed, i)->v);
                        break;
                    case 2:
                        d.add(a->AllocateAlignedAndAddCleanup(r.below(100), &bump, &bumped) != nullptr);
                        break;
                    case 3: {
                        auto* v = a->Create<std::pmr::vector<int>>();
                        for (int k = 0; k < 20; ++k) {
                            v->push_back(k);
                        }
                        d.add(v->size());
                        break;
                    }
                    case 4:
                        if (r.below(4) == 0) {
                            a->Reset();
                        } else if (r.below(4) == 0) {
                            a.reset();
                            a.emplace(o);
                        } else {
                            d.add(uint64_t(*a->CreateArray<uint32_t>(1 + r.below(50))));
                        }
                        break;
                    case 5:
                    case 6:
                        string_ops(d, r, dl, ss);
                        break;
                    case 7:
                        if (sa.SpaceAllocated() < 4000000) {
                            string_ops(d, r, dl, as);
                        }
                        break;
                    case 8:
                        vector_ops<uint64_t>(
                          d, r, dl, vi, [](uint64_t x) { return x; }, [](const uint64_t& x) { return x; });
                        break;
                    default:
                        vector_ops<string>(
                          d, r, dl, vs,
                          [](uint64_t x) { return string(x % 5 == 0 ? "a text that does not fit into the object itself" : "short"); },
                          [](const string& s) { return uint64_t(s.size()) + uint64_t(s.empty() ? 0 : s[0]); });
                }
                d.add(destroyed);
                d.add(bumped);
            }
        }
    }
    auto& l = local_arena_metrics;
    for (uint64_t x : {l.init_count, l.destruct_count, l.alloc_count, l.newblock_count, l.reset_count, l.space_allocated, l.space_used}) {
        d.add(x);
    }
    d.add(destroyed);
    d.add(bumped);
    l.reset();
    return d;
}

void case_a11() {
    int n = 2 + int(R(5));
    uint64_t steps = 20 + R(150);
    std::vector<uint64_t> seeds;
    bool twins = P(1, 4);  // all threads do the very same work
    uint64_t s0 = vh::rng.next();
    for (int i = 0; i < n; ++i) {
        seeds.push_back(twins ? s0 : vh::rng.next());
    }
    std::vector<Digest> alone(size_t(n), Digest{});
    // strings of this thread, of which every other thread gets clones of its own
    std::vector<string> originals;
    {
        Rng r(vh::rng.next());
        for (size_t i = R(5); i > 0; --i) {
            auto t = text(r);
            string x(t.data(), t.size());
            if (P(1, 2)) {
                x.reserve(t.size() + R(4000));
            }
            if (P(1, 3)) {
                originals.push_back(x);
            }
            originals.push_back(std::move(x));
        }
    }
    Arena common_arena(Arena::Options::GetDefaultOptions());
    Common common;
    {
        Rng r(vh::rng.next());
        for (size_t i = 2 + R(4); i > 0; --i) {
            auto t = text(r);
            common.ss.emplace_back(t.data(), t.size());
            if (P(1, 2)) {
                common.ss.push_back(common.ss.back());
            }
            common.as.push_back(std::make_unique<arena_string>(t.data(), t.size(), common_arena.get_memory_resource()));
            common.vi.emplace_back(t.size(), t.size());
            common.vs.push_back(t);
        }
    }
    std::vector<std::vector<string>> clones(size_t(n) * 2);
    for (auto& c : clones) {
        for (auto& x : originals) {
            c.push_back(x.clone());
            EVENT("clones-given-to-threads");
        }
    }
    uint64_t s1 = vh::rng.next();
    noise = false;
    for (int i = 0; i < n; ++i) {
        // in a thread of its own, as later
        std::thread([&, i] { alone[size_t(i)] = work(seeds[size_t(i)], steps, clones[size_t(n + i)], common); }).join();
    }
    noise = P(2, 3);
    ready = 0;
    std::vector<Digest> got(size_t(n), Digest{});
    std::vector<uint64_t> order(size_t(n), 0);
    std::vector<std::thread> th;
    arrivals = 0;
    for (int i = 0; i < n; ++i) {
        th.emplace_back([&, i] {
            start_line(n);
            got[size_t(i)] = work(seeds[size_t(i)], steps, clones[size_t(i)], common);
            order[size_t(i)] = arrivals.fetch_add(1);
        });
    }
    if (!originals.empty()) {
        Digest d;
        Rng r(s1);
        Delay dl(r.next());
        for (uint64_t k = 0; k < steps / 4; ++k) {
            string_ops(d, r, dl, originals);
        }
    }
    for (auto& t : th) {
        t.join();
    }
    for (int i = 0; i < n; ++i) {
        vh::step(uint64_t(n), vh::cls(steps), order[size_t(i)]);
        vh::state(11, uint64_t(n), uint64_t(i), order[size_t(i)]);
        EVENT("thread-run");
        EVENT_N("results-compared", got[size_t(i)].n);
        ORACLE("A11", "A11/different-result", got[size_t(i)].h == alone[size_t(i)].h && got[size_t(i)].n == alone[size_t(i)].n,
               "thread %d of %d got other results than alone", i, n);
    }
    vh::step(s0);
    LOG("%d threads, %d steps each%s", n, int(steps), noise ? ", with delays" : "");
}

// ------------------------------------------------------------------------------------------------- M02
struct Totals
{
    uint64_t c[9]{};
    uint64_t sz[8]{};
    uint64_t lf[8]{};
    std::unordered_map<std::string, uint64_t> loc;
};

void zero_check(bool& bad) {
    auto& l = local_arena_metrics;
    for (uint64_t x : {l.init_count, l.destruct_count, l.alloc_count, l.newblock_count, l.reset_count, l.space_allocated, l.space_resettled,
                       l.space_used, l.space_wasted}) {
        bad = bad || x != 0;
    }
    for (size_t i = 0; i < 8; ++i) {
        bad = bad || l.alloc_size_bucket_counter[i] != 0 || l.destruct_lifetime_bucket_counter[i] != 0;
    }
    for (auto& [k, v] : l.arena_alloc_counter) {
        bad = bad || v != 0;
    }
}

const char* const files[] = {"/a/one.cc", "/a/two.cc", "/a/three.cc", "four.hpp", "/b/five.cpp", "six", "/c/seven.cc", "eight.cc"};

void case_m02() {
    int n = 2 + int(R(7));
    uint64_t rounds = 1 + R(P(1, 4) ? 300 : 25);
    bool renders = P(1, 2);
    int style = int(R(3));  // 0 synthetic counters, 1 real arenas, 2 both
    uint32_t line0 = uint32_t(vh::rng.next() % 100000);  // fresh locations in every case
    uint32_t lines = uint32_t(1 + R(30));
    bool fresh_map = P(1, 2);
    noise = P(1, 2);
    auto& g = global_arena_metrics;
    g.reset();
    if (fresh_map) {
        const std::lock_guard<std::mutex> lock(g.arena_alloc_mutex);
        g.arena_alloc_counter.clear();
    }
    std::vector<Totals> tot(size_t(n), Totals{});
    std::vector<char> not_zero(size_t(n), 0);
    std::vector<std::vector<uint32_t>> seqs{size_t(n), std::vector<uint32_t>{}};
    std::atomic<uint32_t> seq{0};
    std::atomic<bool> done{false};
    std::atomic<uint64_t> rendered{0};
    std::atomic<bool> bad_render{false};
    ready = 0;
    uint64_t s0 = vh::rng.next();
    int all = n + (renders ? 1 : 0);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
        th.emplace_back([&, i] {
            Rng r(vh::mix64(s0 + uint64_t(i)));
            Delay dl(r.next());
            auto& t = tot[size_t(i)];
            auto& l = local_arena_metrics;
            l.reset();
            start_line(all);
            for (uint64_t k = 0; k < rounds; ++k) {
                if (style != 1) {
                    uint64_t* f[9] = {&l.init_count,      &l.destruct_count,  &l.alloc_count, &l.newblock_count, &l.reset_count,
                                      &l.space_allocated, &l.space_resettled, &l.space_used,  &l.space_wasted};
                    for (auto* p : f) {
                        if (r.below(3) != 0) {
                            *p += r.below(1000);
                        }
                    }
                    for (size_t b = 0; b < 8; ++b) {
                        if (r.below(2) != 0) {
                            l.alloc_size_bucket_counter[b] += r.below(100);
                            l.destruct_lifetime_bucket_counter[b] += r.below(100);
                        }
                    }
                    uint64_t nl = r.below(4);
                    for (uint64_t q = 0; q < nl; ++q) {
                        const char* file = files[r.below(8)];
                        uint32_t line = line0 + uint32_t(r.below(lines));
                        l.increase_arena_alloc_counter(boost::source_location(file, line, "f"), r.below(10000));
                    }
                }
                if (style != 0) {
                    Arena::Options o = Arena::Options::GetDefaultOptions();
                    o.normal_block_size = 256;
                    o.suggested_init_block_size = 256;
                    o.on_arena_init = &metrics_probe_on_arena_init;
                    o.on_arena_reset = &metrics_probe_on_arena_reset;
                    o.on_arena_allocation = &metrics_probe_on_arena_allocation;
                    o.on_arena_newblock = &metrics_probe_on_arena_newblock;
                    o.on_arena_destruction = &metrics_probe_on_arena_destruction;
                    Arena a(o);
                    for (uint64_t q = 0, e = r.below(8); q < e; ++q) {
                        (void)a.AllocateAligned(r.below(500));
                    }
                    if (r.below(2) != 0) {
                        a.Reset();
                    }
                }
                // what is about to be reported
                uint64_t v[9] = {l.init_count,      l.destruct_count,  l.alloc_count, l.newblock_count, l.reset_count,
                                 l.space_allocated, l.space_resettled, l.space_used,  l.space_wasted};
                for (int q = 0; q < 9; ++q) {
                    t.c[q] += v[q];
                }
                for (size_t b = 0; b < 8; ++b) {
                    t.sz[b] += l.alloc_size_bucket_counter[b];
                    t.lf[b] += l.destruct_lifetime_bucket_counter[b];
                }
                for (auto& [key, x] : l.arena_alloc_counter) {
                    t.loc[key] += x;
                }
                dl.here();
                uint32_t b0 = seq.fetch_add(1, std::memory_order_relaxed);
                l.report_to_global_metrics();
                uint32_t b1 = seq.fetch_add(1, std::memory_order_relaxed);
                if (seqs[size_t(i)].size() < 64) {
                    seqs[size_t(i)].push_back(b1 - b0);
                    seqs[size_t(i)].push_back(b0);
                }
                bool bad = false;
                zero_check(bad);
                if (bad) {
                    not_zero[size_t(i)] = 1;
                }
                dl.here();
            }
        });
    }
    if (renders) {
        th.emplace_back([&] {
            Delay dl(s0 ^ 99);
            start_line(all);
            while (!done.load(std::memory_order_relaxed)) {
                std::string s = g.string();
                if (s.find("init_count") == std::string::npos || s.find("Location") == std::string::npos) {
                    bad_render = true;
                }
                rendered.fetch_add(1, std::memory_order_relaxed);
                dl.here();
            }
        });
    }
    for (int i = 0; i < n; ++i) {
        th[size_t(i)].join();
    }
    done = true;
    if (renders) {
        th.back().join();
    }
    LOG("%d threads, %d reports each, %d locations, %s%s", n, int(rounds), int(lines * 8),
        style == 0 ? "synthetic counters" : style == 1 ? "real arenas" : "both", renders ? ", report rendered meanwhile" : "");
    EVENT_N("reports", uint64_t(n) * rounds);
    EVENT_N("renderings-during-reports", rendered.load());
    Totals sum;
    for (auto& t : tot) {
        for (int q = 0; q < 9; ++q) {
            sum.c[q] += t.c[q];
        }
        for (int b = 0; b < 8; ++b) {
            sum.sz[b] += t.sz[b];
            sum.lf[b] += t.lf[b];
        }
        for (auto& [k, v] : t.loc) {
            sum.loc[k] += v;
        }
    }
    uint64_t overlapped = 0;
    for (auto& s : seqs) {
        for (size_t k = 0; k + 1 < s.size(); k += 2) {
            overlapped += s[k] > 1;
            vh::step(s[k], s[k + 1]);
            vh::state(21, s[k], s[k + 1] & 63);
        }
    }
    EVENT_N("reports-overlapping-another", overlapped);
    uint64_t got[9] = {g.init_count.load(),      g.destruct_count.load(),  g.alloc_count.load(), g.newblock_count.load(), g.reset_count.load(),
                       g.space_allocated.load(), g.space_resettled.load(), g.space_used.load(),  g.space_wasted.load()};
    static const char* const names[9] = {"init_count",      "destruct_count",  "alloc_count", "newblock_count", "reset_count",
                                         "space_allocated", "space_resettled", "space_used",  "space_wasted"};
    for (int q = 0; q < 9; ++q) {
        ORACLE("M02", "M02/counter", got[q] == sum.c[q], "%s is %llu, %llu were reported", names[q], (unsigned long long)got[q],
               (unsigned long long)sum.c[q]);
    }
    for (size_t b = 0; b < 8; ++b) {
        ORACLE("M02", "M02/size-bucket", g.alloc_size_bucket_counter[b].load() == sum.sz[b], "bucket %zu is %llu, %llu were reported", b,
               (unsigned long long)g.alloc_size_bucket_counter[b].load(), (unsigned long long)sum.sz[b]);
        ORACLE("M02", "M02/lifetime-bucket", g.destruct_lifetime_bucket_counter[b].load() == sum.lf[b], "bucket %zu is %llu, %llu were reported", b,
               (unsigned long long)g.destruct_lifetime_bucket_counter[b].load(), (unsigned long long)sum.lf[b]);
    }
    for (auto& [k, v] : sum.loc) {
        auto it = g.arena_alloc_counter.find(k);
        ORACLE("M02", "M02/location-missing", it != g.arena_alloc_counter.end() || v == 0, "location %s is missing", k.c_str());
        if (it != g.arena_alloc_counter.end()) {
            ORACLE("M02", "M02/location", it->second.load() == v, "location %s is %llu, %llu were reported", k.c_str(),
                   (unsigned long long)it->second.load(), (unsigned long long)v);
        }
        EVENT("location-compared");
    }
    for (auto& [k, v] : g.arena_alloc_counter) {
        if (v.load() != 0) {
            ORACLE("M02", "M02/location-invented", sum.loc.contains(k), "location %s was never reported", k.c_str());
        }
    }
    for (int i = 0; i < n; ++i) {
        ORACLE("M02", "M02/local-not-zero", not_zero[size_t(i)] == 0, "thread %d kept counters after reporting", i);
    }
    ORACLE("M02 M03", "M02/rendering", !bad_render.load(), "a report rendered during reporting is broken");
}

}  // namespace

void vh::run_case() {
    if (prop == "A11") {
        case_a11();
    } else {
        case_m02();
    }
}
auto vh::scripts() -> std::vector<Script> { return {}; }
void vh::finish() {}
