// Differential workload for stdb_vector: a pool of vectors of one element type, every step repeated on std::vector<long>
// models. Element types with observable lifetime keep a ledger of live objects by address.
#pragma once
#include <algorithm>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <numeric>
#include <ranges>
#include <set>
#include <sstream>

#include "vh.hpp"
//
#include "container/stdb_vector.hpp"

namespace vec {
using namespace vh;
using stdb::container::Safety;
using stdb::container::stdb_vector;

struct Boom
{};
inline int64_t throw_in = -1;  // >= 0: that many throwing element operations succeed, the next one throws
inline bool throw_always = false;
inline uint64_t thrown = 0;
inline void may_throw() {
    if (throw_in < 0) {
        return;
    }
    if (throw_in == 0) {
        if (!throw_always) {
            throw_in = -1;
        }
        ++thrown;
        throw Boom{};
    }
    --throw_in;
}

// live element objects by address
struct Ledger
{
    static constexpr size_t N = 1 << 15;
    struct Slot
    {
        const void* p{nullptr};
        uint64_t serial{0};
    };
    std::vector<Slot> t = std::vector<Slot>(N);
    uint64_t live{0}, serial{0};
    static size_t at(const void* p) { return mix64(reinterpret_cast<uint64_t>(p)) & (N - 1); }
    Slot* find(const void* p) {
        for (size_t i = at(p); t[i].p != nullptr; i = (i + 1) & (N - 1)) {
            if (t[i].p == p) {
                return &t[i];
            }
        }
        return nullptr;
    }
    void born(const void* p) {
        ORACLE("V01 V02 V04 V05 V06", "V02/constructed-over-live", find(p) == nullptr, "an element was constructed where another one is alive");
        if (live * 4 > N * 3) {
            harness_error("ledger full");
        }
        size_t i = at(p);
        while (t[i].p != nullptr && t[i].p != p) {
            i = (i + 1) & (N - 1);
        }
        if (t[i].p == nullptr) {
            ++live;
        }
        t[i] = {p, ++serial};
    }
    void used(const void* p, const char* what) {
        ++oracle_checks;
        if (find(p) == nullptr) [[unlikely]] {
            dead(what);
        }
    }
    void dead(const char* what) {
        if (active("V01 V02 V04 V05 V06")) {
            fail("V02/not-alive", "%s of an object that is not alive", what);
        }
        harness_error("object not alive");
    }
    void died(const void* p) {
        ++oracle_checks;
        Slot* s = find(p);
        if (s == nullptr) [[unlikely]] {
            dead("destruction");
            return;
        }
        --live;
        size_t i = size_t(s - t.data());
        size_t j = i;
        for (;;) {  // close the gap
            t[i].p = nullptr;
            for (;;) {
                j = (j + 1) & (N - 1);
                if (t[j].p == nullptr) {
                    return;
                }
                size_t h = at(t[j].p);
                if (((j - h) & (N - 1)) >= ((j - i) & (N - 1))) {
                    break;
                }
            }
            t[i] = t[j];
            i = j;
        }
    }
    void reset() {
        if (live != 0) {
            for (auto& s : t) {
                s = Slot{};
            }
        }
        live = 0;
    }
};
inline Ledger ledger;

// ------------------------------------------------------------------------------------------------ ledgered elements
inline constexpr long kMoved = -77;

// everything: default, value, copy (may throw), move, assignments
struct Led
{
    long v;
    Led() : v(0) {
        may_throw();
        ledger.born(this);
    }
    explicit Led(long x) : v(x) {
        may_throw();
        ledger.born(this);
    }
    Led(long a, long b) : v(a + b) {
        may_throw();
        ledger.born(this);
    }
    Led(const Led& o) : v((ledger.used(&o, "copying"), o.v)) {
        may_throw();
        ledger.born(this);
    }
    Led(Led&& o) noexcept : v((ledger.used(&o, "moving"), o.v)) {
        o.v = kMoved;
        ledger.born(this);
    }
    Led& operator=(const Led& o) {
        ledger.used(this, "assignment");
        ledger.used(&o, "copying");
        may_throw();
        v = o.v;
        return *this;
    }
    Led& operator=(Led&& o) noexcept {
        ledger.used(this, "assignment");
        ledger.used(&o, "moving");
        long x = o.v;
        if (&o != this) {
            o.v = kMoved;
        }
        v = x;
        return *this;
    }
    ~Led() { ledger.died(this); }
    friend bool operator==(const Led& a, const Led& b) {
        ledger.used(&a, "comparison");
        ledger.used(&b, "comparison");
        may_throw();
        return a.v == b.v;
    }
    friend auto operator<=>(const Led& a, const Led& b) {
        ledger.used(&a, "comparison");
        ledger.used(&b, "comparison");
        return a.v <=> b.v;
    }
};
// copy constructor only (moving copies); copying does not throw because relocation copies
struct CopyOnly
{
    long v;
    char pad[20];
    CopyOnly() : v(0) {
        may_throw();
        ledger.born(this);
    }
    explicit CopyOnly(long x) : v(x) {
        may_throw();
        ledger.born(this);
    }
    CopyOnly(long a, long b) : v(a + b) {
        may_throw();
        ledger.born(this);
    }
    CopyOnly(const CopyOnly& o) noexcept : v((ledger.used(&o, "copying"), o.v)) { ledger.born(this); }
    CopyOnly& operator=(const CopyOnly& o) noexcept {
        ledger.used(this, "assignment");
        ledger.used(&o, "copying");
        v = o.v;
        return *this;
    }
    ~CopyOnly() { ledger.died(this); }
    friend bool operator==(const CopyOnly& a, const CopyOnly& b) {
        ledger.used(&a, "comparison");
        ledger.used(&b, "comparison");
        may_throw();
        return a.v == b.v;
    }
    friend auto operator<=>(const CopyOnly& a, const CopyOnly& b) { return a.v <=> b.v; }
};
// the move operations are deleted
struct NoMove
{
    long v;
    NoMove() : v(0) { ledger.born(this); }
    explicit NoMove(long x) : v(x) {
        may_throw();
        ledger.born(this);
    }
    NoMove(long a, long b) : v(a + b) {
        may_throw();
        ledger.born(this);
    }
    NoMove(const NoMove& o) noexcept : v((ledger.used(&o, "copying"), o.v)) { ledger.born(this); }
    NoMove(NoMove&&) = delete;
    NoMove& operator=(const NoMove&) = delete;
    NoMove& operator=(NoMove&&) = delete;
    ~NoMove() { ledger.died(this); }
    friend bool operator==(const NoMove& a, const NoMove& b) {
        ledger.used(&a, "comparison");
        ledger.used(&b, "comparison");
        may_throw();
        return a.v == b.v;
    }
    friend auto operator<=>(const NoMove& a, const NoMove& b) { return a.v <=> b.v; }
};
struct MoveOnly
{
    long v;
    MoveOnly() : v(0) {
        may_throw();
        ledger.born(this);
    }
    explicit MoveOnly(long x) : v(x) {
        may_throw();
        ledger.born(this);
    }
    MoveOnly(long a, long b) : v(a + b) {
        may_throw();
        ledger.born(this);
    }
    MoveOnly(MoveOnly&& o) noexcept : v((ledger.used(&o, "moving"), o.v)) {
        o.v = kMoved;
        ledger.born(this);
    }
    MoveOnly& operator=(MoveOnly&& o) noexcept {
        ledger.used(this, "assignment");
        ledger.used(&o, "moving");
        long x = o.v;
        o.v = kMoved;
        v = x;
        return *this;
    }
    ~MoveOnly() { ledger.died(this); }
    friend bool operator==(const MoveOnly& a, const MoveOnly& b) {
        ledger.used(&a, "comparison");
        ledger.used(&b, "comparison");
        may_throw();
        return a.v == b.v;
    }
    friend auto operator<=>(const MoveOnly& a, const MoveOnly& b) { return a.v <=> b.v; }
};
// larger than the default capacity
struct LedBig
{
    Led l;
    long more[12];
    LedBig() : l() { fill(); }
    explicit LedBig(long x) : l(x) { fill(); }
    LedBig(long a, long b) : l(a, b) { fill(); }
    void fill() {
        for (long& m : more) {
            m = l.v * 3 + 1;
        }
    }
    [[nodiscard]] bool ok() const {
        return std::all_of(more, more + 12, [this](long m) { return m == l.v * 3 + 1; });
    }
    friend bool operator==(const LedBig& a, const LedBig& b) { return a.l == b.l; }
    friend auto operator<=>(const LedBig& a, const LedBig& b) { return a.l <=> b.l; }
};
// one byte, not trivial: convertible to an integer
struct LedByte
{
    int8_t v;
    LedByte() : v(0) {
        may_throw();
        ledger.born(this);
    }
    explicit LedByte(long x) : v(int8_t(x)) {
        may_throw();
        ledger.born(this);
    }
    LedByte(long a, long b) : v(int8_t(a + b)) {
        may_throw();
        ledger.born(this);
    }
    LedByte(const LedByte& o) : v((ledger.used(&o, "copying"), o.v)) {
        may_throw();
        ledger.born(this);
    }
    LedByte(LedByte&& o) noexcept : v((ledger.used(&o, "moving"), o.v)) { ledger.born(this); }
    LedByte& operator=(const LedByte& o) {
        ledger.used(this, "assignment");
        ledger.used(&o, "copying");
        v = o.v;
        return *this;
    }
    ~LedByte() { ledger.died(this); }
    explicit operator int() const { return v; }
    friend bool operator==(const LedByte& a, const LedByte& b) {
        may_throw();
        return a.v == b.v;
    }
    friend auto operator<=>(const LedByte& a, const LedByte& b) { return a.v <=> b.v; }
};
// declared relocatable: owns a cell on the heap, so ownership that is lost leaks and ownership that is doubled is
// released twice
struct Owner
{
    long* cell;
    static long* fresh(long x) {
        may_throw();
        NoTrack nt;
        long* c = static_cast<long*>(__real_malloc(sizeof(long)));
        *c = x;
        ledger.born(c);
        return c;
    }
    Owner() : cell(fresh(0)) {}
    explicit Owner(long x) : cell(fresh(x)) {}
    Owner(long a, long b) : cell(fresh(a + b)) {}
    Owner(const Owner& o) : cell((ledger.used(o.cell, "copying"), fresh(*o.cell))) {}
    Owner(Owner&& o) noexcept : cell((ledger.used(o.cell, "moving"), std::exchange(o.cell, nullptr))) {}
    Owner& operator=(const Owner& o) {
        ledger.used(o.cell, "copying");
        long* c = fresh(*o.cell);
        drop();
        cell = c;
        return *this;
    }
    Owner& operator=(Owner&& o) noexcept {
        long* c = std::exchange(o.cell, nullptr);
        drop();
        cell = c;
        return *this;
    }
    void drop() {
        if (cell != nullptr) {
            ledger.died(cell);
            __real_free(cell);
        }
    }
    ~Owner() { drop(); }
    friend bool operator==(const Owner& a, const Owner& b) {
        may_throw();
        return *a.cell == *b.cell;
    }
    friend auto operator<=>(const Owner& a, const Owner& b) { return *a.cell <=> *b.cell; }
};
// ------------------------------------------------------------------------------------------------ plain elements
template <size_t N>
struct Pod
{
    int32_t v;
    std::array<unsigned char, N> fillb;
    Pod() = default;
    explicit Pod(long x) : v(int32_t(x)) { fillb.fill((unsigned char)(x)); }
    Pod(long a, long b) : Pod(a + b) {}
    [[nodiscard]] bool ok() const {
        return std::all_of(fillb.begin(), fillb.end(), [this](unsigned char c) { return c == (unsigned char)(v); });
    }
    friend bool operator==(const Pod& a, const Pod& b) { return a.v == b.v && a.fillb == b.fillb; }
    friend auto operator<=>(const Pod& a, const Pod& b) { return a.v <=> b.v; }
};
struct PodByte
{
    uint8_t v;
    PodByte() = default;
    explicit PodByte(long x) : v(uint8_t(x)) {}
    PodByte(long a, long b) : PodByte(a + b) {}
    friend bool operator==(const PodByte& a, const PodByte& b) = default;
    friend auto operator<=>(const PodByte& a, const PodByte& b) = default;
};
struct alignas(64) Over
{
    long v;
    Over() = default;
    explicit Over(long x) : v(x) {}
    Over(long a, long b) : v(a + b) {}
    friend bool operator==(const Over& a, const Over& b) { return a.v == b.v; }
    friend auto operator<=>(const Over& a, const Over& b) { return a.v <=> b.v; }
};
// trivially copyable but with a default value that is not all zero bytes
struct Init7
{
    int v = 7;
    Init7() = default;
    explicit Init7(long x) : v(int(x)) {}
    Init7(long a, long b) : v(int(a + b)) {}
    friend bool operator==(const Init7& a, const Init7& b) = default;
    friend auto operator<=>(const Init7& a, const Init7& b) = default;
};
enum class Enum8 : uint8_t {};
// declared zero-initialisable
struct ZeroTag
{
    long v;
    std::string* s;
    ZeroTag() : v(0), s(nullptr) {}
    explicit ZeroTag(long x) : v(x), s(nullptr) {}
    ZeroTag(long a, long b) : v(a + b), s(nullptr) {}
    ZeroTag(const ZeroTag& o) : v(o.v), s(nullptr) {}
    ZeroTag(ZeroTag&& o) noexcept : v(o.v), s(nullptr) {}
    ZeroTag& operator=(const ZeroTag& o) = default;
    ~ZeroTag() {}
    friend bool operator==(const ZeroTag& a, const ZeroTag& b) { return a.v == b.v; }
    friend auto operator<=>(const ZeroTag& a, const ZeroTag& b) { return a.v <=> b.v; }
};

// ------------------------------------------------------------------------------------------------ traits
template <class T>
struct TrBase
{
    // an element with a value between 0 and kRange - 1
    static constexpr long kRange = 120;
    static constexpr long kDefault = 0;
    static constexpr bool ledgered = false;   // one ledger entry per element
    static constexpr bool by_addr = false;    // ... under the address of the element
    static constexpr bool own_memory = false; // elements may hold tracked heap memory
    static constexpr bool full_ranges = true;
    static T make(long x) { return T(x); }
    static long get(const T& t) { return long(t); }
};
template <class T>
struct Tr : TrBase<T>
{};
template <class T>
struct TrV : TrBase<T>
{
    static T make(long x) { return T(x); }
    static long get(const T& t) { return long(t.v); }
    static constexpr bool full_ranges = false;
};
template <class T>
struct TrLed : TrV<T>
{
    static constexpr bool ledgered = true;
    static constexpr bool by_addr = true;
    static long get(const T& t) {
        ledger.used(&t, "reading");
        return t.v;
    }
};
template <>
struct Tr<Led> : TrLed<Led>
{
    static constexpr bool full_ranges = true;
};
template <>
struct Tr<CopyOnly> : TrLed<CopyOnly>
{};
template <>
struct Tr<NoMove> : TrLed<NoMove>
{};
template <>
struct Tr<MoveOnly> : TrLed<MoveOnly>
{};
template <>
struct Tr<LedByte> : TrLed<LedByte>
{};
template <>
struct Tr<LedBig> : TrV<LedBig>
{
    static constexpr bool ledgered = true;
    static constexpr bool by_addr = true;
    static long get(const LedBig& t) {
        ledger.used(&t.l, "reading");
        ORACLE("V01 V04", "V01/contents", t.ok(), "a part of an element changed");
        return t.l.v;
    }
};
template <>
struct Tr<Owner> : TrV<Owner>
{
    static constexpr bool ledgered = true;
    static long get(const Owner& t) {
        ledger.used(t.cell, "reading");
        return *t.cell;
    }
};
template <size_t N>
struct Tr<Pod<N>> : TrV<Pod<N>>
{
    static long get(const Pod<N>& t) {
        ORACLE("V01 V04 V06", "V01/contents", t.ok(), "a part of an element changed");
        return t.v;
    }
};
template <>
struct Tr<PodByte> : TrV<PodByte>
{};
template <>
struct Tr<Over> : TrV<Over>
{};
template <>
struct Tr<Init7> : TrV<Init7>
{
    static constexpr long kDefault = 7;
};
template <>
struct Tr<ZeroTag> : TrV<ZeroTag>
{};
template <>
struct Tr<std::string> : TrBase<int>
{
    static constexpr bool own_memory = true;
    // short and long ones
    static std::string make(long x) { return x == -1 ? std::string() : std::string(size_t(x) % 40, 'x') + std::to_string(x); }
    static long get(const std::string& s) {
        size_t i = s.find_first_not_of('x');
        if (i == std::string::npos) {
            return s.empty() ? -1 : -2;
        }
        long x = atol(s.c_str() + i);
        return s == make(x) ? x : -3;
    }
    static constexpr long kDefault = -1;
};
template <>
struct Tr<std::unique_ptr<long>> : TrBase<int>
{
    static constexpr bool own_memory = true;
    static std::unique_ptr<long> make(long x) { return std::make_unique<long>(x); }
    static long get(const std::unique_ptr<long>& s) { return s ? *s : -1; }
    static constexpr long kDefault = -1;
};
template <>
struct Tr<stdb_vector<int>> : TrBase<int>
{
    static constexpr bool own_memory = true;
    static constexpr bool full_ranges = false;
    static stdb_vector<int> make(long x) { return stdb_vector<int>(size_t(x), int(x)); }
    static long get(const stdb_vector<int>& s) {
        for (int x : s) {
            if (x != int(s.size())) {
                return -3;
            }
        }
        return long(s.size());
    }
};

template <class T>
concept Copyable = std::is_copy_constructible_v<T>;
template <class T>
concept Movable = std::is_nothrow_move_constructible_v<T> && !std::is_same_v<T, NoMove>;
template <class T>
concept MultiArg = std::is_constructible_v<T, long, long> && !std::is_same_v<T, std::string> && !std::is_same_v<T, stdb_vector<int>>;
template <class T>
concept FromLong = std::is_constructible_v<T, long> && !std::is_same_v<T, std::unique_ptr<long>> && !std::is_same_v<T, stdb_vector<int>>;

// injection and tracking off while the workload prepares things
struct Pause
{
    int64_t f = fail_in, t = throw_in;
    int tr = track;
    bool on = true;
    Pause() {
        fail_in = throw_in = -1;
        track = 0;
    }
    void resume() {
        if (on) {
            fail_in = f;
            throw_in = t;
            track = tr;
            on = false;
        }
    }
    ~Pause() { resume(); }
};

// refers to a callable for the time of a call
struct Fn
{
    void* o;
    void (*call)(void*);
    template <class F>
    Fn(F&& f) : o(const_cast<void*>(static_cast<const void*>(&f))), call([](void* p) { (*static_cast<std::remove_reference_t<F>*>(p))(); }) {}
    void operator()() const { call(o); }
};
inline bool injecting = false;
inline long* fill_src = nullptr;
inline size_t fill_n = 0;
inline size_t fill_less = 0;

// counts: the elements of a range of any length
struct Counting
{
    using iterator_category = std::random_access_iterator_tag;
    using value_type = long;
    using difference_type = std::ptrdiff_t;
    using pointer = const long*;
    using reference = long;
    long i{0};
    long operator*() const { return i % 100; }
    long operator[](std::ptrdiff_t k) const { return (i + k) % 100; }
    Counting& operator++() { return ++i, *this; }
    Counting operator++(int) { return Counting{i++}; }
    Counting& operator--() { return --i, *this; }
    Counting operator--(int) { return Counting{i--}; }
    Counting& operator+=(std::ptrdiff_t k) { return i += k, *this; }
    Counting& operator-=(std::ptrdiff_t k) { return i -= k, *this; }
    friend Counting operator+(Counting a, std::ptrdiff_t k) { return Counting{a.i + k}; }
    friend Counting operator+(std::ptrdiff_t k, Counting a) { return Counting{a.i + k}; }
    friend Counting operator-(Counting a, std::ptrdiff_t k) { return Counting{a.i - k}; }
    friend std::ptrdiff_t operator-(Counting a, Counting b) { return a.i - b.i; }
    friend auto operator<=>(Counting, Counting) = default;
};
static_assert(std::random_access_iterator<Counting>);

// the padding is not part of the value
struct Padded
{
    char c;
    int i;
    friend bool operator==(const Padded& a, const Padded& b) { return a.c == b.c && a.i == b.i; }
    friend auto operator<=>(const Padded& a, const Padded& b) { return a.c != b.c ? a.c <=> b.c : a.i <=> b.i; }
};
// equal when equal modulo 16
struct Loose
{
    unsigned x;
    friend bool operator==(Loose a, Loose b) { return a.x % 16 == b.x % 16; }
    friend auto operator<=>(Loose a, Loose b) { return a.x % 16 <=> b.x % 16; }
};
// a value of any kind the type has, with few different ones
template <class U>
U value_of(bool wide) {
    uint64_t k = wide ? rng.next() : R(5);
    if constexpr (std::is_same_v<U, Padded>) {
        Padded x;
        memset(&x, int(R(256)), sizeof x);
        x.c = char(k % 3);
        x.i = int(k % 2) - 1;
        return x;
    } else if constexpr (std::is_same_v<U, Loose>) {
        return Loose{unsigned(k % 3 + 16 * R(4))};
    } else if constexpr (std::is_same_v<U, bool>) {
        return k % 2 == 0;
    } else if constexpr (std::is_floating_point_v<U>) {
        static const U few[] = {U(0), -U(0), U(1), U(-1), std::numeric_limits<U>::infinity(), -std::numeric_limits<U>::infinity(), std::numeric_limits<U>::denorm_min()};
        return wide ? U(int64_t(k)) / U(1000) : few[R(7)];
    } else if constexpr (std::is_pointer_v<U>) {
        static const std::array<std::remove_pointer_t<U>, 8> at{};
        return at.data() + k % 8;
    } else {
        static const U few[] = {U(0), U(1), U(-1), U(~U(0) >> 1), U(U(1) << (sizeof(U) * 8 - 1)), U(0x80), U(0x7f)};
        return wide ? U(k) : few[R(7)];
    }
}
// comparisons of vectors of one plain type, against those of standard vectors
template <class U>
void compare_plain(const char* name) {
    NoTrack nt;
    bool wide = P(1, 3);
    std::vector<U> ma, mb;
    size_t n = P(1, 3) ? R(4) : R(P(1, 10) ? 3000 : 60);
    for (size_t k = 0; k < n; ++k) {
        ma.push_back(value_of<U>(wide));
    }
    mb = ma;
    for (size_t k = R(4); k > 0 && !mb.empty(); --k) {
        mb[P(1, 4) ? R(mb.size()) : mb.size() - 1 - R(std::min<size_t>(mb.size(), 4))] = value_of<U>(wide);
    }
    if (P(1, 3)) {
        mb.resize(P(1, 2) ? R(mb.size() + 1) : mb.size() + R(3), value_of<U>(wide));
    }
    stdb_vector<U> a, b;
    a.reserve(ma.size() + R(9));
    for (auto& x : ma) {
        a.push_back(x);
    }
    for (auto& x : mb) {
        b.push_back(x);
    }
    auto want = ma <=> mb;
    auto back = mb <=> ma;
    bool eq = ma == mb;
    ORACLE("V07", "V07/comparison", (a == b) == eq && (b == a) == eq && (a != b) == !eq && a == a, "equality of %zu and %zu elements of %s", a.size(), b.size(), name);
    ORACLE("V07", "V07/comparison",
           ((a <=> b) < 0) == (want < 0) && ((a <=> b) > 0) == (want > 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0) &&
             (b < a) == (back < 0) && ((b <=> a) > 0) == (back > 0),
           "three-way comparison of %zu and %zu elements of %s", a.size(), b.size(), name);
    step(str_hash(name), cls(ma.size()), cls(mb.size()));
    state(str_hash(name), cls(ma.size()), cls(mb.size()), uint64_t(want < 0) * 2 + uint64_t(eq));
    EVENT("plain-comparisons");
}
inline void compare_any() {
    switch (R(17)) {
        case 0: return compare_plain<signed char>("signed char");
        case 1: return compare_plain<unsigned char>("unsigned char");
        case 2: return compare_plain<char>("char");
        case 3: return compare_plain<short>("short");
        case 4: return compare_plain<unsigned short>("unsigned short");
        case 5: return compare_plain<int>("int");
        case 6: return compare_plain<unsigned>("unsigned");
        case 7: return compare_plain<int64_t>("int64");
        case 8: return compare_plain<uint64_t>("uint64");
        case 9: return compare_plain<float>("float");
        case 10: return compare_plain<double>("double");
        case 11: return compare_plain<const int*>("pointer");
        case 12: return compare_plain<Padded>("padded");
        case 13: return compare_plain<Loose>("loosely equal");
        case 14: return compare_plain<char16_t>("char16");
        case 15: return compare_plain<wchar_t>("wchar");
        default: return compare_plain<long double>("long double");
    }
}

template <class T>
struct Lab
{
    using V = stdb_vector<T>;
    using M = std::vector<long>;
    using X = Tr<T>;
    static constexpr size_t kPool = 3;
    struct Slot
    {
        V* v{nullptr};
        M m;
        size_t reserved{0};  // the largest reservation since the buffer was last given up or shrunk
    };
    std::array<Slot, kPool> pool;
    uint64_t others{0};  // live ledger entries outside the vectors

    Lab() { ledger.reset(); }

    // -------------------------------------------------------------------------------------------- helpers
    static void* raw() { return __real_malloc(sizeof(V)); }
    long val() { return long(R(P(1, 4) ? 3 : uint64_t(X::kRange))); }
    M vals(size_t n) {
        M m(n);
        for (long& x : m) {
            x = val();
        }
        return m;
    }
    // most elements the workload lets a vector have; few histories use thousands, fewer still more than 2^16
    size_t most{600};
    void choose_scale() {
        if (prop == "V04" || sizeof(T) > 100000) {
            return;
        }
        if (!X::ledgered && !X::own_memory && sizeof(T) <= 64 && P(1, prop == "V06" ? 120 : 300)) {
            most = 180000;
            EVENT("histories-with-more-than-65536-elements");
        } else if (P(1, 60)) {
            most = 5000;
            EVENT("histories-with-thousands-of-elements");
        }
    }
    size_t upto(size_t normal) const { return most == 600 ? normal : most; }
    size_t small() {
        if (most > 600 && P(1, 3)) {
            return most > 65536 && P(1, 2) ? 65530 + R(12) : R(most / 2);
        }
        return P(1, 5) ? R(70) : R(12);
    }
    size_t any() { return R(kPool); }
    V& v(size_t i) { return *pool[i].v; }
    M& m(size_t i) { return pool[i].m; }
    size_t live_expected() {
        size_t n = 0;
        for (auto& s : pool) {
            n += s.v != nullptr ? s.m.size() : 0;
        }
        return n;
    }
    size_t actual_total() {
        size_t n = 0;
        for (auto& s : pool) {
            n += s.v != nullptr ? s.v->size() : 0;
        }
        return n;
    }
    // a count around the room that is left
    size_t count_for(size_t i) {
        size_t room = v(i).capacity() - v(i).size();
        if (room > upto(4000)) {
            return R(40);
        }
        if (most > 600 && P(1, 5)) {
            return R(most / 3);
        }
        switch (R(6)) {
            case 0: return room;
            case 1: return room + 1;
            case 2: return room > 0 ? room - 1 : 0;
            case 3: return R(3);
            default: return R(m(i).size() > 400 ? 4 : 24);
        }
    }

    // everything the monitors know about one vector
    void check(size_t i, const char* op) {
        Slot& s = pool[i];
        if (s.v == nullptr) {
            return;
        }
        const V& c = *s.v;
        NoTrack nt;
        ORACLE("V01 V04 V05 V06", "V01/size", c.size() == s.m.size() && c.empty() == s.m.empty(), "after %s the size is %zu, expected %zu", op, c.size(),
               s.m.size());
        if (c.size() != s.m.size()) {
            harness_error("size differs");
        }
        ORACLE("V03 V04", "V03/capacity", c.capacity() >= c.size(), "capacity %zu below size %zu", c.capacity(), c.size());
        ORACLE("V03", "V03/reservation", c.capacity() >= s.reserved, "after %s the capacity %zu is below the reservation %zu", op, c.capacity(), s.reserved);
        const T* d = c.data();
        if (c.capacity() > 0) {
            ORACLE("V03 V04", "V03/alignment", reinterpret_cast<uintptr_t>(d) % alignof(T) == 0, "elements are not aligned");
            auto* r = heap_find(const_cast<T*>(d));
            ORACLE("V03 V02 V04 V05", "V03/buffer", r != nullptr && r->n >= c.capacity() * sizeof(T), "after %s the capacity %zu is not backed by memory", op, c.capacity());
        }
        for (size_t k = 0; k < s.m.size(); ++k) {
            if constexpr (X::by_addr) {
                ledger.used(d + k, "an element of the vector");
            }
            long x = X::get(d[k]);
            ORACLE("V01 V04 V05 V06", "V01/contents", x == s.m[k], "after %s element %zu of %zu is %ld, expected %ld", op, k, s.m.size(), x, s.m[k]);
        }
        if (!s.m.empty()) {
            ORACLE("V01 V03 V07", "V01/access",
                   &c.front() == d && &c.back() == d + (s.m.size() - 1) && &c[s.m.size() - 1] == &c.back() && &c.at(0) == d &&
                     c.begin().operator->() == d && (c.end() - c.begin()) == std::ptrdiff_t(s.m.size()),
                   "after %s the accessors disagree", op);
        }
    }
    void check_all(const char* op) {
        size_t buffers = 0;
        for (size_t i = 0; i < kPool; ++i) {
            check(i, op);
            buffers += pool[i].v != nullptr && pool[i].v->capacity() > 0;
        }
        if constexpr (X::ledgered) {
            ORACLE("V02 V04 V05", "V02/live-count", ledger.live == live_expected() + others, "after %s %llu element objects are alive, expected %zu", op,
                   (unsigned long long)ledger.live, live_expected() + size_t(others));
        }
        if constexpr (!X::own_memory) {
            ORACLE("V02 V03 V04", "V02/buffers", heap.live == buffers, "after %s %llu buffers are allocated, expected %zu", op, (unsigned long long)heap.live, buffers);
        }
    }
    void note(const char* op, size_t i) {
        count_event(op);
        step(str_hash(op), cls(m(i).size()), cls(pool[i].v ? v(i).capacity() : 0));
        state(str_hash(op), cls(m(i).size()), cls(pool[i].v ? v(i).capacity() : 0), sizeof(T), X::ledgered);
    }

    // runs a library operation; false: it failed (only under injection) and the state is as before or resynchronised
    __attribute__((noinline)) bool attempt(const char* op, std::initializer_list<size_t> touched, bool strong, Fn f) {
        uint64_t live0 = ledger.live;
        size_t tot0 = actual_total();
        (void)live0;
        (void)tot0;
        if (!injecting) {
            try {
                Track t;
                f();
            } catch (const std::exception& e) {
                ORACLE("*", "V01/exception", false, "%s threw %s", op, e.what());
            }
            return true;
        }
        int mode = int(R(3));
        for (int64_t k = 0; k < 200; ++k) {
            struct Img
            {
                size_t i, cap;
                const T* d;
            };
            std::vector<Img> before;
            for (size_t i : touched) {
                if (pool[i].v != nullptr) {
                    before.push_back({i, v(i).capacity(), v(i).data()});
                }
            }
            bool failed = false;
            uint64_t inj = injected, thr = thrown;
            try {
                Track t;
                if (mode == 2) {
                    throw_in = k;
                    throw_always = P(1, 3);
                } else {
                    fail_in = k;
                    fail_all_after = mode == 1;
                }
                f();
            } catch (const std::bad_alloc&) {
                failed = true;
            } catch (const Boom&) {
                failed = true;
                EVENT("element-threw");
            }
            fail_in = throw_in = -1;
            fail_all_after = throw_always = false;
            if (!failed) {
                ORACLE("V04", "V04/swallowed", injected == inj && thrown == thr, "%s did not report a failure inside it", op);
                return true;
            }
            EVENT("failed-operation");
            LOG("  %s failed at %lld (mode %d)", op, (long long)k, mode);
            ORACLE("V04", "V04/spurious", injected != inj || thrown != thr, "%s threw without a failure inside it", op);
            if constexpr (X::ledgered) {
                ORACLE("V02 V04", "V04/live-count", ledger.live - live0 == actual_total() - tot0,
                       "after a failing %s %lld more element objects are alive while the sizes changed by %lld", op, (long long)(ledger.live - live0),
                       (long long)(actual_total() - tot0));
            }
            for (auto& b : before) {
                V& x = v(b.i);
                ORACLE("V04 V03", "V04/capacity", x.size() <= x.capacity(), "after a failing %s the size %zu exceeds the capacity %zu", op, x.size(), x.capacity());
                if (x.size() > 0) {
                    auto* r = heap_find(x.data());
                    ORACLE("V04 V02", "V04/buffer", r != nullptr && r->n >= x.capacity() * sizeof(T), "after a failing %s the buffer is not memory of the vector", op);
                }
                for (size_t e = 0; e < x.size(); ++e) {
                    if constexpr (X::by_addr) {
                        ledger.used(x.data() + e, "an element of the vector (after a failure)");
                    }
                    (void)X::get(x[e]);
                }
                if (strong) {
                    ORACLE("V04", "V04/strong", x.data() == b.d && x.capacity() == b.cap, "a failing %s replaced the buffer", op);
                    check(b.i, "a failing append or reserve");
                }
            }
            if (!strong) {
                bool resync = P(1, 4);
                for (auto& b : before) {
                    if (resync) {
                        m(b.i).clear();
                        for (auto& e : v(b.i)) {
                            m(b.i).push_back(X::get(e));
                        }
                    } else {
                        rebuild(b.i, b.cap);
                    }
                }
                if (resync) {
                    EVENT("continued-after-failure");
                    check_all("a failure");
                    return false;
                }
            }
            check_all("a failure");
        }
        return false;
    }
    // a vector with the contents of the model and that capacity
    void rebuild(size_t i, size_t cap) {
        Track t;
        V& x = v(i);
        x.~V();
        new (&x) V();
        if (cap > 0) {
            x.reserve(cap);
        }
        for (long e : m(i)) {
            put(x, e);
        }
    }
    static void put(V& x, long e) {
        if constexpr (FromLong<T>) {
            x.emplace_back(e);
        } else {
            Pause p;
            T t = X::make(e);
            p.resume();
            x.push_back(std::move(t));
        }
    }

    // calls f(first, last) with iterators of some kind over elements with the values xs
    template <class F>
    void with_range(const M& xs, F f) {
        Pause p;
        auto go = [&](auto first, auto last) {
            uint64_t inside = ledger.live;
            p.resume();
            f(first, last);
            (void)inside;
        };
        if constexpr (!Copyable<T>) {
            if constexpr (FromLong<T>) {
                with_longs(xs, go);
            }
        } else if constexpr (std::is_same_v<T, NoMove>) {
            if (P(1, 2)) {
                with_longs(xs, go);
            } else {
                std::list<T> a;
                for (long x : xs) {
                    a.emplace_back(x);
                }
                EVENT("range:list");
                    LOG("  range:list");
                go(a.begin(), a.end());
            }
        } else {
            switch (kind_outer >= 0 ? uint64_t(kind_outer) : R(X::full_ranges ? 14 : 4)) {
                case 0: {
                    std::vector<T> a;
                    a.reserve(xs.size());
                    for (long x : xs) {
                        a.emplace_back(X::make(x));
                    }
                    T* b = a.data();
                    EVENT("range:pointer");
                    LOG("  range:pointer");
                    go(b, b + xs.size());
                    return;
                }
                case 1: {
                    std::vector<T> a;
                    a.reserve(xs.size());
                    for (long x : xs) {
                        a.emplace_back(X::make(x));
                    }
                    const T* b = a.data();
                    EVENT("range:const-pointer");
                    LOG("  range:const-pointer");
                    go(b, b + xs.size());
                    return;
                }
                case 2: {
                    std::list<T> a;
                    for (long x : xs) {
                        a.emplace_back(X::make(x));
                    }
                    EVENT("range:list");
                    LOG("  range:list");
                    go(a.cbegin(), a.cend());
                    return;
                }
                case 3:
                    if constexpr (FromLong<T>) {
                        EVENT("range:converted");
                    LOG("  range:converted");
                        with_longs(xs, go);
                        return;
                    }
                    [[fallthrough]];
                default: break;
            }
            if constexpr (X::full_ranges) {
                more_ranges(xs, go);
            } else {
                std::list<T> a;
                for (long x : xs) {
                    a.emplace_back(X::make(x));
                }
                EVENT("range:list");
                    LOG("  range:list");
                go(a.begin(), a.end());
            }
        }
    }
    template <class G>
    void with_longs(const M& xs, G& go) {
        switch (R(3)) {
            case 0: go(xs.data(), xs.data() + xs.size()); return;
            case 1: {
                std::deque<long> d(xs.begin(), xs.end());
                go(d.begin(), d.end());
                return;
            }
            default: {
                std::vector<short> d(xs.begin(), xs.end());
                go(d.begin(), d.end());
                return;
            }
        }
    }
    template <class G>
    void more_ranges(const M& xs, G& go) {
        if constexpr (Copyable<T>) {
            auto in = [&](auto& c) {
                for (long x : xs) {
                    c.push_back(X::make(x));
                }
            };
            switch (kind_more >= 0 ? uint64_t(kind_more) : R(13)) {
                case 11: {
                    std::vector<T> a;
                    in(a);
                    std::reverse(a.begin(), a.end());
                    EVENT("range:pointer-reverse");
                    LOG("  range:pointer-reverse");
                    const T* b = a.data();
                    T* w = a.data();
                    if (P(1, 2)) {
                        go(std::make_reverse_iterator(b + xs.size()), std::make_reverse_iterator(b));
                    } else {
                        go(std::make_reverse_iterator(w + xs.size()), std::make_reverse_iterator(w));
                    }
                    return;
                }
                case 12: {
                    // random access in a shuffled order, the first and last element where they would be otherwise
                    size_t n = xs.size();
                    std::vector<size_t> where(n);
                    for (size_t k = 0; k < n; ++k) {
                        where[k] = k;
                    }
                    for (size_t k = 1; k + 2 < n; ++k) {
                        std::swap(where[k], where[k + R(n - 1 - k)]);
                    }
                    if (P(1, 4) && n > 1) {
                        std::swap(where[0], where[R(n)]);
                    }
                    std::vector<T> a;
                    a.reserve(n);
                    std::vector<size_t> back(n);
                    for (size_t k = 0; k < n; ++k) {
                        back[where[k]] = k;
                    }
                    for (size_t k = 0; k < n; ++k) {
                        a.push_back(X::make(xs[back[k]]));
                    }
                    EVENT("range:shuffled");
                    LOG("  range:shuffled");
                    auto idx = std::views::iota(0, int(n));
                    auto tv = idx | std::views::transform([&](int i) -> const T& { return a[where[size_t(i)]]; });
                    go(tv.begin(), tv.end());
                    return;
                }
                case 0: {
                    std::vector<T> a;
                    in(a);
                    EVENT("range:vector");
                    LOG("  range:vector");
                    go(a.begin(), a.end());
                    return;
                }
                case 1: {
                    std::deque<T> a;
                    in(a);
                    EVENT("range:deque");
                    LOG("  range:deque");
                    go(a.begin(), a.end());
                    return;
                }
                case 2: {
                    std::vector<T> a;
                    in(a);
                    std::reverse(a.begin(), a.end());
                    EVENT("range:reverse");
                    LOG("  range:reverse");
                    go(a.rbegin(), a.rend());
                    return;
                }
                case 3: {
                    std::forward_list<T> a;
                    for (size_t i = xs.size(); i-- > 0;) {
                        a.push_front(X::make(xs[i]));
                    }
                    EVENT("range:forward-list");
                    LOG("  range:forward-list");
                    go(a.begin(), a.end());
                    return;
                }
                case 4: {
                    stdb_vector<T> a;
                    in(a);
                    EVENT("range:own");
                    LOG("  range:own");
                    go(a.begin(), a.end());
                    return;
                }
                case 5: {
                    stdb_vector<T> a;
                    in(a);
                    EVENT("range:own-const");
                    LOG("  range:own-const");
                    go(a.cbegin(), a.cend());
                    return;
                }
                case 6: {
                    stdb_vector<T> a;
                    in(a);
                    std::reverse(a.begin(), a.end());
                    EVENT("range:own-reverse");
                    LOG("  range:own-reverse");
                    go(a.crbegin(), a.crend());
                    return;
                }
                case 7: {
                    // every second element: random access, not contiguous
                    std::vector<T> a;
                    for (long x : xs) {
                        a.push_back(X::make(x));
                        a.push_back(X::make(99));
                    }
                    EVENT("range:stride");
                    LOG("  range:stride");
                    auto idx = std::views::iota(0, int(xs.size()));
                    auto tv = idx | std::views::transform([&a](int i) -> const T& { return a[size_t(i) * 2]; });
                    go(tv.begin(), tv.end());
                    return;
                }
                case 8: {
                    std::vector<T> a;
                    for (long x : xs) {
                        a.push_back(X::make(x));
                        if (P(1, 2)) {
                            a.push_back(X::make(119));
                        }
                    }
                    bool has = std::find(xs.begin(), xs.end(), 119L) != xs.end();
                    T out = X::make(119);
                    auto fv = a | std::views::filter([&](const T& t) { return has || !(t == out); });
                    M kept;
                    for (const T& t : fv) {
                        kept.push_back(X::get(t));
                    }
                    if (kept != xs) {
                        xs_ptr(a, xs);
                        go(a.data(), a.data() + a.size());
                        return;
                    }
                    EVENT("range:filter");
                    LOG("  range:filter");
                    go(fv.begin(), fv.end());
                    return;
                }
                case 9: {
                    if constexpr (std::is_arithmetic_v<T>) {
                        std::vector<double> a(xs.begin(), xs.end());
                        for (auto& x : a) {
                            x += 0.25;
                        }
                        EVENT("range:double");
                    LOG("  range:double");
                        go(a.begin(), a.end());
                        return;
                    } else if constexpr (std::is_same_v<T, std::string>) {
                        std::vector<std::string> keep;
                        in(keep);
                        std::vector<const char*> a;
                        for (auto& k : keep) {
                            a.push_back(k.c_str());
                        }
                        EVENT("range:c-strings");
                    LOG("  range:c-strings");
                        go(a.begin(), a.end());
                        return;
                    } else {
                        std::vector<T> a;
                        in(a);
                        EVENT("range:const-vector");
                        go(a.cbegin(), a.cend());
                        return;
                    }
                }
                default: {
                    if constexpr (std::is_arithmetic_v<T>) {
                        std::vector<unsigned long long> a(xs.begin(), xs.end());
                        EVENT("range:wider");
                    LOG("  range:wider");
                        go(a.data(), a.data() + a.size());
                        return;
                    } else if constexpr (std::is_same_v<T, std::string>) {
                        std::vector<std::string> keep;
                        in(keep);
                        std::vector<std::string_view> a(keep.begin(), keep.end());
                        EVENT("range:views");
                    LOG("  range:views");
                        go(a.begin(), a.end());
                        return;
                    } else {
                        std::deque<T> a;
                        in(a);
                        std::reverse(a.begin(), a.end());
                        EVENT("range:deque-reverse");
                        go(a.crbegin(), a.crend());
                        return;
                    }
                }
            }
        }
    }
    // the elements of xs in place of whatever is in a
    static std::vector<T>& xs_ptr(std::vector<T>& a, const M& xs) {
        a.clear();
        for (long x : xs) {
            a.push_back(X::make(x));
        }
        return a;
    }
    // every kind of range through every way to take one, around the lengths a narrow count would turn over at
    int kind_outer{-1}, kind_more{-1};
    void sweep() {
        if constexpr (X::full_ranges && Copyable<T> && !X::ledgered && !X::own_memory && sizeof(T) <= 64) {
            bool huge = std::is_arithmetic_v<T> && P(1, 8);
            static constexpr size_t at[] = {128, 256, 512};
            static constexpr size_t high[] = {32768, 65536};
            size_t n = (huge ? high[R(2)] : at[R(3)]) - 2 + R(5);
            LOG("every kind of range, %zu elements", n);
            count_event(huge ? "range-sweep-over-32766" : "range-sweep");
            for (int k = 0; k < 17; ++k) {
                kind_outer = k < 4 ? k : 4;
                kind_more = k < 4 ? -1 : k - 4;
                for (int op = 0; op < 4; ++op) {
                    M xs = vals(n);
                    M mm = vals(R(5));
                    V x;
                    for (long y : mm) {
                        x.push_back(X::make(y));
                    }
                    size_t pos = R(mm.size() + 1);
                    auto from = mm.begin() + long(pos);
                    switch (op) {
                        case 0:
                            x.shrink_to_fit();
                            [[fallthrough]];
                        case 1: {
                            if (op == 1) {
                                x.reserve(mm.size() + n + R(3));
                            }
                            size_t got = 0;
                            with_range(xs, [&](auto first, auto last) { got = size_t(x.insert(x.begin() + long(pos), first, last) - x.begin()); });
                            ORACLE("V06", "V06/sweep-position", got == pos, "insert returned place %zu for %zu", got, pos);
                            mm.insert(from, xs.begin(), xs.end());
                            break;
                        }
                        case 2:
                            if (P(1, 2)) {
                                x.reserve(n + R(2));
                            }
                            with_range(xs, [&](auto first, auto last) { x.assign(first, last); });
                            mm = xs;
                            break;
                        default:
                            with_range(xs, [&](auto first, auto last) {
                                V made(first, last);
                                x.swap(made);
                            });
                            mm = xs;
                    }
                    bool same = x.size() == mm.size() && x.capacity() >= x.size();
                    for (size_t e = 0; same && e < mm.size(); ++e) {
                        same = X::get(x[e]) == mm[e];
                    }
                    ORACLE("V06", "V06/sweep", same, "kind %d way %d: %zu elements at %zu: the elements differ (size %zu of %zu)", k, op, n, pos, x.size(),
                           mm.size());
                    step(uint64_t(k), uint64_t(op), n);
                    EVENT("swept-range");
                }
            }
            kind_outer = kind_more = -1;
        }
    }
    template <class F>
    void guarded_range(const M& xs, F f) {
        uint64_t before = others;
        uint64_t live = ledger.live;
        with_range(xs, [&](auto first, auto last) {
            if constexpr (X::ledgered) {
                others = before + (ledger.live - live);
            }
            f(first, last);
        });
        others = before;
    }

    // -------------------------------------------------------------------------------------------- operations
    void construct(size_t i) {
        if (pool[i].v != nullptr) {
            destroy(i);
        }
        V* p = static_cast<V*>(raw());
        auto made = [&](const char* op, M now) {
            pool[i].v = p;
            m(i) = std::move(now);
            note(op, i);
            LOG("v%zu = %s(%zu)", i, op, m(i).size());
        };
        bool done = false;
        for (int tries = 0; !done && tries < 8; ++tries) {
            switch (R(8)) {
                case 0:
                    attempt("default construction", {}, false, [&] { new (p) V(); });
                    made("ctor:default", {});
                    done = true;
                    break;
                case 1: {
                    size_t n = small();
                    if (attempt("construction from a size", {}, false, [&] { new (p) V(n); })) {
                        made("ctor:size", M(n, X::kDefault));
                        done = true;
                    }
                    break;
                }
                case 2:
                    if constexpr (Copyable<T>) {
                        size_t n = small();
                        long x = val();
                        bool ok;
                        {
                            T t = X::make(x);
                            Held h(*this);
                            ok = attempt("construction from a size and a value", {}, false, [&] { new (p) V(n, t); });
                        }
                        if (ok) {
                            made("ctor:value", M(n, x));
                            done = true;
                        }
                    }
                    break;
                case 3: {
                    if constexpr (Copyable<T> || FromLong<T>) {
                        M xs = vals(small());
                        guarded_range(xs, [&](auto first, auto last) {
                            done = attempt("construction from a range", {}, false, [&] { new (p) V(first, last); });
                        });
                        if (done) {
                            made("ctor:range", xs);
                        }
                    }
                    break;
                }
                case 4:
                    if constexpr (Copyable<T>) {
                        M xs = vals(3);
                        if (P(1, 4)) {
                            done = attempt("construction from an empty list", {}, false, [&] { new (p) V(std::initializer_list<T>{}); });
                            xs.clear();
                        } else {
                            std::initializer_list<T> il{X::make(xs[0]), X::make(xs[1]), X::make(xs[2])};
                            Held h(*this, 3);
                            done = attempt("construction from a list", {}, false, [&] { new (p) V(il); });
                        }
                        if (done) {
                            made("ctor:list", xs);
                        }
                    }
                    break;
                case 5:
                case 6: {
                    size_t j = any();
                    if (j == i || pool[j].v == nullptr) {
                        break;
                    }
                    if (P(1, 2)) {
                        const T* d = v(j).data();
                        size_t cap = v(j).capacity();
                        uint64_t ser = ledger.serial;
                        uint64_t al = allocs;
                        {
                            Track t;
                            new (p) V(std::move(v(j)));
                        }
                        ORACLE("V03 V02", "V03/move-touches", ledger.serial == ser && allocs == al && p->data() == d && p->capacity() == cap,
                               "moving a vector did not transfer the buffer");
                        made("ctor:move", m(j));
                        m(j).clear();
                        pool[j].reserved = 0;
                        ORACLE("V01", "V01/moved-from", v(j).size() == 0, "a moved-from vector is not empty");
                        done = true;
                    } else if constexpr (Copyable<T>) {
                        if (attempt("copy construction", {j}, true, [&] { new (p) V(v(j)); })) {
                            made("ctor:copy", m(j));
                            done = true;
                        }
                    }
                    break;
                }
                default:
                    new (p) V();
                    made("ctor:default", {});
                    done = true;
            }
        }
        if (!done) {
            new (p) V();
            made("ctor:default", {});
        }
    }
    // elements held by the workload during an operation
    struct Held
    {
        Lab& l;
        uint64_t n;
        explicit Held(Lab& lab, uint64_t k = 1) : l(lab), n(X::ledgered ? k : 0) { l.others += n; }
        ~Held() { l.others -= n; }
    };
    void destroy(size_t i) {
        if (pool[i].v == nullptr) {
            return;
        }
        LOG("destroy v%zu", i);
        {
            Track t;
            pool[i].v->~V();
        }
        __real_free(pool[i].v);
        pool[i].v = nullptr;
        m(i).clear();
        pool[i].reserved = 0;
    }
    void need(size_t i) {
        if (pool[i].v == nullptr) {
            construct(i);
        }
    }
    void assign(size_t i) {
        size_t j = any();
        need(j);
        size_t held = std::exchange(pool[i].reserved, 0);
        switch (R(7)) {
            case 0:
                if constexpr (Copyable<T>) {
                    LOG("v%zu = v%zu", i, j);
                    bool ok = true;
                    if (i == j) {
                        V& self = v(i);
                        ok = attempt("self assignment", {i}, false, [&] { v(i) = self; });
                    } else {
                        ok = attempt("copy assignment", {i, j}, false, [&] {
                            V& r = (v(i) = v(j));
                            ORACLE("V01", "V01/returned-value", &r == &v(i), "assignment returned another object");
                        });
                    }
                    if (ok) {
                        m(i) = M(m(j));
                    }
                    note("assign:copy", i);
                }
                break;
            case 1: {
                LOG("v%zu = move(v%zu)", i, j);
                if (i == j) {
                    V& self = v(i);
                    Track t;
                    v(i) = std::move(self);
                    // the contents are unspecified, but valid
                    M now;
                    for (auto& e : v(i)) {
                        now.push_back(X::get(e));
                    }
                    m(i) = now;
                } else {
                    pool[j].reserved = 0;
                    const T* d = v(j).data();
                    size_t cap = v(j).capacity();
                    uint64_t ser = ledger.serial;
                    {
                        Track t;
                        v(i) = std::move(v(j));
                    }
                    ORACLE("V03 V02", "V03/move-touches", ledger.serial == ser && v(i).data() == d && v(i).capacity() == cap, "moving a vector did not transfer the buffer");
                    m(i) = std::move(m(j));
                    m(j).clear();
                    ORACLE("V01", "V01/moved-from", v(j).size() == 0, "a moved-from vector is not empty");
                }
                note("assign:move", i);
                break;
            }
            case 2:
                if constexpr (Copyable<T>) {
                    size_t n = P(1, 2) ? std::min<size_t>(v(i).capacity() + R(3), upto(400)) : small();
                    long x = val();
                    LOG("v%zu.assign(%zu, %ld)", i, n, x);
                    T t = X::make(x);
                    Held h(*this);
                    if (attempt("assign of a count", {i}, false, [&] { v(i).assign(n, t); })) {
                        m(i).assign(n, x);
                    }
                    note("assign:count", i);
                }
                break;
            case 3:
            case 4:
                if constexpr (Copyable<T> || FromLong<T>) {
                    M xs = vals(P(1, 3) ? std::min<size_t>(v(i).capacity() + R(2), upto(300)) : small());
                    LOG("v%zu.assign(range of %zu)", i, xs.size());
                    bool ok = false;
                    guarded_range(xs, [&](auto first, auto last) { ok = attempt("assign of a range", {i}, false, [&] { v(i).assign(first, last); }); });
                    if (ok) {
                        m(i) = xs;
                    }
                    note("assign:range", i);
                }
                break;
            case 5:
                if constexpr (Copyable<T>) {
                    long a = val(), b = val();
                    std::initializer_list<T> il{X::make(a), X::make(b)};
                    Held h(*this, 2);
                    if (attempt("assign of a list", {i}, false, [&] { v(i).assign(il); })) {
                        m(i) = {a, b};
                    }
                    note("assign:list", i);
                }
                break;
            default: {
                LOG("swap(v%zu, v%zu)", i, j);
                const T *a = v(i).data(), *b = v(j).data();
                size_t ca = v(i).capacity(), cb = v(j).capacity();
                uint64_t ser = ledger.serial;
                uint64_t al = allocs;
                {
                    Track t;
                    if (P(1, 2)) {
                        v(i).swap(v(j));
                    } else {
                        std::swap(v(i), v(j));
                    }
                }
                ORACLE("V03 V02", "V03/swap-touches",
                       ledger.serial == ser && allocs == al && v(i).data() == b && v(j).data() == a && v(i).capacity() == cb && v(j).capacity() == ca,
                       "swapping did not exchange the buffers");
                pool[i].reserved = held;
                if (i != j) {
                    std::swap(m(i), m(j));
                    std::swap(pool[i].reserved, pool[j].reserved);
                }
                note("swap", i);
            }
        }
    }

    // what must not change while an operation at position pos fits into the capacity
    struct Stable
    {
        Lab& l;
        size_t i, pos, cap;
        const T* d;
        std::vector<uint64_t> ser;
        Stable(Lab& lab, size_t vi, size_t p) : l(lab), i(vi), pos(p), cap(lab.v(vi).capacity()), d(lab.v(vi).data()) {
            if constexpr (X::by_addr) {
                for (size_t k = 0; k < pos; ++k) {
                    if (auto* s = ledger.find(d + k); s != nullptr) {
                        ser.push_back(s->serial);
                    }
                }
            }
        }
        void verify(const char* op, size_t new_size) {
            if (new_size > cap) {
                return;
            }
            V& x = l.v(i);
            ORACLE("V03", "V03/reallocated", x.data() == d && x.capacity() == cap, "%s to %zu elements within capacity %zu replaced the buffer", op, new_size, cap);
            if constexpr (X::by_addr) {
                for (size_t k = 0; k < ser.size(); ++k) {
                    auto* s = ledger.find(d + k);
                    ORACLE("V03", "V03/moved-elements", s != nullptr && s->serial == ser[k], "%s at %zu replaced element %zu", op, pos, k);
                }
            }
            EVENT("stable-operation");
        }
    };
    size_t idx(size_t i, auto it) { return size_t(it.operator->() - v(i).data()); }
    void ret(size_t i, const char* op, auto it, size_t want) {
        size_t got = idx(i, it);
        ORACLE("V01 V05 V06", "V01/returned-position", got == want, "%s returned position %zu, expected %zu", op, got, want);
    }
    size_t pos_in(size_t i) {
        size_t n = m(i).size();
        switch (R(5)) {
            case 0: return n;
            case 1: return n > 0 ? n - 1 : 0;
            case 2: return 0;
            default: return R(n + 1);
        }
    }
    template <Safety S>
    void insert_s(size_t i) {
        constexpr bool unsafe = S == Safety::Unsafe;
        size_t n = m(i).size();
        size_t pos = pos_in(i);
        size_t room = v(i).capacity() - n;
        if (unsafe && room == 0) {
            return;
        }
        Stable st(*this, i, pos);
        auto at = [&] { return v(i).cbegin() + std::ptrdiff_t(pos); };
        auto& mm = m(i);
        switch (R(8)) {
            case 0:
                if constexpr (Copyable<T>) {
                    bool ok;
                    if (n > 0 && P(1, 3)) {
                        size_t k = R(n);
                        LOG("v%zu.insert(%zu, v[%zu]) %d", i, pos, k, unsafe);
                        long x = mm[k];
                        ok = attempt("insert of an own element", {i}, false, [&] { ret(i, "insert", v(i).template insert<S>(at(), v(i)[k]), pos); });
                        if (ok) {
                            mm.insert(mm.begin() + long(pos), x);
                            EVENT("self-argument");
                        }
                    } else {
                        long x = val();
                        LOG("v%zu.insert(%zu, %ld) %d", i, pos, x, unsafe);
                        T t = X::make(x);
                        Held h(*this);
                        ok = attempt("insert", {i}, false, [&] { ret(i, "insert", v(i).template insert<S>(at(), std::as_const(t)), pos); });
                        if (ok) {
                            mm.insert(mm.begin() + long(pos), x);
                        }
                    }
                    if (ok) {
                        st.verify("insert", n + 1);
                    }
                    note(unsafe ? "unsafe:insert" : "insert:value", i);
                }
                break;
            case 1:
                if constexpr (Movable<T>) {
                    long x = val();
                    LOG("v%zu.insert(%zu, rvalue %ld) %d", i, pos, x, unsafe);
                    if (attempt("insert of a temporary", {i}, false, [&] {
                            Pause p;
                            T t = X::make(x);
                            p.resume();
                            ret(i, "insert", v(i).template insert<S>(at(), std::move(t)), pos);
                        })) {
                        mm.insert(mm.begin() + long(pos), x);
                        st.verify("insert", n + 1);
                    }
                    note(unsafe ? "unsafe:insert-rvalue" : "insert:rvalue", i);
                }
                break;
            case 2:
                if constexpr (Copyable<T>) {
                    size_t c = unsafe ? R(room + 1) : count_for(i);
                    bool ok;
                    if (n > 0 && P(1, 3)) {
                        size_t k = R(n);
                        long x = mm[k];
                        LOG("v%zu.insert(%zu, %zu, v[%zu]) %d", i, pos, c, k, unsafe);
                        ok = attempt("insert of copies of an own element", {i}, false, [&] { ret(i, "insert", v(i).template insert<S>(at(), c, v(i)[k]), pos); });
                        if (ok) {
                            mm.insert(mm.begin() + long(pos), c, x);
                            EVENT("self-argument");
                        }
                    } else {
                        long x = val();
                        LOG("v%zu.insert(%zu, %zu, %ld) %d", i, pos, c, x, unsafe);
                        T t = X::make(x);
                        Held h(*this);
                        ok = attempt("insert of copies", {i}, false, [&] { ret(i, "insert", v(i).template insert<S>(at(), c, std::as_const(t)), pos); });
                        if (ok) {
                            mm.insert(mm.begin() + long(pos), c, x);
                        }
                    }
                    if (ok) {
                        st.verify("insert", n + c);
                    }
                    note(unsafe ? "unsafe:insert-count" : "insert:count", i);
                }
                break;
            case 3:
            case 4:
                if constexpr (Copyable<T> || FromLong<T>) {
                    size_t c = unsafe ? R(std::min<size_t>(room, upto(60)) + 1) : std::min<size_t>(count_for(i), upto(300));
                    M xs = vals(c);
                    LOG("v%zu.insert(%zu, range of %zu) %d", i, pos, c, unsafe);
                    bool ok = false;
                    guarded_range(xs, [&](auto first, auto last) {
                        ok = attempt("insert of a range", {i}, false, [&] { ret(i, "insert", v(i).template insert<S>(at(), first, last), pos); });
                    });
                    if (ok) {
                        mm.insert(mm.begin() + long(pos), xs.begin(), xs.end());
                        st.verify("insert", n + c);
                    }
                    note(unsafe ? "unsafe:insert-range" : "insert:range", i);
                }
                break;
            case 5:
                if constexpr (Copyable<T>) {
                    if (unsafe && room < 2) {
                        break;
                    }
                    long a = val(), b = val();
                    LOG("v%zu.insert(%zu, {%ld, %ld}) %d", i, pos, a, b, unsafe);
                    std::initializer_list<T> il{X::make(a), X::make(b)};
                    Held h(*this, 2);
                    if (attempt("insert of a list", {i}, false, [&] { ret(i, "insert", v(i).template insert<S>(at(), il), pos); })) {
                        mm.insert(mm.begin() + long(pos), {a, b});
                        st.verify("insert", n + 2);
                    }
                    note(unsafe ? "unsafe:insert-list" : "insert:list", i);
                }
                break;
            default: {
                bool by_index = P(1, 2);
                bool ok = false;
                long x = val();
                auto where = [&] { return v(i).begin() + std::ptrdiff_t(pos); };
                size_t k = n > 0 ? R(n) : 0;
                int kind = int(R(3));
                LOG("v%zu.emplace(%zu) kind %d %d", i, pos, kind, unsafe);
                if (kind == 0 && n > 0) {
                    if constexpr (Copyable<T>) {
                        x = mm[k];
                        ok = attempt("emplace of an own element", {i}, false, [&] {
                            ret(i, "emplace", by_index ? v(i).template emplace<S>(pos, v(i)[k]) : v(i).template emplace<S>(where(), v(i)[k]), pos);
                        });
                        EVENT("self-argument");
                    } else {
                        break;
                    }
                } else if (kind == 1) {
                    if constexpr (MultiArg<T>) {
                        ok = attempt("emplace of two arguments", {i}, false, [&] {
                            ret(i, "emplace", by_index ? v(i).template emplace<S>(pos, x - 1, 1L) : v(i).template emplace<S>(where(), x - 1, 1L), pos);
                        });
                    } else {
                        break;
                    }
                } else if constexpr (FromLong<T>) {
                    ok = attempt("emplace", {i}, false, [&] { ret(i, "emplace", by_index ? v(i).template emplace<S>(pos, x) : v(i).template emplace<S>(where(), x), pos); });
                } else if constexpr (Movable<T>) {
                    ok = attempt("emplace of a temporary", {i}, false, [&] {
                        Pause p;
                        T t = X::make(x);
                        p.resume();
                        ret(i, "emplace", v(i).template emplace<S>(pos, std::move(t)), pos);
                    });
                } else {
                    break;
                }
                if (ok) {
                    mm.insert(mm.begin() + long(pos), x);
                    st.verify("emplace", n + 1);
                }
                note(unsafe ? "unsafe:emplace" : "emplace", i);
            }
        }
    }
    template <Safety S>
    void push_s(size_t i) {
        constexpr bool unsafe = S == Safety::Unsafe;
        size_t n = m(i).size();
        if (unsafe && v(i).capacity() == n) {
            return;
        }
        Stable st(*this, i, n);
        auto& mm = m(i);
        long x = val();
        bool ok = false;
        switch (R(unsafe ? 5 : 6)) {
            case 0:
                if constexpr (Copyable<T>) {
                    LOG("v%zu.push_back(%ld) %d", i, x, unsafe);
                    T t = X::make(x);
                    Held h(*this);
                    ok = attempt("push_back", {i}, true, [&] { v(i).template push_back<S>(std::as_const(t)); });
                    if (ok) {
                        mm.push_back(x);
                    }
                    note(unsafe ? "unsafe:push" : "push:value", i);
                }
                break;
            case 1:
                if constexpr (Movable<T>) {
                    LOG("v%zu.push_back(rvalue %ld) %d", i, x, unsafe);
                    ok = attempt("push_back of a temporary", {i}, true, [&] {
                        Pause p;
                        T t = X::make(x);
                        p.resume();
                        v(i).template push_back<S>(std::move(t));
                    });
                    if (ok) {
                        mm.push_back(x);
                    }
                    note(unsafe ? "unsafe:push-rvalue" : "push:rvalue", i);
                }
                break;
            case 2:
                if constexpr (Copyable<T>) {
                    if (n > 0) {
                        size_t k = R(n);
                        x = mm[k];
                        LOG("v%zu.push_back(v[%zu]) %d", i, k, unsafe);
                        ok = P(1, 2) ? attempt("push_back of an own element", {i}, true, [&] { v(i).template push_back<S>(std::as_const(v(i))[k]); })
                                     : attempt("emplace_back of an own element", {i}, true, [&] { ret(i, "emplace_back", v(i).template emplace_back<S>(std::as_const(v(i))[k]), n); });
                        if (ok) {
                            mm.push_back(x);
                        }
                        EVENT("self-argument");
                        note(unsafe ? "unsafe:push-own" : "push:own", i);
                    }
                }
                break;
            case 3:
                if constexpr (FromLong<T>) {
                    LOG("v%zu.emplace_back(%ld) %d", i, x, unsafe);
                    ok = attempt("emplace_back", {i}, true, [&] { ret(i, "emplace_back", v(i).template emplace_back<S>(x), n); });
                    if (ok) {
                        mm.push_back(x);
                    }
                    note(unsafe ? "unsafe:emplace-back" : "push:emplace", i);
                }
                break;
            case 4:
                if constexpr (MultiArg<T>) {
                    LOG("v%zu.emplace_back(two) %d", i, unsafe);
                    ok = attempt("emplace_back of two arguments", {i}, true, [&] { ret(i, "emplace_back", v(i).template emplace_back<S>(x - 5, 5L), n); });
                    if (ok) {
                        mm.push_back(x);
                    }
                    note("push:emplace-two", i);
                } else {
                    ok = attempt("emplace_back without arguments", {i}, true, [&] { ret(i, "emplace_back", v(i).template emplace_back<S>(), n); });
                    if (ok) {
                        mm.push_back(X::kDefault);
                    }
                }
                break;
            default:
                if (n > 0) {
                    LOG("v%zu.pop_back()", i);
                    {
                        Track t;
                        v(i).pop_back();
                    }
                    mm.pop_back();
                    Stable s2 = st;
                    s2.ser.resize(std::min(s2.ser.size(), n - 1));
                    s2.verify("pop_back", n - 1);
                    note("pop", i);
                }
                return;
        }
        if (ok) {
            st.verify("push", n + 1);
        }
    }
    void erase(size_t i) {
        size_t n = m(i).size();
        auto& mm = m(i);
        switch (R(7)) {
            case 0:
            case 1: {
                if (n == 0) {
                    return;
                }
                size_t pos = std::min(pos_in(i), n - 1);
                Stable st(*this, i, pos);
                LOG("v%zu.erase(%zu)", i, pos);
                Track t;
                if (P(1, 2)) {
                    ret(i, "erase", v(i).erase(v(i).begin() + long(pos)), pos);
                } else {
                    ret(i, "erase", v(i).erase(v(i).cbegin() + long(pos)), pos);
                }
                mm.erase(mm.begin() + long(pos));
                st.verify("erase", n - 1);
                note("erase:position", i);
                break;
            }
            case 2:
            case 3: {
                size_t a = R(n + 1), b = R(n + 1);
                if (a > b) {
                    std::swap(a, b);
                }
                if (P(1, 5)) {
                    a = 0;
                }
                if (P(1, 5)) {
                    b = n;
                }
                Stable st(*this, i, a);
                LOG("v%zu.erase(%zu, %zu)", i, a, b);
                Track t;
                if (P(1, 2)) {
                    ret(i, "erase of a range", v(i).erase(v(i).begin() + long(a), v(i).begin() + long(b)), b);
                } else {
                    ret(i, "erase of a range", v(i).erase(v(i).cbegin() + long(a), v(i).cbegin() + long(b)), b);
                }
                mm.erase(mm.begin() + long(a), mm.begin() + long(b));
                st.verify("erase", n - (b - a));
                note("erase:range", i);
                break;
            }
            case 4: {
                if constexpr (std::is_same_v<T, std::unique_ptr<long>>) {
                    return;
                }
                long x = n > 0 && P(3, 4) ? mm[R(n)] : val();
                if (x < 0) {
                    x = val();
                }
                LOG("v%zu.erase(value %ld)", i, x);
                size_t want = size_t(std::count(mm.begin(), mm.end(), x));
                size_t first = size_t(std::find(mm.begin(), mm.end(), x) - mm.begin());
                Stable st(*this, i, first);
                size_t got = 0;
                const bool member = P(1, 2);
                auto run = [&] {
                    Pause p;
                    T t = X::make(x);
                    p.resume();
                    got = member ? v(i).erase(t) : std::erase(v(i), t);
                };
                if (!attempt("erase of a value", {i}, false, run)) {
                    note("erase:value-failed", i);
                    return;
                }
                std::erase(mm, x);
                ORACLE("V01", "V01/returned-value", got == want, "erase of a value returned %zu, expected %zu", got, want);
                st.verify("erase", mm.size());
                note("erase:value", i);
                break;
            }
            default: {
                long k = long(RR(1, 4));
                long r = long(R(uint64_t(k)));
                LOG("v%zu.erase_if(x %% %ld == %ld)", i, k, r);
                auto pred = [k, r](const T& t) {
                    may_throw();
                    return X::get(t) % k == r;
                };
                auto mp = [k, r](long x) { return x % k == r; };
                size_t first = size_t(std::find_if(mm.begin(), mm.end(), mp) - mm.begin());
                Stable st(*this, i, first);
                size_t got = 0;
                const bool member = P(1, 2);
                if (!attempt("erase_if", {i}, false, [&] { got = member ? v(i).erase_if(pred) : std::erase_if(v(i), pred); })) {
                    note("erase:if-failed", i);
                    return;
                }
                size_t want = std::erase_if(mm, mp);
                ORACLE("V01", "V01/returned-value", got == want, "erase_if returned %zu, expected %zu", got, want);
                st.verify("erase_if", mm.size());
                note("erase:if", i);
            }
        }
    }
    void resize(size_t i) {
        size_t n = m(i).size();
        auto& mm = m(i);
        size_t to = P(1, 2) ? n + count_for(i) : R(n + 8);
        if (to > upto(2000)) {
            to = n / 2;
        }
        if (P(1, 10)) {
            to = 0;
        }
        switch (R(3)) {
            case 0: {
                LOG("v%zu.resize(%zu)", i, to);
                Stable st(*this, i, std::min(n, to));
                if (attempt("resize", {i}, false, [&] { v(i).resize(to); })) {
                    mm.resize(to, X::kDefault);
                    st.verify("resize", to);
                }
                note("resize:default", i);
                break;
            }
            default:
                if constexpr (Copyable<T>) {
                    Stable st(*this, i, std::min(n, to));
                    bool ok;
                    long x;
                    if (n > 0 && P(1, 3)) {
                        size_t k = R(n);
                        x = mm[k];
                        LOG("v%zu.resize(%zu, v[%zu])", i, to, k);
                        ok = attempt("resize with an own element", {i}, false, [&] { v(i).resize(to, v(i)[k]); });
                        EVENT("self-argument");
                    } else {
                        x = val();
                        LOG("v%zu.resize(%zu, %ld)", i, to, x);
                        T t = X::make(x);
                        Held h(*this);
                        ok = attempt("resize with a value", {i}, false, [&] { v(i).resize(to, t); });
                    }
                    if (ok) {
                        mm.resize(to, x);
                        st.verify("resize", to);
                    }
                    note("resize:value", i);
                }
        }
    }
    void capacity(size_t i) {
        size_t n = m(i).size();
        switch (R(6)) {
            case 0:
            case 1:
            case 2: {
                size_t c = P(1, 2) ? R(n + 30) : v(i).capacity() + R(3);
                if (most > 600 && P(1, 3)) {
                    c = R(most);
                }
                if (c > upto(3000)) {
                    c = n;
                }
                LOG("v%zu.reserve(%zu)", i, c);
                Stable st(*this, i, n);
                if (attempt("reserve", {i}, true, [&] { v(i).reserve(c); })) {
                    ORACLE("V03", "V03/reserve", v(i).capacity() >= c, "capacity %zu after reserve(%zu)", v(i).capacity(), c);
                    st.verify("reserve", c);
                    pool[i].reserved = std::max(pool[i].reserved, c);
                }
                note("reserve", i);
                break;
            }
            case 3:
            case 4: {
                LOG("v%zu.shrink_to_fit()", i);
                pool[i].reserved = 0;
                if (attempt("shrink_to_fit", {i}, true, [&] { v(i).shrink_to_fit(); })) {
                    ORACLE("V03", "V03/shrink", v(i).capacity() == n, "capacity %zu after shrinking %zu elements", v(i).capacity(), n);
                }
                note("shrink", i);
                break;
            }
            default: {
                LOG("v%zu.clear()", i);
                Stable st(*this, i, 0);
                {
                    Track t;
                    v(i).clear();
                }
                m(i).clear();
                st.verify("clear", 0);
                note("clear", i);
            }
        }
    }
    static void place(T* p, long x) {
        Pause q;
        if constexpr (FromLong<T>) {
            new (static_cast<void*>(p)) T(x);
        } else {
            new (static_cast<void*>(p)) T(X::make(x));
        }
    }
    // writes fewer elements than it asked room for, by fill_less
    static size_t filler(T* p) {
        if (p == nullptr) {
            return fill_n;
        }
        for (size_t k = 0; k < fill_n - fill_less; ++k) {
            place(p + k, fill_src[k]);
        }
        return fill_n - fill_less;
    }
    // writes through buffers handed out by the vector
    template <Safety S>
    void bulk_s(size_t i) {
        constexpr bool unsafe = S == Safety::Unsafe;
        size_t n = m(i).size();
        size_t room = v(i).capacity() - n;
        size_t c = unsafe ? (P(1, 3) ? std::min<size_t>(room, upto(200)) : R(std::min<size_t>(room, upto(200)) + 1)) : std::min<size_t>(count_for(i), upto(300));
        auto& mm = m(i);
        M xs = vals(c);
        const size_t asked = c;
        Stable st(*this, i, n);
        bool ok = false;
        if (P(1, 2)) {
            LOG("v%zu.get_writebuffer(%zu) %d", i, c, unsafe);
            ok = attempt("get_writebuffer", {i}, true, [&] {
                auto b = v(i).template get_writebuffer<S>(c);
                Pause p;
                ORACLE("V05", "V05/buffer", b.size() == c && (c == 0 || b.data() == v(i).data() + n) && v(i).size() == n + c && v(i).capacity() >= n + c,
                       "the write buffer has %zu places at %td, expected %zu at %zu (size %zu)", b.size(), b.data() - v(i).data(), c, n, v(i).size());
                if (c > 0) {
                    auto* r = heap_find(v(i).data());
                    ORACLE("V05", "V05/buffer", r != nullptr && r->n >= (n + c) * sizeof(T), "the write buffer is not memory of the vector");
                }
                for (size_t k = 0; k < c; ++k) {
                    place(b.data() + k, xs[k]);
                }
            });
            note(unsafe ? "unsafe:writebuffer" : "bulk:writebuffer", i);
        } else {
            LOG("v%zu.fill(%zu) %d", i, c, unsafe);
            fill_src = xs.data();
            fill_n = c;
            fill_less = P(1, 3) ? R(c + 1) : 0;
            if (fill_less != 0) {
                LOG("  %zu of them are not written", fill_less);
                EVENT("fill-less");
            }
            ok = attempt("fill", {i}, true, [&] { v(i).template fill<S>(&filler); });
            c -= fill_less;
            xs.resize(c);
            fill_less = 0;
            note(unsafe ? "unsafe:fill" : "bulk:fill", i);
        }
        if (ok) {
            mm.insert(mm.end(), xs.begin(), xs.end());
            st.verify("bulk write", n + asked);
        }
    }
    // grows without initialising, then writes the new elements
    void raw_resize(size_t i) {
        size_t n = m(i).size();
        size_t to = P(1, 2) ? n + std::min<size_t>(count_for(i), upto(300)) : R(n + 1);
        M xs = vals(to > n ? to - n : 0);
        LOG("v%zu.resize<unsafe>(%zu)", i, to);
        Stable st(*this, i, std::min(n, to));
        if (attempt("uninitialised resize", {i}, true, [&] {
                v(i).template resize<Safety::Unsafe>(to);
                for (size_t k = n; k < to; ++k) {
                    place(v(i).data() + k, xs[k - n]);
                }
            })) {
            m(i).resize(std::min(n, to));
            m(i).insert(m(i).end(), xs.begin(), xs.end());
            st.verify("resize", to);
        }
        note("unsafe:resize", i);
    }

    // counts that cannot be represented or provided
    void too_large(size_t i) {
        V& x = v(i);
        size_t n = x.size();
        size_t most = x.max_size();
        auto huge = [&]() -> size_t {
            switch (R(9)) {
                case 0: return SIZE_MAX;
                case 1: return SIZE_MAX - R(3 * n + 3);
                case 2: return SIZE_MAX - n + 1 + R(3);
                case 3: return most + 1 + R(3);
                case 4: return most - R(3);
                case 5: return SIZE_MAX / sizeof(T) + 1 + R(3) + (sizeof(T) == 1 ? SIZE_MAX / 2 : 0);
                case 6: return size_t(PTRDIFF_MAX) + R(3);
                case 7: return (size_t(1) << 32) + R(1000);
                default: return SIZE_MAX / 2 + 1 + R(1000);
            }
        };
        size_t h = huge();
        if (h < (size_t(1) << 32)) {
            h = SIZE_MAX;
        }
        int what = int(R(10));
        const T* d = x.data();
        size_t cap = x.capacity();
        LOG("v%zu too large: %d with %zu (max %zu)", i, what, h, most);
        bool threw = false;
        bool ran = true;
        auto expect = [&](const char* op, bool strong, Fn f) {
            uint64_t inj = injected;
            (void)inj;
            try {
                Track t;
                f();
            } catch (const std::length_error&) {
                threw = true;
                EVENT("length_error");
            } catch (const std::bad_alloc&) {
                threw = true;
                EVENT("bad_alloc");
            }
            ORACLE("V04", "V04/too-large-accepted", threw, "%s with %zu on %zu elements of %zu bytes did not throw", op, h, n, sizeof(T));
            if (!threw) {
                harness_error("too large accepted");
            }
            if (strong) {
                ORACLE("V04", "V04/strong", x.data() == d && x.capacity() == cap && x.size() == n, "a failing %s changed the vector", op);
            }
        };
        switch (what) {
            case 0: expect("reserve", true, [&] { x.reserve(h); }); break;
            case 1: expect("resize", false, [&] { x.resize(h); }); break;
            case 2:
                if constexpr (Copyable<T>) {
                    T t = X::make(1);
                    Held hd(*this);
                    expect("resize with a value", false, [&] { x.resize(h, t); });
                }
                break;
            case 3:
                if constexpr (Copyable<T>) {
                    T t = X::make(1);
                    expect("assign", false, [&] { x.assign(h, t); });
                }
                break;
            case 4:
                if constexpr (Copyable<T>) {
                    T t = X::make(1);
                    size_t pos = R(n + 1);
                    expect("insert", false, [&] { (void)x.insert(x.cbegin() + long(pos), h, t); });
                }
                break;
            case 5: expect("construction", false, [&] { V y(h); }); break;
            case 6: expect("get_writebuffer", false, [&] { (void)x.get_writebuffer(h); }); break;
            case 7: {
                fill_n = h;
                expect("fill", false, [&] { x.fill(+[](T* p) -> size_t { return p == nullptr ? fill_n : 0; }); });
                break;
            }
            case 8:
                if constexpr (FromLong<T>) {
                    // lazily computed values
                    long len = long(std::min<size_t>(h, size_t(PTRDIFF_MAX) - R(3 * n + 3)));
                    Counting first{0}, last{len};
                    switch (R(3)) {
                        case 0: expect("construction from a range", false, [&] { V y(first, last); }); break;
                        case 1: expect("assign of a range", false, [&] { x.assign(first, last); }); break;
                        default: {
                            size_t pos = R(n + 1);
                            expect("insert of a range", false, [&] { (void)x.insert(x.cbegin() + long(pos), first, last); });
                        }
                    }
                }
                break;
            default:
                if constexpr (Copyable<T>) {
                    T t = X::make(1);
                    expect("construction with a value", false, [&] { V y(h, t); });
                }
        }
        (void)ran;
        // whatever is left in the vector is usable
        m(i).clear();
        for (auto& e : x) {
            m(i).push_back(X::get(e));
        }
        note("too-large", i);
    }

    static void append_piece(V& x, long e, size_t n, int how) {
        if (how == 1) {
            auto b = x.get_writebuffer(n);
            for (size_t k = 0; k < n; ++k) {
                place(b.data() + k, e);
            }
        } else if (how == 2) {
            Pause q;
            M xs(n, e);
            fill_src = xs.data();
            fill_n = n;
            q.resume();
            x.fill(&filler);
            track = 0;
        } else if constexpr (Copyable<T>) {
            Pause q;
            std::list<T> l;
            const T t = X::make(e);
            for (size_t k = 0; k < n; ++k) {
                l.push_back(t);
            }
            std::vector<T> a(l.begin(), l.end());
            q.resume();
            if (how == 3) {
                x.insert(x.cend(), n, std::as_const(l.front()));
            } else if (how == 4) {
                x.insert(x.cend(), l.begin(), l.end());
            } else {
                x.insert(x.cend(), a.data(), a.data() + n);
            }
            track = 0;
        }
    }
    // appending one by one or in pieces, any capacity to start with
    void growth() {
        size_t i = 0;
        construct(i);
        if (P(1, 2)) {
            Track t;
            v(i).reserve(v(i).size() + R(40));
        }
        if (P(1, 3)) {
            Track t;
            v(i).shrink_to_fit();
        }
        size_t longest = sizeof(T) > 100000 ? 60 : X::ledgered ? 6000 : sizeof(T) > 60 ? 9000 : 300000;
        size_t n = P(1, 10) ? longest : R(std::min<size_t>(longest, 3000)) + 20;
        size_t reallocs = 0;
        const T* d = v(i).data();
        size_t start = v(i).size();
        const size_t piece = P(1, 2) ? 1 : 1 + R(P(1, 3) ? 40 : 6);
        const int how = piece == 1 ? 0 : int(R(Copyable<T> ? 5 : 2)) + 1;
        LOG("append %zu elements to %zu in pieces of %zu, %d", n, start, piece, how);
        n = (n + piece - 1) / piece * piece;
        for (size_t k = 0; k < n; k += piece) {
            Track t;
            size_t cap = v(i).capacity();
            if (how == 0) {
                put(v(i), long(k % 100));
            } else {
                append_piece(v(i), long(k % 100), piece, how);
            }
            if (v(i).data() != d || v(i).capacity() != cap) {
                ++reallocs;
                d = v(i).data();
            }
        }
        double bound = 8 + 2.2 * double(64 - __builtin_clzll(n + start + 1));
        ORACLE("V03", "V03/growth", double(reallocs) <= bound, "appending %zu elements of %zu bytes in pieces of %zu (%d) reallocated %zu times", n, sizeof(T), piece, how, reallocs);
        for (size_t k = 0; k < n; ++k) {
            m(i).push_back(long(k / piece * piece % 100));
        }
        if (piece != 1) {
            EVENT("growth-in-pieces");
        }
        check_all("appending");
        EVENT("growth-run");
        EVENT_N("appended-elements", n);
        step(1, cls(n), sizeof(T));
        step(2, cls(start), reallocs);
        state(77, cls(n), cls(start), sizeof(T), reallocs);
    }

    // -------------------------------------------------------------------------------------------- V07
    void iterate(size_t i) {
        V& x = v(i);
        const V& c = x;
        const M& mm = m(i);
        size_t n = mm.size();
        NoTrack nt;
#define SAME(cond, ...) ORACLE("V07", "V07/iteration", cond, __VA_ARGS__)
        size_t k = 0;
        for (auto& e : x) {
            SAME(k < n && &e == x.data() + k && X::get(e) == mm[k], "forward iteration differs at %zu of %zu", k, n);
            ++k;
        }
        SAME(k == n, "forward iteration ended at %zu of %zu", k, n);
        k = 0;
        for (auto it = c.begin(); it != c.end(); (void)it++) {
            SAME(k < n && it.operator->() == c.data() + k, "constant iteration differs at %zu", k);
            ++k;
        }
        SAME(k == n, "constant iteration ended at %zu of %zu", k, n);
        k = 0;
        for (auto it = x.rbegin(); it != x.rend(); ++it) {
            SAME(k < n && &*it == x.data() + (n - 1 - k), "reverse iteration differs at %zu", k);
            ++k;
        }
        SAME(k == n, "reverse iteration ended at %zu of %zu", k, n);
        k = 0;
        for (auto it = c.rbegin(); it != c.rend(); (void)it++) {
            SAME(k < n && &*it == c.data() + (n - 1 - k), "constant reverse iteration differs at %zu", k);
            ++k;
        }
        SAME(k == n && c.crend() - c.crbegin() == long(n) && c.cend() - c.cbegin() == long(n), "reverse iteration ended at %zu of %zu", k, n);
        if (n > 0) {
            SAME(&*c.crbegin() == &c.back() && &*c.cbegin() == &c.front() && &*(c.crend() - 1) == &c.front(), "the ends differ");
        }
        // arithmetic
        for (int r = 0; r < 4; ++r) {
            size_t a = R(n + 1), b = R(n + 1);
            auto ia = x.begin() + long(a);
            auto ib = x.begin() + long(b);
            typename V::const_iterator ca = ia;
            typename V::const_iterator cb = c.begin() + long(b);
            bool lt = a < b, eq = a == b;
            SAME(ib - ia == long(b) - long(a) && cb - ca == long(b) - long(a), "difference of positions %zu and %zu is %td", a, b, ib - ia);
            SAME((ia < ib) == lt && (ia == ib) == eq && (ia != ib) == !eq && (ia <= ib) == (lt || eq) && (ia > ib) == (!lt && !eq) && (ia >= ib) == !lt,
                 "comparison of positions %zu and %zu", a, b);
            SAME((ca < cb) == lt && (ca == cb) == eq && (ca <=> cb) == (a <=> b), "comparison of constant positions %zu and %zu", a, b);
            auto t = ia;
            t += long(b) - long(a);
            SAME(t == ib && ia + (long(b) - long(a)) == ib && (long(b) - long(a)) + ia == ib, "advance from %zu to %zu", a, b);
            t -= long(b) - long(a);
            SAME(t == ia && ib - (long(b) - long(a)) == ia, "retreat from %zu to %zu", b, a);
            if (b < n) {
                // subscripts count from where the iterator is, in both directions
                std::ptrdiff_t d = long(b) - long(a);
                SAME(&ia[d] == x.data() + b && &ca[d] == c.data() + b && X::get(ia[d]) == mm[b], "subscript %td from %zu of %zu", d, a, n);
                auto ra = std::make_reverse_iterator(ia);
                auto rc = std::make_reverse_iterator(ca);
                std::ptrdiff_t e = long(a) - 1 - long(b);
                SAME(&ra[e] == x.data() + b && &rc[e] == c.data() + b && &*(ra + e) == x.data() + b, "reverse subscript %td from %zu of %zu", e, a, n);
            }
            if (a < n) {
                SAME(&*ia == x.data() + a && ia.operator->() == x.data() + a && &x.begin()[a] == x.data() + a && &c.begin()[a] == c.data() + a && &x[a] == x.data() + a &&
                       &c[a] == c.data() + a && &x.at(a) == x.data() + a && std::to_address(ia) == x.data() + a,
                     "dereference at %zu", a);
                auto u = ia;
                auto w = u++;
                SAME(w == ia && u == ia + 1, "postfix increment at %zu", a);
                w = u--;
                SAME(w == ia + 1 && u == ia, "postfix decrement at %zu", a);
                SAME(++u == ia + 1 && --u == ia, "prefix steps at %zu", a);
            }
            typename V::iterator moved(std::move(t));
            SAME(moved == ia, "a moved iterator points elsewhere");
            t = ib;
            moved = std::move(t);
            SAME(moved == ib, "a move assigned iterator points elsewhere");
        }
        note("iterate", i);
#undef SAME
    }
    void compare(size_t i) {
        size_t j = any();
        need(j);
        NoTrack nt;
        const V &a = v(i), &b = v(j);
        auto want = m(i) <=> m(j);
        if constexpr (std::is_same_v<T, std::string>) {
            std::vector<std::string> sa, sb;
            for (long x : m(i)) {
                sa.push_back(X::make(x));
            }
            for (long x : m(j)) {
                sb.push_back(X::make(x));
            }
            want = sa <=> sb;
        }
        if constexpr (std::is_same_v<T, std::unique_ptr<long>> || std::is_same_v<T, stdb_vector<int>>) {
            if constexpr (std::is_same_v<T, stdb_vector<int>>) {
                auto eq = m(i) == m(j);
                ORACLE("V07", "V07/comparison", (a == b) == eq && (a != b) == !eq, "equality of %zu and %zu elements", a.size(), b.size());
            }
        } else {
            bool eq = m(i) == m(j);
            ORACLE("V07", "V07/comparison", (a == b) == eq && (a != b) == !eq, "equality of %zu and %zu elements", a.size(), b.size());
            ORACLE("V07", "V07/comparison", (a <=> b) == want && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0),
                   "three-way comparison of %zu and %zu elements", a.size(), b.size());
        }
        note("compare", i);
        if constexpr (std::is_same_v<T, int> || std::is_same_v<T, PodByte>) {
            compare_any();
        }
    }
    // makes a vector equal to another one up to a point, so that comparisons are decided late
    void similar(size_t i) {
        if constexpr (Copyable<T>) {
            size_t j = any();
            need(j);
            if (i == j || m(j).empty()) {
                return;
            }
            {
                Track t;
                v(i) = v(j);
            }
            m(i) = m(j);
            size_t k = R(m(i).size());
            switch (R(4)) {
                case 0: {
                    {
                        Track t;
                        v(i).erase(v(i).begin() + long(k), v(i).end());
                    }
                    m(i).resize(k);
                    break;
                }
                case 1: {
                    long x = val();
                    {
                        Track t;
                        put(v(i), x);
                    }
                    m(i).push_back(x);
                    break;
                }
                case 2: {
                    long x = val();
                    {
                        T e = X::make(x);
                        Track t;
                        v(i).erase(v(i).begin() + long(k));
                        v(i).insert(v(i).cbegin() + long(k), std::as_const(e));
                    }
                    m(i)[k] = x;
                    break;
                }
                default: break;
            }
            note("similar", i);
            LOG("v%zu similar to v%zu: %zu elements", i, j, m(i).size());
        }
    }
    void algorithms(size_t i) {
        NoTrack nt;
        V& x = v(i);
        M& mm = m(i);
        size_t n = mm.size();
#define AGREE(cond, name) ORACLE("V07", "V07/algorithm", cond, "%s differs on %zu elements", name, n)
        if constexpr (std::is_move_assignable_v<T> && Movable<T> && !std::is_same_v<T, std::unique_ptr<long>> && !std::is_same_v<T, stdb_vector<int>>) {
            auto less = [](const T& a, const T& b) { return X::get(a) < X::get(b); };
            long mid = long(R(n + 1));
            size_t which = R(9);
            if (alignof(T) > 16 && (which == 4 || which == 5)) {
                which = 0;  // the buffer of libstdc++'s stable algorithms is not aligned for these
            }
            LOG("algorithm %zu on v%zu (%zu, %zu)", which, i, n, size_t(mid));
            switch (which) {
                case 0:
                    std::sort(x.begin(), x.end(), less);
                    std::sort(mm.begin(), mm.end());
                    break;
                case 1:
                    std::ranges::sort(x, less);
                    std::sort(mm.begin(), mm.end());
                    break;
                case 2:
                    std::reverse(x.begin(), x.end());
                    std::reverse(mm.begin(), mm.end());
                    break;
                case 3: {
                    auto r = std::rotate(x.begin(), x.begin() + mid, x.end());
                    auto q = std::rotate(mm.begin(), mm.begin() + mid, mm.end());
                    AGREE(r - x.begin() == q - mm.begin(), "rotate");
                    break;
                }
                case 4: {
                    std::stable_sort(x.rbegin(), x.rend(), less);
                    std::stable_sort(mm.rbegin(), mm.rend());
                    break;
                }
                case 5: {
                    auto r = std::stable_partition(x.begin(), x.end(), [](const T& t) { return X::get(t) % 2 == 0; });
                    auto q = std::stable_partition(mm.begin(), mm.end(), [](long t) { return t % 2 == 0; });
                    AGREE(r - x.begin() == q - mm.begin(), "partition");
                    break;
                }
                case 6: {
                    if (n > 0) {
                        std::nth_element(x.begin(), x.begin() + long(n / 2), x.end(), less);
                        std::sort(x.begin(), x.end(), less);
                        std::sort(mm.begin(), mm.end());
                    }
                    break;
                }
                case 7: {
                    std::ranges::reverse(x);
                    std::reverse(mm.begin(), mm.end());
                    break;
                }
                default: {
                    std::make_heap(x.begin(), x.end(), less);
                    AGREE(std::is_heap(x.begin(), x.end(), less), "make_heap");
                    std::sort_heap(x.begin(), x.end(), less);
                    std::sort(mm.begin(), mm.end());
                }
            }
        }
        long key = val();
        auto is = [key](const T& t) { return X::get(t) == key; };
        auto mis = [key](long t) { return t == key; };
        const V& c = x;
        AGREE(std::find_if(c.begin(), c.end(), is) - c.begin() == std::find_if(mm.begin(), mm.end(), mis) - mm.begin(), "find_if");
        AGREE(std::ranges::count_if(c, is) == std::count_if(mm.begin(), mm.end(), mis), "count_if");
        AGREE(std::ranges::find_if(x, is) - x.begin() == std::find_if(mm.begin(), mm.end(), mis) - mm.begin(), "ranges::find_if");
        AGREE(std::find_if(c.crbegin(), c.crend(), is) - c.crbegin() == std::find_if(mm.crbegin(), mm.crend(), mis) - mm.crbegin(), "find_if from the end");
        AGREE(std::accumulate(c.begin(), c.end(), 0UL, [](uint64_t s, const T& t) { return s * 3 + uint64_t(X::get(t)); }) ==
                std::accumulate(mm.begin(), mm.end(), 0UL, [](uint64_t s, long t) { return s * 3 + uint64_t(t); }),
              "accumulate");
        uint64_t odd = 0;
        for (auto& t : c | std::views::filter([](const T& t) { return X::get(t) % 2 == 1; }) | std::views::reverse) {
            odd = odd * 5 + uint64_t(X::get(t));
        }
        uint64_t mo = 0;
        for (long t : mm | std::views::filter([](long t) { return t % 2 == 1; }) | std::views::reverse) {
            mo = mo * 5 + uint64_t(t);
        }
        AGREE(odd == mo, "filter and reverse views");
        AGREE(std::ranges::size(c) == n && std::ranges::empty(c) == mm.empty() && std::ranges::data(c) == c.data() && std::distance(c.begin(), c.end()) == long(n), "range access");
        std::span<const T> sp(c.begin(), c.end());
        AGREE(sp.size() == n && sp.data() == c.data(), "span");
        if constexpr (std::is_same_v<T, int>) {
            AGREE(fmt::format("{}", c) == fmt::format("{}", mm), "formatting");
        }
        note("algorithm", i);
#undef AGREE
    }

    // -------------------------------------------------------------------------------------------- driver
    // weights: construct assign insert push erase resize capacity bulk unsafe toolarge iterate destroy
    void do_step(const std::array<int, 12>& w) {
        int sum = 0;
        for (int x : w) {
            sum += x;
        }
        int r = int(R(uint64_t(sum)));
        size_t op = 0;
        while (r >= w[op]) {
            r -= w[op];
            ++op;
        }
        size_t i = any();
        need(i);
        if (m(i).size() > most) {
            Track t;
            v(i).clear();
            m(i).clear();
        }
        LOG("op %zu on v%zu", op, i);
        switch (op) {
            case 0: construct(i); break;
            case 1: assign(i); break;
            case 2: insert_s<Safety::Safe>(i); break;
            case 3: push_s<Safety::Safe>(i); break;
            case 4: erase(i); break;
            case 5: resize(i); break;
            case 6: capacity(i); break;
            case 7: bulk_s<Safety::Safe>(i); break;
            case 8:
                if (v(i).capacity() == v(i).size() && P(3, 4)) {
                    Track t;
                    v(i).reserve(v(i).size() + 1 + R(12));
                }
                switch (R(4)) {
                    case 0: push_s<Safety::Unsafe>(i); break;
                    case 1: bulk_s<Safety::Unsafe>(i); break;
                    case 2: raw_resize(i); break;
                    default: insert_s<Safety::Unsafe>(i);
                }
                break;
            case 9: too_large(i); break;
            case 10:
                switch (R(4)) {
                    case 0: iterate(i); break;
                    case 1: compare(i); break;
                    case 2: similar(i); break;
                    default: algorithms(i);
                }
                break;
            default: destroy(i);
        }
        check_all("the step");
    }
    void finish() {
        for (size_t i = 0; i < kPool; ++i) {
            destroy(i);
            check_all("destruction");
        }
    }
};

inline std::array<int, 12> weights() {
    //                      con asg ins psh ers rsz cap blk uns big itr del
    const std::string& p = prop;
    if (p == "V02") {
        return {6, 10, 16, 12, 14, 10, 8, 6, 4, 2, 1, 4};
    }
    if (p == "V03") {
        return {4, 5, 14, 16, 8, 10, 24, 8, 4, 0, 0, 3};
    }
    if (p == "V04") {
        return {10, 14, 22, 16, 4, 12, 8, 6, 3, 10, 0, 3};
    }
    if (p == "V05") {
        return {5, 3, 4, 6, 4, 3, 14, 26, 36, 1, 0, 2};
    }
    if (p == "V06") {
        return {22, 22, 34, 5, 5, 3, 8, 0, 10, 0, 0, 2};
    }
    if (p == "V07") {
        return {8, 5, 5, 10, 5, 4, 4, 0, 0, 0, 56, 2};
    }
    return {6, 10, 22, 14, 16, 10, 8, 3, 3, 1, 2, 3};
}

template <class T>
void one(const char* name) {
    LOG("element type %s", name);
    count_event(name);
    Lab<T> lab;
    if (prop == "V03" && P(1, 12)) {
        lab.growth();
        lab.finish();
        return;
    }
    if (prop == "V06" && P(1, 60)) {
        lab.sweep();
    }
    injecting = prop == "V04";
    auto w = weights();
    lab.choose_scale();
    size_t n = sizeof(T) > 100000 ? 4 : 4 + R(lab.most > 65536 ? 10 : 28);
    for (size_t k = 0; k < n; ++k) {
        lab.do_step(w);
    }
    injecting = false;
    lab.finish();
}
}  // namespace vec

template <>
struct stdb::Relocatable<vec::Owner> : std::true_type
{};
template <>
struct stdb::ZeroInitable<vec::ZeroTag> : std::true_type
{};
