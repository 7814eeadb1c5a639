// A pool of strings of the library, each with a standard string as its model; random operations are applied to both and
// everything observable is compared after every operation.
//
// S  the string type of the library
// W  the world: where strings live, what is fault-injected, extra monitors; which properties own which oracle
#pragma once
#include "vh.hpp"

#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>

#include <fmt/format.h>

using vh::P;
using vh::R;
using vh::RR;

enum class Ex : uint8_t { None, Range, Length, Bad, Logic, Ios, Other };
inline const char* ex_name(Ex e) {
    static const char* n[] = {"nothing", "out_of_range", "length_error", "bad_alloc", "logic_error", "ios failure", "another exception"};
    return n[int(e)];
}
template <class F>
Ex guard(F&& f) {
    try {
        f();
    } catch (const std::out_of_range&) {
        return Ex::Range;
    } catch (const std::length_error&) {
        return Ex::Length;
    } catch (const std::bad_alloc&) {
        return Ex::Bad;
    } catch (const std::ios_base::failure&) {
        return Ex::Ios;
    } catch (const std::logic_error&) {
        return Ex::Logic;
    } catch (...) {
        return Ex::Other;
    }
    return Ex::None;
}

// a single-pass iterator over characters
template <class Ch>
struct InputIt
{
    using iterator_category = std::input_iterator_tag;
    using value_type = Ch;
    using difference_type = std::ptrdiff_t;
    using pointer = const Ch*;
    using reference = Ch;
    const Ch* p{nullptr};
    auto operator*() const -> Ch { return *p; }
    auto operator++() -> InputIt& {
        ++p;
        return *this;
    }
    auto operator++(int) -> InputIt {
        auto t = *this;
        ++p;
        return t;
    }
    friend bool operator==(const InputIt& a, const InputIt& b) { return a.p == b.p; }
    friend bool operator!=(const InputIt& a, const InputIt& b) { return a.p != b.p; }
};

// hashes of a string type without a pool of its own
template <class T, class A>
void hash_only(const char* tags, A alloc) {
    vh::NoTrack nt;
    using Ch = typename T::value_type;
    std::hash<T> h;
    size_t n = 1 + R(P(1, 2) ? 12 : 200);
    std::basic_string<Ch> x(n, Ch(0));
    for (auto& c : x) {
        c = Ch('a' + R(3));
    }
    T a(x.data(), n, alloc);
    T b(alloc);
    b.reserve(n + R(300));
    b.append(x.data(), n);
    ORACLE(tags, "S06/search", h(a) == h(b) && h(a) == h(T(a)), "equal strings of %zu characters of %zu bytes hash differently", n, sizeof(Ch));
    std::set<size_t> seen;
    std::set<std::basic_string<Ch>> distinct;
    for (int i = 0; i < 12; ++i) {
        auto y = x;
        size_t p = P(1, 3) ? n - 1 : R(n);
        y[p] = Ch(y[p] + 1 + Ch(R(60000)));
        distinct.insert(y);
        seen.insert(h(T(y.data(), n, alloc)));
    }
    ORACLE(tags, "S06/search", seen.size() * 2 > distinct.size(), "%zu different strings of %zu characters of %zu bytes have only %zu hash values", distinct.size(), n, sizeof(Ch), seen.size());
    EVENT("hash-spreads");
}

// Characters of which several count as equal: searching and comparing have to go through the traits.
template <class Ch>
struct Fold : std::char_traits<Ch>
{
    static Ch up(Ch c) { return c >= Ch('a') && c <= Ch('z') ? Ch(c - 32) : c; }
    static constexpr void assign(Ch& a, const Ch& b) noexcept { a = b; }
    static Ch* assign(Ch* p, size_t n, Ch c) { return std::char_traits<Ch>::assign(p, n, c); }
    static bool eq(Ch a, Ch b) { return up(a) == up(b); }
    // the other way round than the numbers
    static bool lt(Ch a, Ch b) { return up(b) < up(a); }
    static int compare(const Ch* a, const Ch* b, size_t n) {
        for (; n != 0; --n, ++a, ++b) {
            if (!eq(*a, *b)) {
                return lt(*a, *b) ? -1 : 1;
            }
        }
        return 0;
    }
    static const Ch* find(const Ch* s, size_t n, const Ch& c) {
        for (; n != 0; --n, ++s) {
            if (eq(*s, c)) {
                return s;
            }
        }
        return nullptr;
    }
};
template <class S, class A>
void other_traits(const char* tags, A alloc) {
    vh::NoTrack nt;
    using Ch = typename S::value_type;
    using M = std::basic_string<Ch, Fold<Ch>>;
    auto text = [](size_t n, uint64_t kinds) {
        M x(n, Ch('a'));
        for (auto& c : x) {
            c = Ch((P(1, 2) ? 'a' : 'A') + R(kinds));
            if (P(1, 60)) {
                c = Ch(sizeof(Ch) == 1 ? 0xE0 : 0x3E0) + Ch(R(3));
            }
        }
        return x;
    };
    uint64_t kinds = 1 + R(4);
    M m = text(P(1, 8) ? R(600) : R(50), kinds);
    S s(m.data(), m.size(), alloc);
    auto sgn = [](auto o) { return o < 0 ? -1 : o > 0 ? 1 : 0; };
    for (int round = 0; round < 12; ++round) {
        M y;
        if (P(1, 2) && !m.empty()) {  // found, in another spelling
            size_t at = R(m.size());
            y = m.substr(at, 1 + R(10));
            for (auto& c : y) {
                if (P(1, 2) && Fold<Ch>::up(c) != c) {
                    c = Fold<Ch>::up(c);
                }
            }
        } else {
            y = text(R(6), kinds);
        }
        if (P(1, 6)) {
            y = m;
            if (!y.empty() && P(1, 2)) {
                y[R(y.size())] = Ch('b');
            }
        }
        S t(y.data(), y.size(), alloc);
        size_t pos = P(1, 4) ? M::npos : P(1, 3) ? 0 : R(m.size() + 3);
        Ch c = y.empty() ? Ch('A') : y[0];
        auto check = [&](const char* op, auto got, auto want) {
            ORACLE(tags, "S06/search", size_t(got) == size_t(want), "with other traits %s at %zu of a text of %zu characters gave %zd for %zu characters, expected %zd", op, pos,
                   m.size(), ssize_t(got), y.size(), ssize_t(want));
        };
        check("find", s.find(t, pos), m.find(y, pos));
        check("find (pointer)", s.find(y.data(), pos, y.size()), m.find(y.data(), pos, y.size()));
        check("find (character)", s.find(c, pos), m.find(c, pos));
        check("rfind", s.rfind(t, pos), m.rfind(y, pos));
        check("rfind (character)", s.rfind(c, pos), m.rfind(c, pos));
        check("find_first_of", s.find_first_of(t, pos), m.find_first_of(y, pos));
        check("find_last_of", s.find_last_of(t, pos), m.find_last_of(y, pos));
        check("find_first_not_of", s.find_first_not_of(t, pos), m.find_first_not_of(y, pos));
        check("find_last_not_of", s.find_last_not_of(t, pos), m.find_last_not_of(y, pos));
        check("find_first_not_of (character)", s.find_first_not_of(c, pos), m.find_first_not_of(c, pos));
        check("find_last_not_of (character)", s.find_last_not_of(c, pos), m.find_last_not_of(c, pos));
        check("contains (character)", s.contains(c), m.find(c) != M::npos);
        check("starts_with (character)", s.starts_with(c), m.starts_with(c));
        check("ends_with (character)", s.ends_with(c), m.ends_with(c));
        check("compare", sgn(s.compare(t)), sgn(m.compare(y)));
        check("compare (pointer)", sgn(s.compare(y.c_str())), sgn(m.compare(y.c_str())));
        if (pos <= m.size()) {
            size_t n = R(12);
            check("compare (part)", sgn(s.compare(pos, n, t)), sgn(m.compare(pos, n, y)));
            check("compare (part, pointer)", sgn(s.compare(pos, n, y.data(), y.size())), sgn(m.compare(pos, n, y.data(), y.size())));
        }
        check("==", s == t, m == y);
        check("== (pointer)", s == y.c_str(), m == y.c_str());
        check("<", s < t, m < y);
        check("<=", s <= t, m <= y);
        check(">", s > t, m > y);
        check(">=", s >= t, m >= y);
        check("<=>", sgn(s <=> t), sgn(m.compare(y)));
        if (m.size() < 1000 && P(1, 3)) {  // the characters stay what they were
            size_t at = R(m.size() + 1);
            m.insert(at, y);
            s.insert(at, t);
            ORACLE(tags, "S06/search", s.size() == m.size() && std::char_traits<Ch>::compare(s.data(), m.data(), m.size()) == 0, "with other traits the text is another one after an insertion");
        }
    }
    EVENT("other-traits");
}

// Every form with the arguments a caller may leave out.
template <class S, class A>
void left_out(const char* find_tags, const char* tags, A alloc) {
    vh::NoTrack nt;
    using Ch = typename S::value_type;
    using M = std::basic_string<Ch>;
    auto text = [](size_t n, uint64_t kinds) {
        M x(n, Ch('a'));
        for (auto& c : x) {
            c = P(1, 40) ? Ch(0) : Ch('a' + R(kinds));
        }
        return x;
    };
    uint64_t kinds = 1 + R(4);
    M m = text(P(1, 80) ? 65000 + R(2000) : P(1, 6) ? R(700) : R(60), kinds);
    S s(m.data(), m.size(), alloc);
    const S& k = s;
    for (int round = 0; round < 10; ++round) {
        M y = P(1, 2) && !m.empty() ? m.substr(R(m.size()), R(8)) : text(R(5), kinds + 1);
        S t(y.data(), y.size(), alloc);
        Ch c = y.empty() ? Ch('a' + kinds) : y[0];
        auto check = [&](const char* op, auto got, auto want) {
            ORACLE(find_tags, "S06/search", size_t(got) == size_t(want), "%s without a position gave %zd for %zu characters in a text of %zu, expected %zd", op, ssize_t(got), y.size(),
                   m.size(), ssize_t(want));
        };
        const Ch* z = y.c_str();
        check("find", k.find(t), m.find(y));
        check("find (pointer)", k.find(z), m.find(z));
        check("find (character)", k.find(c), m.find(c));
        check("rfind", k.rfind(t), m.rfind(y));
        check("rfind (pointer)", k.rfind(z), m.rfind(z));
        check("rfind (character)", k.rfind(c), m.rfind(c));
        check("find_first_of", k.find_first_of(t), m.find_first_of(y));
        check("find_first_of (pointer)", k.find_first_of(z), m.find_first_of(z));
        check("find_first_of (character)", k.find_first_of(c), m.find_first_of(c));
        check("find_last_of", k.find_last_of(t), m.find_last_of(y));
        check("find_last_of (pointer)", k.find_last_of(z), m.find_last_of(z));
        check("find_last_of (character)", k.find_last_of(c), m.find_last_of(c));
        check("find_first_not_of", k.find_first_not_of(t), m.find_first_not_of(y));
        check("find_first_not_of (pointer)", k.find_first_not_of(z), m.find_first_not_of(z));
        check("find_first_not_of (character)", k.find_first_not_of(c), m.find_first_not_of(c));
        check("find_last_not_of", k.find_last_not_of(t), m.find_last_not_of(y));
        check("find_last_not_of (pointer)", k.find_last_not_of(z), m.find_last_not_of(z));
        check("find_last_not_of (character)", k.find_last_not_of(c), m.find_last_not_of(c));
        auto same = [&](const char* op, const S& got, const M& want) {
            ORACLE(tags, "S01/value", got.size() == want.size() && std::char_traits<Ch>::compare(got.data(), want.data(), want.size()) == 0 && got.c_str()[got.size()] == Ch(0),
                   "%s without a count of a text of %zu characters gave %zu characters, expected %zu", op, m.size(), got.size(), want.size());
        };
        size_t pos = P(1, 6) ? m.size() : R(m.size() + 1);
        if constexpr (std::is_same_v<A, std::allocator<Ch>>) {
            same("construction from a part", S(k, pos), M(m, pos));
        }
        same("construction from a part", S(k, pos, S::npos, alloc), M(m, pos));
        same("substr", k.substr(pos), m.substr(pos));
        same("substr of all", k.substr(), m.substr());
        same("substr of a temporary", S(k).substr(pos), m.substr(pos));
        same("substr of all of a temporary", S(k).substr(), m);
        S e(k);
        M f(m);
        same("erase", e.erase(pos), f.erase(pos));
        same("erase of all", e.erase(), f.erase());
        M got(m.size(), Ch('?')), want(got);
        size_t n = R(m.size() + 2);
        size_t a = k.copy(got.data(), std::min(n, got.size()));
        size_t b = m.copy(want.data(), std::min(n, want.size()));
        ORACLE(tags, "S01/result", a == b && got == want, "copying the first %zu of %zu characters gave %zu", n, m.size(), a);
        // without a reservation nothing is lost
        S r(k);
        r.reserve();
        same("reserve", r, m);
        r.resize(n);
        M q(m);
        q.resize(n);
        same("resize", r, q);
        if (P(1, 2) && m.size() < 2000) {
            m += y;
            s += t;
        }
    }
    EVENT("left-out-arguments");
}

template <class S, class W>
struct Lab
{
    using Ch = typename S::value_type;
    using M = std::basic_string<Ch>;
    using V = std::basic_string_view<Ch>;
    static constexpr bool kChar = std::is_same_v<Ch, char>;
    static constexpr bool kStreams = kChar || std::is_same_v<Ch, wchar_t>;  // the standard library has streams of these
    static constexpr size_t kSmall = 23 / sizeof(Ch);
    static constexpr size_t kMedium = 254 / sizeof(Ch);
    static inline size_t kCap = 6000;  // contents are kept below this
    static inline bool big = false;    // this case uses sizes around 2^16 and beyond
    static constexpr size_t npos = size_t(-1);

    // what an operation gives back
    struct Out
    {
        Ex ex{Ex::None};
        M text;              // returned characters
        long long num{0};    // returned number (position, size, sign)
        void clear() {
            ex = Ex::None;
            text.clear();
            num = 0;
        }
    };

    struct Slot
    {
        S* s{nullptr};
        M m;
        int home{0};               // which arena
        size_t reserved{0};        // largest reservation since the contents last shrank or were replaced
        bool shared{false};        // made by or source of a copy: may share storage
    };

    W& w;
    std::vector<Slot> pool;
    const char* opname{""};
    uint64_t opcode{0};

    explicit Lab(W& world) : w(world) {}
    ~Lab() {}

    static bool same(const S& s, const M& m) {
        return s.size() == m.size() && (m.empty() || std::char_traits<Ch>::compare(s.data(), m.data(), m.size()) == 0);
    }
    static auto of(const S& s) -> M { return M(s.data(), s.size()); }
    static auto show(V v) -> std::string {
        vh::NoTrack nt;
        std::string r = std::to_string(v.size()) + ":\"";
        for (size_t i = 0; i < v.size() && i < 60; ++i) {
            unsigned u = unsigned(std::make_unsigned_t<Ch>(v[i]));
            if (u >= 32 && u < 127 && u != '"' && u != '\\') {
                r += char(u);
            } else {
                char b[12];
                snprintf(b, sizeof b, "\\x%02x", u);
                r += b;
            }
        }
        return r + (v.size() > 60 ? "\"..." : "\"");
    }
    static int cat(size_t n) { return n <= kSmall ? 0 : n <= kMedium ? 1 : 2; }
    // does another string use the same characters (destroyed arena strings count as users)
    bool is_shared(const Slot& t) const {
        if (W::kStickyShare && t.shared) {
            return true;
        }
        if (in_object(*t.s)) {
            return false;
        }
        for (auto& x : pool) {
            if (&x != &t && x.s->data() != nullptr && static_cast<const S&>(*x.s).data() == static_cast<const S&>(*t.s).data()) {
                return true;
            }
        }
        return false;
    }
    bool in_object(const S& s) const {
        auto* p = reinterpret_cast<const char*>(s.data());
        auto* o = reinterpret_cast<const char*>(&s);
        return p >= o && p < o + sizeof(S);
    }

    // ---------------------------------------------------------------------------------------------- random material
    static void choose_scale(uint64_t one_in) {
        big = P(1, one_in);
        kCap = big ? 320000 : 6000;
        if (big) {
            EVENT("cases-with-large-sizes");
        }
    }
    static auto rsize() -> size_t {
        if (big && P(1, 3)) {
            switch (R(6)) {
                case 0:
                    return 65530 + R(14);
                case 1:
                    return 32760 + R(14);
                case 2:
                    return R(70000);
                case 3:
                    return R(160000);
                case 4:
                    return 131066 + R(10);
                default:
                    return 4090 + R(12);
            }
        }
        switch (R(10)) {
            case 0:
                return R(4);
            case 1:
            case 2:
                return R(kSmall + 3);
            case 3:
                return kSmall - 2 + R(5);
            case 4:
                return R(kMedium + 3);
            case 5:
                return kMedium - 3 + R(8);
            case 6:
                return R(3 * kMedium);
            case 7:
                return R(12);
            case 8:
                return 40 + R(60);
            default:
                return P(1, 3) ? R(4000) : R(kSmall + 1);
        }
    }
    static auto rch() -> Ch {
        if constexpr (sizeof(Ch) > 1) {
            if (P(1, 3)) {  // what differs in one of the bytes only, and the ends
                static constexpr unsigned long some[] = {0x100, 0x102, 0x201, 0x6100, 0x6161, 0x4e2d, 0xd83d, 0xde00, 0xfeff, 0xff00, 0xfffe, 0xffff};
                static constexpr unsigned long more[] = {0x10000, 0x1f600, 0x10ffff, 0x61000000, 0x610000, 0x7fffffff, 0x80000000, 0xff000000, 0xffffff00, 0x6261};
                return sizeof(Ch) > 2 && P(1, 2) ? Ch(more[R(std::size(more))]) : Ch(some[R(std::size(some))]);
            }
        }
        switch (R(12)) {
            case 0:
                return Ch(0);
            case 1:
                return Ch(0x80 + R(128));
            case 2:
                return Ch(R(256));
            case 3:
                return Ch(' ');
            default:
                return Ch('a' + R(3));
        }
    }
    static auto rtext(size_t n) -> M {
        M t(n, Ch('x'));
        bool plain = P(1, 2);
        for (auto& c : t) {
            c = plain ? Ch('a' + R(P(1, 8) ? 26 : 3)) : rch();
        }
        return t;
    }
    static auto rtext() -> M { return rtext(rsize()); }
    static auto rpos(size_t size) -> size_t { return P(1, 6) ? (P(1, 2) ? 0 : size) : R(size + 1); }
    static inline bool clamped = false;  // the operation got a count that reaches past the end
    static auto rlen(size_t rest) -> size_t {
        size_t n = rlen_any(rest);
        clamped = clamped || n > rest;
        return n;
    }
    static auto rlen_any(size_t rest) -> size_t {
        switch (R(6)) {
            case 0:
                switch (R(6)) {
                    case 0:
                        return npos - R(rest + 40);  // a position added to it wraps around
                    case 1:
                        return npos / 2 + R(5) - 2;
                    case 2:
                        return (size_t(1) << (31 + R(3))) + R(rest + 2);
                    default:
                        return npos;
                }
            case 1:
                return rest;
            case 2:
                return rest + R(20);
            case 3:
                return R(4);
            default:
                return R(rest + 1);
        }
    }
    static auto badpos(size_t size) -> size_t {
        switch (R(4)) {
            case 0:
                return npos;
            case 1:
                return size + 1;
            case 2:
                return size + 1 + R(300);
            default:
                return npos - R(300);
        }
    }

    // ---------------------------------------------------------------------------------------------- the checks
    void check_slot(const Slot& t, bool target) {
        const S& s = *t.s;
        const M& m = t.m;
        bool ok = same(s, m);
        if (target) {
            ORACLE(clamped ? W::tag_value_clamped : W::tag_value, W::key_value, ok, "%s: the string is %s, the standard string %s", opname,
                   show(V(s.data(), s.size())).c_str(), show(m).c_str());
        } else {
            ORACLE(W::tag_other, W::key_other, ok, "%s changed another string to %s, it was %s", opname,
                   show(V(s.data(), s.size())).c_str(), show(m).c_str());
        }
        if (!ok) {
            vh::harness_error("contents differ (oracle of another property)");
        }
        ORACLE(W::tag_store, W::key_store, s.data()[s.size()] == Ch(0), "%s: the character after the last is not zero", opname);
        ORACLE(W::tag_store, W::key_store, s.c_str() == s.data(), "%s: c_str() and data() differ", opname);
        ORACLE(W::tag_store, W::key_store, s.begin() == s.data() && s.cbegin() == s.data() && s.end() == s.data() + s.size(),
               "%s: iterators and data() differ", opname);
        ORACLE(W::tag_store, W::key_store, s.length() == s.size() && s.empty() == (s.size() == 0), "%s: length/empty", opname);
        ORACLE(W::tag_store, W::key_store, s.capacity() >= s.size(), "%s: capacity %zu below size %zu", opname, s.capacity(),
               s.size());
        ORACLE(W::tag_store, W::key_store, s.capacity() >= t.reserved || is_shared(t), "%s: capacity %zu below the reservation %zu",
               opname, s.capacity(), t.reserved);
        w.check_storage(*this, t);
        EVENT("strings-compared");
    }
    void check_all(const Slot* target) {
        for (auto& t : pool) {
            check_slot(t, &t == target);
        }
    }

    // ---------------------------------------------------------------------------------------------- operation runner
    // f changes *t.s (or only reads) and fills Out; g does the same to the model. Every allocation the operation makes is
    // failed in turn when the property asks for it: then nothing may have changed, and the operation must succeed later.
    template <class F, class G>
    bool run(Slot& t, const char* name, uint64_t code, F f, G g, bool keeps = false) {
        opname = name;
        opcode = code;
        Out e;
        M before = t.m;
        e.ex = guard([&] { g(t.m, e); });
        size_t cap0 = t.s->capacity();
        size_t old = before.size();
        const Ch* data0 = static_cast<const S&>(*t.s).data();
        bool inobj = in_object(*t.s);
        bool shared = is_shared(t);
        Out o;
        uint64_t a0 = 0;
        uint64_t h0 = 0;
        attempt(t, before, [&] {
            o.clear();
            vh::Track tr;
            h0 = vh::allocs;
            a0 = w.mark();
            o.ex = guard([&] { f(*t.s, o); });
            a0 = w.mark() - a0;
            h0 = vh::allocs - h0;
            return o.ex;
        });
        vh::step(code, vh::cls(old), vh::cls(t.m.size()));
        vh::state(code, vh::cls(t.s->size()), uint64_t(cat(old)) * 3 + uint64_t(cat(t.m.size())), uint64_t(o.ex), shared);
        count_op(code);
        LOG("%s on %zu characters -> %s%s", name, old, ex_name(o.ex), t.m.size() == old ? "" : (" now " + std::to_string(t.m.size())).c_str());
        if (e.ex != Ex::None || o.ex != Ex::None) {
            ORACLE(W::tag_invalid, W::key_invalid, o.ex == e.ex, "%s on %s gives %s, the standard string %s", name,
                   show(before).c_str(), ex_name(o.ex), ex_name(e.ex));
            if (o.ex != e.ex) {
                vh::harness_error("exceptions differ (oracle of another property)");
            }
            EVENT("exceptions-compared");
            ORACLE(W::tag_invalid, W::key_invalid, same(*t.s, before), "%s threw %s and changed %s to %s", name, ex_name(o.ex),
                   show(before).c_str(), show(V(static_cast<const S&>(*t.s).data(), t.s->size())).c_str());
            t.m = before;
        } else {
            ORACLE(clamped ? W::tag_ret_clamped : W::tag_ret, W::key_ret, o.num == e.num, "%s on %s returned %lld, the standard string %lld", name,
                   show(before).c_str(), o.num, e.num);
            ORACLE(clamped ? W::tag_ret_clamped : W::tag_ret, W::key_ret, o.text == e.text, "%s on %s returned %s, the standard string %s", name,
                   show(before).c_str(), show(o.text).c_str(), show(e.text).c_str());
            w.heap_use(name, h0);
            if (keeps && t.m.size() > old && t.m.size() <= cap0 && !shared && (W::release || !inobj)) {
                EVENT("growth-within-capacity");
                ORACLE(W::tag_store, W::key_store, static_cast<const S&>(*t.s).data() == data0,
                       "%s from %zu to %zu characters within capacity %zu moved the characters", name, old, t.m.size(), cap0);
                ORACLE(W::tag_store, W::key_store, a0 == 0, "%s from %zu to %zu characters within capacity %zu allocates", name,
                       old, t.m.size(), cap0);
            }
            if (!keeps) {
                t.reserved = 0;
            }
        }
        check_all(&t);
        return o.ex == Ex::None;
    }
    // perform act until no injected failure interferes
    template <class A>
    void attempt(Slot& t, const M& before, A act) {
        if (!w.inject()) {
            w.arm(-1);
            act();
            w.disarm();
            return;
        }
        bool burst = P(1, 4);  // everything after the failing one fails too
        for (int64_t k = 0;; ++k) {
            uint64_t i0 = w.injected();
            w.arm(k, burst);
            Ex ex = act();
            w.disarm();
            if (w.injected() == i0) {
                ORACLE(W::tag_oom, W::key_oom, ex != Ex::Bad || W::may_be_too_long(opcode), "%s throws bad_alloc although memory is available (after %lld failures)",
                       opname, (long long)k);
                return;
            }
            EVENT("operations-hit-by-a-failed-allocation");
            ORACLE(W::tag_oom, W::key_oom, ex == Ex::Bad, "%s with failing allocation %lld gives %s", opname, (long long)k, ex_name(ex));
            vh::state(opcode, 777, uint64_t(k), vh::cls(before.size()));
            // everything as before
            M after = t.m;
            t.m = before;
            for (auto& x : pool) {
                bool ok = same(*x.s, x.m);
                ORACLE(W::tag_oom, W::key_oom, ok, "%s with failing allocation %lld left %s, it was %s%s", opname, (long long)k,
                       show(V(static_cast<const S&>(*x.s).data(), x.s->size())).c_str(), show(x.m).c_str(), &x == &t ? "" : " (another string)");
                if (!ok) {
                    vh::harness_error("contents differ after a failure");
                }
                ORACLE(W::tag_oom, W::key_oom, x.s->c_str()[x.s->size()] == Ch(0) && x.s->capacity() >= x.s->size(),
                       "%s with failing allocation %lld left a string without terminator or capacity", opname, (long long)k);
            }
            t.m = after;
            if (k > 40) {
                vh::harness_error("too many failures in one operation");
            }
        }
    }
    static void count_op(uint64_t code) {
        static uint64_t seen[256];
        static const char* names[8] = {"ops-construct", "ops-assign", "ops-append", "ops-insert", "ops-replace", "ops-erase-resize", "ops-access", "ops-read"};
        (void)seen;
        vh::count_event(names[(code >> 5) & 7]);
    }

    // ---------------------------------------------------------------------------------------------- arguments
    // a text given to an operation: fresh, a part of the string itself, or of another string of the pool
    struct Arg
    {
        int from{-1};      // slot, or -1: fresh
        size_t off{0};
        M copy;            // its characters
        const Ch* fresh{nullptr};
        std::unique_ptr<Ch[]> exact;  // fresh characters in memory of exactly that size (no terminator)
    };
    auto arg(Slot& t, bool z = false, size_t limit = kCap) -> Arg {
        Arg a;
        unsigned k = unsigned(R(6));
        size_t room = t.m.size() < limit ? limit - t.m.size() : 0;
        if (k < 2) {
            a.from = int(&t - pool.data());
        } else if (k == 2) {
            a.from = int(R(pool.size()));
        }
        if (a.from >= 0) {
            const M& m = pool[size_t(a.from)].m;
            a.off = R(m.size() + 1);
            size_t n = P(1, 3) ? m.size() - a.off : R(m.size() - a.off + 1);
            if (P(1, 4)) {
                a.off = 0;
                n = m.size();
            }
            if (z) {
                n = m.size() - a.off;
            }
            if (n > room) {
                a.from = -1;
            } else {
                a.copy = m.substr(a.off, n);
            }
        }
        if (a.from < 0) {
            a.copy = rtext();
            if (a.copy.size() > room) {
                a.copy.resize(room);
            }
            a.off = 0;
            size_t n = a.copy.size();
            a.exact.reset(new Ch[n + (z ? 1 : 0)]);
            std::copy(a.copy.begin(), a.copy.end(), a.exact.get());
            if (z) {
                a.exact[n] = Ch(0);
            }
            a.fresh = a.exact.get();
        }
        if (z) {  // as a zero-terminated text
            auto q = a.copy.find(Ch(0));
            if (q != npos) {
                a.copy.resize(q);
            }
        }
        return a;
    }
    auto at(const Arg& a) -> const Ch* {
        return a.from >= 0 ? static_cast<const S&>(*pool[size_t(a.from)].s).data() + a.off : a.fresh;
    }
    // is the argument part of the target (then the library may need a temporary)
    bool own(const Arg& a, const Slot& t) const { return a.from >= 0 && &pool[size_t(a.from)] == &t; }

    auto pick() -> Slot& { return pool[R(pool.size())]; }

    // ---------------------------------------------------------------------------------------------- slots
    template <class Make, class Model>
    bool create(const char* name, uint64_t code, int home, Make make, Model model, bool shared = false) {
        opname = name;
        opcode = code;
        Slot t;
        t.home = home;
        t.shared = shared;
        Ex e = guard([&] { t.m = model(); });
        void* mem = w.raw(sizeof(S), alignof(S), home);
        Ex x = Ex::None;
        bool burst = P(1, 4);
        for (int64_t k = w.inject() ? 0 : -1;; ++k) {
            uint64_t i0 = w.injected();
            w.arm(k, burst);
            uint64_t h0 = vh::allocs;
            {
                vh::Track tr;
                x = guard([&] { t.s = make(mem); });
            }
            w.disarm();
            if (x == Ex::None) {
                w.heap_use(name, vh::allocs - h0);
            }
            if (w.injected() == i0) {
                ORACLE(W::tag_oom, W::key_oom, k < 0 || x != Ex::Bad || W::may_be_too_long(code), "%s throws bad_alloc although memory is available", name);
                break;
            }
            ORACLE(W::tag_oom, W::key_oom, x == Ex::Bad, "%s with failing allocation %lld gives %s", name, (long long)k, ex_name(x));
            EVENT("operations-hit-by-a-failed-allocation");
            for (auto& y : pool) {
                ORACLE(W::tag_oom, W::key_oom, same(*y.s, y.m), "%s with failing allocation %lld changed a string to %s, it was %s", name,
                       (long long)k, show(of(*y.s)).c_str(), show(y.m).c_str());
            }
            if (k > 40) {
                vh::harness_error("too many failures in one construction");
            }
        }
        LOG("%s: %zu characters, %s", name, t.m.size(), ex_name(x));
        vh::step(code, vh::cls(t.m.size()), uint64_t(x));
        vh::state(code, vh::cls(t.m.size()), uint64_t(x), shared);
        count_op(code);
        ORACLE(W::tag_invalid, W::key_invalid, x == e, "%s gives %s, the standard string %s", name, ex_name(x), ex_name(e));
        if (x != e) {
            vh::harness_error("exceptions differ (oracle of another property)");
        }
        if (x != Ex::None) {
            w.unraw(mem, home);
            check_all(nullptr);
            return false;
        }
        if (code == 22) {  // the result lives with whichever operand it was built in
            w.fix_home(t);
        }
        pool.push_back(std::move(t));
        check_all(&pool.back());
        return true;
    }
    void destroy(size_t i) {
        Slot& t = pool[i];
        opname = "destruction";
        uint64_t a0 = w.mark();
        {
            vh::Track tr;
            t.s->~S();
        }
        ORACLE("*", "destructor-allocates", w.mark() == a0, "destroying a string allocates");
        w.unraw(t.s, t.home);
        pool.erase(pool.begin() + int64_t(i));
        vh::step(31);
        LOG("destroy string %zu", i);
        check_all(nullptr);
    }
    void destroy_all() {
        while (!pool.empty()) {
            destroy(R(pool.size()));
        }
    }

    void op_construct() {
        int home = w.home();
        auto al = [this, home] { return w.alloc(home); };
        unsigned k = unsigned(R(24));
        if (pool.empty() && k < 8) {
            k += 8;
        }
        switch (k) {
            case 0:
            case 1:
            case 2: {  // copy
                Slot& t = pick();
                t.shared = true;
                size_t src = size_t(&t - pool.data());
                create("copy construction", 1, t.home, [&](void* p) { return new (p) S(static_cast<const S&>(*pool[src].s)); },
                       [&] { return pool[src].m; }, true);
                break;
            }
            case 3: {  // move
                size_t src = size_t(&pick() - pool.data());
                bool sh = pool[src].shared;
                size_t res = pool[src].reserved;
                const Ch* d0 = static_cast<const S&>(*pool[src].s).data();
                bool inobj = in_object(*pool[src].s);
                M m = pool[src].m;
                bool inj = w.pause();
                uint64_t a0 = w.mark();
                Slot t;
                t.home = pool[src].home;
                t.shared = sh;
                t.reserved = res;
                t.m = m;
                void* mem = w.raw(sizeof(S), alignof(S), t.home);
                {
                    vh::Track tr;
                    t.s = new (mem) S(std::move(*pool[src].s));
                }
                opname = "move construction";
                opcode = 2;
                ORACLE(W::tag_store, W::key_store, w.mark() == a0, "move construction allocates");
                ORACLE(W::tag_store, W::key_store, inobj || static_cast<const S&>(*t.s).data() == d0, "move construction copies the characters");
                pool[src].m = of(*pool[src].s);  // valid, whatever it is
                pool[src].shared = false;
                pool[src].reserved = 0;
                LOG("move construction of %zu characters", m.size());
                vh::step(2, vh::cls(m.size()));
                vh::state(2, vh::cls(m.size()), sh);
                count_op(2);
                pool.push_back(std::move(t));
                check_all(&pool.back());
                w.resume(inj);
                break;
            }
            case 4: {  // part of another string
                Slot& t = pick();
                size_t src = size_t(&t - pool.data());
                size_t pos = P(1, 8) ? badpos(t.m.size()) : rpos(t.m.size());
                size_t n = rlen(t.m.size() - std::min(pos, t.m.size()));
                if (P(1, 2)) {
                    create("construction from part", 3, home, [&](void* p) { return new (p) S(static_cast<const S&>(*pool[src].s), pos, n, al()); },
                           [&] { return M(pool[src].m, pos, n); });
                } else {
                    create("substr", 4, t.home, [&](void* p) { return new (p) S(static_cast<const S&>(*pool[src].s).substr(pos, n)); },
                           [&] { return pool[src].m.substr(pos, n); });
                }
                break;
            }
            case 5: {
                Slot& t = pick();
                size_t src = size_t(&t - pool.data());
                t.shared = true;
                if (create("clone", 5, t.home, [&](void* p) { return new (p) S(static_cast<const S&>(*pool[src].s).clone()); },
                           [&] { return pool[src].m; }, W::kStickyShare)) {
                    // nothing in common: the clone may go to another thread or be written through data()
                    Slot& c = pool.back();
                    bool alone = true;
                    for (auto& x : pool) {
                        alone = alone && (&x == &c || x.m.empty() || static_cast<const S&>(*x.s).data() != static_cast<const S&>(*c.s).data());
                    }
                    ORACLE(W::tag_other, W::key_other, alone, "a clone uses the characters of another string");
                    if (!c.m.empty() && P(1, 2)) {
                        size_t k = R(c.m.size());
                        Ch x = rch();
                        {
                            vh::Track tr;
                            c.s->data()[k] = x;
                        }
                        c.m[k] = x;
                        opname = "writing through data() of a clone";
                        check_all(&c);
                    }
                    EVENT("clones-checked");
                }
                break;
            }
            case 6:
            case 7:
                op_concat();
                break;
            case 8: {
                Ch c = rch();
                size_t n = rsize();
                create("construction from count", 6, home, [&](void* p) { return new (p) S(n, c, al()); }, [&] { return M(n, c); });
                break;
            }
            case 9:
            case 10:
            case 11: {
                M t = rtext();
                std::unique_ptr<Ch[]> e(new Ch[t.size()]);
                std::copy(t.begin(), t.end(), e.get());
                create("construction from pointer and length", 7, home, [&](void* p) { return new (p) S(e.get(), t.size(), al()); },
                       [&] { return t; });
                break;
            }
            case 12: {
                M t = rtext();
                create("construction from zero-terminated text", 8, home, [&](void* p) { return new (p) S(t.c_str(), al()); },
                       [&] { return M(t.c_str()); });
                break;
            }
            case 13: {
                M t = rtext();
                create("construction from pointers", 9, home,
                       [&](void* p) { return new (p) S(static_cast<const Ch*>(t.data()), static_cast<const Ch*>(t.data() + t.size()), al()); },
                       [&] { return t; });
                break;
            }
            case 14: {
                M t = rtext();
                create("construction from view", 10, home, [&](void* p) { return new (p) S(V(t), al()); }, [&] { return t; });
                break;
            }
            case 15: {
                M t = rtext();
                std::list<Ch> l(t.begin(), t.end());
                create("construction from list iterators", 11, home, [&](void* p) { return new (p) S(l.begin(), l.end(), al()); },
                       [&] { return t; });
                break;
            }
            case 16: {
                M t = rtext();
                create("construction from reverse iterators", 12, home, [&](void* p) { return new (p) S(t.rbegin(), t.rend(), al()); },
                       [&] { return M(t.rbegin(), t.rend()); });
                break;
            }
            case 17: {
                M t = rtext();
                create("construction from input iterators", 13, home,
                       [&](void* p) { return new (p) S(InputIt<Ch>{t.data()}, InputIt<Ch>{t.data() + t.size()}, al()); }, [&] { return t; });
                break;
            }
            case 18: {
                Ch a = rch();
                Ch b = rch();
                create("construction from initializer list", 14, home, [&](void* p) { return new (p) S({a, b, a}, al()); }, [&] { return M{a, b, a}; });
                break;
            }
            case 19:
                create("empty construction", 15, home, [&](void* p) { return new (p) S(al()); }, [&] { return M(); });
                break;
            case 20:
                if constexpr (W::kStdCtor) {
                    M t = rtext();
                    create("construction from std::string", 16, home, [&](void* p) { return new (p) S(t); }, [&] { return t; });
                }
                break;
            case 21:
                if (P(1, 8)) {
                    create("construction from null", 17, home, [&](void* p) { return new (p) S(static_cast<const Ch*>(nullptr), al()); },
                           [&]() -> M { throw std::logic_error(""); });
                }
                break;
            case 22:
                if constexpr (W::kStdCtor) {
                    create("default construction", 18, home, [&](void* p) { return new (p) S(); }, [&] { return M(); });
                }
                break;
            default: {
                M t = rtext(kMedium + R(300));
                create("construction of large text", 19, home, [&](void* p) { return new (p) S(t.data(), t.size(), al()); }, [&] { return t; });
            }
        }
    }

    void op_concat() {
        size_t a = R(pool.size());
        size_t b = R(pool.size());
        if (pool[a].m.size() + pool[b].m.size() > kCap) {
            return;
        }
        int home = pool[a].home;
        Arg z = arg(pool[a], true);
        Ch c = rch();
        auto A = [&]() -> const S& { return *pool[a].s; };
        auto B = [&]() -> const S& { return *pool[b].s; };
        M ma = pool[a].m;
        M mb = pool[b].m;
        unsigned k = unsigned(R(12));
        if (k != 0 && k != 4 && k != 6 && k != 8 && k != 10) {  // an operand is a copy
            pool[a].shared = pool[b].shared = true;
        }
        // z may lie in a; at() reads it
        switch (k) {
            case 0:
                create("string + string", 20, home, [&](void* p) { return new (p) S(A() + B()); }, [&] { return ma + mb; });
                break;
            case 1:
                create("temporary + string", 21, home, [&](void* p) { return new (p) S(S(A()) + B()); }, [&] { return ma + mb; });
                break;
            case 2:
                create("string + temporary", 22, pool[b].home, [&](void* p) {
                    S t(B());
                    return new (p) S(A() + std::move(t));
                }, [&] { return ma + mb; });
                break;
            case 3:
                create("temporary + temporary", 23, home, [&](void* p) { return new (p) S(S(A()) + S(B())); }, [&] { return ma + mb; });
                break;
            case 4:
                create("text + string", 24, home, [&](void* p) { return new (p) S(at(z) + A()); }, [&] { return z.copy + ma; });
                break;
            case 5:
                create("text + temporary", 25, home, [&](void* p) {
                    S t(A());
                    t.reserve(t.size() + (z.copy.size() % 2 == 0 ? 600 : 0));
                    return new (p) S(at(z) + std::move(t));
                }, [&] { return z.copy + ma; });
                break;
            case 6:
                create("character + string", 26, home, [&](void* p) { return new (p) S(c + A()); }, [&] { return c + ma; });
                break;
            case 7:
                create("character + temporary", 27, home, [&](void* p) {
                    S t(A());
                    return new (p) S(c + std::move(t));
                }, [&] { return c + ma; });
                break;
            case 8:
                create("string + text", 28, home, [&](void* p) { return new (p) S(A() + at(z)); }, [&] { return ma + z.copy; });
                break;
            case 9:
                create("temporary + text", 29, home, [&](void* p) { return new (p) S(S(A()) + at(z)); }, [&] { return ma + z.copy; });
                break;
            case 10:
                create("string + character", 30, home, [&](void* p) { return new (p) S(A() + c); }, [&] { return ma + c; });
                break;
            default:
                create("temporary + character", 31, home, [&](void* p) { return new (p) S(S(A()) + c); }, [&] { return ma + c; });
        }
    }
    // ---------------------------------------------------------------------------------------------- modification
    void op_assign() {
        Slot& t = pick();
        auto& pl = pool;
        switch (R(17)) {
            case 0:
            case 1:
            case 2: {
                Slot& o = pick();
                t.shared = o.shared = true;
                size_t i = size_t(&o - pl.data());
                if (P(1, 2)) {
                    run(t, "copy assignment", 32, [&, i](S& s, Out&) { s = static_cast<const S&>(*pl[i].s); }, [&, m = o.m](M& s, Out&) { s = m; });
                } else {
                    run(t, "assign(string)", 33, [&, i](S& s, Out&) { s.assign(static_cast<const S&>(*pl[i].s)); }, [&, m = o.m](M& s, Out&) { s = m; });
                }
                break;
            }
            case 3: {  // move assignment
                Slot& o = pick();
                if (o.home != t.home) {
                    break;
                }
                size_t i = size_t(&o - pl.data());
                size_t j = size_t(&t - pl.data());
                bool sh = o.shared;
                size_t res = o.reserved;
                bool inj = w.pause();
                uint64_t a0 = w.mark();
                M mo = o.m;
                opname = "move assignment";
                opcode = 34;
                {
                    vh::Track tr;
                    if (P(1, 2)) {
                        *t.s = std::move(*o.s);
                    } else {
                        t.s->assign(std::move(*o.s));
                    }
                }
                ORACLE(W::tag_store, W::key_store, w.mark() == a0, "move assignment allocates");
                if (i != j) {
                    t.m = mo;
                    t.shared = sh;
                    t.reserved = res;
                    o.m = of(*o.s);
                    o.shared = false;
                    o.reserved = 0;
                }
                LOG("move assignment of %zu characters%s", mo.size(), i == j ? " to itself" : "");
                vh::step(34, vh::cls(mo.size()), i == j);
                vh::state(34, vh::cls(mo.size()), i == j, sh);
                count_op(34);
                check_all(&t);
                w.resume(inj);
                break;
            }
            case 4: {
                Arg a = arg(t, true, kCap * 2);
                run(t, "assignment of text", 35, [&](S& s, Out&) { s = at(a); }, [&](M& s, Out&) { s = a.copy; });
                break;
            }
            case 5: {
                Ch c = rch();
                run(t, "assignment of a character", 36, [&](S& s, Out&) { s = c; }, [&](M& s, Out&) { s = c; });
                break;
            }
            case 6: {
                Ch c = rch();
                run(t, "assignment of a list", 37, [&](S& s, Out&) { s = {c, Ch('b'), c}; }, [&](M& s, Out&) { s = {c, Ch('b'), c}; });
                break;
            }
            case 7:
                if constexpr (kChar) {
                    Arg a = arg(t, false, kCap * 2);
                    run(t, "assignment of a view", 38, [&](S& s, Out&) { s = V(at(a), a.copy.size()); }, [&](M& s, Out&) { s = a.copy; });
                }
                break;
            case 8: {
                M x = rtext();
                run(t, "assignment of std::string", 39, [&](S& s, Out&) { s = x; }, [&](M& s, Out&) { s = x; });
                break;
            }
            case 9:
            case 10: {
                Arg a = arg(t, false, kCap * 2);
                run(t, "assign(pointer, length)", 40, [&](S& s, Out&) { s.assign(at(a), a.copy.size()); }, [&](M& s, Out&) { s = a.copy; });
                break;
            }
            case 11: {
                Arg a = arg(t, true, kCap * 2);
                run(t, "assign(text)", 41, [&](S& s, Out&) { s.assign(at(a)); }, [&](M& s, Out&) { s = a.copy; });
                break;
            }
            case 12: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                size_t pos = P(1, 8) ? badpos(o.m.size()) : rpos(o.m.size());
                size_t n = rlen(o.m.size() - std::min(pos, o.m.size()));
                run(t, "assign(string, position, count)", 42, [&](S& s, Out&) { s.assign(static_cast<const S&>(*pl[i].s), pos, n); },
                    [&, m = o.m](M& s, Out&) { s.assign(m, pos, n); });
                break;
            }
            case 13: {
                size_t n = rsize();
                Ch c = rch();
                run(t, "assign(count, character)", 43, [&](S& s, Out&) { s.assign(n, c); }, [&](M& s, Out&) { s.assign(n, c); });
                break;
            }
            case 14: {
                Arg a = arg(t, false, kCap * 2);
                run(t, "assign(iterators)", 44, [&](S& s, Out&) {
                    auto* p = at(a);
                    s.assign(p, p + a.copy.size());
                }, [&](M& s, Out&) { s = a.copy; });
                break;
            }
            case 15: {
                M x = rtext();
                std::list<Ch> l(x.begin(), x.end());
                if (P(1, 2)) {
                    run(t, "assign(list iterators)", 45, [&](S& s, Out&) { s.assign(l.begin(), l.end()); }, [&](M& s, Out&) { s = x; });
                } else {
                    run(t, "assign(input iterators)", 46, [&](S& s, Out&) { s.assign(InputIt<Ch>{x.data()}, InputIt<Ch>{x.data() + x.size()}); },
                        [&](M& s, Out&) { s = x; });
                }
                break;
            }
            default: {
                Ch c = rch();
                run(t, "assign(list)", 47, [&](S& s, Out&) { s.assign({c, c, Ch('q')}); }, [&](M& s, Out&) { s.assign({c, c, Ch('q')}); });
            }
        }
    }

    void op_append() {
        Slot& t = pick();
        if (t.m.size() > kCap / 2) {
            op_shrink(t);
            return;
        }
        auto& pl = pool;
        switch (R(16)) {
            case 0:
            case 1: {
                Arg a = arg(t);
                run(t, "append(pointer, length)", 64, [&](S& s, Out&) { s.append(at(a), a.copy.size()); }, [&](M& s, Out&) { s.append(a.copy); }, !own(a, t));
                break;
            }
            case 2: {
                Arg a = arg(t, true);
                if (P(1, 2)) {
                    run(t, "append(text)", 65, [&](S& s, Out&) { s.append(at(a)); }, [&](M& s, Out&) { s.append(a.copy); }, !own(a, t));
                } else {
                    run(t, "+= text", 66, [&](S& s, Out&) { s += at(a); }, [&](M& s, Out&) { s += a.copy; }, !own(a, t));
                }
                break;
            }
            case 3:
            case 4: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                if (P(1, 2)) {
                    run(t, "append(string)", 67, [&](S& s, Out&) { s.append(static_cast<const S&>(*pl[i].s)); }, [&, m = o.m](M& s, Out&) { s.append(m); }, &o != &t);
                } else {
                    run(t, "+= string", 68, [&](S& s, Out&) { s += static_cast<const S&>(*pl[i].s); }, [&, m = o.m](M& s, Out&) { s += m; }, &o != &t);
                }
                break;
            }
            case 5: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                size_t pos = P(1, 6) ? badpos(o.m.size()) : rpos(o.m.size());
                size_t n = rlen(o.m.size() - std::min(pos, o.m.size()));
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "append(string, position, count)", 69, [&](S& s, Out&) { s.append(static_cast<const S&>(*pl[i].s), pos, n); },
                    [&, m = o.m](M& s, Out&) { s.append(m, pos, n); }, &o != &t);
                break;
            }
            case 6:
            case 7: {
                size_t n = rsize();
                Ch c = rch();
                run(t, "append(count, character)", 70, [&](S& s, Out&) { s.append(n, c); }, [&](M& s, Out&) { s.append(n, c); }, true);
                break;
            }
            case 8: {
                Arg a = arg(t);
                run(t, "append(iterators)", 71, [&](S& s, Out&) {
                    auto* p = at(a);
                    s.append(p, p + a.copy.size());
                }, [&](M& s, Out&) { s += a.copy; }, !own(a, t));
                break;
            }
            case 9: {
                M x = rtext();
                std::list<Ch> l(x.begin(), x.end());
                if (P(1, 2)) {
                    run(t, "append(list iterators)", 72, [&](S& s, Out&) { s.append(l.begin(), l.end()); }, [&](M& s, Out&) { s += x; });
                } else {
                    run(t, "append(input iterators)", 73, [&](S& s, Out&) { s.append(InputIt<Ch>{x.data()}, InputIt<Ch>{x.data() + x.size()}); },
                        [&](M& s, Out&) { s += x; });
                }
                break;
            }
            case 10: {
                Ch c = rch();
                if (P(1, 2)) {
                    run(t, "append(list)", 74, [&](S& s, Out&) { s.append({c, Ch('y')}); }, [&](M& s, Out&) { s.append({c, Ch('y')}); });
                } else {
                    run(t, "+= list", 75, [&](S& s, Out&) { s += {c, Ch('y')}; }, [&](M& s, Out&) { s += {c, Ch('y')}; });
                }
                break;
            }
            case 11: {
                Ch c = rch();
                run(t, "+= character", 76, [&](S& s, Out&) { s += c; }, [&](M& s, Out&) { s += c; }, true);
                break;
            }
            case 12: {
                Arg a = arg(t);
                run(t, "+= view", 77, [&](S& s, Out&) { s += V(at(a), a.copy.size()); }, [&](M& s, Out&) { s += a.copy; }, !own(a, t));
                break;
            }
            case 13: {  // reverse iterators, possibly over the string itself
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "append(reverse iterators)", 78, [&](S& s, Out&) {
                    const S& c = *pl[i].s;
                    s.append(c.rbegin(), c.rend());
                }, [&, m = o.m](M& s, Out&) { s.append(m.rbegin(), m.rend()); });
                break;
            }
            default: {
                size_t n = 1 + R(30);
                M x = rtext(n);
                for (size_t i = 0; i < n; ++i) {
                    run(t, "push_back", 79, [&](S& s, Out&) { s.push_back(x[i]); }, [&](M& s, Out&) { s.push_back(x[i]); }, true);
                }
            }
        }
    }

    void op_insert() {
        Slot& t = pick();
        if (t.m.size() > kCap / 2) {
            op_shrink(t);
            return;
        }
        auto& pl = pool;
        bool bad = P(1, 10);
        size_t pos = bad ? badpos(t.m.size()) : rpos(t.m.size());
        size_t ip = rpos(t.m.size());
        switch (R(16)) {
            case 0:
            case 1:
            case 2: {
                Arg a = arg(t);
                run(t, "insert(position, pointer, length)", 96, [&](S& s, Out&) { s.insert(pos, at(a), a.copy.size()); },
                    [&](M& s, Out&) { s.insert(pos, a.copy); }, !own(a, t));
                break;
            }
            case 3: {
                Arg a = arg(t, true);
                run(t, "insert(position, text)", 97, [&](S& s, Out&) { s.insert(pos, at(a)); }, [&](M& s, Out&) { s.insert(pos, a.copy); }, !own(a, t));
                break;
            }
            case 4:
            case 5: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "insert(position, string)", 98, [&](S& s, Out&) { s.insert(pos, static_cast<const S&>(*pl[i].s)); },
                    [&, m = o.m](M& s, Out&) { s.insert(pos, m); }, &o != &t);
                break;
            }
            case 6: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                size_t p2 = P(1, 6) ? badpos(o.m.size()) : rpos(o.m.size());
                size_t n = rlen(o.m.size() - std::min(p2, o.m.size()));
                run(t, "insert(position, string, position, count)", 99, [&](S& s, Out&) { s.insert(pos, static_cast<const S&>(*pl[i].s), p2, n); },
                    [&, m = o.m](M& s, Out&) { s.insert(pos, m, p2, n); }, &o != &t);
                break;
            }
            case 7:
            case 8: {
                size_t n = rsize();
                Ch c = rch();
                run(t, "insert(position, count, character)", 100, [&](S& s, Out&) { s.insert(pos, n, c); }, [&](M& s, Out&) { s.insert(pos, n, c); }, true);
                break;
            }
            case 9: {
                Ch c = rch();
                run(t, "insert(iterator, character)", 101, [&](S& s, Out& o) {
                    auto it = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), c);
                    o.num = it - s.begin();
                    o.text = M(1, *it);
                }, [&](M& s, Out& o) {
                    auto it = s.insert(s.cbegin() + int64_t(ip), c);
                    o.num = it - s.begin();
                    o.text = M(1, *it);
                }, true);
                break;
            }
            case 10: {
                size_t n = P(1, 5) ? 0 : rsize();
                Ch c = rch();
                run(t, "insert(iterator, count, character)", 102, [&](S& s, Out& o) {
                    o.num = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), n, c) - s.begin();
                }, [&](M& s, Out& o) { o.num = s.insert(s.cbegin() + int64_t(ip), n, c) - s.begin(); }, true);
                break;
            }
            case 11:
            case 12: {
                Arg a = arg(t);
                run(t, "insert(iterator, iterators)", 103, [&](S& s, Out& o) {
                    auto* p = at(a);
                    o.num = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), p, p + a.copy.size()) - s.begin();
                }, [&](M& s, Out& o) {
                    s.insert(ip, a.copy);
                    o.num = int64_t(ip);
                }, !own(a, t));
                break;
            }
            case 13: {
                M x = rtext();
                std::list<Ch> l(x.begin(), x.end());
                if (P(1, 2)) {
                    run(t, "insert(iterator, list iterators)", 104, [&](S& s, Out& o) {
                        o.num = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), l.begin(), l.end()) - s.begin();
                    }, [&](M& s, Out& o) { o.num = s.insert(s.cbegin() + int64_t(ip), l.begin(), l.end()) - s.begin(); });
                } else {
                    run(t, "insert(iterator, input iterators)", 105, [&](S& s, Out& o) {
                        o.num = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), InputIt<Ch>{x.data()}, InputIt<Ch>{x.data() + x.size()}) - s.begin();
                    }, [&](M& s, Out& o) { o.num = s.insert(s.cbegin() + int64_t(ip), x.begin(), x.end()) - s.begin(); });
                }
                break;
            }
            case 14: {
                Ch c = rch();
                run(t, "insert(iterator, list)", 106, [&](S& s, Out& o) {
                    o.num = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), {c, Ch('w'), c}) - s.begin();
                }, [&](M& s, Out& o) { o.num = s.insert(s.cbegin() + int64_t(ip), {c, Ch('w'), c}) - s.begin(); });
                break;
            }
            default: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "insert(iterator, reverse iterators)", 107, [&](S& s, Out& r) {
                    const S& c = *pl[i].s;
                    r.num = s.insert(static_cast<const S&>(s).begin() + int64_t(ip), c.rbegin(), c.rend()) - s.begin();
                }, [&, m = o.m](M& s, Out& r) {
                    s.insert(s.cbegin() + int64_t(ip), m.rbegin(), m.rend());
                    r.num = int64_t(ip);
                });
            }
        }
    }

    void op_replace() {
        Slot& t = pick();
        if (t.m.size() > kCap / 2) {
            op_shrink(t);
            return;
        }
        auto& pl = pool;
        size_t size = t.m.size();
        bool bad = P(1, 10);
        size_t pos = bad ? badpos(size) : rpos(size);
        size_t n1 = rlen(size - std::min(pos, size));
        size_t i1 = rpos(size);
        size_t i2 = i1 + (P(1, 3) ? 0 : R(size - i1 + 1));
        switch (R(17)) {
            case 0:
            case 1: {
                Arg a = arg(t);
                run(t, "replace(position, count, pointer, length)", 128, [&](S& s, Out&) { s.replace(pos, n1, at(a), a.copy.size()); },
                    [&](M& s, Out&) { s.replace(pos, n1, a.copy); });
                break;
            }
            case 2: {
                Arg a = arg(t, true);
                run(t, "replace(position, count, text)", 129, [&](S& s, Out&) { s.replace(pos, n1, at(a)); }, [&](M& s, Out&) { s.replace(pos, n1, a.copy); });
                break;
            }
            case 3:
            case 4: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "replace(position, count, string)", 130, [&](S& s, Out&) { s.replace(pos, n1, static_cast<const S&>(*pl[i].s)); },
                    [&, m = o.m](M& s, Out&) { s.replace(pos, n1, m); });
                break;
            }
            case 5: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                size_t p2 = P(1, 6) ? badpos(o.m.size()) : rpos(o.m.size());
                size_t n2 = rlen(o.m.size() - std::min(p2, o.m.size()));
                run(t, "replace(position, count, string, position, count)", 131,
                    [&](S& s, Out&) { s.replace(pos, n1, static_cast<const S&>(*pl[i].s), p2, n2); }, [&, m = o.m](M& s, Out&) { s.replace(pos, n1, m, p2, n2); });
                break;
            }
            case 6:
            case 7: {
                size_t n2 = rsize();
                Ch c = rch();
                run(t, "replace(position, count, count, character)", 132, [&](S& s, Out&) { s.replace(pos, n1, n2, c); },
                    [&](M& s, Out&) { s.replace(pos, n1, n2, c); });
                break;
            }
            case 8: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "replace(iterators, string)", 133, [&](S& s, Out&) {
                    auto b = s.begin();
                    s.replace(b + int64_t(i1), b + int64_t(i2), static_cast<const S&>(*pl[i].s));
                }, [&, m = o.m](M& s, Out&) { s.replace(i1, i2 - i1, m); });
                break;
            }
            case 9: {
                Arg a = arg(t, true);
                run(t, "replace(iterators, text)", 134, [&](S& s, Out&) {
                    auto b = s.begin();
                    s.replace(b + int64_t(i1), b + int64_t(i2), at(a));
                }, [&](M& s, Out&) { s.replace(i1, i2 - i1, a.copy); });
                break;
            }
            case 10:
            case 11: {
                Arg a = arg(t);
                run(t, "replace(iterators, pointer, length)", 135, [&](S& s, Out&) {
                    auto b = s.begin();
                    s.replace(b + int64_t(i1), b + int64_t(i2), at(a), a.copy.size());
                }, [&](M& s, Out&) { s.replace(i1, i2 - i1, a.copy); });
                break;
            }
            case 12: {
                size_t n2 = rsize();
                Ch c = rch();
                run(t, "replace(iterators, count, character)", 136, [&](S& s, Out&) {
                    auto b = s.begin();
                    s.replace(b + int64_t(i1), b + int64_t(i2), n2, c);
                }, [&](M& s, Out&) { s.replace(i1, i2 - i1, n2, c); });
                break;
            }
            case 13:
            case 14: {
                Arg a = arg(t);
                run(t, "replace(iterators, iterators)", 137, [&](S& s, Out&) {
                    auto b = s.begin();
                    auto* p = at(a);
                    s.replace(b + int64_t(i1), b + int64_t(i2), p, p + a.copy.size());
                }, [&](M& s, Out&) { s.replace(i1, i2 - i1, a.copy); });
                break;
            }
            case 15: {
                M x = rtext();
                std::list<Ch> l(x.begin(), x.end());
                if (P(1, 2)) {
                    run(t, "replace(iterators, list iterators)", 138, [&](S& s, Out&) {
                        auto b = s.begin();
                        s.replace(b + int64_t(i1), b + int64_t(i2), l.begin(), l.end());
                    }, [&](M& s, Out&) { s.replace(i1, i2 - i1, x); });
                } else {
                    run(t, "replace(iterators, input iterators)", 139, [&](S& s, Out&) {
                        auto b = s.begin();
                        s.replace(b + int64_t(i1), b + int64_t(i2), InputIt<Ch>{x.data()}, InputIt<Ch>{x.data() + x.size()});
                    }, [&](M& s, Out&) { s.replace(i1, i2 - i1, x); });
                }
                break;
            }
            default: {
                Slot& o = pick();
                size_t i = size_t(&o - pl.data());
                if (t.m.size() + o.m.size() > kCap) {
                    break;
                }
                run(t, "replace(iterators, reverse iterators)", 140, [&](S& s, Out&) {
                    auto b = s.begin();
                    const S& c = *pl[i].s;
                    s.replace(b + int64_t(i1), b + int64_t(i2), c.rbegin(), c.rend());
                }, [&, m = o.m](M& s, Out&) { s.replace(s.begin() + int64_t(i1), s.begin() + int64_t(i2), m.rbegin(), m.rend()); });
            }
        }
    }

    void op_shrink(Slot& t) {
        size_t n = R(400);
        run(t, "resize", 160, [&](S& s, Out&) { s.resize(n); }, [&](M& s, Out&) { s.resize(n); });
    }
    void op_erase() {
        Slot& t = pick();
        size_t size = t.m.size();
        switch (R(16)) {
            case 0:
            case 1:
            case 2: {
                size_t pos = P(1, 8) ? badpos(size) : rpos(size);
                size_t n = rlen(size - std::min(pos, size));
                run(t, "erase(position, count)", 161, [&](S& s, Out&) { s.erase(pos, n); }, [&](M& s, Out&) { s.erase(pos, n); });
                break;
            }
            case 3: {
                if (size == 0) {
                    break;
                }
                size_t i = R(size);
                run(t, "erase(iterator)", 162, [&](S& s, Out& o) { o.num = s.erase(s.begin() + int64_t(i)) - s.begin(); },
                    [&](M& s, Out& o) { o.num = s.erase(s.begin() + int64_t(i)) - s.begin(); });
                break;
            }
            case 4:
            case 5: {
                size_t i = R(size + 1);
                size_t j = i + R(size - i + 1);
                run(t, "erase(iterators)", 163, [&](S& s, Out& o) {
                    auto b = s.begin();
                    o.num = s.erase(b + int64_t(i), b + int64_t(j)) - s.begin();
                }, [&](M& s, Out& o) { o.num = s.erase(s.begin() + int64_t(i), s.begin() + int64_t(j)) - s.begin(); });
                break;
            }
            case 6:
            case 7:
            case 8: {
                size_t n = P(1, 2) ? rsize() : R(size + 1);
                Ch c = rch();
                bool grow = n > size;
                if (P(1, 3)) {
                    run(t, "resize", 164, [&](S& s, Out&) { s.resize(n); }, [&](M& s, Out&) { s.resize(n); }, grow);
                } else {
                    run(t, "resize with a character", 165, [&](S& s, Out&) { s.resize(n, c); }, [&](M& s, Out&) { s.resize(n, c); }, grow);
                }
                break;
            }
            case 9:
                if (size != 0) {
                    size_t n = 1 + R(std::min<size_t>(size, 20));
                    for (size_t i = 0; i < n; ++i) {
                        run(t, "pop_back", 166, [&](S& s, Out&) { s.pop_back(); }, [&](M& s, Out&) { s.pop_back(); });
                    }
                }
                break;
            case 10:
                run(t, "clear", 167, [&](S& s, Out&) { s.clear(); }, [&](M& s, Out&) { s.clear(); });
                break;
            case 11:
                run(t, "erase()", 168, [&](S& s, Out&) { s.erase(); }, [&](M& s, Out&) { s.erase(); });
                break;
            case 12: {
                size_t cap0 = t.s->capacity();
                bool sh = is_shared(t);
                run(t, "shrink_to_fit", 169, [&](S& s, Out&) { s.shrink_to_fit(); }, [&](M&, Out&) {});
                ORACLE(W::tag_store, W::key_store, sh || t.s->capacity() <= std::max<size_t>(cap0, kSmall), "shrink_to_fit raised the capacity from %zu to %zu",
                       cap0, t.s->capacity());
                break;
            }
            default: {
                size_t n = P(1, 2) ? rsize() : size + R(700);
                size_t cap0 = t.s->capacity();
                bool sh = is_shared(t);
                size_t res = t.reserved;
                if (P(1, 3)) {
                    n = R(cap0 + 1);
                }
                const Ch* data0 = static_cast<const S&>(*t.s).data();
                bool inobj = in_object(*t.s);
                run(t, "reserve", 170, [&](S& s, Out&) { s.reserve(n); }, [&](M&, Out&) {}, true);
                t.reserved = std::max(res, n);
                if (!sh && n <= cap0 && (W::release || !inobj)) {
                    EVENT("reservation-within-capacity");
                    ORACLE(W::tag_store, W::key_store, static_cast<const S&>(*t.s).data() == data0, "reserve(%zu) moved the characters of a string of capacity %zu", n, cap0);
                }
                if (!sh && (W::release || cap0 > kSmall)) {
                    ORACLE(W::tag_store, W::key_store, t.s->capacity() >= std::max(n, cap0), "reserve(%zu) gives capacity %zu, it was %zu", n,
                           t.s->capacity(), cap0);
                }
                ORACLE(W::tag_store, W::key_store, t.s->capacity() >= n, "reserve(%zu) gives capacity %zu", n, t.s->capacity());
                break;
            }
        }
    }

    void op_access() {
        Slot& t = pick();
        size_t size = t.m.size();
        auto& pl = pool;
        switch (R(14)) {
            case 0: {
                if (size == 0) {
                    break;
                }
                size_t i = R(size);
                Ch c = rch();
                run(t, "write by index", 192, [&](S& s, Out&) { s[i] = c; }, [&](M& s, Out&) { s[i] = c; });
                break;
            }
            case 1: {
                size_t i = P(1, 3) ? (P(1, 2) ? size : badpos(size)) : R(size + 1);
                Ch c = rch();
                run(t, "write through at()", 193, [&](S& s, Out&) { s.at(i) = c; }, [&](M& s, Out&) { s.at(i) = c; });
                break;
            }
            case 2:
                if (size != 0) {
                    Ch c = rch();
                    Ch d = rch();
                    run(t, "write front and back", 194, [&](S& s, Out&) {
                        s.front() = c;
                        s.back() = d;
                    }, [&](M& s, Out&) {
                        s.front() = c;
                        s.back() = d;
                    });
                }
                break;
            case 3:
                if (size != 0) {
                    Ch c = rch();
                    size_t i = R(size);
                    run(t, "write through an iterator", 195, [&](S& s, Out&) { *(s.begin() + int64_t(i)) = c; }, [&](M& s, Out&) { s[i] = c; });
                    run(t, "write through a reverse iterator", 196, [&](S& s, Out&) { *(s.rbegin() + int64_t(i)) = c; }, [&](M& s, Out&) { *(s.rbegin() + int64_t(i)) = c; });
                    run(t, "write through end()", 197, [&](S& s, Out&) { *(s.end() - 1 - int64_t(i)) = c; }, [&](M& s, Out&) { *(s.end() - 1 - int64_t(i)) = c; });
                    run(t, "write through rend()", 198, [&](S& s, Out&) { *(s.rend() - 1 - int64_t(i)) = c; }, [&](M& s, Out&) { *(s.rend() - 1 - int64_t(i)) = c; });
                }
                break;
            case 4:
                run(t, "std::reverse", 199, [&](S& s, Out&) { std::reverse(s.begin(), s.end()); }, [&](M& s, Out&) { std::reverse(s.begin(), s.end()); });
                break;
            case 5:
                run(t, "std::sort", 200, [&](S& s, Out&) { std::sort(s.begin(), s.end()); }, [&](M& s, Out&) { std::sort(s.begin(), s.end()); });
                break;
            case 6:
                run(t, "range-for write", 201, [&](S& s, Out&) {
                    for (auto& c : s) {
                        c = Ch(c ^ 1);
                    }
                }, [&](M& s, Out&) {
                    for (auto& c : s) {
                        c = Ch(c ^ 1);
                    }
                });
                break;
            case 7:
            case 8: {  // swap
                Slot& o = pick();
                if (o.home != t.home) {
                    break;
                }
                size_t i = size_t(&o - pl.data());
                size_t j = size_t(&t - pl.data());
                bool inj = w.pause();
                uint64_t a0 = w.mark();
                opname = "swap";
                opcode = 202;
                const Ch* pt = static_cast<const S&>(*t.s).data();
                const Ch* po = static_cast<const S&>(*o.s).data();
                bool it = in_object(*t.s);
                bool io = in_object(*o.s);
                {
                    vh::Track tr;
                    if (P(1, 2)) {
                        t.s->swap(*o.s);
                    } else {
                        using std::swap;
                        swap(*t.s, *o.s);
                    }
                }
                ORACLE(W::tag_store, W::key_store, w.mark() == a0, "swap allocates");
                if (i != j) {
                    ORACLE(W::tag_store, W::key_store, (it || static_cast<const S&>(*o.s).data() == pt) && (io || static_cast<const S&>(*t.s).data() == po),
                           "swap copies the characters");
                    std::swap(t.m, o.m);
                    std::swap(t.shared, o.shared);
                    std::swap(t.reserved, o.reserved);
                }
                LOG("swap of %zu and %zu characters", t.m.size(), o.m.size());
                vh::step(202, vh::cls(t.m.size()), vh::cls(o.m.size()));
                vh::state(202, vh::cls(t.m.size()), vh::cls(o.m.size()), i == j);
                count_op(202);
                check_all(&t);
                w.resume(inj);
                break;
            }
            case 9: {  // moved out of by substr
                size_t pos = P(1, 8) ? badpos(size) : rpos(size);
                size_t n = rlen(size - std::min(pos, size));
                t.shared = true;
                run(t, "substr of a temporary", 203, [&](S& s, Out& o) {
                    S r(S(static_cast<const S&>(s)).substr(pos, n));
                    vh::NoTrack nt;
                    o.text = of(r);
                },
                    [&](M& s, Out& o) { o.text = s.substr(pos, n); });
                break;
            }
            case 10: {
                size_t i = P(1, 3) ? (P(1, 2) ? size : badpos(size)) : R(size + 1);
                run(t, "read through at()", 204, [&](S& s, Out& o) { o.text = M(1, static_cast<const S&>(s).at(i)); }, [&](M& s, Out& o) { o.text = M(1, s.at(i)); }, true);
                break;
            }
            case 11: {
                size_t pos = P(1, 6) ? badpos(size) : rpos(size);
                size_t n = rlen(size - std::min(pos, size));
                auto sub = [&](const auto& s, Out& o) {
                    size_t want = pos <= size ? std::min(n, size - pos) : 4;
                    std::unique_ptr<Ch[]> b;
                    {
                        vh::NoTrack nt;
                        b.reset(new Ch[want]);
                    }
                    o.num = int64_t(s.copy(b.get(), n, pos));
                    vh::NoTrack nt;
                    o.text.assign(b.get(), want);
                };
                run(t, "copy out", 205, [&](S& s, Out& o) { sub(static_cast<const S&>(s), o); }, [&](M& s, Out& o) { sub(static_cast<const M&>(s), o); }, true);
                break;
            }
            case 12: {
                run(t, "reading forwards and backwards", 206, [&](S& s, Out& o) {
                    const S& c = s;
                    vh::NoTrack nt;
                    o.text = M(c.cbegin(), c.cend()) + M(c.crbegin(), c.crend()) + M(c.rbegin(), c.rend());
                    for (size_t i = 0; i <= c.size(); ++i) {
                        o.text += c[i];
                    }
                    if (!c.empty()) {
                        o.text += c.front();
                        o.text += c.back();
                    }
                }, [&](M& s, Out& o) {
                    const M& c = s;
                    o.text = M(c.cbegin(), c.cend()) + M(c.crbegin(), c.crend()) + M(c.rbegin(), c.rend());
                    for (size_t i = 0; i <= c.size(); ++i) {
                        o.text += c[i];
                    }
                    if (!c.empty()) {
                        o.text += c.front();
                        o.text += c.back();
                    }
                }, true);
                break;
            }
            default: {
                Ch a = rch();
                Ch b = rch();
                run(t, "remove and erase", 207, [&](S& s, Out&) {
                    std::replace(s.begin(), s.end(), a, b);
                    s.erase(std::remove(s.begin(), s.end(), b), s.end());
                }, [&](M& s, Out&) {
                    std::replace(s.begin(), s.end(), a, b);
                    s.erase(std::remove(s.begin(), s.end(), b), s.end());
                });
            }
        }
    }

    // requests that cannot be represented or provided: an error, and nothing changes
    void op_toolong() {
        Slot& t = pick();
        size_t size = t.m.size();
        size_t n = 0;
        switch (R(9)) {
            case 0:
                n = npos;
                break;
            case 1:
                n = npos - 1 - R(40);
                break;
            case 2:
                n = npos - size + 1 + R(size + 2);  // wraps around
                break;
            case 3:
                n = npos - size;
                break;
            case 4:
                n = npos / 2 + R(5) - 2;
                break;
            case 5:
                n = (npos >> 2) + R(100);
                break;
            case 6:
                n = (size_t(1) << 62) / sizeof(Ch) + R(64) - 32;
                break;
            case 7:
                n = npos / 3 * 2 + R(1000);  // times 3/2 wraps
                break;
            default:
                n = size_t(1) << (33 + R(20));
        }
        if (n < (size_t(1) << 32)) {
            n = npos;
        }
        Ch c = rch();
        size_t pos = rpos(size);
        size_t cnt = rlen(size - pos);
        unsigned k = unsigned(R(size == 0 ? 8 : 9));
        M before = t.m;
        opname = "a too long request";
        opcode = 220;
        Ex x = Ex::None;
        size_t cap0 = t.s->capacity();
        // some forms replace characters: n1 of them make room
        {
            vh::Track tr;
            S& s = *t.s;
            x = guard([&] {
                switch (k) {
                    case 0:
                        s.append(n, c);
                        break;
                    case 1:
                        s.insert(pos, n, c);
                        break;
                    case 2:
                        s.replace(pos, cnt, n, c);
                        break;
                    case 3:
                        s.resize(n, c);
                        break;
                    case 4:
                        s.reserve(n);
                        break;
                    case 5:
                        s.assign(n, c);
                        break;
                    case 6: {
                        S z(n, c, w.alloc(t.home));
                        (void)z;
                        break;
                    }
                    case 7:
                        s.insert(static_cast<const S&>(s).begin() + int64_t(pos), n, c);
                        break;
                    default:
                        // the pointer is never read: the length is refused first
                        s.append(static_cast<const S&>(s).data(), npos - size + 1 + (n % size));
                }
            });
        }
        LOG("too long: form %u with %zu on %zu characters -> %s", k, n, size, ex_name(x));
        EVENT("too-long-requests");
        vh::step(220, k, vh::cls(n));
        vh::state(220, k, vh::cls(n), vh::cls(size), uint64_t(x));
        ORACLE(W::tag_invalid, W::key_invalid, x == Ex::Length || x == Ex::Bad, "form %u with length %zu on %zu characters gives %s", k, n, size, ex_name(x));
        ORACLE(W::tag_invalid, W::key_invalid, same(*t.s, before), "form %u with length %zu changed the string from %s to %s", k, n, show(before).c_str(),
               show(of(*t.s)).c_str());
        ORACLE(W::tag_invalid, W::key_invalid, is_shared(t) || t.s->capacity() >= std::min(cap0, before.size()), "form %u with length %zu lost the capacity", k, n);
        if (!same(*t.s, before)) {
            vh::harness_error("contents differ");
        }
        check_all(&t);
    }

    // ---------------------------------------------------------------------------------------------- searching
    static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
    void read_op(Slot& t, const char* name, uint64_t code, const M& n, long long got, long long want, Ex a = Ex::None, Ex b = Ex::None) {
        opname = name;
        ORACLE(W::tag_search_clamped, W::key_search, a == b, "%s on %s with %s gives %s, the standard string %s", name, show(t.m).c_str(), show(n).c_str(),
               ex_name(a), ex_name(b));
        ORACLE(clamped ? W::tag_search_clamped : W::tag_search, W::key_search, a != Ex::None || got == want, "%s on %s with %s gives %lld, the standard string %lld", name, show(t.m).c_str(),
               show(n).c_str(), got, want);
        vh::step(code, vh::cls(t.m.size()), vh::cls(n.size()));
        vh::state(code, vh::cls(t.m.size()), vh::cls(n.size()), uint64_t(want >= 0) + 2 * uint64_t(want > 0), uint64_t(b));
        EVENT("searches-and-comparisons");
    }
#define VH_FIND4(name, fn, code)                                                                                              \
    {                                                                                                                         \
        auto want = [&](size_t r) { return (long long)(r); };                                                                 \
        read_op(t, name "(pointer, position, count)", code, n, want(s.fn(np, pos, nn)), want(m.fn(np, pos, nn)));             \
        read_op(t, name "(character, position)", code + 1, M(1, c), want(s.fn(c, pos)), want(m.fn(c, pos)));                  \
        read_op(t, name "(character)", code + 2, M(1, c), want(s.fn(c)), want(m.fn(c)));                                      \
        read_op(t, name "(string, position)", code + 3, om, want(s.fn(os, pos)), want(m.fn(om, pos)));                        \
        read_op(t, name "(string)", code + 4, om, want(s.fn(os)), want(m.fn(om)));                                            \
        read_op(t, name "(text, position)", code + 5, z, want(s.fn(z.c_str(), pos)), want(m.fn(z.c_str(), pos)));             \
        read_op(t, name "(text)", code + 6, z, want(s.fn(z.c_str())), want(m.fn(z.c_str())));                                 \
    }
    void op_search() {
        Slot& t = pick();
        Slot& o = pick();
        const S& s = *t.s;
        const M& m = t.m;
        const S& os = *o.s;
        const M& om = o.m;
        // a needle that often occurs
        M n;
        switch (R(5)) {
            case 0:
                n = rtext(R(6));
                break;
            case 1:
                break;
            case 2:
                n = rtext();
                break;
            default:
                if (!m.empty()) {
                    size_t p = R(m.size());
                    n = m.substr(p, P(1, 3) ? npos : 1 + R(12));
                    if (P(1, 3) && !n.empty()) {
                        n[R(n.size())] = rch();
                    }
                    if (P(1, 6)) {
                        n += rch();
                    }
                }
        }
        std::unique_ptr<Ch[]> exact(new Ch[n.size()]);
        std::copy(n.begin(), n.end(), exact.get());
        const Ch* np = exact.get();
        size_t nn = n.size();
        M z = n.c_str();
        Ch c = m.empty() || P(1, 2) ? rch() : m[R(m.size())];
        size_t pos = P(1, 5) ? badpos(m.size()) : P(1, 6) ? m.size() : R(m.size() + 1);
        switch (R(9)) {
            case 0:
                VH_FIND4("find", find, 300)
                break;
            case 1:
                VH_FIND4("rfind", rfind, 310)
                break;
            case 2:
                VH_FIND4("find_first_of", find_first_of, 320)
                break;
            case 3:
                VH_FIND4("find_last_of", find_last_of, 330)
                break;
            case 4:
                VH_FIND4("find_first_not_of", find_first_not_of, 340)
                break;
            case 5:
                VH_FIND4("find_last_not_of", find_last_not_of, 350)
                break;
            case 6: {
                M pre = P(1, 2) ? n : m.substr(0, R(m.size() + 1));
                M suf = P(1, 2) ? n : m.substr(m.size() - R(m.size() + 1));
                if (P(1, 3) && !pre.empty()) {
                    pre.back() = rch();
                }
                if (P(1, 3) && !suf.empty()) {
                    suf.front() = rch();
                }
                M zp = pre.c_str();
                M zs = suf.c_str();
                read_op(t, "starts_with(view)", 360, pre, s.starts_with(V(pre)), m.starts_with(V(pre)));
                read_op(t, "starts_with(text)", 361, zp, s.starts_with(zp.c_str()), m.starts_with(zp.c_str()));
                read_op(t, "starts_with(character)", 362, M(1, c), s.starts_with(c), m.starts_with(c));
                read_op(t, "starts_with(string)", 363, om, s.starts_with(os), m.starts_with(om));
                read_op(t, "ends_with(view)", 364, suf, s.ends_with(V(suf)), m.ends_with(V(suf)));
                read_op(t, "ends_with(text)", 365, zs, s.ends_with(zs.c_str()), m.ends_with(zs.c_str()));
                read_op(t, "ends_with(character)", 366, M(1, c), s.ends_with(c), m.ends_with(c));
                read_op(t, "ends_with(string)", 367, om, s.ends_with(os), m.ends_with(om));
                read_op(t, "contains(view)", 368, n, s.contains(V(np, nn)), m.find(n) != npos);
                read_op(t, "contains(text)", 369, z, s.contains(z.c_str()), m.find(z) != npos);
                read_op(t, "contains(character)", 370, M(1, c), s.contains(c), m.find(c) != npos);
                read_op(t, "contains(string)", 371, om, s.contains(os), m.find(om) != npos);
                break;
            }
            case 7: {
                size_t n1 = rlen(m.size() - std::min(pos, m.size()));
                size_t p2 = P(1, 6) ? badpos(om.size()) : R(om.size() + 1);
                size_t n2 = rlen(om.size() - std::min(p2, om.size()));
                M y = P(1, 2) ? m : n;  // often nearly the same text
                if (P(1, 2) && !y.empty()) {
                    if (P(1, 2)) {
                        y[R(y.size())] = rch();
                    } else {
                        y.resize(R(y.size() + 1));
                    }
                }
                M zy = y.c_str();
                auto cmp = [&](const char* name, uint64_t code, const M& x, auto f, auto g) {
                    int a = 0;
                    int b = 0;
                    Ex ea = guard([&] { a = sgn(f()); });
                    Ex eb = guard([&] { b = sgn(g()); });
                    read_op(t, name, code, x, a, b, ea, eb);
                };
                cmp("compare(string)", 380, om, [&] { return s.compare(os); }, [&] { return m.compare(om); });
                cmp("compare(text)", 381, zy, [&] { return s.compare(zy.c_str()); }, [&] { return m.compare(zy.c_str()); });
                cmp("compare(position, count, string)", 382, om, [&] { return s.compare(pos, n1, os); }, [&] { return m.compare(pos, n1, om); });
                cmp("compare(position, count, text)", 383, zy, [&] { return s.compare(pos, n1, zy.c_str()); }, [&] { return m.compare(pos, n1, zy.c_str()); });
                cmp("compare(position, count, pointer, length)", 384, y, [&] { return s.compare(pos, n1, y.data(), y.size()); },
                    [&] { return m.compare(pos, n1, y.data(), y.size()); });
                cmp("compare(position, count, string, position, count)", 385, om, [&] { return s.compare(pos, n1, os, p2, n2); },
                    [&] { return m.compare(pos, n1, om, p2, n2); });
                break;
            }
            default:
                op_relations(t, o, n);
        }
        if (P(1, 3)) {
            op_relations(t, o, n);
        }
        if (P(1, 8)) {
            op_containers();
        }
        check_all(&t);
    }
    void op_relations(Slot& t, Slot& o, const M& n) {
        const S& s = *t.s;
        const S& os = *o.s;
        const M& m = t.m;
        const M& om = o.m;
        M y = P(1, 2) ? m : n;
        if (P(1, 2) && !y.empty()) {
            if (P(1, 2)) {
                y[R(y.size())] = rch();
            } else {
                y.resize(R(y.size() + 1));
            }
        }
        M zy = y.c_str();
        const Ch* z = zy.c_str();
#define VH_REL(name, code, x, op)                                                          \
    read_op(t, "string " name " string", code, om, s op os, m op om);                      \
    read_op(t, "string " name " std::string", code + 1, y, s op y, m op y);                \
    read_op(t, "std::string " name " string", code + 2, y, y op s, y op m);                \
    read_op(t, "string " name " text", code + 3, zy, s op z, m op z);                      \
    read_op(t, "text " name " string", code + 4, zy, z op s, z op m);
        VH_REL("==", 400, x, ==)
        VH_REL("!=", 405, x, !=)
        VH_REL("<", 410, x, <)
        VH_REL("<=", 415, x, <=)
        VH_REL(">", 420, x, >)
        VH_REL(">=", 425, x, >=)
        auto ord = [](auto r) { return r < 0 ? -1 : r > 0 ? 1 : 0; };
        read_op(t, "string <=> string", 430, om, ord(s <=> os), sgn(m.compare(om)));
        read_op(t, "string <=> std::string", 431, y, ord(s <=> y), sgn(m.compare(y)));
        read_op(t, "std::string <=> string", 432, y, ord(y <=> s), sgn(y.compare(m)));
        // hashes
        std::hash<S> h;
        if (m == om) {
            read_op(t, "hash of equal strings", 433, om, h(s) == h(os), 1);
        }
        {
            S fresh(m.data(), m.size(), w.alloc(t.home));
            read_op(t, "hash of an equal new string", 434, m, h(s) == h(fresh), 1);
            S grown(w.alloc(t.home));
            grown.reserve(m.size() + R(500));
            grown.append(m.data(), m.size());
            read_op(t, "hash of an equal grown string", 435, m, h(s) == h(grown), 1);
            read_op(t, "equality of equal strings", 436, m, s == fresh && s == grown && !(s < fresh) && !(s > grown), 1);
        }
        if (P(1, 3)) {
            hash_spread(s, m, t.home);
        }
    }
    // strings that differ in one character hardly ever hash equally, wherever it is
    void hash_spread(const S& s, const M& m, int home) {
        vh::NoTrack nt;
        if (m.empty() || m.size() > 2000) {
            return;
        }
        std::hash<S> h;
        std::vector<size_t> seen{h(s)};
        constexpr size_t k = 12;
        size_t at = R(m.size());
        bool one = P(1, 2);  // one place or many
        std::set<M> distinct{m};
        for (size_t i = 0; i < 200 && distinct.size() <= k; ++i) {
            M x = m;
            size_t p = one ? at : P(1, 4) ? m.size() - 1 : R(m.size());
            x[p] = Ch((unsigned long)(x[p]) + 1 + R(sizeof(Ch) == 1 ? 250 : 60000));
            if (!distinct.insert(x).second) {
                continue;
            }
            S y(x.data(), x.size(), w.alloc(home));
            seen.push_back(h(y));
        }
        std::sort(seen.begin(), seen.end());
        size_t values = size_t(std::unique(seen.begin(), seen.end()) - seen.begin());
        ORACLE(W::tag_search, W::key_search, values * 2 > distinct.size(), "%zu strings that differ from %s in one character have only %zu hash values", distinct.size(),
               show(m).c_str(), values);
        EVENT("hash-spreads");
    }
    void op_containers() {
        // hashed and ordered containers of copies of the pool
        std::unordered_map<S, int> hm;
        std::map<S, int> om;
        std::unordered_map<M, int> hm2;
        std::map<M, int> om2;
        std::set<S> st;
        for (size_t i = 0; i < 12; ++i) {
            auto& t = pick();
            t.shared = true;
            const S& s = *t.s;
            hm[s] += int(i);
            hm2[t.m] += int(i);
            om[s] += int(i);
            om2[t.m] += int(i);
            st.insert(s);
            if (P(1, 5)) {
                auto& u = pick();
                hm.erase(*u.s);
                hm2.erase(u.m);
            }
        }
        opname = "containers";
        ORACLE(W::tag_search, W::key_search, hm.size() == hm2.size() && om.size() == om2.size() && st.size() == om2.size(), "container sizes differ");
        for (auto& [k, v] : hm2) {
            auto it = hm.find(S(k.data(), k.size(), w.alloc(0)));
            ORACLE(W::tag_search, W::key_search, it != hm.end() && it->second == v, "hashed container lost %s", show(k).c_str());
        }
        auto it = om.begin();
        for (auto& [k, v] : om2) {
            ORACLE(W::tag_search, W::key_search, same(it->first, k) && it->second == v, "ordered container differs at %s", show(k).c_str());
            ++it;
        }
        EVENT("container-checks");
        vh::step(440);
    }

    // ---------------------------------------------------------------------------------------------- one step of a case
    // weights: construct, assign, append, insert, replace, erase, access, too long, search, io, destroy
    void step(const std::array<int, 11>& weight) {
        clamped = false;
        if (pool.empty()) {
            op_construct();
            return;
        }
        int sum = 0;
        for (int x : weight) {
            sum += x;
        }
        int r = int(R(uint64_t(sum)));
        size_t i = 0;
        while (r >= weight[i]) {
            r -= weight[i++];
        }
        switch (i) {
            case 0:
                if (pool.size() >= W::kPool) {
                    destroy(R(pool.size()));
                }
                op_construct();
                break;
            case 1:
                op_assign();
                break;
            case 2:
                op_append();
                break;
            case 3:
                op_insert();
                break;
            case 4:
                op_replace();
                break;
            case 5:
                op_erase();
                break;
            case 6:
                op_access();
                break;
            case 7:
                op_toolong();
                break;
            case 8:
                op_search();
                break;
            case 9:
                op_io();
                break;
            default:
                destroy(R(pool.size()));
        }
    }

    // ---------------------------------------------------------------------------------------------- input and output
    // a stream buffer that delivers its text in pieces of random size and records what is left
    struct Pieces : std::basic_streambuf<Ch>
    {
        M text;
        size_t at{0};
        std::vector<size_t> cuts;
        size_t next{0};
        explicit Pieces(const M& t) : text(t) {
            size_t p = 0;
            while (p < t.size()) {
                p += 1 + R(P(1, 3) ? 3 : 60);
                cuts.push_back(std::min(p, t.size()));
            }
        }
        auto underflow() -> typename std::char_traits<Ch>::int_type override {
            if (this->gptr() == this->egptr()) {
                if (next >= cuts.size()) {
                    return std::char_traits<Ch>::eof();
                }
                size_t e = cuts[next++];
                this->setg(text.data() + at, text.data() + at, text.data() + e);
                at = e;
            }
            return std::char_traits<Ch>::to_int_type(*this->gptr());
        }
        auto rest() -> M {
            M r(this->gptr(), this->egptr());
            return r + text.substr(at);
        }
    };
    void op_io() {
        if constexpr (kStreams) {
            Slot& t = pick();
            const M m = t.m;
            const S& cs = *t.s;
            switch (R(8)) {
                case 0: {  // formatted output
                    std::basic_ostringstream<Ch> a;
                    std::basic_ostringstream<Ch> b;
                    for (auto* o : {&a, &b}) {
                        (void)o;
                    }
                    size_t wd = P(1, 2) ? 0 : P(1, 2) ? R(40) : m.size() + R(4) - std::min<size_t>(m.size(), 2);
                    Ch fill = P(1, 2) ? Ch(' ') : Ch('*');
                    auto adj = R(4);
                    auto set = [&](std::basic_ostringstream<Ch>& o) {
                        o.width(int(wd));
                        o.fill(fill);
                        o.setf(adj == 0 ? std::ios::left : adj == 1 ? std::ios::right : adj == 2 ? std::ios::internal : std::ios::fmtflags{}, std::ios::adjustfield);
                        if (wd % 7 == 3) {
                            o.setstate(std::ios::failbit);
                        }
                    };
                    set(a);
                    set(b);
                    a << cs << cs;
                    b << m << m;
                    opname = "stream output";
                    ORACLE(W::tag_io, W::key_io, a.str() == b.str() && a.width() == b.width() && a.rdstate() == b.rdstate(),
                           "writing %s with width %zu gives %s (state %d), the standard string %s (state %d)", show(m).c_str(), wd, show(a.str()).c_str(),
                           int(a.rdstate()), show(b.str()).c_str(), int(b.rdstate()));
                    vh::step(450, vh::cls(m.size()), wd != 0);
                    vh::state(450, vh::cls(m.size()), vh::cls(wd), adj);
                    EVENT("stream-writes");
                    break;
                }
                case 1:
                  if constexpr (kChar) {
                    opname = "formatting";
                    std::string a = fmt::format("{}", cs);
                    ORACLE(W::tag_io, W::key_io, a == m, "formatting %s gives %s", show(m).c_str(), show(a).c_str());
                    bool ascii = std::all_of(m.begin(), m.end(), [](unsigned char c) { return c < 0x80; });
                    if (ascii && W::kFmtSpec) {
                        size_t wd = R(60);
                        std::string x = fmt::format("[{:>{}}]", cs, wd);
                        std::string y = fmt::format("[{:>{}}]", m, wd);
                        ORACLE(W::tag_io, W::key_io, x == y, "formatting %s to width %zu gives %s", show(m).c_str(), wd, show(x).c_str());
                        x = fmt::format("{:*<9.5}", cs);
                        y = fmt::format("{:*<9.5}", m);
                        ORACLE(W::tag_io, W::key_io, x == y, "formatting %s gives %s", show(m).c_str(), show(x).c_str());
                    }
                    vh::step(451, vh::cls(m.size()));
                    vh::state(451, vh::cls(m.size()), ascii);
                    EVENT("formats");
                  }
                  break;
                case 2: {
                    opname = "conversion";
                    bool ok = w.conversions(cs, m);
                    ORACLE(W::tag_io, W::key_io, ok, "converting %s to a standard string changes it", show(m).c_str());
                    V v = cs;
                    ORACLE(W::tag_io, W::key_io, v == V(m) && v.data() == cs.data(), "the view of %s differs", show(m).c_str());
                    M x = rtext();
                    S y(V(x), w.alloc(t.home));
                    S z(x.data(), x.size(), w.alloc(t.home));
                    S u(w.alloc(t.home));
                    u = x;
                    ORACLE(W::tag_io, W::key_io, same(y, x) && same(z, x) && same(u, x), "converting %s from a standard string changes it", show(x).c_str());
                    vh::step(452, vh::cls(m.size()), vh::cls(x.size()));
                    vh::state(452, vh::cls(m.size()), vh::cls(x.size()));
                    EVENT("conversions");
                    break;
                }
                default:
                    op_read(t);
            }
            check_all(&t);
        }
    }
    void op_read(Slot& t) {
        if constexpr (kStreams) {
            // an input of words and lines
            M text;
            size_t parts = R(7);
            for (size_t i = 0; i < parts; ++i) {
                size_t n = rsize();
                M x = rtext(n);
                if (P(1, 2)) {
                    for (auto& c : x) {
                        static constexpr unsigned kSpaces[] = {'\n', ' ', '\t', ',', '\v', '\f', '\r', 0x85, 0xa0};
                        c = R(14) == 0 ? Ch(kSpaces[R(9)]) : c;
                    }
                }
                text += x;
                switch (R(6)) {
                    case 0:
                        text += Ch(' ');
                        break;
                    case 1:
                        text += Ch('\t');
                        break;
                    case 2:
                        text += M(2, Ch('\n'));
                        break;
                    case 3:
                        text += Ch(',');
                        break;
                    default:
                        text += Ch('\n');
                }
            }
            if (P(1, 3) && !text.empty()) {
                text.pop_back();
            }
            bool pieces = P(1, 2);
            auto seed = vh::rng.s;
            Pieces pa(text);
            vh::rng.s = seed;
            Pieces pb(text);
            std::basic_stringbuf<Ch> sa(text);
            std::basic_stringbuf<Ch> sb(text);
            std::basic_istream<Ch> a(pieces ? static_cast<std::basic_streambuf<Ch>*>(&pa) : &sa);
            std::basic_istream<Ch> b(pieces ? static_cast<std::basic_streambuf<Ch>*>(&pb) : &sb);
            auto mask = P(1, 6) ? (P(1, 2) ? std::ios::failbit : std::ios::eofbit) : std::ios::iostate{};
            if (P(1, 8)) {
                a.setstate(std::ios::failbit);
                b.setstate(std::ios::failbit);
            }
            if (P(1, 8)) {
                a.unsetf(std::ios::skipws);
                b.unsetf(std::ios::skipws);
            }
            guard([&] { a.exceptions(mask); });
            guard([&] { b.exceptions(mask); });
            size_t reads = 1 + R(6);
            for (size_t i = 0; i < reads; ++i) {
                size_t how = R(3);
                static constexpr unsigned kDelims[] = {'\n', ' ', ',', 'a', 0, 0xe9, 0x20ac, 0x10000};
                Ch delim = how == 2 ? Ch(kDelims[R(sizeof(Ch) == 1 ? 6 : 8)]) : Ch('\n');
                size_t wd = how == 0 && P(1, 4) ? R(30) : 0;
                a.width(int64_t(wd));
                b.width(int64_t(wd));
                M before = t.m;
                opname = how == 0 ? "reading a word" : "reading a line";
                Ex ea = Ex::None;
                Ex eb = Ex::None;
                {
                    vh::Track tr;
                    ea = guard([&] {
                        if (how == 0) {
                            a >> *t.s;
                        } else if (how == 1) {
                            getline(a, *t.s);
                        } else {
                            getline(a, *t.s, delim);
                        }
                    });
                }
                eb = guard([&] {
                    if (how == 0) {
                        b >> t.m;
                    } else if (how == 1) {
                        std::getline(b, t.m);
                    } else {
                        std::getline(b, t.m, delim);
                    }
                });
                t.reserved = 0;
                LOG("%s: %zu characters, state %d", opname, t.m.size(), int(b.rdstate()));
                EVENT("stream-reads");
                vh::step(453 + how, vh::cls(t.m.size()), uint64_t(b.rdstate()) * 10 + pieces);
                vh::state(453 + how, vh::cls(t.m.size()), uint64_t(b.rdstate()), pieces, uint64_t(eb));
                ORACLE(W::tag_io, W::key_io, ea == eb, "%s gives %s, the standard string %s", opname, ex_name(ea), ex_name(eb));
                ORACLE(W::tag_io, W::key_io, same(*t.s, t.m), "%s gives %s, the standard string %s (before: %s)", opname,
                       show(of(*t.s)).c_str(), show(t.m).c_str(), show(before).c_str());
                if (!same(*t.s, t.m)) {
                    vh::harness_error("contents differ");
                }
                ORACLE(W::tag_io, W::key_io, a.rdstate() == b.rdstate(), "%s of %s leaves state %d, the standard string %d", opname, show(t.m).c_str(), int(a.rdstate()),
                       int(b.rdstate()));
                ORACLE(W::tag_io, W::key_io, a.width() == b.width(), "%s leaves width %d, the standard string %d", opname, int(a.width()), int(b.width()));
                if (pieces) {
                    ORACLE(W::tag_io, W::key_io, pa.rest() == pb.rest(), "%s leaves other input behind", opname);
                } else {
                    ORACLE(W::tag_io, W::key_io, sa.in_avail() == sb.in_avail(), "%s leaves other input behind", opname);
                }
                check_all(&t);
                if (P(1, 5)) {
                    a.clear();
                    b.clear();
                }
            }
        }
    }

    // very many copies of one string: none of them is affected by what happens to the others
    void many_copies() {
        int home = w.home();
        static constexpr size_t kCounts[] = {126, 127, 128, 129, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 600, 1023, 1024, 1025};
        bool huge = P(1, W::kStickyShare ? 40 : 12);
        size_t k = huge ? 65533 + R(7) : kCounts[R(sizeof kCounts / sizeof kCounts[0])];
        size_t n = huge ? 255 + R(40) : P(1, 6) ? rsize() : kMedium - 2 + R(60);
        M m = rtext(n);
        auto* mem = static_cast<char*>(w.raw(sizeof(S) * (k + 1), alignof(S), home));
        auto* s = reinterpret_cast<S*>(mem);
        opname = "one of many copies";
        {
            vh::Track tr;
            new (s) S(m.data(), m.size(), w.alloc(home));
            unsigned how = unsigned(R(3));
            for (size_t i = 1; i <= k; ++i) {
                const S& from = how == 0 ? s[0] : how == 1 ? s[i - 1] : s[R(i)];
                if (how == 2 && P(1, 8)) {
                    new (s + i) S(w.alloc(home));
                    s[i] = from;
                } else {
                    new (s + i) S(from);
                }
            }
        }
        // the string each should now be
        std::vector<std::pair<size_t, M>> changed;
        auto expect = [&](size_t i) -> const M& {
            for (auto& c : changed) {
                if (c.first == i) {
                    return c.second;
                }
            }
            return m;
        };
        std::vector<char> gone(k + 1, 0);
        size_t ops = 1 + R(12);
        for (size_t j = 0; j <= ops; ++j) {
            if (j < ops) {
                size_t i = P(1, 3) ? 0 : R(k + 1);
                if (P(1, 4)) {
                    // many are destroyed
                    size_t from = R(k + 1);
                    size_t upto = P(1, 3) ? k + 1 : from + R(k + 2 - from);
                    vh::Track tr;
                    for (size_t d = from; d < upto; ++d) {
                        if (!gone[d]) {
                            s[d].~S();
                            gone[d] = 1;
                        }
                    }
                    vh::step(461, vh::cls(k), vh::cls(upto - from));
                } else if (!gone[i]) {
                    M now = expect(i);
                    unsigned form = unsigned(R(5));
                    Ch c = rch();
                    {
                        vh::Track tr;
                        switch (form) {
                            case 0:
                                if (!now.empty()) {
                                    s[i][0] = c;
                                    now[0] = c;
                                }
                                break;
                            case 1:
                                s[i].push_back(c);
                                now.push_back(c);
                                break;
                            case 2:
                                s[i].clear();
                                now.clear();
                                break;
                            case 3:
                                if (!now.empty()) {
                                    *s[i].begin() = c;
                                    now[0] = c;
                                }
                                break;
                            default:
                                s[i].append(3, c);
                                now.append(3, c);
                        }
                    }
                    bool done = false;
                    for (auto& x : changed) {
                        if (x.first == i) {
                            x.second = now;
                            done = true;
                        }
                    }
                    if (!done) {
                        changed.emplace_back(i, now);
                    }
                    vh::step(462, vh::cls(k), form);
                }
            }
            std::unordered_map<size_t, const M*> now;
            for (auto& x : changed) {
                now[x.first] = &x.second;
            }
            for (size_t i = 0; i <= k; ++i) {
                if (!gone[i]) {
                    auto it = now.find(i);
                    const M& want = it == now.end() ? m : *it->second;
                    ORACLE(W::tag_other, W::key_other, same(s[i], want), "copy %zu of %zu of a string is %s, should be %s", i, k, show(V(s[i].data(), s[i].size())).c_str(),
                           show(want).c_str());
                }
            }
        }
        {
            vh::Track tr;
            for (size_t i = 0; i <= k; ++i) {
                if (!gone[i]) {
                    s[i].~S();
                }
            }
        }
        vh::state(461, vh::cls(k), vh::cls(n), changed.size());
        EVENT_N("copies-of-one-string", k);
        w.unraw(mem, home);
    }

    // appending in small pieces: only logarithmically many reallocations
    void long_growth() {
        int home = w.home();
        size_t steps = 200 + R(P(1, 10) ? 60000 : 6000);
        size_t piece = P(1, 2) ? 1 : 1 + R(9);
        unsigned how = unsigned(R(4));
        M bit = rtext(piece);
        void* mem = w.raw(sizeof(S), alignof(S), home);
        auto* s = new (mem) S(w.alloc(home));
        uint64_t grown = 0;
        uint64_t moved = 0;
        const Ch* last = nullptr;
        size_t lastcap = 0;
        {
            vh::Track tr;
            for (size_t i = 0; i < steps; ++i) {
                switch (how) {
                    case 0:
                        s->push_back(bit[i % piece]);
                        break;
                    case 1:
                        s->append(bit.data(), piece);
                        break;
                    case 2:
                        *s += bit[0];
                        break;
                    default:
                        s->append(piece, bit[0]);
                }
                const S& c = *s;
                if (c.capacity() != lastcap) {
                    lastcap = c.capacity();
                    ++grown;
                }
                if (c.data() != last) {
                    last = c.data();
                    ++moved;
                }
            }
        }
        size_t n = s->size();
        double lim = 10 + 2.4 * double(64 - __builtin_clzll(n | 1));
        vh::step(460, how, vh::cls(steps));
        vh::state(460, how, vh::cls(piece), vh::cls(n));
        LOG("growth by %zu characters in %zu steps: %llu reallocations", n, steps, (unsigned long long)grown);
        EVENT("growth-sequences");
        EVENT_N("growth-steps", steps);
        opname = "repeated append";
        ORACLE(W::tag_store, W::key_store, double(grown) <= lim && double(moved) <= lim, "%zu appends (form %u) to %zu characters grew %llu times, moved %llu times", steps, how, n,
               (unsigned long long)grown, (unsigned long long)moved);
        cut_and_refill(*s);
        {
            vh::Track tr;
            s->~S();
        }
        w.unraw(mem, home);
    }

    // A string that is not shared keeps its storage, however little of it is left in use.
    void cut_and_refill(S& s) {
        const S& c = s;
        size_t more = P(1, 4) ? R(P(1, 8) ? 3000000 : 300000) : 0;
        M m;
        {
            vh::Track tr;
            if (more != 0) {
                s.reserve(c.size() + more);
            }
        }
        m = of(c);
        const Ch* at = c.data();
        const size_t cap = c.capacity();
        ORACLE(W::tag_store, W::key_store, cap >= m.size() + more, "capacity %zu after reserve(%zu)", cap, m.size() + more);
        opname = "cutting and refilling";
        for (size_t round = 2 + R(8); round-- != 0;) {
            size_t to = R(4) == 0 ? std::min<size_t>(R(4), m.size()) : R(3) == 0 ? R(m.size() + 1) : R(m.size() / (1 + R(200)) + 1);
            unsigned how = unsigned(R(7));
            size_t cut = m.size() - to;
            uint64_t a0 = w.mark();
            {
                vh::Track tr;
                switch (how) {
                    case 0:
                        s.resize(to);
                        break;
                    case 1:
                        s.erase(to);
                        break;
                    case 2:
                        s.erase(0, cut);
                        break;
                    case 3:
                        s.erase(s.begin(), s.begin() + std::ptrdiff_t(cut));
                        break;
                    case 4:
                        while (c.size() > to) {
                            s.pop_back();
                        }
                        break;
                    case 5:
                        s.assign(c.data() + cut, to);
                        break;
                    default:
                        s.replace(0, cut, size_t(0), Ch('-'));
                }
            }
            if (how == 0 || how == 1 || how == 4) {
                m.resize(to);
            } else {
                m.erase(0, cut);
            }
            EVENT("deep-cuts");
            vh::state(461, how, vh::cls(cap), vh::cls(to));
            ORACLE(W::tag_store, W::key_store, c.size() == to && c.data() == at && c.capacity() == cap && w.mark() == a0,
                   "cutting (form %u) by %zu to %zu characters with capacity %zu: capacity %zu, %s", how, cut, to, cap, c.capacity(),
                   c.data() == at ? "in place" : "moved");
            ORACLE(W::tag_store, W::key_store, std::memcmp(c.data(), m.data(), to * sizeof(Ch)) == 0 && c.data()[to] == Ch(), "cutting (form %u) changed the kept characters", how);
            size_t grow = R(cap - to + 1) / (1 + R(50));
            M ext = rtext(std::min<size_t>(grow, 40));
            Ch x = rch();
            {
                vh::Track tr;
                switch (R(4)) {
                    case 0:
                        s.append(grow, x);
                        break;
                    case 1:
                        s.resize(to + grow, x);
                        break;
                    case 2:
                        s.insert(size_t(0), grow, x);
                        break;
                    default:
                        s.insert(size_t(0), ext.data(), ext.size());
                        grow = 0;
                }
            }
            m = of(c);
            ORACLE(W::tag_store, W::key_store, c.data() == at && c.capacity() == cap && w.mark() == a0, "growing within the capacity %zu moved the characters or allocated", cap);
        }
    }
};
