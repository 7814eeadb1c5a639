// O01-O06: option parsers against a reference interpreter of the option rules.
#include "vh.hpp"

#include <algorithm>
#include <cmath>
#include <sys/mman.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>

#include "optparse/optparse.hpp"

using namespace stdb::optparse;
using vh::P;
using vh::R;
using vh::RR;
using std::map;
using SV = std::vector<std::string>;

namespace {
// ------------------------------------------------------------------------------------------------ reference interpreter
const char* kPrefixes = "-+#$&%";

struct MOpt
{
    SV names;
    Action action{Action::Null};
    Type type{Type::String};
    std::string dest, def, help, env;
    std::set<std::string> choices;
};
struct Result
{
    bool throws{false};
    map<std::string, Value> values;
    map<std::string, std::vector<Value>> lists;
    std::vector<size_t> left;  // argv indices
};

std::string trimmed(const std::string& s) {
    static const std::string ws = " \t\n\r\f\v";
    size_t b = 0;
    size_t e = s.size();
    while (b < e && ws.find(s[b]) != std::string::npos) {
        ++b;
    }
    while (e > b && ws.find(s[e - 1]) != std::string::npos) {
        --e;
    }
    return s.substr(b, e - b);
}
template <typename T>
T number(const std::string& s) {
    std::istringstream is(s);
    T v{};
    is >> v;
    return v;
}

struct Model
{
    char prefix{'-'};
    ConflictHandler handler{ConflictHandler::Error};
    std::string program, usage, version;
    std::vector<MOpt> opts;
    map<std::string, size_t> where;
    // the latest parse
    bool parsed{false};
    bool failed{false};
    SV args;
    std::vector<const char*> argv;   // the pointers given
    const char** array{nullptr};     // where they were
    size_t room{0};
    std::vector<size_t> left;

    [[nodiscard]] bool is_opt(const std::string& a) const { return !a.empty() && a[0] == prefix; }
    [[nodiscard]] bool is_long(const std::string& n) const { return n.size() > 2 && n[0] == prefix && n[1] == prefix; }
    // false: rejected
    bool add(const MOpt& o) {
        if (o.names.empty()) {
            return false;
        }
        std::set<std::string> seen;
        for (auto& n : o.names) {
            if (!is_opt(n)) {
                return false;
            }
            if (handler == ConflictHandler::Error && (where.count(n) != 0 || !seen.insert(n).second)) {
                return false;
            }
        }
        for (auto& n : o.names) {
            where[n] = opts.size();
        }
        opts.push_back(o);
        return true;
    }
    [[nodiscard]] std::string name(const char* s, bool lng) const { return std::string(lng ? 2 : 1, prefix) + s; }
    void builtin(const char* sh, const char* lg, const std::string& help) {
        std::string s = name(sh, false), l = name(lg, true);
        if (where.count(s) == 0 && where.count(l) == 0) {
            MOpt o;
            o.names = {s, l};
            o.action = Action::StoreTrue;
            o.type = Type::Bool;
            o.dest = lg;
            o.help = help;
            add(o);
        }
    }
    void builtins() {
        builtin("u", "usage", "show usage of the " + program);
        builtin("h", "help", "show the help of the " + program);
        builtin("v", "version", "show version of the " + program);
    }
    [[nodiscard]] std::string dest_of(const MOpt& o) const {
        if (!o.dest.empty()) {
            return o.dest;
        }
        for (auto& n : o.names) {
            if (is_long(n)) {
                return n.substr(2);
            }
        }
        return {};
    }
    [[nodiscard]] bool complete(const MOpt& o) const {
        return o.action != Action::Null && !dest_of(o).empty() && (o.type == Type::Choice || o.choices.empty());
    }
    static std::optional<Value> convert(const MOpt& o, const std::string& t) {
        switch (o.type) {
            case Type::Bool: return number<bool>(t);
            case Type::Int: return number<int32_t>(t);
            case Type::Long: return number<int64_t>(t);
            case Type::Float: return number<float>(t);
            case Type::Double: return number<double>(t);
            case Type::Choice:
                if (o.choices.count(t) == 0) {
                    return std::nullopt;
                }
                return t;
            default: return t;
        }
    }
    // false: an error
    bool apply(Result& r, const MOpt& o, const std::string& t) const {
        std::string d = dest_of(o);
        switch (o.action) {
            case Action::Store:
            case Action::StoreTrue:
            case Action::StoreFalse:
                if (o.action != Action::Store && t.empty()) {
                    r.values[d] = o.action == Action::StoreTrue;
                } else if (auto v = convert(o, t)) {
                    r.values[d] = *v;
                }
                return true;
            case Action::Count: {
                auto it = r.values.find(d);
                r.values[d] = it == r.values.end() ? 1 : std::get<int>(it->second) + 1;
                return true;
            }
            case Action::Append: {
                SV parts;
                if (t.find(',') == std::string::npos) {
                    parts.push_back(t);
                } else {
                    size_t b = 0;
                    while (b <= t.size()) {
                        size_t e = std::min(t.find(',', b), t.size());
                        std::string p = trimmed(t.substr(b, e - b));
                        if (!p.empty()) {
                            parts.push_back(p);
                        }
                        b = e + 1;
                    }
                }
                for (auto& p : parts) {
                    auto v = convert(o, p);
                    if (!v) {
                        break;
                    }
                    r.lists[d].push_back(*v);
                }
                return true;
            }
            default: return false;
        }
    }
    static bool given(const Result& r, const std::string& d) { return r.values.count(d) != 0 || r.lists.count(d) != 0; }
    Result interpret(const SV& a) {
        Result r;
        for (auto& o : opts) {
            if (!complete(o)) {
                r.throws = true;
                return r;
            }
        }
        builtins();
        size_t n = a.size();
        size_t i = 0;
        while (i < n) {
            const std::string& x = a[i++];
            if (!is_opt(x)) {
                r.left.push_back(i);
                continue;
            }
            size_t eq = x.find('=');
            auto w = where.find(trimmed(x.substr(0, eq)));
            if (w == where.end()) {
                r.left.push_back(i);
                continue;
            }
            const MOpt& o = opts[w->second];
            bool ok = true;
            if (eq != std::string::npos && eq + 1 < x.size()) {
                ok = apply(r, o, x.substr(eq + 1));
            } else if (i < n && (eq != std::string::npos || !is_opt(a[i]))) {
                ok = apply(r, o, a[i++]);
            } else if (eq != std::string::npos) {
                r.left.push_back(i);
                continue;
            } else if (o.type == Type::Bool) {
                ok = apply(r, o, "");
                if (!ok) {
                    r.throws = true;
                    return r;
                }
                continue;
            } else {
                ok = false;
            }
            while (ok && i < n && !is_opt(a[i])) {
                ++i;
                if (o.action == Action::Append) {
                    ok = apply(r, o, a[i - 1]);
                } else {
                    r.left.push_back(i);
                }
            }
            if (!ok) {
                r.throws = true;
                return r;
            }
        }
        for (int pass = 0; pass < 2; ++pass) {
            for (auto& o : opts) {
                std::string d = dest_of(o);
                const char* t = pass == 0 ? (o.def.empty() ? nullptr : o.def.c_str()) : (o.env.empty() ? nullptr : getenv(o.env.c_str()));
                if (t == nullptr || given(r, d)) {
                    continue;
                }
                if (o.action == Action::Count) {
                    r.values[d] = number<int32_t>(t);
                } else if (!apply(r, o, t)) {
                    r.throws = true;
                    return r;
                }
            }
        }
        return r;
    }
};

// ------------------------------------------------------------------------------------------------ workload
const char* kStems[] = {"alpha", "beta", "beta2", "al", "a", "file", "file-name", "x", "verbose", "out", "help", "usage", "version", "h", "u", "v", "i", "num", "n_1", "Z"};
const char* kDests[] = {"alpha", "beta", "value", "help", "usage", "version", "count", "list", "f", "level 2", "x.y"};
const char* kTexts[] = {"1", "0", "42", "-5", "+7", "", " ", "  42  ", "abc", "3.5", "3.5xyz", "0x1f", "1e3", "1e400", "-1e400", "1e-400", "2147483647", "2147483648", "-2147483649",
                        "9223372036854775807", "9223372036854775808", "99999999999999999999999", "true", "false", "2", "red", "green", "blue", "deep blue", " red", "red,blue",
                        "red, blue ,green", ",", ",,", ", ,red", "red,,blue", "red,", "a=b", "=", "1,2,3", " 1 , 2 ", "1.5,2.5,x", "red,pink,blue", "pink,red", "-", "--", "~", "a,b,c,d",
                        "inf", "nan", ".5", "5.", "1e", "0x", "00012", "\t7\n", "'", "\"q\"", "ünï", "5 6", "red green"};
const char* kEnvs[] = {"VH_OPT_A", "VH_OPT_B", "VH_OPT_C", "VH_OPT_UNSET"};
const char* kHelps[] = {"", "x", "show something", "a longer help text, with punctuation: <int>", "--alpha is not meant here"};

std::string pick_text() {
    if (P(1, 8)) {
        std::string s;
        size_t n = P(1, 6) ? R(300) : R(12);
        for (size_t i = 0; i < n; ++i) {
            s += " \t,,=-+#.0123456789eEabcx\xc3"[R(25)];
        }
        return s;
    }
    if (P(1, 10)) {
        // parts within white space of every kind
        static const char* parts[] = {"", "1", "x", "red", "blue", "-2", "3.5", "a b", "a\tb"};
        std::string s;
        for (size_t n = RR(1, 5); n > 0; --n) {
            for (size_t k = R(4); k > 0; --k) {
                s += " \t\n\r\f\v"[R(6)];
            }
            s += parts[R(std::size(parts))];
            for (size_t k = R(4); k > 0; --k) {
                s += " \t\n\r\f\v"[R(6)];
            }
            if (n > 1) {
                s += ',';
            }
        }
        return s;
    }
    return kTexts[R(std::size(kTexts))];
}
// a text close to a valid one: cut, extended, in other case, within white space
std::string near_miss(std::string t) {
    switch (R(6)) {
        case 0:
        case 1: return t.substr(0, R(t.size() + 1));
        case 2: return t + "abc -,"[R(6)];
        case 3:
            for (char& c : t) {
                c = P(1, 2) ? char(toupper((unsigned char)c)) : c;
            }
            return t;
        case 4: return t.empty() ? t : t.substr(R(t.size()));
        default: return " \t\n\r\f\v"[R(6)] + t;
    }
}
// now and then names, texts or command lines that do not fit into small numbers
size_t scale = 0;   // of texts
size_t many = 0;    // of arguments
std::string long_text(size_t n) {
    std::string s;
    while (s.size() < n) {
        s += "abcdefghijklmnopqrstuvwxyz0123456789_"[R(37)];
    }
    return s;
}

// a list of n parts at most
std::string long_list(size_t n) {
    static const char* parts[] = {"1", "22", "-3", "red", "", " x", "4.5", "blue"};
    std::string s;
    bool mixed = P(1, 2);
    for (size_t i = 0; i < n; ++i) {
        s += (i > 0 ? "," : "");
        s += mixed ? parts[R(std::size(parts))] : parts[i % 2];
    }
    EVENT("long-list");
    return s;
}

struct Argv
{
    SV text;
    std::vector<const char*> own;
    std::vector<const char*> ptr;
    explicit Argv(SV t) : text(std::move(t)) {
        for (auto& s : text) {
            // an allocation for each, so that reading beyond one is seen
            char* c = static_cast<char*>(malloc(s.size() + 1));
            memcpy(c, s.c_str(), s.size() + 1);
            own.push_back(c);
        }
        ptr = own;
    }
    ~Argv() {
        for (const char* c : own) {
            free(const_cast<char*>(c));
        }
    }
    Argv(const Argv&) = delete;
};

struct Kept
{
    std::unique_ptr<ValueStore> store;
    Result want;
    std::set<std::string> dests;
};

struct Slot
{
    std::unique_ptr<OptionParser> p;
    Model m;
    Option* last{nullptr};  // reference to the option registered last
};

struct World
{
    std::vector<Slot> pool = std::vector<Slot>(3);
    std::vector<std::unique_ptr<Argv>> argvs;
    std::vector<Kept> kept;
};

bool same(const Value& a, const Value& b) {
    if (a.index() != b.index()) {
        return false;
    }
    return a == b || (a.index() == 3 && std::isnan(std::get<float>(a)) && std::isnan(std::get<float>(b))) ||
           (a.index() == 4 && std::isnan(std::get<double>(a)) && std::isnan(std::get<double>(b)));
}
std::string show(const Value& v) {
    return std::visit(
      [](auto& x) {
          std::ostringstream o;
          o << x;
          return o.str();
      },
      v);
}

#define ALL "O01 O02 O03 O04 O05 O06"

template <typename T>
bool got(const ValueStore& s, const std::string& d, const Value& want) {
    auto v = s.get<T>(d);
    return v && same(Value(*v), want);
}
template <typename T>
void wrong(const ValueStore& s, const std::string& d, const Value& want) {
    if (std::holds_alternative<T>(want)) {
        return;
    }
    bool threw = false;
    try {
        (void)s.get<T>(d);
    } catch (const std::bad_variant_access&) {
        threw = true;
    }
    ORACLE("O05", "O05/wrong-type", threw, "asking '%s' for another type than %zu was not refused", d.c_str(), want.index());
}

// the values under their keys, as a caller fills a store directly
void store_case() {
    auto st = std::make_unique<ValueStore>();
    std::map<std::string, Value> one;
    std::map<std::string, std::vector<Value>> many_of;
    std::set<std::string> by_user;
    const std::string keys[] = {"", "a", "A", "b", "a ", "key with spaces", std::string(40, 'k'), std::string(40, 'k') + "x"};
    auto val = [] {
        switch (R(6)) {
            case 0: return Value(P(1, 2));
            case 1: return Value(int32_t(vh::rng.next()));
            case 2: return Value(int64_t(vh::rng.next()));
            case 3: return Value(float(R(1000)) / 7);
            case 4: return Value(double(R(100000)) / 7);
            default: return Value(std::string(R(40), char('a' + R(26))));
        }
    };
    for (uint64_t n = RR(3, 60); n > 0; --n) {
        const std::string& k = keys[R(std::size(keys))];
        uint64_t what = R(7);
        LOG("store op %llu on '%s'", (unsigned long long)what, k.c_str());
        vh::step(70, what);
        switch (what) {
            case 0: {
                Value x = val();
                st->set(k, x);
                one[k] = x;
                by_user.insert(k);
                break;
            }
            case 1: {
                Value x = val();
                st->append(k, x);
                many_of[k].push_back(x);
                by_user.insert(k);
                break;
            }
            case 2: {
                Value a = val(), b = val(), c = val();
                st->append(k, std::initializer_list<Value>{a, b, c});
                auto& l = many_of[k];
                l.insert(l.end(), {a, b, c});
                by_user.insert(k);
                break;
            }
            case 3: {
                auto it = one.find(k);
                if (it != one.end() && it->second.index() == 1 && std::get<int>(it->second) == INT32_MAX) {
                    break;
                }
                bool threw = false;
                try {
                    st->increment(k);
                } catch (const std::bad_variant_access&) {
                    threw = true;
                }
                bool counts = it == one.end() || it->second.index() == 1;
                ORACLE("O05", "O05/store-increment", threw == !counts, "counting '%s' %s", k.c_str(), threw ? "was refused" : "changed a value that is no number");
                if (counts) {
                    one[k] = it == one.end() ? 1 : std::get<int>(it->second) + 1;
                    by_user.insert(k);
                }
                break;
            }
            case 4: {
                auto moved = std::make_unique<ValueStore>(std::move(*st));
                st = std::move(moved);
                break;
            }
            default: {
                // a list of one type
                auto it = many_of.find(k);
                bool whole = it != many_of.end();
                for (size_t i = 0; whole && i < it->second.size(); ++i) {
                    whole = it->second[i].index() == 5;
                }
                bool threw = false;
                decltype(st->get_list<std::string>(k)) l;
                try {
                    l = st->get_list<std::string>(k);
                } catch (const std::bad_variant_access&) {
                    threw = true;
                }
                ORACLE("O05", "O05/store-list-type", threw == (it != many_of.end() && !whole) && l.has_value() == whole, "a list of other values was given as a list of texts");
                if (whole) {
                    bool eq = l->size() == it->second.size();
                    for (size_t i = 0; eq && i < l->size(); ++i) {
                        eq = (*l)[i] == std::get<std::string>(it->second[i]);
                    }
                    ORACLE("O05", "O05/store-list", eq, "the list under '%s' is another one", k.c_str());
                }
            }
        }
        for (auto& q : keys) {
            auto it = one.find(q);
            ORACLE("O05", "O05/store-user-set", st->user_set(q) == by_user.contains(q), "'%s' is reported as %s", q.c_str(), st->user_set(q) ? "given" : "not given");
            if (it == one.end()) {
                ORACLE("O05", "O05/store-value", !st->get<int>(q) && !st->get<std::string>(q), "a value under '%s' that nobody put there", q.c_str());
            } else {
                const Value& x = it->second;
                bool ok = x.index() == 0   ? got<bool>(*st, q, x)
                          : x.index() == 1 ? got<int32_t>(*st, q, x)
                          : x.index() == 2 ? got<int64_t>(*st, q, x)
                          : x.index() == 3 ? got<float>(*st, q, x)
                          : x.index() == 4 ? got<double>(*st, q, x)
                                           : got<std::string>(*st, q, x);
                ORACLE("O05", "O05/store-value", ok, "the value under '%s' is not %s", q.c_str(), show(x).c_str());
                if (P(1, 4)) {
                    wrong<bool>(*st, q, x);
                    wrong<int64_t>(*st, q, x);
                    wrong<std::string>(*st, q, x);
                }
            }
            auto lt = many_of.find(q);
            auto l = st->get_list(q);
            bool ok = l.has_value() == (lt != many_of.end()) && (!l || l->size() == lt->second.size());
            for (size_t i = 0; ok && l && i < l->size(); ++i) {
                ok = same((*l)[i], lt->second[i]);
            }
            ORACLE("O05", "O05/store-list", ok, "the list under '%s' is another one", q.c_str());
        }
    }
    EVENT("store-case");
    vh::state(70, one.size(), many_of.size());
}

void check_store(const ValueStore& s, const Result& want, const std::set<std::string>& dests, const char* tags, const char* when) {
    for (auto& d : dests) {
        auto w = want.values.find(d);
        auto l = want.lists.find(d);
        bool given = w != want.values.end() || l != want.lists.end();
        ORACLE(tags, "O01/user-set", s.user_set(d) == given, "%s: '%s' is%s set", when, d.c_str(), given ? " not" : "");
        if (w != want.values.end()) {
            bool ok = false;
            const char* why = "differs";
            try {
                switch (w->second.index()) {
                    case 0: ok = got<bool>(s, d, w->second); break;
                    case 1: ok = got<int32_t>(s, d, w->second); break;
                    case 2: ok = got<int64_t>(s, d, w->second); break;
                    case 3: ok = got<float>(s, d, w->second); break;
                    case 4: ok = got<double>(s, d, w->second); break;
                    default: ok = got<std::string>(s, d, w->second);
                }
            } catch (const std::bad_variant_access&) {
                why = "has another type";
            }
            ORACLE(tags, "O01/value", ok, "%s: the value of '%s' %s, expected '%s' (type %zu)", when, d.c_str(), why, show(w->second).c_str(), w->second.index());
            wrong<bool>(s, d, w->second);
            wrong<int32_t>(s, d, w->second);
            wrong<std::string>(s, d, w->second);
            vh::state(1, w->second.index(), vh::str_hash(show(w->second)));
        } else {
            bool none = false;
            try {
                none = !s.get<int32_t>(d) && !s.get<std::string>(d) && !s.get<bool>(d);
            } catch (const std::bad_variant_access&) {
            }
            ORACLE(tags, "O01/value", none, "%s: '%s' has a value, expected none", when, d.c_str());
        }
        auto list = s.get_list(d);
        ORACLE(tags, "O01/list", list.has_value() == (l != want.lists.end()), "%s: '%s' %s a list", when, d.c_str(), list ? "has" : "has not");
        if (list && l != want.lists.end()) {
            ORACLE(tags, "O01/list", list->size() == l->second.size(), "%s: the list '%s' has %zu elements, expected %zu", when, d.c_str(), list->size(), l->second.size());
            for (size_t i = 0; i < std::min(list->size(), l->second.size()); ++i) {
                ORACLE(tags, "O01/list", same((*list)[i], l->second[i]), "%s: element %zu of '%s' is '%s', expected '%s'", when, i, d.c_str(), show((*list)[i]).c_str(),
                       show(l->second[i]).c_str());
            }
            if (!l->second.empty() && l->second[0].index() == 5) {
                bool all = std::all_of(l->second.begin(), l->second.end(), [](auto& v) { return v.index() == 5; });
                if (all) {
                    auto strs = s.get_list<std::string>(d);
                    ORACLE(tags, "O01/list", strs && strs->size() == l->second.size() && strs->back() == std::get<std::string>(l->second.back()), "%s: the typed list '%s' differs", when,
                           d.c_str());
                }
            }
            vh::state(2, l->second.size(), l->second.empty() ? 9 : l->second[0].index());
        }
    }
    ORACLE(tags, "O01/value", !s.get<int32_t>("no such option") && !s.get_list("no such option") && !s.user_set("no such option"), "%s: an unknown name has a value", when);
}

// leaves bytes of no particular value where the next calls have their frames
__attribute__((noinline)) void dirty_stack(int c) {
    volatile char junk[6000];
    for (size_t i = 0; i < sizeof junk; ++i) {
        junk[i] = char(c);
    }
}

std::string make_name(const Model& m) {
    std::string s = kStems[R(std::size(kStems))];
    if (P(1, 12)) {
        s += std::string(1, "-_.:/ ~1Qx\xc3="[R(12)]) + kStems[R(std::size(kStems))];
    }
    if (P(1, 12)) {
        s = std::string(1, "abcxyz017_?."[R(12)]);
    }
    if (scale != 0 && P(1, 4)) {
        s += long_text(R(scale));
    }
    if (P(1, 60)) {
        s += "= "[R(2)];
    }
    switch (R(30)) {
        case 0: return s;                                       // no prefix
        case 1: return std::string(1, kPrefixes[R(6)]) + s;     // maybe another prefix
        case 2: return P(1, 3) ? std::string() : std::string(1 + P(1, 3), m.prefix);
        case 3:
        case 4:
        case 5:
        case 6:
        case 7:
        case 8:
        case 9:
        case 10: return std::string(1, m.prefix) + (P(1, 2) ? std::string(1, s[0]) : std::string(s));
        default: return std::string(2, m.prefix) + s;
    }
}

bool builtin_dest(const std::string& d) { return d == "help" || d == "usage" || d == "version"; }

// counts share a destination with counts only
int category(Action a, Type) { return a == Action::Append ? 0 : a == Action::Count ? 1 : 2; }

void configure(Slot& s, MOpt& o, Option& r) {
    Model& m = s.m;
    static const Action acts[] = {Action::Store, Action::Store, Action::Store, Action::StoreTrue, Action::StoreFalse, Action::Append, Action::Append, Action::Count, Action::Help, Action::Version,
                                  Action::Null};
    o.action = acts[R(P(1, 12) ? std::size(acts) : 8)];
    switch (o.action) {
        case Action::StoreTrue:
        case Action::StoreFalse: o.type = Type::Bool; break;
        case Action::Count: o.type = P(1, 2) ? Type::Bool : P(1, 2) ? Type::Int : Type::String; break;
        default: o.type = Type(RR(1, 7));
    }
    if (P(1, 2)) {
        o.dest = kDests[R(std::size(kDests))];
    }
    // a count and another option can not share a destination unless they hold numbers
    for (int t = 0; t < 6; ++t) {
        std::string d = m.dest_of(o);
        bool clash = o.action == Action::Count && builtin_dest(d);
        for (auto& x : m.opts) {
            if (m.dest_of(x) == d && (x.action == Action::Count || o.action == Action::Count)) {
                int a = category(x.action, x.type), b = category(o.action, o.type);
                clash |= (a == 2 || b == 2);
            }
        }
        if (!clash) {
            break;
        }
        if (t == 5) {
            o.dest = "own" + std::to_string(m.opts.size());
        } else {
            o.dest = P(1, 2) ? kDests[R(std::size(kDests))] : "own" + std::to_string(m.opts.size());
        }
    }
    if (o.action != Action::Null) {
        r.action(o.action);
    }
    r.type(o.type);
    if (!o.dest.empty()) {
        r.dest(o.dest);
    }
    if (o.type == Type::Choice || P(1, 40)) {
        SV c;
        static const char* all[] = {"red", "green", "blue", "deep blue", "", "1", "a=b", "greenish", "re", "Red", "-", "2", " pad "};
        unsigned share = unsigned(RR(1, 6));
        for (const char* x : all) {
            if (P(1, share)) {
                c.push_back(x);
            }
        }
        if (P(1, 5)) {
            c = {all[R(std::size(all))]};
        }
        Type t = o.type;
        if (P(1, 2)) {
            r.choices(c.begin(), c.end());
        } else {
            c = {"red", "blue"};
            r.choices({"red", "blue"});
        }
        o.choices.insert(c.begin(), c.end());
        o.type = Type::Choice;
        if (t != Type::Choice) {
            if (P(1, 2) && !c.empty()) {  // inconsistent: choices with another type
                r.type(t);
                o.type = t;
                vh::count_event("choices-with-another-type");
            }
        }
        if (o.action == Action::StoreTrue || o.action == Action::StoreFalse || o.action == Action::Count) {
            if (o.type == Type::Choice) {
                o.action = Action::Append;
                r.action(Action::Append);
            }
        }
    }
    // defaults and environment
    if (P(1, 3)) {
        switch (R(5)) {
            case 0: {
                switch (R(6)) {
                    case 0: {
                        long x = long(vh::rng.next());
                        r.default_value(x);
                        o.def = std::to_string(x);
                        break;
                    }
                    case 1: {
                        unsigned long x = vh::rng.next();
                        r.default_value(x);
                        o.def = std::to_string(x);
                        break;
                    }
                    case 2: {
                        bool x = P(1, 2);
                        r.default_value(x);
                        o.def = x ? "1" : "0";
                        break;
                    }
                    case 3: {
                        short x = short(vh::rng.next());
                        r.default_value(x);
                        o.def = std::to_string(x);
                        break;
                    }
                    default: {
                        int x = P(1, 4) ? int(vh::rng.next()) : int(R(1000)) - 500;
                        r.default_value(x);
                        o.def = std::to_string(x);
                    }
                }
                break;
            }
            case 1: {
                // of all magnitudes: the text is whatever gives the number back
                double x = double(R(1000)) / 8;
                if (P(1, 2)) {
                    x = std::ldexp(double(vh::rng.next() >> 11), P(1, 4) ? int(R(2000)) - 1080 : int(R(140)) - 100);
                }
                if (P(1, 3)) {
                    x = -x;
                }
                if (P(1, 3) && std::isfinite(float(x))) {
                    float y = float(x);
                    r.default_value(y);
                    ORACLE(ALL, "O04/float-default", std::strtof(r.default_value().c_str(), nullptr) == y, "the default %s stands for %.9g", r.default_value().c_str(), double(y));
                } else {
                    r.default_value(x);
                    ORACLE(ALL, "O04/double-default", std::strtod(r.default_value().c_str(), nullptr) == x, "the default %s stands for %.17g", r.default_value().c_str(), x);
                }
                o.def = r.default_value();
                break;
            }
            case 2:
                r.default_value("red");
                o.def = "red";
                break;
            default:
                o.def = pick_text();
                r.default_value(o.def);
        }
    }
    if (P(1, 3)) {
        o.env = kEnvs[R(std::size(kEnvs))];
        r.env(o.env);
    }
    if (P(1, 2)) {
        o.help = kHelps[R(std::size(kHelps))];
        if (scale != 0 && P(1, 4)) {
            o.help += long_text(R(scale));
        }
        r.help(o.help);
    }
    std::string def = o.def;
    ORACLE(ALL, "O04/attributes",
           r.action() == o.action && r.type() == o.type && r.dest() == o.dest && r.default_value() == o.def && r.env() == o.env && r.help() == o.help && r.choices() == o.choices,
           "an option does not keep what it was given");
}
// categories again after choices changed the action
bool sane(const Model& m) {
    for (auto& x : m.opts) {
        if (x.action != Action::Count) {
            continue;
        }
        for (auto& y : m.opts) {
            if (&x != &y && m.dest_of(x) == m.dest_of(y) && category(y.action, y.type) == 2) {
                return false;
            }
        }
    }
    return true;
}

void register_option(Slot& s) {
    Model& m = s.m;
    MOpt o;
    size_t form = R(3);
    size_t n = form == 0 ? R(5) : form == 1 ? 2 : 1;
    for (size_t i = 0; i < n; ++i) {
        o.names.push_back(make_name(m));
    }
    std::string all;
    for (auto& x : o.names) {
        all += x + " ";
    }
    Model before = m;
    bool want = m.add(o);
    Option* r = nullptr;
    std::string err;
    try {
        if (form == 0) {
            switch (n) {
                case 0: r = &s.p->add_option(std::initializer_list<std::string>{}); break;
                case 1: r = &s.p->add_option({o.names[0]}); break;
                case 2: r = &s.p->add_option(std::initializer_list<std::string>{o.names[0], o.names[1]}); break;
                case 3: r = &s.p->add_option({o.names[0], o.names[1], o.names[2]}); break;
                default: r = &s.p->add_option({o.names[0], o.names[1], o.names[2], o.names[3]});
            }
        } else if (form == 1) {
            r = &s.p->add_option(o.names[0], o.names[1]);
        } else {
            r = &s.p->add_option(o.names[0]);
        }
    } catch (const std::logic_error& e) {
        err = e.what();
        if (err.empty()) {
            err = "?";
        }
    }
    LOG("add %s-> %s", all.c_str(), err.empty() ? "registered" : err.c_str());
    ORACLE(ALL, "O04/registration", err.empty() == want, "registering %swas %s", all.c_str(), want ? "rejected" : "accepted");
    if (!want) {
        m = before;
        vh::count_event("rejected-registration");
        vh::step(3, n);
        return;
    }
    if (err.empty() != want) {
        vh::harness_error("registration differs");
    }
    const auto& names = r->names();
    bool eq = names.size() == o.names.size() && std::equal(names.begin(), names.end(), o.names.begin());
    ORACLE("O04 O06", "O04/names", eq, "a registered option has other names");
    Model keep = m;
    MOpt& mo = m.opts.back();
    configure(s, mo, *r);
    if (!sane(m)) {
        mo.dest = "only" + std::to_string(m.opts.size());
        r->dest(mo.dest);
    }
    s.last = r;
    vh::count_event("registered-option");
    LOG("  action %d type %d dest '%s' default '%s' env '%s' choices %zu", int(mo.action), int(mo.type), mo.dest.c_str(), mo.def.c_str(), mo.env.c_str(), mo.choices.size());
    vh::step(4, uint64_t(mo.action) * 16 + uint64_t(mo.type), (mo.def.empty() ? 0 : 1) + (mo.env.empty() ? 0 : 2) + (mo.dest.empty() ? 0 : 4));
    vh::state(4, uint64_t(mo.action) * 16 + uint64_t(mo.type), mo.names.size(), (mo.def.empty() ? 0 : 1) + (mo.env.empty() ? 0 : 2), uint64_t(m.handler));
}

SV make_args(const Model& m, bool calm) {
    SV a;
    size_t n = P(1, 20) ? R(60) : R(10);
    if (many != 0 && P(1, 3)) {
        // one of them very often
        std::string x = "left over";
        if (!m.opts.empty()) {
            const MOpt* o = &m.opts[R(m.opts.size())];
            for (auto& y : m.opts) {
                o = y.action == Action::Count && P(1, 2) ? &y : o;
            }
            x = o->names[R(o->names.size())];
            if (o->type != Type::Bool || P(1, 3)) {
                x += "=" + pick_text().substr(0, 20);
            }
        }
        a.assign(R(many), x);
        vh::count_event("long-command-line");
    }
    for (size_t i = 0; i < n; ++i) {
        std::string name;
        const MOpt* o = nullptr;
        if (!m.opts.empty()) {
            o = &m.opts[R(m.opts.size())];
            name = o->names[R(o->names.size())];
        }
        if (P(1, 8)) {  // builtin names
            static const char* b[] = {"h", "help", "u", "usage", "v", "version"};
            size_t k = R(6);
            name = m.name(b[k], k % 2 == 1);
        }
        auto text = [&]() -> std::string {
            if (o != nullptr && !o->choices.empty() && P(2, 3)) {
                std::string t;
                for (size_t k = P(1, 4) ? RR(2, 4) : 1; k > 0; --k) {
                    std::string x = *std::next(o->choices.begin(), long(R(o->choices.size())));
                    t += P(1, 4) ? near_miss(x) : x;
                    if (k > 1) {
                        t += ',';
                    }
                }
                return t;
            }
            return scale == 0 || P(2, 3) ? pick_text() : P(1, 2) ? long_text(R(scale)) : long_list(R(scale));
        };
        switch (R(calm ? 10 : 17)) {
            case 16: a.push_back(near_miss(name)); break;
            case 0:
            case 1:
            case 2: a.push_back(name + "=" + text()); break;
            case 3:
            case 4:
            case 5:
            case 6:
                a.push_back(name);
                a.push_back(text());
                break;
            case 7:
                if (o != nullptr && o->type == Type::Bool) {
                    a.push_back(name);
                } else {
                    a.push_back(name + "=" + text());
                }
                break;
            case 8: a.push_back(text()); break;
            case 9: a.push_back(make_name(m)); break;
            case 10: a.push_back(name); break;
            case 11: a.push_back(name + "="); break;
            case 12: a.push_back(name + " = " + text()); break;
            case 13: a.push_back(name + make_name(m)); break;
            case 14: a.push_back(name.substr(0, R(name.size() + 1))); break;
            default: {
                static const char* odd[] = {"-", "--", "---", "", " ", "=", "-=", "--=", "--=x", "+", "++", "-1", "--5", "- ", "-- x"};
                std::string t = odd[R(std::size(odd))];
                for (char& c : t) {
                    if (c == '-') {
                        c = m.prefix;
                    }
                }
                a.push_back(t);
            }
        }
    }
    return a;
}

std::set<std::string> all_dests(const Model& m) {
    std::set<std::string> d{"help", "usage", "version", "nothing"};
    for (auto& o : m.opts) {
        d.insert(m.dest_of(o));
    }
    return d;
}

void check_left(Slot& s, const char* when) {
    Model& m = s.m;
    if (!m.parsed && !m.failed) {
        // nothing parsed yet: the name of the program alone
        ORACLE("O02", "O02/raw-argc", s.p->get_raw_argc() == 1 && s.p->invalid_args().empty(), "%s: arguments are left over before anything was parsed", when);
        auto argv = s.p->get_raw_argv();
        ORACLE("O02", "O02/raw-argv", argv[0] != nullptr && m.program == argv[0], "%s: the program of a parser that has parsed nothing is '%s', not '%s'", when,
               argv[0] == nullptr ? "(null)" : argv[0], m.program.c_str());
        EVENT("rebuilt-before-parsing");
        return;
    }
    if (!m.parsed || m.failed) {
        return;
    }
    int argc = s.p->get_raw_argc();
    auto argv = s.p->get_raw_argv();
    ORACLE("O02 O03", "O02/raw-argc", argc == int(m.left.size()) + 1, "%s: the rebuilt argument count is %d, expected %zu", when, argc, m.left.size() + 1);
    // the program name is looked up in the array only now
    ORACLE("O02 O03", "O02/raw-argv", argv[0] == m.array[0] || argv[0] == m.argv[0], "%s: the first rebuilt argument is not the program", when);
    auto inv = s.p->invalid_args();
    ORACLE("O02 O03", "O02/leftovers", inv.size() == m.left.size(), "%s: %zu arguments are left over, expected %zu", when, inv.size(), m.left.size());
    for (size_t i = 0; i < m.left.size() && i < inv.size(); ++i) {
        ORACLE("O02 O03", "O02/leftovers", inv[i] == m.argv[m.left[i]], "%s: leftover argument %zu is '%s', expected argument %zu '%s'", when, i, inv[i], m.left[i], m.argv[m.left[i]]);
        ORACLE("O02 O03", "O02/raw-argv", argv[i + 1] == m.argv[m.left[i]], "%s: rebuilt argument %zu differs", when, i + 1);
    }
}

void parse(World& w, Slot& s, const SV* again = nullptr) {
    Model& m = s.m;
    // only complete parsers most of the time
    SV a = again != nullptr ? *again : make_args(m, P(2, 3));
    SV full{P(1, 10) ? std::string() : P(1, 2) ? "prog" : "./bin/other prog"};
    full.insert(full.end(), a.begin(), a.end());
    w.argvs.push_back(std::make_unique<Argv>(full));
    const char** argv = w.argvs.back()->ptr.data();
    const std::vector<const char*> given = w.argvs.back()->ptr;
    size_t room = full.size();
    if (m.parsed && m.room >= full.size() && P(1, 3)) {
        // the array of the parse before, with the new arguments
        argv = m.array;
        room = m.room;
        std::copy(given.begin(), given.end(), argv);
        EVENT("array-used-again");
        if (P(1, 2)) {
            // none behind the last one
            std::fill(argv + given.size(), argv + room, nullptr);
        }
    }
    bool plain = P(3, 4);
    if (plain && m.program.empty()) {
        m.program = full[0];
    }
    if (vh::verbose || vh::capture != nullptr) {
        std::string t;
        for (auto& x : a) {
            t += "'" + x + "' ";
        }
        LOG("parse %s", t.c_str());
    }
    Result want = m.interpret(a);
    bool threw = false;
    std::string err;
    std::unique_ptr<ValueStore> st;
    dirty_stack(int(R(255)) + 1);
    try {
        if (plain) {
            st = std::make_unique<ValueStore>(s.p->parse_args(int(full.size()), argv));
        } else {
            stdb::optparse::vector<std::string> v;
            for (auto& x : a) {
                v.push_back(x);
            }
            st = std::make_unique<ValueStore>(s.p->parse_args(std::move(v), argv));
        }
    } catch (const std::logic_error& e) {
        threw = true;
        err = e.what();
    }
    s.last = nullptr;
    ORACLE(ALL, "O01/error", threw == want.throws, "parsing %s (%s)", threw ? "failed" : "did not fail", err.c_str());
    if (threw != want.throws) {
        vh::harness_error("failure differs");
    }
    m.parsed = true;
    m.failed = want.throws;
    m.args = a;
    m.argv = given;
    m.array = argv;
    m.room = room;
    m.left = want.left;
    vh::count_event(threw ? "parse-error" : "parse");
    vh::count_event("arguments", a.size());
    vh::count_event("leftover-arguments", want.left.size());
    vh::count_event("values", want.values.size());
    vh::count_event("lists", want.lists.size());
    vh::step(5, a.size(), want.values.size() * 64 + want.lists.size() * 8 + want.left.size());
    vh::state(5, vh::cls(a.size()), want.values.size(), want.lists.size() * 100 + want.left.size(), threw);
    if (threw) {
        // whatever is left over so far are arguments of this command line, in order
        auto inv = s.p->invalid_args();
        size_t k = 1;
        for (const char* x : inv) {
            while (k < full.size() && given[k] != x) {
                ++k;
            }
            ORACLE("O02 O03", "O02/leftovers", k < full.size(), "after an error an argument is left over that was not given, or twice");
            ++k;
        }
        return;
    }
    Kept k{std::move(st), want, all_dests(m)};
    check_store(*k.store, want, k.dests, "O01 O03 O04 O05 O06", "after parsing");
    check_left(s, "after parsing");
    w.kept.push_back(std::move(k));
}

SV lines_of(const std::string& t) {
    SV l;
    std::istringstream is(t);
    std::string x;
    while (std::getline(is, x)) {
        l.push_back(x);
    }
    return l;
}
const char* type_name(Type t) {
    static const char* n[] = {"?", "bool", "int", "long", "float", "double", "choice", "string"};
    return n[t];
}
template <typename F>
std::string printed(F f) {
    fflush(stdout);
    int old = dup(1);
    int fd = memfd_create("out", 0);
    dup2(fd, 1);
    f();
    fflush(stdout);
    dup2(old, 1);
    close(old);
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s(size_t(n), 0);
    if (pread(fd, s.data(), size_t(n), 0) != n) {
        vh::harness_error("pread");
    }
    close(fd);
    return s;
}

void format(Slot& s) {
    Model& m = s.m;
    OptionParser& p = *s.p;
    LOG("format");
    std::string u = p.format_usage();
    if (!m.usage.empty()) {
        ORACLE("O06", "O06/usage", u == m.usage && p.usage() == m.usage, "the usage is not the given one");
    } else {
        size_t at = u.find(m.program);
        ORACLE("O06", "O06/usage", at != std::string::npos, "the usage does not name the program '%s'", m.program.c_str());
        at += m.program.size();
        for (auto& o : m.opts) {
            // as a word of its own
            do {
                at = u.find(o.names[0], std::min(at, u.size()));
                if (at == std::string::npos) {
                    break;
                }
                at += o.names[0].size();
            } while (isalnum((unsigned char)u[at]) != 0 || u[at] == '-' || u[at] == '_');
            ORACLE("O06", "O06/usage", at != std::string::npos, "the usage lacks %s: %s", o.names[0].c_str(), u.c_str());
        }
    }
    std::string v = p.format_verison();
    if (!m.version.empty()) {
        ORACLE("O06", "O06/version", v == m.version && p.version() == m.version, "the version is '%s', expected '%s'", v.c_str(), m.version.c_str());
    } else {
        ORACLE("O06", "O06/version", v.find(m.program) != std::string::npos, "the version does not name the program");
    }
    std::string h = p.format_help();
    size_t first = h.find(" options:", std::min(u.size(), h.size()));
    ORACLE("O06", "O06/help", first != std::string::npos && h.find(u) == 0, "the help does not start with the usage");
    if (first == std::string::npos) {
        return;
    }
    auto l = lines_of(h.substr(h.find('\n', first) + 1));
    ORACLE("O06", "O06/help", l.size() == m.opts.size(), "the help has %zu lines for %zu options", l.size(), m.opts.size());
    if (l.size() != m.opts.size()) {
        return;
    }
    size_t column = std::string::npos;
    for (size_t i = 0; i < l.size(); ++i) {
        const MOpt& o = m.opts[i];
        size_t at = l[i].find_first_not_of(' ');
        bool ok = at != std::string::npos;
        for (size_t k = 0; k < o.names.size() && ok; ++k) {
            ok = l[i].compare(at, o.names[k].size(), o.names[k]) == 0;
            at += o.names[k].size();
            if (ok && k + 1 < o.names.size()) {
                at = l[i].find_first_not_of(", ", at);
                ok = at != std::string::npos;
            }
        }
        std::string t = std::string("<") + type_name(o.type) + ">";
        size_t tp = ok ? l[i].find(t, at) : std::string::npos;
        ok = ok && tp != std::string::npos && tp <= at + 2;
        ORACLE("O06", "O06/help", ok, "line %zu of the help is '%s', expected %s of type %s", i, l[i].c_str(), o.names[0].c_str(), t.c_str());
        size_t end = tp + t.size();
        if (!ok || o.help.empty()) {
            ORACLE("O06", "O06/help", !ok || l[i].find_first_not_of(' ', end) == std::string::npos, "line %zu of the help has a text that was not given", i);
            continue;
        }
        size_t hp = l[i].find_first_not_of(' ', end);
        bool hok = hp != std::string::npos && hp > end && l[i].compare(hp, std::string::npos, o.help) == 0;
        ORACLE("O06", "O06/help", hok, "line %zu of the help lacks the help text: '%s'", i, l[i].c_str());
        ORACLE("O06", "O06/help", column == std::string::npos || column == hp, "the help texts start in columns %zu and %zu", column, hp);
        column = hp;
    }
    for (size_t i = 0; i < l.size() && column != std::string::npos; ++i) {
        size_t t = l[i].find(">") + 1;
        ORACLE("O06", "O06/help", t < column || t == 0, "line %zu of the help reaches into the column of the texts", i);
    }
    ORACLE("O06", "O06/repeatable", p.format_usage() == u && p.format_help() == h && p.format_verison() == v, "formatting twice gives different texts");
    if (P(1, 20)) {
        ORACLE("O06", "O06/print", printed([&] { p.print_help(); }) == h && printed([&] { p.print_usage(); }) == u && printed([&] { p.print_version(); }) == v,
               "the printed texts differ from the formatted ones");
        EVENT("printed");
    }
    vh::count_event("formatted");
    vh::step(6, m.opts.size());
    vh::state(6, m.opts.size(), vh::cls(h.size()), m.usage.empty(), m.version.empty());
}

void create(Slot& s) {
    s = Slot{};
    Model& m = s.m;
    bool threw = false;
    char c = P(1, 12) ? char(R(256)) : kPrefixes[R(6)];
    bool valid = c != 0 && strchr(kPrefixes, c) != nullptr;
    size_t form = R(5);
    m.handler = P(1, 2) ? ConflictHandler::Error : ConflictHandler::Replace;
    try {
        switch (form) {
            case 0:
                s.p = std::make_unique<OptionParser>();
                m.handler = ConflictHandler::Error;
                valid = true;
                break;
            case 1:
                s.p = std::make_unique<OptionParser>(m.handler);
                valid = true;
                break;
            case 2:
                m.prefix = c;
                m.handler = ConflictHandler::Error;
                s.p = std::make_unique<OptionParser>(c);
                break;
            default:
                m.prefix = c;
                s.p = std::make_unique<OptionParser>(c, m.handler);
        }
    } catch (const std::logic_error&) {
        threw = true;
    }
    LOG("parser form %zu prefix '%c' handler %d%s", form, m.prefix, int(m.handler), threw ? " rejected" : "");
    ORACLE(ALL, "O04/prefix", threw != valid, "the prefix with code %d was %s", int((unsigned char)c), threw ? "rejected" : "accepted");
    vh::count_event(threw ? "rejected-prefix" : "parser");
    if (s.p == nullptr) {
        s.p = std::make_unique<OptionParser>();
        m = Model{};
    }
    if (P(1, 3)) {
        m.program = "tool";
        s.p->program("tool");
    }
    vh::step(7, form, uint64_t(m.prefix));
}
// complete what is incomplete, if it can still be reached
void complete_last(Slot& s) {
    Model& m = s.m;
    if (s.last == nullptr || m.opts.empty() || m.complete(m.opts.back()) || P(1, 8)) {
        return;
    }
    MOpt& o = m.opts.back();
    LOG("complete %s", o.names[0].c_str());
    if (o.action == Action::Null) {
        o.action = Action::Store;
        s.last->action(Action::Store);
    }
    if (o.dest.empty() || builtin_dest(o.dest)) {
        o.dest = "own" + std::to_string(m.opts.size());
        s.last->dest(o.dest);
    }
    if (!o.choices.empty() && o.type != Type::Choice) {
        o.type = Type::Choice;
        s.last->type(Type::Choice);
    }
    if (!sane(m)) {
        o.dest = "only" + std::to_string(m.opts.size());
        s.last->dest(o.dest);
    }
}
void classify(Slot& s) {
    Model& m = s.m;
    for (int i = 0; i < 6; ++i) {
        std::string n = make_name(m);
        OptionType want = !m.is_opt(n) ? OptionType::InvalidOpt : m.is_long(n) ? OptionType::LongOpt : OptionType::ShortOpt;
        ORACLE("O04", "O04/classify", s.p->extract_option_type(n) == want, "'%s' is classified as %d, expected %d", n.c_str(), int(s.p->extract_option_type(n)), int(want));
    }
    // an option on its own
    MOpt o;
    o.names = {make_name(m)};
    Option x(*s.p, {o.names[0]});
    o.action = P(1, 2) ? Action::Store : Action::Null;
    if (o.action != Action::Null) {
        x.action(o.action);
    }
    if (P(1, 2)) {
        o.dest = "d";
        x.dest("d");
    }
    Option y(x);
    bool want = m.complete(o);
    ORACLE("O04", "O04/validate", x.validate() == want && y.validate() == want, "an option %s is %s", o.names[0].c_str(), want ? "not valid" : "valid");
    ORACLE("O04", "O04/validate", x.dest() == m.dest_of(o) && y.dest() == x.dest(), "an option stores into '%s', expected '%s'", x.dest().c_str(), m.dest_of(o).c_str());
}
}  // namespace

namespace vh {
void run_case() {
    if (prop == "O05" && P(1, 15)) {
        store_case();
        return;
    }
    for (size_t i = 0; i < 3; ++i) {
        if (P(1, 2)) {
            setenv(kEnvs[i], pick_text().c_str(), 1);
        } else {
            unsetenv(kEnvs[i]);
        }
    }
    size_t big = P(1, 60) ? (P(1, 12) ? 70000 : P(1, 2) ? 700 : 300) : 0;
    scale = many = 0;
    if (big != 0) {
        (P(1, 2) ? scale : many) = big;
        EVENT("large-case");
    }
    World w;
    size_t n = big > 1000 ? RR(3, 6) : RR(4, 24);
    if (prop == "O04" || prop == "O06" || big == 300) {
        n += P(1, 30) ? 60 : 0;
    }
    auto fresh = [](Slot& s) {
        create(s);
        for (size_t k = R(6); k > 0; --k) {
            register_option(s);
            complete_last(s);
        }
    };
    fresh(w.pool[0]);
    for (size_t k = 0; k < n; ++k) {
        Slot& s = w.pool[R(3)];
        if (s.p == nullptr) {
            if (P(1, 5)) {
                fresh(s);
            } else {
                Slot& f = w.pool[R(3)];
                if (f.p == nullptr) {
                    continue;
                }
                s.last = nullptr;
                if (P(1, 2)) {
                    LOG("copy");
                    s.p = std::make_unique<OptionParser>(*f.p);
                    s.m = f.m;
                    count_event("copied-parser");
                    step(8);
                    if (P(1, 3)) {
                        LOG("destroy the original");
                        f.p.reset();
                    }
                } else {
                    LOG("move");
                    s.p = std::make_unique<OptionParser>(std::move(*f.p));
                    s.m = f.m;
                    count_event("moved-parser");
                    step(9);
                    f.p.reset();
                }
                check_left(s, "after copying");
            }
            continue;
        }
        Model& m = s.m;
        if (P(1, 2)) {
            complete_last(s);
        }
        switch (R(prop == "O06" ? 22 : prop == "O03" ? 20 : 17)) {
            case 0:
            case 1:
            case 2:
            case 3:
            case 4:
            case 5: register_option(s); break;
            case 6:
            case 7:
            case 8:
            case 9:
            case 10: parse(w, s); break;
            case 11:
                if (m.parsed) {
                    SV a = m.args;
                    LOG("the same again");
                    parse(w, s, &a);
                    EVENT("parsed-again");
                }
                break;
            case 12: {
                static const char* t[] = {"", "mine", "2.0"};
                std::string x = t[R(3)];
                LOG("builtin with '%s'", x.c_str());
                s.last = nullptr;
                switch (R(3)) {
                    case 0:
                        s.p->add_help_option(x);
                        m.builtin("h", "help", x.empty() ? "show the help of the " + m.program : x);
                        break;
                    case 1:
                        s.p->add_usage_option(x);
                        m.builtin("u", "usage", x.empty() ? "show usage of the " + m.program : x);
                        break;
                    default:
                        s.p->add_version_option(x);
                        if (!x.empty()) {
                            m.version = x;
                        }
                        m.builtin("v", "version", "show version of the " + m.program);
                }
                step(10);
                break;
            }
            case 13:
                switch (R(3)) {
                    case 0:
                        m.program = P(1, 2) ? "renamed" : P(1, 2) ? "a b" : P(1, 2) ? "" : pick_text();
                        std::replace(m.program.begin(), m.program.end(), '\n', '_');
                        s.p->program(m.program);
                        break;
                    case 1:
                        m.usage = P(1, 2) ? "how to use it\n" : P(1, 3) ? "" : pick_text();
                        s.p->usage(m.usage);
                        break;
                    default:
                        m.version = P(1, 2) ? "v 1.2" : P(1, 3) ? "" : pick_text();
                        s.p->version(m.version);
                }
                ORACLE("O06", "O06/texts", s.p->program() == m.program && s.p->usage() == m.usage && s.p->version() == m.version, "a parser does not keep its texts");
                step(11);
                break;
            case 14: classify(s); break;
            case 15: {
                size_t i = R(3);
                if (P(1, 2)) {
                    setenv(kEnvs[i], pick_text().c_str(), 1);
                } else {
                    unsetenv(kEnvs[i]);
                }
                break;
            }
            case 16: {
                // no arguments at all
                bool threw = false;
                const char* none[] = {nullptr};
                try {
                    (void)s.p->parse_args(-int(R(3)), none);
                } catch (const std::logic_error&) {
                    threw = true;
                }
                ORACLE("O01 O02", "O01/argc", threw, "parsing without a program name did not fail");
                break;
            }
            case 17:
            case 18:
            case 19:
                if (prop == "O03") {
                    Slot& f = w.pool[R(3)];
                    if (&f != &s) {
                        LOG("drop one");
                        f = Slot{};
                    }
                    break;
                }
                [[fallthrough]];
            default: format(s);
        }
    }
    if (prop != "O01" || P(1, 4)) {
        for (auto& s : w.pool) {
            if (s.p != nullptr && P(1, 2)) {
                check_left(s, "later");
                format(s);
                parse(w, s);
            }
        }
    }
    w.pool.clear();
    // results outlive the parsers and later parses
    for (auto& k : w.kept) {
        check_store(*k.store, k.want, k.dests, "O03", "later");
    }
    for (size_t i = 0; i < 3; ++i) {
        unsetenv(kEnvs[i]);
    }
}
std::vector<Script> scripts() { return {}; }
void finish() {}
}  // namespace vh
