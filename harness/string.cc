// S01-S07: the library's string against std::string.
#include "strops.hpp"

#include "string/string.hpp"

namespace {
#ifndef VERIF_CHAR
#define VERIF_CHAR char
#endif
using Char = VERIF_CHAR;
using Str = stdb::memory::basic_string<Char>;
using Std = std::basic_string<Char>;
static_assert(!std::is_same_v<Char, char> || std::is_same_v<Str, stdb::memory::string>);

struct Plain
{
    // an operation with a count that reaches past the end
    static constexpr const char* tag_value_clamped = "S01 S04";
    static constexpr const char* tag_ret_clamped = "S01 S04";
    static constexpr const char* tag_search_clamped = "S04 S06";
    static constexpr const char* tag_value = "S01";
    static constexpr const char* key_value = "S01/contents";
    static constexpr const char* tag_other = "S01 S02";
    static constexpr const char* key_other = "S02/other-string-changed";
    static constexpr const char* tag_ret = "S01";
    static constexpr const char* key_ret = "S01/returned-value";
    static constexpr const char* tag_store = "S03";
    static constexpr const char* key_store = "S03/storage";
    static constexpr const char* tag_invalid = "S01 S04";
    static constexpr const char* key_invalid = "S04/errors";
    static constexpr const char* tag_oom = "S05";
    static constexpr const char* key_oom = "S05/out-of-memory";
    static constexpr const char* tag_search = "S06";
    static constexpr const char* key_search = "S06/search";
    static constexpr const char* tag_io = "S07";
    static constexpr const char* key_io = "S07/io";
    static constexpr bool kStdCtor = true;
    static constexpr bool kFmtSpec = true;
    static constexpr bool kStickyShare = false;
    static constexpr size_t kPool = 6;
#ifdef NDEBUG
    static constexpr bool release = true;
#else
    static constexpr bool release = false;
#endif
    bool injecting{false};

    static bool may_be_too_long(uint64_t) { return false; }
    static int home() { return 0; }
    static auto alloc(int) { return std::allocator<Char>(); }
    // exactly the bytes of the object, so that writing beyond it is seen
    static void* raw(size_t n, size_t, int) { return __real_malloc(n); }
    static void unraw(void* p, int) { __real_free(p); }
    bool inject() const { return injecting; }
    bool pause() {
        bool o = injecting;
        injecting = false;
        return o;
    }
    void resume(bool o) { injecting = o; }
    static void arm(int64_t k, bool burst = false) {
        vh::fail_in = k;
        vh::fail_all_after = burst;
    }
    static void disarm() {
        vh::fail_in = -1;
        vh::fail_all_after = false;
    }
    static uint64_t mark() { return vh::allocs; }
    static void heap_use(const char*, uint64_t) {}
    static uint64_t injected() { return vh::injected; }
    template <class L, class T>
    void check_storage(L&, const T&) {}
    template <class T>
    static void fix_home(T&) {}
    template <class T, class N>
    static bool conversions(const T& s, const N& m) {
        if constexpr (std::is_same_v<typename T::value_type, char>) {
            using stdb::memory::toStdString;
            T c(s);
            std::string a = toStdString(s);
            std::string b = toStdString(std::move(c));
            return a == m && b == m && s.toStdString() == m && std::to_string(s) == m && std::string(s) == m && std::string(s.data(), s.size()) == m &&
                   toStdString(m) == m && toStdString(std::string(m)) == m;
        } else {
            return s.toStdString() == m && Std(s.data(), s.size()) == m && Std(std::basic_string_view<Char>(s)) == m;
        }
    }
};

using Lab8 = Lab<Str, Plain>;

std::array<int, 11> weights() {
    const std::string& p = vh::prop;
    //        construct assign append insert replace erase access toolong search io destroy
    if (p == "S02") {
        return {30, 20, 10, 6, 8, 12, 20, 1, 1, 2, 10};
    }
    if (p == "S03") {
        return {12, 6, 25, 14, 6, 25, 4, 2, 0, 2, 3};
    }
    if (p == "S04") {
        return {14, 10, 10, 12, 12, 10, 12, 20, 6, 0, 2};
    }
    if (p == "S05") {
        return {25, 16, 18, 14, 12, 12, 10, 0, 0, 0, 4};
    }
    if (p == "S06") {
        return {14, 5, 6, 5, 5, 6, 3, 0, 55, 0, 3};
    }
    if (p == "S07") {
        return {12, 5, 5, 3, 3, 5, 3, 0, 0, 60, 3};
    }
    return {16, 12, 16, 14, 14, 12, 12, 1, 1, 1, 4};
}
}  // namespace

namespace vh {
void run_case() {
    Plain w;
    Lab8 lab(w);
    Lab8::choose_scale(150);
    if ((prop == "S02" || prop == "S03") && P(1, prop == "S02" ? 60 : 400)) {
        lab.many_copies();
        return;
    }
    if (prop == "S03" && P(1, 12)) {
        lab.long_growth();
        return;
    }
    if constexpr (std::is_same_v<Char, wchar_t>) {
        if (prop == "S06" && P(1, 8)) {
            hash_only<stdb::memory::basic_string<char32_t>>("S06", std::allocator<char32_t>());
        }
    }
    if (prop == "S06" && P(1, 8)) {
        other_traits<stdb::memory::basic_string<Char, Fold<Char>>>("S06", std::allocator<Char>());
    }
    if ((prop == "S06" || prop == "S01") && P(1, 12)) {
        left_out<Str>("S06", "S01", std::allocator<Char>());
    }
    w.injecting = prop == "S05";
    auto wt = weights();
    size_t n = prop == "S06" || prop == "S07" ? 2 + R(10) : 3 + R(Lab8::big ? 12 : 30);
    for (size_t i = 0; i < n; ++i) {
        lab.step(wt);
    }
    w.injecting = false;
    lab.destroy_all();
}

// Writing through the pointer of non-const data() of a large string reaches its copies: part of the interface as the
// existing tests fix it (test/string_test.cc, Clone), and a genuine breach of S02.
static void data_write_shared() {
    Std text(400, 'a');
    Str a(text.data(), text.size());
    Str b(a);
    Track tr;
    b.data()[0] = 'X';
    ORACLE("S02", "S02/data-write-shared", a[0] == 'a', "writing through data() of a copy changed the original");
}
std::vector<Script> scripts() { return {{"S02/data-write-shared", data_write_shared}}; }
void finish() {}
}  // namespace vh
