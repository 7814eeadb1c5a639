// L01: rounding and size literals against wide arithmetic, on boundary and random values.
#include "vh.hpp"

#include "align/align.hpp"
#include "memory.hpp"

using namespace stdb::memory::align;
using namespace stdb::memory::literals;
using vh::P;
using vh::R;
using u128 = unsigned __int128;

namespace {
uint64_t value(uint64_t unit) {
    switch (R(8)) {
        case 0:
            return R(300);
        case 1:
            return unit * R(1000) + R(3) - 1;
        case 2:
            return ~0ULL - R(300);
        case 3:
            return (1ULL << R(64)) + R(5) - 2;
        case 4:
            return (~0ULL / unit) * unit - R(3) + R(2);
        case 5:
            return unit * (vh::rng.next() % (~0ULL / unit)) + R(3) - 1;
        case 6:
            return vh::rng.next() >> R(64);
        default:
            return vh::rng.next();
    }
}
void judge(const char* what, uint64_t n, uint64_t unit, uint64_t got) {
    u128 w = (u128(n) + unit - 1) / unit * unit;
    vh::state(1, unit, vh::cls(n), n % unit == 0);
    if (w > ~uint64_t(0)) {
        EVENT("not-representable");
        return;
    }
    EVENT("rounding-compared");
    ORACLE("L01", "L01/rounding", got == uint64_t(w), "%s(%llu, %llu) is %llu, the least multiple is %llu", what, (unsigned long long)n, (unsigned long long)unit,
           (unsigned long long)got, (unsigned long long)uint64_t(w));
}
template <uint64_t N>
void up_to() {
    uint64_t n = value(N);
    vh::step(N, n);
    uint64_t got = AlignUpTo<N>(n);
    LOG("AlignUpTo<%llu>(%llu) = %llu", (unsigned long long)N, (unsigned long long)n, (unsigned long long)got);
    judge("AlignUpTo", n, N, got);
}
template <size_t... I>
void all_powers(std::index_sequence<I...>) {
    (up_to<(1ULL << (I + 3))>(), ...);
}
}  // namespace

void vh::run_case() {
    all_powers(std::make_index_sequence<61>{});
    for (int i = 0; i < 64; ++i) {
        uint64_t unit = P(1, 3) ? 1ULL << R(64) : P(1, 2) ? 1 + R(5000) : 1 + (rng.next() >> R(64)) / 2;
        uint64_t n = value(unit);
        step(unit, n);
        judge("AlignUp", n, unit, AlignUp(n, unit));
    }
    ORACLE("L01", "L01/literals", 0_KB == 0 && 1_KB == 1024 && 7_MB == 7 * 1048576ULL && 3_GB == 3 * 1073741824ULL && 4_GB == 1ULL << 32 && 4095_MB == 4095ULL << 20 && 1'024_KB == 1ULL << 20 && 1'000'000_GB == 1000000ULL << 30 && 0'0_MB == 0 &&
                                    4194304_KB == 1ULL << 32 && 17179869183_GB == 17179869183ULL << 30 && 18014398509481983_KB == 18014398509481983ULL << 10, "a literal has another value");
    for (int i = 0; i < 16; ++i) {
        uint64_t n = P(1, 4) ? R(20) : rng.next() >> (10 + R(54));
        char buf[64];
        snprintf(buf, sizeof buf, P(1, 8) ? "0%llu" : "%llu", (unsigned long long)n);
        if (P(1, 4)) {  // digit separators
            std::string t(buf), u;
            for (size_t k = 0; k < t.size(); ++k) {
                u += t[k];
                if (k + 1 < t.size() && P(1, 3)) {
                    u += '\'';
                }
            }
            snprintf(buf, sizeof buf, "%s", u.c_str());
        }
        EVENT("literal-compared");
        ORACLE("L01", "L01/KB", operator""_KB(buf) == n * 1024, "%s_KB", buf);
        if (n < (1ULL << 44)) {
            ORACLE("L01", "L01/MB", operator""_MB(buf) == n * 1024 * 1024, "%s_MB", buf);
        }
        if (n < (1ULL << 34)) {
            ORACLE("L01", "L01/GB", operator""_GB(buf) == n * 1024 * 1024 * 1024, "%s_GB", buf);
        }
    }
}
auto vh::scripts() -> std::vector<Script> { return {}; }
void vh::finish() {}
