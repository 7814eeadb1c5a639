// V01-V07: stdb_vector with elements whose lifetime is recorded.
#include "vecops.hpp"
namespace vh {
void run_case() {
    using namespace vec;
    switch (R(9)) {
        case 0:
        case 1: one<Led>("type:ledgered"); break;
        case 2: one<CopyOnly>("type:copy-only"); break;
        case 3: one<NoMove>("type:deleted-move"); break;
        case 4: one<MoveOnly>("type:move-only"); break;
        case 5: one<LedBig>("type:large-ledgered"); break;
        case 6: one<LedByte>("type:one-byte-class"); break;
        default: one<Owner>("type:relocatable-owner");
    }
}
std::vector<Script> scripts() { return {}; }
void finish() {}
}  // namespace vh
