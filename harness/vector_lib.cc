// V01-V07: stdb_vector with library types as elements.
#include "vecops.hpp"
namespace vh {
void run_case() {
    using namespace vec;
    switch (R(5)) {
        case 0:
        case 1: one<std::string>("type:std-string"); break;
        case 2: one<std::unique_ptr<long>>("type:unique-ptr"); break;
        case 3: one<stdb_vector<int>>("type:nested-vector"); break;
        default: one<ZeroTag>("type:zero-initialisable");
    }
}
std::vector<Script> scripts() { return {}; }
void finish() {}
}  // namespace vh
