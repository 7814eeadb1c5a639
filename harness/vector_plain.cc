// V01-V07: stdb_vector with trivially copyable elements.
#include "vecops.hpp"
namespace vh {
void run_case() {
    using namespace vec;
    if (prop == "V03" && P(1, 60)) {
        one<Pod<160000>>("type:160-KB");
        return;
    }
    switch (R(9)) {
        case 0:
        case 1: one<int>("type:int"); break;
        case 2: one<unsigned char>("type:unsigned-char"); break;
        case 3: one<Pod<20>>("type:24-bytes"); break;
        case 4: one<Pod<96>>("type:100-bytes"); break;
        case 5: one<Over>("type:over-aligned"); break;
        case 6: one<Init7>("type:default-not-zero"); break;
        case 7: one<Enum8>("type:enum"); break;
        default: one<PodByte>("type:one-byte-struct");
    }
}
struct Two
{
    int a, b;
};
struct Holder
{
    int Two::* p;
    long x;
};
// zero is not all bytes zero for pointers to members
static void member_pointers() {
    stdb::container::stdb_vector<int Two::*> v(3);
    v.resize(20);
    stdb::container::stdb_vector<Holder> h(2);
    h.resize(30);
    for (auto p : v) {
        ORACLE("V01", "V01/member-pointers", p == nullptr, "a new pointer to a member is not null");
    }
    for (auto& e : h) {
        ORACLE("V01", "V01/member-pointers", e.p == nullptr && e.x == 0, "a new element is not value-initialised");
    }
}
std::vector<Script> scripts() { return {{"V01/member-pointers", member_pointers}}; }
void finish() {}
}  // namespace vh
