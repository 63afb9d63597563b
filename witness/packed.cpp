#include <cstdlib>
#include "model.h"
#include "ktl/containers/packed_ptr.h"
using namespace ktl;

struct alignas(64) L64 { char c[64]; };
struct alignas(4096) L4096 { char c[4096]; };

// any pointer value aligned to Align, any integers
template<typename T, size_t Bits, size_t Align, typename Int> static void packed()
{
    using P = packed_ptr<T*, Bits, Align>;
    constexpr uint64_t MASK = (1ULL << Bits) - 1;
    size_t u = kt_size("p"), w = kt_size("q");
    kt_assume(u % Align == 0 && w % Align == 0);
    T* p = (T*)u;
    T* q = (T*)w;
    Int a = (Int)kt_size("a"), b = (Int)kt_size("b");
    P z;
    kt_check(z.get_ptr() == nullptr && z.template get_int<Int>() == 0 && !z, "C27: a default constructed packed_ptr is null and zero");
    P x(p, a);
    kt_check(x.get_ptr() == p, "C27: get_ptr returns the stored pointer");
    kt_check(x.template get_int<Int>() == (Int)(a & MASK), "C27: get_int returns the low bits of the stored integer");
    kt_check((bool)x == (p != nullptr || (a & MASK) != 0), "C27: false exactly when null and zero");
    switch (kt_choice(4, "op"))
    {
    case 0:
        x.set_ptr(q);
        kt_check(x.get_ptr() == q, "C27: set_ptr stores the pointer");
        kt_check(x.template get_int<Int>() == (Int)(a & MASK), "C27: set_ptr keeps the integer");
        break;
    case 1:
        x.set_int(b);
        kt_check(x.get_ptr() == p, "C27: set_int keeps the pointer");
        kt_check(x.template get_int<Int>() == (Int)(b & MASK), "C27: set_int stores the low bits of the integer");
        break;
    case 2:
        x.set_int(b);
        x.set_ptr(q);
        kt_check(x.get_ptr() == q && x.template get_int<Int>() == (Int)(b & MASK), "C27: both setters together");
        break;
    default:
        z.set_ptr(q);
        kt_check(z.get_ptr() == q && z.template get_int<Int>() == 0, "C27: set_ptr on a null one");
        z = x;
        kt_check(z.get_ptr() == p && z.template get_int<Int>() == (Int)(a & MASK), "C27: copying copies both");
    }
}
HARNESS(packed_default, "C27 C32") { packed<uint64_t, 3, 8, uint64_t>(); }
HARNESS(packed_partial, "C27 C32") { packed<uint64_t, 1, 8, uint8_t>(); }
HARNESS(packed_two, "C27 C32") { packed<uint32_t, 2, 4, uint16_t>(); }
HARNESS(packed_byte, "C27 C32") { packed<uint8_t, 0, 1, uint32_t>(); }
HARNESS(packed_16, "C27 C32") { packed<std::max_align_t, 4, 16, uint8_t>(); }
HARNESS(packed_64, "C27 C32") { packed<L64, 6, 64, uint8_t>(); }
HARNESS(packed_64_few, "C27 C32") { packed<L64, 2, 64, uint64_t>(); }
HARNESS(packed_page, "C27 C32") { packed<L4096, 12, 4096, uint16_t>(); }
HARNESS(packed_page_32, "C27 C32") { packed<L4096, 5, 4096, uint32_t>(); }
HARNESS(packed_huge, "C27 C32") { packed<char, 33, (size_t(1) << 33), uint64_t>(); }
HARNESS(packed_huge_31, "C27 C32") { packed<char, 32, (size_t(1) << 40), uint64_t>(); }
HARNESS(packed_bool, "C27 C32") { packed<uint64_t, 1, 8, bool>(); }
