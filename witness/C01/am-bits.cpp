#include <amtl/am-bits.h>   // first, and alone

struct X { int a; };
static_assert(ke::kKB == 1024 && ke::kMB == 1024 * 1024 && ke::kGB == 1024 * 1024 * 1024, "units");
size_t use(size_t n, X* p, void* v) {
    size_t r = ke::kMallocAlignment;
    r += ke::Log2(n) + ke::FindLeftmostBit32(uint32_t(n)) + ke::FindLeftmostBit64(n) + ke::FindRightmostBit(n) + ke::Align(n, 8);
    r += ke::IsPowerOfTwo(n);
    r += ke::IsUintAddSafe<uint8_t>(1, 2) + ke::IsUintAddSafe<uint16_t>(1, 2) + ke::IsUintAddSafe<uint32_t>(1, 2) + ke::IsUintAddSafe<uint64_t>(1, 2) + ke::IsUintAddSafe(n, n);
    r += ke::IsUintMultiplySafe<uint8_t>(1, 2) + ke::IsUintMultiplySafe<uint16_t>(1, 2) + ke::IsUintMultiplySafe<uint32_t>(1, 2) + ke::IsUintMultiplySafe<uint64_t>(1, 2) + ke::IsUintMultiplySafe(n, n);
    r += ke::IsUint32AddSafe(1, 2) + ke::IsUint64AddSafe(1, 2) + ke::IsUintPtrAddSafe(1, 2);
    r += ke::IsUint32MultiplySafe(1, 2) + ke::IsUint64MultiplySafe(1, 2) + ke::IsUintPtrMultiplySafe(1, 2);
    r += ke::IsAligned(n, 8) + ke::IsAligned(p, 8) + ke::IsAligned(v, 8) + (ke::AlignedBase(v, 8) == v);
    p = ke::SetPointerBits(p, 1);
    v = ke::SetPointerBits(v, 1);
    r += ke::GetPointerBits<1>(p) + ke::GetPointerBits<2>(v) + ke::GetPointerBits<0>(v);
    p = ke::ClearPointerBits<1>(p);
    v = ke::ClearPointerBits<2>(v);
    return r;
}
