// C23: the bits of JVMS tables 4.1-B, 4.5-A, 4.6-A, 4.7.6-A, 4.7.24 and 4.7.25.
pub mod flag_bits {
use super::*;
pub proof fn flag_values()
    ensures
        AccessFlags::PUBLIC.bits == 0x0001, AccessFlags::PRIVATE.bits == 0x0002, AccessFlags::PROTECTED.bits == 0x0004, AccessFlags::STATIC.bits == 0x0008,
        AccessFlags::FINAL.bits == 0x0010, AccessFlags::SUPER.bits == 0x0020, AccessFlags::SYNCHRONIZED.bits == 0x0020,
        AccessFlags::VOLATILE.bits == 0x0040, AccessFlags::BRIDGE.bits == 0x0040, AccessFlags::STATIC_PHASE.bits == 0x0040,
        AccessFlags::TRANSIENT.bits == 0x0080, AccessFlags::VARARGS.bits == 0x0080, AccessFlags::NATIVE.bits == 0x0100,
        AccessFlags::INTERFACE.bits == 0x0200, AccessFlags::ABSTRACT.bits == 0x0400, AccessFlags::STRICT.bits == 0x0800,
        AccessFlags::SYNTHETIC.bits == 0x1000, AccessFlags::ANNOTATION.bits == 0x2000, AccessFlags::ENUM.bits == 0x4000,
        AccessFlags::MODULE.bits == 0x8000, AccessFlags::MANDATED.bits == 0x8000,
{
    assert(AccessFlags::PUBLIC.bits == 0x0001u16) by (compute);
    assert(AccessFlags::PRIVATE.bits == 0x0002u16) by (compute);
    assert(AccessFlags::PROTECTED.bits == 0x0004u16) by (compute);
    assert(AccessFlags::STATIC.bits == 0x0008u16) by (compute);
    assert(AccessFlags::FINAL.bits == 0x0010u16) by (compute);
    assert(AccessFlags::SUPER.bits == 0x0020u16) by (compute);
    assert(AccessFlags::SYNCHRONIZED.bits == 0x0020u16) by (compute);
    assert(AccessFlags::VOLATILE.bits == 0x0040u16) by (compute);
    assert(AccessFlags::BRIDGE.bits == 0x0040u16) by (compute);
    assert(AccessFlags::STATIC_PHASE.bits == 0x0040u16) by (compute);
    assert(AccessFlags::TRANSIENT.bits == 0x0080u16) by (compute);
    assert(AccessFlags::VARARGS.bits == 0x0080u16) by (compute);
    assert(AccessFlags::NATIVE.bits == 0x0100u16) by (compute);
    assert(AccessFlags::INTERFACE.bits == 0x0200u16) by (compute);
    assert(AccessFlags::ABSTRACT.bits == 0x0400u16) by (compute);
    assert(AccessFlags::STRICT.bits == 0x0800u16) by (compute);
    assert(AccessFlags::SYNTHETIC.bits == 0x1000u16) by (compute);
    assert(AccessFlags::ANNOTATION.bits == 0x2000u16) by (compute);
    assert(AccessFlags::ENUM.bits == 0x4000u16) by (compute);
    assert(AccessFlags::MODULE.bits == 0x8000u16) by (compute);
    assert(AccessFlags::MANDATED.bits == 0x8000u16) by (compute);
}
pub proof fn every_bit_is_kept(w: u16)
    ensures mkflags(w).bits == w
{
    assert(all_flag_bits() == 0xffffu16) by (bit_vector);
    assert(w & 0xffffu16 == w) by (bit_vector);
}
}
