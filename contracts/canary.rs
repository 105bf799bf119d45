// must be rejected on every run: shows that nothing assumed here is contradictory
use vstd::prelude::*;
use crate::vx::*;
use crate::spec::*;
verus! {
broadcast use group_bits;
proof fn canary(a: u8, s: Seq<u8>)
    ensures false
{
    assert(a & 0x0Fu8 <= 15);
}
} // verus!
