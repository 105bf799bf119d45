//@ module bits

//@ module bytes
//@ prelude
broadcast use crate::spec::group_bits;
//@ inside trait Bytes
    spec fn bv(&self) -> Seq<u8>;
//@ inside Bytes for [u8]
    open spec fn bv(&self) -> Seq<u8> { self@ }
//@ fn trait Bytes::get_u16
    requires self.bv().len() >= 2,
    ensures r == be16(self.bv(), 0),
//@ fn trait Bytes::get_u24
    requires self.bv().len() >= 3,
    ensures r == be24(self.bv(), 0),
//@ fn trait Bytes::get_u32
    requires self.bv().len() >= 4,
    ensures r == be32(self.bv(), 0),
//@ fn trait Bytes::set_u16
    requires old(self).bv().len() >= 2,
    ensures final(self).bv() == old(self).bv().update(0, byte(value as int, 1)).update(1, byte(value as int, 0)),
//@ fn trait Bytes::set_u24
    requires old(self).bv().len() >= 3,
    ensures final(self).bv() == old(self).bv().update(0, byte(value as int, 2)).update(1, byte(value as int, 1))
        .update(2, byte(value as int, 0)),
//@ fn trait Bytes::set_u32
    requires old(self).bv().len() >= 4,
    ensures final(self).bv() == old(self).bv().update(0, byte(value as int, 3)).update(1, byte(value as int, 2))
        .update(2, byte(value as int, 1)).update(3, byte(value as int, 0)),
//@ fn Bytes for [u8]::get_u16
//@ fn Bytes for [u8]::get_u24
//@ fn Bytes for [u8]::get_u32
//@ fn Bytes for [u8]::set_u16
//@ at exit
proof { reveal(byte); assert(self@ =~= old(self)@.update(0, byte(value as int, 1)).update(1, byte(value as int, 0))); }
//@ fn Bytes for [u8]::set_u24
//@ at exit
proof { reveal(byte); assert(self@ =~= old(self)@.update(0, byte(value as int, 2)).update(1, byte(value as int, 1))
        .update(2, byte(value as int, 0))); }
//@ fn Bytes for [u8]::set_u32
//@ at exit
proof { reveal(byte); assert(self@ =~= old(self)@.update(0, byte(value as int, 3)).update(1, byte(value as int, 2))
        .update(2, byte(value as int, 1)).update(3, byte(value as int, 0))); }

//@ module psi::utils

//@ module psi::utils::crc32
//@ prelude
/// the table of the source against the polynomial
pub proof fn lemma_table()
    ensures crc_tab_ok(CRC32B_TABLE_lit(), 256), CRC32B_TABLE_lit().len() == 256,
{
    assert(crc_tab_ok(CRC32B_TABLE_lit(), 256)) by (compute_only);
    assert(CRC32B_TABLE_lit().len() == 256) by (compute_only);
}
//@ fn crc32b
    ensures
        r == crc_spec(buffer@),
        forall|s: Seq<u8>| s.len() == buffer@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == buffer@[i]) ==> r == #[trigger] crc_spec(s),
//@ at exit
proof {
    assert forall|s: Seq<u8>| s.len() == buffer@.len() && (forall|i: int| 0 <= i < s.len() ==> s[i] == buffer@[i]) implies vx_ret == #[trigger] crc_spec(s) by {
        assert(s =~= buffer@);
    }
}
//@ at before loop 0
proof { lemma_table(); assert(buffer@.subrange(0, 0) =~= Seq::<u8>::empty()); }
//@ loop 0
    invariant
        skip <= size,
        size == buffer@.len(),
        result == crc_spec(buffer@.subrange(0, skip as int)),
        crc_tab_ok(CRC32B_TABLE_lit(), 256),
        CRC32B_TABLE_lit().len() == 256,
    decreases size - skip,
//@ at loop 0 entry
proof {
    let p = buffer@.subrange(0, skip as int);
    let q = buffer@.subrange(0, skip + 1);
    assert(q.drop_last() =~= p);
    lemma_crc_tab(result, buffer@[skip as int]);
    let k = ((result >> 24) as u8) ^ buffer@[skip as int];
    lemma_crc_tab_ok(CRC32B_TABLE_lit(), 256, k as int);
    lemma_xor8((result >> 24) as u8, buffer@[skip as int]);
    lemma_xor32(CRC32B_TABLE_lit()[k as int], result << 8);
}
//@ at after loop 0
proof { assert(buffer@.subrange(0, buffer@.len() as int) =~= buffer@); }

//@ module psi::utils::bcd
//@ prelude
broadcast use crate::spec::group_bits;
//@ inside trait BCD
    spec fn bcd_range(self) -> bool;
//@ inside BCD for u8
    open spec fn bcd_range(self) -> bool { self < 100 }
//@ inside BCD for u16
    open spec fn bcd_range(self) -> bool { self < 10000 }
//@ inside BCD for u32
    open spec fn bcd_range(self) -> bool { self < 100000000 }
//@ fn trait BCD::from_bcd
//@ fn trait BCD::to_bcd
    requires self.bcd_range(),
//@ fn BCD for u8::from_bcd
    ensures r == bcd_dec2(self as int), r <= 165,
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCD for u8::to_bcd
    ensures r == bcd_enc2(self as int),
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCD for u16::from_bcd
    ensures r == bcd_dec4(self as int), r <= 16665,
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCD for u16::to_bcd
    ensures r == bcd_enc4(self as int),
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCD for u32::from_bcd
    ensures r == bcd_dec8(self as int), r <= 166666665,
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCD for u32::to_bcd
    ensures r == bcd_enc8(self as int),
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn trait BCDTime::from_bcd_time
//@ fn trait BCDTime::to_bcd_time
//@ fn BCDTime for u16::from_bcd_time
    ensures r == time_dec4(self as int),
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCDTime for u16::to_bcd_time
    ensures r == time_enc4(self as int),
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCDTime for u32::from_bcd_time
    ensures r == time_dec6(self as int),
//@ at entry
proof { reveal(bcd_dec4); reveal(bcd_dec8); reveal(bcd_enc4); reveal(bcd_enc8); reveal(time_dec4); reveal(time_enc4); reveal(time_dec6); reveal(time_enc6); }
//@ fn BCDTime for u32::to_bcd_time
    ensures r == time_enc6(self as int),
//@ at entry
proof { reveal(time_enc6); lemma_minutes(self as int); }

//@ module psi::utils::mjd
//@ prelude
broadcast use crate::spec::group_bits;
//@ fn trait MJDFrom::from_mjd
//@ fn trait MJDTo::to_mjd
//@ fn MJDFrom for u16::from_mjd
    ensures r == mjd_dec(self as int),
//@ fn MJDTo for u64::to_mjd
    ensures r == mjd_enc(self as int),
