// written by tools/genbits.py
verus! {
/// halves without common bits
pub broadcast proof fn or8(x: u8, y: u8)
    ensures
        #![trigger (x | y)]
        (x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y,
        (x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y,
        (x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y,
        (x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y,
        (x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y,
        (x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y,
        (x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y,
{
    assert((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y) by (bit_vector);
}
/// halves without common bits
pub broadcast proof fn or16(x: u16, y: u16)
    ensures
        #![trigger (x | y)]
        (x % 32768 == 0 && y < 32768) || (y % 32768 == 0 && x < 32768) ==> (x | y) == x + y,
        (x % 16384 == 0 && y < 16384) || (y % 16384 == 0 && x < 16384) ==> (x | y) == x + y,
        (x % 8192 == 0 && y < 8192) || (y % 8192 == 0 && x < 8192) ==> (x | y) == x + y,
        (x % 4096 == 0 && y < 4096) || (y % 4096 == 0 && x < 4096) ==> (x | y) == x + y,
        (x % 2048 == 0 && y < 2048) || (y % 2048 == 0 && x < 2048) ==> (x | y) == x + y,
        (x % 1024 == 0 && y < 1024) || (y % 1024 == 0 && x < 1024) ==> (x | y) == x + y,
        (x % 512 == 0 && y < 512) || (y % 512 == 0 && x < 512) ==> (x | y) == x + y,
        (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y,
        (x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y,
        (x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y,
        (x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y,
        (x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y,
        (x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y,
        (x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y,
        (x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y,
{
    assert((x % 32768 == 0 && y < 32768) || (y % 32768 == 0 && x < 32768) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16384 == 0 && y < 16384) || (y % 16384 == 0 && x < 16384) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8192 == 0 && y < 8192) || (y % 8192 == 0 && x < 8192) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4096 == 0 && y < 4096) || (y % 4096 == 0 && x < 4096) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2048 == 0 && y < 2048) || (y % 2048 == 0 && x < 2048) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 1024 == 0 && y < 1024) || (y % 1024 == 0 && x < 1024) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 512 == 0 && y < 512) || (y % 512 == 0 && x < 512) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y) by (bit_vector);
}
/// halves without common bits
pub broadcast proof fn or32(x: u32, y: u32)
    ensures
        #![trigger (x | y)]
        (x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y,
        (x % 8388608 == 0 && y < 8388608) || (y % 8388608 == 0 && x < 8388608) ==> (x | y) == x + y,
        (x % 4194304 == 0 && y < 4194304) || (y % 4194304 == 0 && x < 4194304) ==> (x | y) == x + y,
        (x % 1048576 == 0 && y < 1048576) || (y % 1048576 == 0 && x < 1048576) ==> (x | y) == x + y,
        (x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) ==> (x | y) == x + y,
        (x % 4096 == 0 && y < 4096) || (y % 4096 == 0 && x < 4096) ==> (x | y) == x + y,
        (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y,
        (x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y,
{
    assert((x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8388608 == 0 && y < 8388608) || (y % 8388608 == 0 && x < 8388608) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4194304 == 0 && y < 4194304) || (y % 4194304 == 0 && x < 4194304) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 1048576 == 0 && y < 1048576) || (y % 1048576 == 0 && x < 1048576) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4096 == 0 && y < 4096) || (y % 4096 == 0 && x < 4096) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y) by (bit_vector);
}
/// halves without common bits
pub broadcast proof fn or64(x: u64, y: u64)
    ensures
        #![trigger (x | y)]
        (x % 1099511627776 == 0 && y < 1099511627776) || (y % 1099511627776 == 0 && x < 1099511627776) ==> (x | y) == x + y,
        (x % 549755813888 == 0 && y < 549755813888) || (y % 549755813888 == 0 && x < 549755813888) ==> (x | y) == x + y,
        (x % 274877906944 == 0 && y < 274877906944) || (y % 274877906944 == 0 && x < 274877906944) ==> (x | y) == x + y,
        (x % 137438953472 == 0 && y < 137438953472) || (y % 137438953472 == 0 && x < 137438953472) ==> (x | y) == x + y,
        (x % 68719476736 == 0 && y < 68719476736) || (y % 68719476736 == 0 && x < 68719476736) ==> (x | y) == x + y,
        (x % 34359738368 == 0 && y < 34359738368) || (y % 34359738368 == 0 && x < 34359738368) ==> (x | y) == x + y,
        (x % 17179869184 == 0 && y < 17179869184) || (y % 17179869184 == 0 && x < 17179869184) ==> (x | y) == x + y,
        (x % 8589934592 == 0 && y < 8589934592) || (y % 8589934592 == 0 && x < 8589934592) ==> (x | y) == x + y,
        (x % 4294967296 == 0 && y < 4294967296) || (y % 4294967296 == 0 && x < 4294967296) ==> (x | y) == x + y,
        (x % 2147483648 == 0 && y < 2147483648) || (y % 2147483648 == 0 && x < 2147483648) ==> (x | y) == x + y,
        (x % 1073741824 == 0 && y < 1073741824) || (y % 1073741824 == 0 && x < 1073741824) ==> (x | y) == x + y,
        (x % 536870912 == 0 && y < 536870912) || (y % 536870912 == 0 && x < 536870912) ==> (x | y) == x + y,
        (x % 268435456 == 0 && y < 268435456) || (y % 268435456 == 0 && x < 268435456) ==> (x | y) == x + y,
        (x % 134217728 == 0 && y < 134217728) || (y % 134217728 == 0 && x < 134217728) ==> (x | y) == x + y,
        (x % 67108864 == 0 && y < 67108864) || (y % 67108864 == 0 && x < 67108864) ==> (x | y) == x + y,
        (x % 33554432 == 0 && y < 33554432) || (y % 33554432 == 0 && x < 33554432) ==> (x | y) == x + y,
        (x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y,
        (x % 8388608 == 0 && y < 8388608) || (y % 8388608 == 0 && x < 8388608) ==> (x | y) == x + y,
        (x % 4194304 == 0 && y < 4194304) || (y % 4194304 == 0 && x < 4194304) ==> (x | y) == x + y,
        (x % 2097152 == 0 && y < 2097152) || (y % 2097152 == 0 && x < 2097152) ==> (x | y) == x + y,
        (x % 1048576 == 0 && y < 1048576) || (y % 1048576 == 0 && x < 1048576) ==> (x | y) == x + y,
        (x % 524288 == 0 && y < 524288) || (y % 524288 == 0 && x < 524288) ==> (x | y) == x + y,
        (x % 262144 == 0 && y < 262144) || (y % 262144 == 0 && x < 262144) ==> (x | y) == x + y,
        (x % 131072 == 0 && y < 131072) || (y % 131072 == 0 && x < 131072) ==> (x | y) == x + y,
        (x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) ==> (x | y) == x + y,
        (x % 32768 == 0 && y < 32768) || (y % 32768 == 0 && x < 32768) ==> (x | y) == x + y,
        (x % 16384 == 0 && y < 16384) || (y % 16384 == 0 && x < 16384) ==> (x | y) == x + y,
        (x % 8192 == 0 && y < 8192) || (y % 8192 == 0 && x < 8192) ==> (x | y) == x + y,
        (x % 4096 == 0 && y < 4096) || (y % 4096 == 0 && x < 4096) ==> (x | y) == x + y,
        (x % 2048 == 0 && y < 2048) || (y % 2048 == 0 && x < 2048) ==> (x | y) == x + y,
        (x % 1024 == 0 && y < 1024) || (y % 1024 == 0 && x < 1024) ==> (x | y) == x + y,
        (x % 512 == 0 && y < 512) || (y % 512 == 0 && x < 512) ==> (x | y) == x + y,
        (x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y,
        (x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y,
        (x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y,
        (x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y,
        (x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y,
        (x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y,
        (x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y,
        (x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y,
{
    assert((x % 1099511627776 == 0 && y < 1099511627776) || (y % 1099511627776 == 0 && x < 1099511627776) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 549755813888 == 0 && y < 549755813888) || (y % 549755813888 == 0 && x < 549755813888) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 274877906944 == 0 && y < 274877906944) || (y % 274877906944 == 0 && x < 274877906944) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 137438953472 == 0 && y < 137438953472) || (y % 137438953472 == 0 && x < 137438953472) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 68719476736 == 0 && y < 68719476736) || (y % 68719476736 == 0 && x < 68719476736) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 34359738368 == 0 && y < 34359738368) || (y % 34359738368 == 0 && x < 34359738368) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 17179869184 == 0 && y < 17179869184) || (y % 17179869184 == 0 && x < 17179869184) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8589934592 == 0 && y < 8589934592) || (y % 8589934592 == 0 && x < 8589934592) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4294967296 == 0 && y < 4294967296) || (y % 4294967296 == 0 && x < 4294967296) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2147483648 == 0 && y < 2147483648) || (y % 2147483648 == 0 && x < 2147483648) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 1073741824 == 0 && y < 1073741824) || (y % 1073741824 == 0 && x < 1073741824) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 536870912 == 0 && y < 536870912) || (y % 536870912 == 0 && x < 536870912) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 268435456 == 0 && y < 268435456) || (y % 268435456 == 0 && x < 268435456) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 134217728 == 0 && y < 134217728) || (y % 134217728 == 0 && x < 134217728) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 67108864 == 0 && y < 67108864) || (y % 67108864 == 0 && x < 67108864) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 33554432 == 0 && y < 33554432) || (y % 33554432 == 0 && x < 33554432) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16777216 == 0 && y < 16777216) || (y % 16777216 == 0 && x < 16777216) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8388608 == 0 && y < 8388608) || (y % 8388608 == 0 && x < 8388608) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4194304 == 0 && y < 4194304) || (y % 4194304 == 0 && x < 4194304) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2097152 == 0 && y < 2097152) || (y % 2097152 == 0 && x < 2097152) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 1048576 == 0 && y < 1048576) || (y % 1048576 == 0 && x < 1048576) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 524288 == 0 && y < 524288) || (y % 524288 == 0 && x < 524288) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 262144 == 0 && y < 262144) || (y % 262144 == 0 && x < 262144) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 131072 == 0 && y < 131072) || (y % 131072 == 0 && x < 131072) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 65536 == 0 && y < 65536) || (y % 65536 == 0 && x < 65536) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 32768 == 0 && y < 32768) || (y % 32768 == 0 && x < 32768) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16384 == 0 && y < 16384) || (y % 16384 == 0 && x < 16384) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8192 == 0 && y < 8192) || (y % 8192 == 0 && x < 8192) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4096 == 0 && y < 4096) || (y % 4096 == 0 && x < 4096) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2048 == 0 && y < 2048) || (y % 2048 == 0 && x < 2048) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 1024 == 0 && y < 1024) || (y % 1024 == 0 && x < 1024) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 512 == 0 && y < 512) || (y % 512 == 0 && x < 512) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 256 == 0 && y < 256) || (y % 256 == 0 && x < 256) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 128 == 0 && y < 128) || (y % 128 == 0 && x < 128) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 64 == 0 && y < 64) || (y % 64 == 0 && x < 64) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 32 == 0 && y < 32) || (y % 32 == 0 && x < 32) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 16 == 0 && y < 16) || (y % 16 == 0 && x < 16) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 8 == 0 && y < 8) || (y % 8 == 0 && x < 8) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 4 == 0 && y < 4) || (y % 4 == 0 && x < 4) ==> (x | y) == x + y) by (bit_vector);
    assert((x % 2 == 0 && y < 2) || (y % 2 == 0 && x < 2) ==> (x | y) == x + y) by (bit_vector);
}
pub broadcast proof fn shl0_8(x: u8)
    ensures #[trigger] (x << 0u8) == x,
{
    assert((x << 0u8) == x) by (bit_vector);
}
pub broadcast proof fn shl0_16(x: u16)
    ensures #[trigger] (x << 0u16) == x,
{
    assert((x << 0u16) == x) by (bit_vector);
}
pub broadcast proof fn shl0_32(x: u32)
    ensures #[trigger] (x << 0u32) == x,
{
    assert((x << 0u32) == x) by (bit_vector);
}
pub broadcast proof fn put64_1(v: u64, b: u64)
    requires v < 9223372036854775808, b < 2,
    ensures #[trigger] ((v << 1u64) | b) == v * 2 + b,
{
    assert(((v << 1u64) | b) == v * 2 + b) by (bit_vector) requires v < 9223372036854775808, b < 2;
}
pub broadcast proof fn put64_2(v: u64, b: u64)
    requires v < 9223372036854775808, b < 2,
    ensures #[trigger] (b | (v << 1u64)) == v * 2 + b,
{
    assert((b | (v << 1u64)) == v * 2 + b) by (bit_vector) requires v < 9223372036854775808, b < 2;
}
pub broadcast proof fn put64_3(v: u64, b: u64)
    requires v < 4611686018427387904, b < 4,
    ensures #[trigger] ((v << 2u64) | b) == v * 4 + b,
{
    assert(((v << 2u64) | b) == v * 4 + b) by (bit_vector) requires v < 4611686018427387904, b < 4;
}
pub broadcast proof fn put64_4(v: u64, b: u64)
    requires v < 4611686018427387904, b < 4,
    ensures #[trigger] (b | (v << 2u64)) == v * 4 + b,
{
    assert((b | (v << 2u64)) == v * 4 + b) by (bit_vector) requires v < 4611686018427387904, b < 4;
}
pub broadcast proof fn put64_5(v: u64, b: u64)
    requires v < 2305843009213693952, b < 8,
    ensures #[trigger] ((v << 3u64) | b) == v * 8 + b,
{
    assert(((v << 3u64) | b) == v * 8 + b) by (bit_vector) requires v < 2305843009213693952, b < 8;
}
pub broadcast proof fn put64_6(v: u64, b: u64)
    requires v < 2305843009213693952, b < 8,
    ensures #[trigger] (b | (v << 3u64)) == v * 8 + b,
{
    assert((b | (v << 3u64)) == v * 8 + b) by (bit_vector) requires v < 2305843009213693952, b < 8;
}
pub broadcast proof fn put64_7(v: u64, b: u64)
    requires v < 1152921504606846976, b < 16,
    ensures #[trigger] ((v << 4u64) | b) == v * 16 + b,
{
    assert(((v << 4u64) | b) == v * 16 + b) by (bit_vector) requires v < 1152921504606846976, b < 16;
}
pub broadcast proof fn put64_8(v: u64, b: u64)
    requires v < 1152921504606846976, b < 16,
    ensures #[trigger] (b | (v << 4u64)) == v * 16 + b,
{
    assert((b | (v << 4u64)) == v * 16 + b) by (bit_vector) requires v < 1152921504606846976, b < 16;
}
pub broadcast proof fn put64_9(v: u64, b: u64)
    requires v < 576460752303423488, b < 32,
    ensures #[trigger] ((v << 5u64) | b) == v * 32 + b,
{
    assert(((v << 5u64) | b) == v * 32 + b) by (bit_vector) requires v < 576460752303423488, b < 32;
}
pub broadcast proof fn put64_10(v: u64, b: u64)
    requires v < 576460752303423488, b < 32,
    ensures #[trigger] (b | (v << 5u64)) == v * 32 + b,
{
    assert((b | (v << 5u64)) == v * 32 + b) by (bit_vector) requires v < 576460752303423488, b < 32;
}
pub broadcast proof fn put64_11(v: u64, b: u64)
    requires v < 288230376151711744, b < 64,
    ensures #[trigger] ((v << 6u64) | b) == v * 64 + b,
{
    assert(((v << 6u64) | b) == v * 64 + b) by (bit_vector) requires v < 288230376151711744, b < 64;
}
pub broadcast proof fn put64_12(v: u64, b: u64)
    requires v < 288230376151711744, b < 64,
    ensures #[trigger] (b | (v << 6u64)) == v * 64 + b,
{
    assert((b | (v << 6u64)) == v * 64 + b) by (bit_vector) requires v < 288230376151711744, b < 64;
}
pub broadcast proof fn put64_13(v: u64, b: u64)
    requires v < 144115188075855872, b < 128,
    ensures #[trigger] ((v << 7u64) | b) == v * 128 + b,
{
    assert(((v << 7u64) | b) == v * 128 + b) by (bit_vector) requires v < 144115188075855872, b < 128;
}
pub broadcast proof fn put64_14(v: u64, b: u64)
    requires v < 144115188075855872, b < 128,
    ensures #[trigger] (b | (v << 7u64)) == v * 128 + b,
{
    assert((b | (v << 7u64)) == v * 128 + b) by (bit_vector) requires v < 144115188075855872, b < 128;
}
pub broadcast proof fn put64_15(v: u64, b: u64)
    requires v < 72057594037927936, b < 256,
    ensures #[trigger] ((v << 8u64) | b) == v * 256 + b,
{
    assert(((v << 8u64) | b) == v * 256 + b) by (bit_vector) requires v < 72057594037927936, b < 256;
}
pub broadcast proof fn put64_16(v: u64, b: u64)
    requires v < 72057594037927936, b < 256,
    ensures #[trigger] (b | (v << 8u64)) == v * 256 + b,
{
    assert((b | (v << 8u64)) == v * 256 + b) by (bit_vector) requires v < 72057594037927936, b < 256;
}
pub broadcast proof fn put64_17(v: u64, b: u64)
    requires v < 36028797018963968, b < 512,
    ensures #[trigger] ((v << 9u64) | b) == v * 512 + b,
{
    assert(((v << 9u64) | b) == v * 512 + b) by (bit_vector) requires v < 36028797018963968, b < 512;
}
pub broadcast proof fn put64_18(v: u64, b: u64)
    requires v < 36028797018963968, b < 512,
    ensures #[trigger] (b | (v << 9u64)) == v * 512 + b,
{
    assert((b | (v << 9u64)) == v * 512 + b) by (bit_vector) requires v < 36028797018963968, b < 512;
}
pub broadcast proof fn put64_19(v: u64, b: u64)
    requires v < 18014398509481984, b < 1024,
    ensures #[trigger] ((v << 10u64) | b) == v * 1024 + b,
{
    assert(((v << 10u64) | b) == v * 1024 + b) by (bit_vector) requires v < 18014398509481984, b < 1024;
}
pub broadcast proof fn put64_20(v: u64, b: u64)
    requires v < 18014398509481984, b < 1024,
    ensures #[trigger] (b | (v << 10u64)) == v * 1024 + b,
{
    assert((b | (v << 10u64)) == v * 1024 + b) by (bit_vector) requires v < 18014398509481984, b < 1024;
}
pub broadcast proof fn put64_21(v: u64, b: u64)
    requires v < 9007199254740992, b < 2048,
    ensures #[trigger] ((v << 11u64) | b) == v * 2048 + b,
{
    assert(((v << 11u64) | b) == v * 2048 + b) by (bit_vector) requires v < 9007199254740992, b < 2048;
}
pub broadcast proof fn put64_22(v: u64, b: u64)
    requires v < 9007199254740992, b < 2048,
    ensures #[trigger] (b | (v << 11u64)) == v * 2048 + b,
{
    assert((b | (v << 11u64)) == v * 2048 + b) by (bit_vector) requires v < 9007199254740992, b < 2048;
}
pub broadcast proof fn put64_23(v: u64, b: u64)
    requires v < 4503599627370496, b < 4096,
    ensures #[trigger] ((v << 12u64) | b) == v * 4096 + b,
{
    assert(((v << 12u64) | b) == v * 4096 + b) by (bit_vector) requires v < 4503599627370496, b < 4096;
}
pub broadcast proof fn put64_24(v: u64, b: u64)
    requires v < 4503599627370496, b < 4096,
    ensures #[trigger] (b | (v << 12u64)) == v * 4096 + b,
{
    assert((b | (v << 12u64)) == v * 4096 + b) by (bit_vector) requires v < 4503599627370496, b < 4096;
}
pub broadcast proof fn put64_25(v: u64, b: u64)
    requires v < 2251799813685248, b < 8192,
    ensures #[trigger] ((v << 13u64) | b) == v * 8192 + b,
{
    assert(((v << 13u64) | b) == v * 8192 + b) by (bit_vector) requires v < 2251799813685248, b < 8192;
}
pub broadcast proof fn put64_26(v: u64, b: u64)
    requires v < 2251799813685248, b < 8192,
    ensures #[trigger] (b | (v << 13u64)) == v * 8192 + b,
{
    assert((b | (v << 13u64)) == v * 8192 + b) by (bit_vector) requires v < 2251799813685248, b < 8192;
}
pub broadcast proof fn put64_27(v: u64, b: u64)
    requires v < 1125899906842624, b < 16384,
    ensures #[trigger] ((v << 14u64) | b) == v * 16384 + b,
{
    assert(((v << 14u64) | b) == v * 16384 + b) by (bit_vector) requires v < 1125899906842624, b < 16384;
}
pub broadcast proof fn put64_28(v: u64, b: u64)
    requires v < 1125899906842624, b < 16384,
    ensures #[trigger] (b | (v << 14u64)) == v * 16384 + b,
{
    assert((b | (v << 14u64)) == v * 16384 + b) by (bit_vector) requires v < 1125899906842624, b < 16384;
}
pub broadcast proof fn put64_29(v: u64, b: u64)
    requires v < 562949953421312, b < 32768,
    ensures #[trigger] ((v << 15u64) | b) == v * 32768 + b,
{
    assert(((v << 15u64) | b) == v * 32768 + b) by (bit_vector) requires v < 562949953421312, b < 32768;
}
pub broadcast proof fn put64_30(v: u64, b: u64)
    requires v < 562949953421312, b < 32768,
    ensures #[trigger] (b | (v << 15u64)) == v * 32768 + b,
{
    assert((b | (v << 15u64)) == v * 32768 + b) by (bit_vector) requires v < 562949953421312, b < 32768;
}
pub broadcast proof fn put64_31(v: u64, b: u64)
    requires v < 281474976710656, b < 65536,
    ensures #[trigger] ((v << 16u64) | b) == v * 65536 + b,
{
    assert(((v << 16u64) | b) == v * 65536 + b) by (bit_vector) requires v < 281474976710656, b < 65536;
}
pub broadcast proof fn put64_32(v: u64, b: u64)
    requires v < 281474976710656, b < 65536,
    ensures #[trigger] (b | (v << 16u64)) == v * 65536 + b,
{
    assert((b | (v << 16u64)) == v * 65536 + b) by (bit_vector) requires v < 281474976710656, b < 65536;
}
pub broadcast proof fn put64_33(v: u64, b: u64)
    requires v < 140737488355328, b < 131072,
    ensures #[trigger] ((v << 17u64) | b) == v * 131072 + b,
{
    assert(((v << 17u64) | b) == v * 131072 + b) by (bit_vector) requires v < 140737488355328, b < 131072;
}
pub broadcast proof fn put64_34(v: u64, b: u64)
    requires v < 140737488355328, b < 131072,
    ensures #[trigger] (b | (v << 17u64)) == v * 131072 + b,
{
    assert((b | (v << 17u64)) == v * 131072 + b) by (bit_vector) requires v < 140737488355328, b < 131072;
}
pub broadcast proof fn put64_35(v: u64, b: u64)
    requires v < 70368744177664, b < 262144,
    ensures #[trigger] ((v << 18u64) | b) == v * 262144 + b,
{
    assert(((v << 18u64) | b) == v * 262144 + b) by (bit_vector) requires v < 70368744177664, b < 262144;
}
pub broadcast proof fn put64_36(v: u64, b: u64)
    requires v < 70368744177664, b < 262144,
    ensures #[trigger] (b | (v << 18u64)) == v * 262144 + b,
{
    assert((b | (v << 18u64)) == v * 262144 + b) by (bit_vector) requires v < 70368744177664, b < 262144;
}
pub broadcast proof fn put64_37(v: u64, b: u64)
    requires v < 35184372088832, b < 524288,
    ensures #[trigger] ((v << 19u64) | b) == v * 524288 + b,
{
    assert(((v << 19u64) | b) == v * 524288 + b) by (bit_vector) requires v < 35184372088832, b < 524288;
}
pub broadcast proof fn put64_38(v: u64, b: u64)
    requires v < 35184372088832, b < 524288,
    ensures #[trigger] (b | (v << 19u64)) == v * 524288 + b,
{
    assert((b | (v << 19u64)) == v * 524288 + b) by (bit_vector) requires v < 35184372088832, b < 524288;
}
pub broadcast proof fn put64_39(v: u64, b: u64)
    requires v < 17592186044416, b < 1048576,
    ensures #[trigger] ((v << 20u64) | b) == v * 1048576 + b,
{
    assert(((v << 20u64) | b) == v * 1048576 + b) by (bit_vector) requires v < 17592186044416, b < 1048576;
}
pub broadcast proof fn put64_40(v: u64, b: u64)
    requires v < 17592186044416, b < 1048576,
    ensures #[trigger] (b | (v << 20u64)) == v * 1048576 + b,
{
    assert((b | (v << 20u64)) == v * 1048576 + b) by (bit_vector) requires v < 17592186044416, b < 1048576;
}
pub broadcast proof fn put64_41(v: u64, b: u64)
    requires v < 8796093022208, b < 2097152,
    ensures #[trigger] ((v << 21u64) | b) == v * 2097152 + b,
{
    assert(((v << 21u64) | b) == v * 2097152 + b) by (bit_vector) requires v < 8796093022208, b < 2097152;
}
pub broadcast proof fn put64_42(v: u64, b: u64)
    requires v < 8796093022208, b < 2097152,
    ensures #[trigger] (b | (v << 21u64)) == v * 2097152 + b,
{
    assert((b | (v << 21u64)) == v * 2097152 + b) by (bit_vector) requires v < 8796093022208, b < 2097152;
}
pub broadcast proof fn put64_43(v: u64, b: u64)
    requires v < 4398046511104, b < 4194304,
    ensures #[trigger] ((v << 22u64) | b) == v * 4194304 + b,
{
    assert(((v << 22u64) | b) == v * 4194304 + b) by (bit_vector) requires v < 4398046511104, b < 4194304;
}
pub broadcast proof fn put64_44(v: u64, b: u64)
    requires v < 4398046511104, b < 4194304,
    ensures #[trigger] (b | (v << 22u64)) == v * 4194304 + b,
{
    assert((b | (v << 22u64)) == v * 4194304 + b) by (bit_vector) requires v < 4398046511104, b < 4194304;
}
pub broadcast proof fn put64_45(v: u64, b: u64)
    requires v < 2199023255552, b < 8388608,
    ensures #[trigger] ((v << 23u64) | b) == v * 8388608 + b,
{
    assert(((v << 23u64) | b) == v * 8388608 + b) by (bit_vector) requires v < 2199023255552, b < 8388608;
}
pub broadcast proof fn put64_46(v: u64, b: u64)
    requires v < 2199023255552, b < 8388608,
    ensures #[trigger] (b | (v << 23u64)) == v * 8388608 + b,
{
    assert((b | (v << 23u64)) == v * 8388608 + b) by (bit_vector) requires v < 2199023255552, b < 8388608;
}
pub broadcast proof fn put64_47(v: u64, b: u64)
    requires v < 1099511627776, b < 16777216,
    ensures #[trigger] ((v << 24u64) | b) == v * 16777216 + b,
{
    assert(((v << 24u64) | b) == v * 16777216 + b) by (bit_vector) requires v < 1099511627776, b < 16777216;
}
pub broadcast proof fn put64_48(v: u64, b: u64)
    requires v < 1099511627776, b < 16777216,
    ensures #[trigger] (b | (v << 24u64)) == v * 16777216 + b,
{
    assert((b | (v << 24u64)) == v * 16777216 + b) by (bit_vector) requires v < 1099511627776, b < 16777216;
}
pub broadcast proof fn put64_49(v: u64, b: u64)
    requires v < 549755813888, b < 33554432,
    ensures #[trigger] ((v << 25u64) | b) == v * 33554432 + b,
{
    assert(((v << 25u64) | b) == v * 33554432 + b) by (bit_vector) requires v < 549755813888, b < 33554432;
}
pub broadcast proof fn put64_50(v: u64, b: u64)
    requires v < 549755813888, b < 33554432,
    ensures #[trigger] (b | (v << 25u64)) == v * 33554432 + b,
{
    assert((b | (v << 25u64)) == v * 33554432 + b) by (bit_vector) requires v < 549755813888, b < 33554432;
}
pub broadcast proof fn put64_51(v: u64, b: u64)
    requires v < 274877906944, b < 67108864,
    ensures #[trigger] ((v << 26u64) | b) == v * 67108864 + b,
{
    assert(((v << 26u64) | b) == v * 67108864 + b) by (bit_vector) requires v < 274877906944, b < 67108864;
}
pub broadcast proof fn put64_52(v: u64, b: u64)
    requires v < 274877906944, b < 67108864,
    ensures #[trigger] (b | (v << 26u64)) == v * 67108864 + b,
{
    assert((b | (v << 26u64)) == v * 67108864 + b) by (bit_vector) requires v < 274877906944, b < 67108864;
}
pub broadcast proof fn put64_53(v: u64, b: u64)
    requires v < 137438953472, b < 134217728,
    ensures #[trigger] ((v << 27u64) | b) == v * 134217728 + b,
{
    assert(((v << 27u64) | b) == v * 134217728 + b) by (bit_vector) requires v < 137438953472, b < 134217728;
}
pub broadcast proof fn put64_54(v: u64, b: u64)
    requires v < 137438953472, b < 134217728,
    ensures #[trigger] (b | (v << 27u64)) == v * 134217728 + b,
{
    assert((b | (v << 27u64)) == v * 134217728 + b) by (bit_vector) requires v < 137438953472, b < 134217728;
}
pub broadcast proof fn put64_55(v: u64, b: u64)
    requires v < 68719476736, b < 268435456,
    ensures #[trigger] ((v << 28u64) | b) == v * 268435456 + b,
{
    assert(((v << 28u64) | b) == v * 268435456 + b) by (bit_vector) requires v < 68719476736, b < 268435456;
}
pub broadcast proof fn put64_56(v: u64, b: u64)
    requires v < 68719476736, b < 268435456,
    ensures #[trigger] (b | (v << 28u64)) == v * 268435456 + b,
{
    assert((b | (v << 28u64)) == v * 268435456 + b) by (bit_vector) requires v < 68719476736, b < 268435456;
}
pub broadcast proof fn put64_57(v: u64, b: u64)
    requires v < 34359738368, b < 536870912,
    ensures #[trigger] ((v << 29u64) | b) == v * 536870912 + b,
{
    assert(((v << 29u64) | b) == v * 536870912 + b) by (bit_vector) requires v < 34359738368, b < 536870912;
}
pub broadcast proof fn put64_58(v: u64, b: u64)
    requires v < 34359738368, b < 536870912,
    ensures #[trigger] (b | (v << 29u64)) == v * 536870912 + b,
{
    assert((b | (v << 29u64)) == v * 536870912 + b) by (bit_vector) requires v < 34359738368, b < 536870912;
}
pub broadcast proof fn put64_59(v: u64, b: u64)
    requires v < 17179869184, b < 1073741824,
    ensures #[trigger] ((v << 30u64) | b) == v * 1073741824 + b,
{
    assert(((v << 30u64) | b) == v * 1073741824 + b) by (bit_vector) requires v < 17179869184, b < 1073741824;
}
pub broadcast proof fn put64_60(v: u64, b: u64)
    requires v < 17179869184, b < 1073741824,
    ensures #[trigger] (b | (v << 30u64)) == v * 1073741824 + b,
{
    assert((b | (v << 30u64)) == v * 1073741824 + b) by (bit_vector) requires v < 17179869184, b < 1073741824;
}
pub broadcast proof fn put64_61(v: u64, b: u64)
    requires v < 8589934592, b < 2147483648,
    ensures #[trigger] ((v << 31u64) | b) == v * 2147483648 + b,
{
    assert(((v << 31u64) | b) == v * 2147483648 + b) by (bit_vector) requires v < 8589934592, b < 2147483648;
}
pub broadcast proof fn put64_62(v: u64, b: u64)
    requires v < 8589934592, b < 2147483648,
    ensures #[trigger] (b | (v << 31u64)) == v * 2147483648 + b,
{
    assert((b | (v << 31u64)) == v * 2147483648 + b) by (bit_vector) requires v < 8589934592, b < 2147483648;
}
pub broadcast proof fn put64_63(v: u64, b: u64)
    requires v < 4294967296, b < 4294967296,
    ensures #[trigger] ((v << 32u64) | b) == v * 4294967296 + b,
{
    assert(((v << 32u64) | b) == v * 4294967296 + b) by (bit_vector) requires v < 4294967296, b < 4294967296;
}
pub broadcast proof fn put64_64(v: u64, b: u64)
    requires v < 4294967296, b < 4294967296,
    ensures #[trigger] (b | (v << 32u64)) == v * 4294967296 + b,
{
    assert((b | (v << 32u64)) == v * 4294967296 + b) by (bit_vector) requires v < 4294967296, b < 4294967296;
}
pub broadcast proof fn put64_65(v: u64, b: u64)
    requires v < 2147483648, b < 8589934592,
    ensures #[trigger] ((v << 33u64) | b) == v * 8589934592 + b,
{
    assert(((v << 33u64) | b) == v * 8589934592 + b) by (bit_vector) requires v < 2147483648, b < 8589934592;
}
pub broadcast proof fn put64_66(v: u64, b: u64)
    requires v < 2147483648, b < 8589934592,
    ensures #[trigger] (b | (v << 33u64)) == v * 8589934592 + b,
{
    assert((b | (v << 33u64)) == v * 8589934592 + b) by (bit_vector) requires v < 2147483648, b < 8589934592;
}
pub broadcast proof fn put64_67(v: u64, b: u64)
    requires v < 1073741824, b < 17179869184,
    ensures #[trigger] ((v << 34u64) | b) == v * 17179869184 + b,
{
    assert(((v << 34u64) | b) == v * 17179869184 + b) by (bit_vector) requires v < 1073741824, b < 17179869184;
}
pub broadcast proof fn put64_68(v: u64, b: u64)
    requires v < 1073741824, b < 17179869184,
    ensures #[trigger] (b | (v << 34u64)) == v * 17179869184 + b,
{
    assert((b | (v << 34u64)) == v * 17179869184 + b) by (bit_vector) requires v < 1073741824, b < 17179869184;
}
pub broadcast proof fn put64_69(v: u64, b: u64)
    requires v < 536870912, b < 34359738368,
    ensures #[trigger] ((v << 35u64) | b) == v * 34359738368 + b,
{
    assert(((v << 35u64) | b) == v * 34359738368 + b) by (bit_vector) requires v < 536870912, b < 34359738368;
}
pub broadcast proof fn put64_70(v: u64, b: u64)
    requires v < 536870912, b < 34359738368,
    ensures #[trigger] (b | (v << 35u64)) == v * 34359738368 + b,
{
    assert((b | (v << 35u64)) == v * 34359738368 + b) by (bit_vector) requires v < 536870912, b < 34359738368;
}
pub broadcast proof fn put64_71(v: u64, b: u64)
    requires v < 268435456, b < 68719476736,
    ensures #[trigger] ((v << 36u64) | b) == v * 68719476736 + b,
{
    assert(((v << 36u64) | b) == v * 68719476736 + b) by (bit_vector) requires v < 268435456, b < 68719476736;
}
pub broadcast proof fn put64_72(v: u64, b: u64)
    requires v < 268435456, b < 68719476736,
    ensures #[trigger] (b | (v << 36u64)) == v * 68719476736 + b,
{
    assert((b | (v << 36u64)) == v * 68719476736 + b) by (bit_vector) requires v < 268435456, b < 68719476736;
}
pub broadcast proof fn put64_73(v: u64, b: u64)
    requires v < 134217728, b < 137438953472,
    ensures #[trigger] ((v << 37u64) | b) == v * 137438953472 + b,
{
    assert(((v << 37u64) | b) == v * 137438953472 + b) by (bit_vector) requires v < 134217728, b < 137438953472;
}
pub broadcast proof fn put64_74(v: u64, b: u64)
    requires v < 134217728, b < 137438953472,
    ensures #[trigger] (b | (v << 37u64)) == v * 137438953472 + b,
{
    assert((b | (v << 37u64)) == v * 137438953472 + b) by (bit_vector) requires v < 134217728, b < 137438953472;
}
pub broadcast proof fn put64_75(v: u64, b: u64)
    requires v < 67108864, b < 274877906944,
    ensures #[trigger] ((v << 38u64) | b) == v * 274877906944 + b,
{
    assert(((v << 38u64) | b) == v * 274877906944 + b) by (bit_vector) requires v < 67108864, b < 274877906944;
}
pub broadcast proof fn put64_76(v: u64, b: u64)
    requires v < 67108864, b < 274877906944,
    ensures #[trigger] (b | (v << 38u64)) == v * 274877906944 + b,
{
    assert((b | (v << 38u64)) == v * 274877906944 + b) by (bit_vector) requires v < 67108864, b < 274877906944;
}
pub broadcast proof fn put64_77(v: u64, b: u64)
    requires v < 33554432, b < 549755813888,
    ensures #[trigger] ((v << 39u64) | b) == v * 549755813888 + b,
{
    assert(((v << 39u64) | b) == v * 549755813888 + b) by (bit_vector) requires v < 33554432, b < 549755813888;
}
pub broadcast proof fn put64_78(v: u64, b: u64)
    requires v < 33554432, b < 549755813888,
    ensures #[trigger] (b | (v << 39u64)) == v * 549755813888 + b,
{
    assert((b | (v << 39u64)) == v * 549755813888 + b) by (bit_vector) requires v < 33554432, b < 549755813888;
}
pub broadcast proof fn put64_79(v: u64, b: u64)
    requires v < 16777216, b < 1099511627776,
    ensures #[trigger] ((v << 40u64) | b) == v * 1099511627776 + b,
{
    assert(((v << 40u64) | b) == v * 1099511627776 + b) by (bit_vector) requires v < 16777216, b < 1099511627776;
}
pub broadcast proof fn put64_80(v: u64, b: u64)
    requires v < 16777216, b < 1099511627776,
    ensures #[trigger] (b | (v << 40u64)) == v * 1099511627776 + b,
{
    assert((b | (v << 40u64)) == v * 1099511627776 + b) by (bit_vector) requires v < 16777216, b < 1099511627776;
}
pub broadcast group group_or64 {
    or64,
    put64_1,
    put64_2,
    put64_3,
    put64_4,
    put64_5,
    put64_6,
    put64_7,
    put64_8,
    put64_9,
    put64_10,
    put64_11,
    put64_12,
    put64_13,
    put64_14,
    put64_15,
    put64_16,
    put64_17,
    put64_18,
    put64_19,
    put64_20,
    put64_21,
    put64_22,
    put64_23,
    put64_24,
    put64_25,
    put64_26,
    put64_27,
    put64_28,
    put64_29,
    put64_30,
    put64_31,
    put64_32,
    put64_33,
    put64_34,
    put64_35,
    put64_36,
    put64_37,
    put64_38,
    put64_39,
    put64_40,
    put64_41,
    put64_42,
    put64_43,
    put64_44,
    put64_45,
    put64_46,
    put64_47,
    put64_48,
    put64_49,
    put64_50,
    put64_51,
    put64_52,
    put64_53,
    put64_54,
    put64_55,
    put64_56,
    put64_57,
    put64_58,
    put64_59,
    put64_60,
    put64_61,
    put64_62,
    put64_63,
    put64_64,
    put64_65,
    put64_66,
    put64_67,
    put64_68,
    put64_69,
    put64_70,
    put64_71,
    put64_72,
    put64_73,
    put64_74,
    put64_75,
    put64_76,
    put64_77,
    put64_78,
    put64_79,
    put64_80,
}
// bit fields
pub broadcast proof fn field1_1(v: u8)
    ensures #[trigger] ((v & 2u8) >> 1u8) == v / 2 % 2,
{
    assert(((v & 2u8) >> 1u8) == v / 2 % 2) by (bit_vector);
}
pub broadcast proof fn field1_2(v: u8)
    ensures #[trigger] ((v & 6u8) >> 1u8) == v / 2 % 4,
{
    assert(((v & 6u8) >> 1u8) == v / 2 % 4) by (bit_vector);
}
pub broadcast proof fn field1_3(v: u8)
    ensures #[trigger] ((v & 14u8) >> 1u8) == v / 2 % 8,
{
    assert(((v & 14u8) >> 1u8) == v / 2 % 8) by (bit_vector);
}
pub broadcast proof fn field1_4(v: u8)
    ensures #[trigger] ((v & 30u8) >> 1u8) == v / 2 % 16,
{
    assert(((v & 30u8) >> 1u8) == v / 2 % 16) by (bit_vector);
}
pub broadcast proof fn field1_5(v: u8)
    ensures #[trigger] ((v & 62u8) >> 1u8) == v / 2 % 32,
{
    assert(((v & 62u8) >> 1u8) == v / 2 % 32) by (bit_vector);
}
pub broadcast proof fn field1_6(v: u8)
    ensures #[trigger] ((v & 126u8) >> 1u8) == v / 2 % 64,
{
    assert(((v & 126u8) >> 1u8) == v / 2 % 64) by (bit_vector);
}
pub broadcast proof fn field1_7(v: u8)
    ensures #[trigger] ((v & 254u8) >> 1u8) == v / 2,
{
    assert(((v & 254u8) >> 1u8) == v / 2) by (bit_vector);
}
pub broadcast proof fn field2_1(v: u8)
    ensures #[trigger] ((v & 4u8) >> 2u8) == v / 4 % 2,
{
    assert(((v & 4u8) >> 2u8) == v / 4 % 2) by (bit_vector);
}
pub broadcast proof fn field2_2(v: u8)
    ensures #[trigger] ((v & 12u8) >> 2u8) == v / 4 % 4,
{
    assert(((v & 12u8) >> 2u8) == v / 4 % 4) by (bit_vector);
}
pub broadcast proof fn field2_3(v: u8)
    ensures #[trigger] ((v & 28u8) >> 2u8) == v / 4 % 8,
{
    assert(((v & 28u8) >> 2u8) == v / 4 % 8) by (bit_vector);
}
pub broadcast proof fn field2_4(v: u8)
    ensures #[trigger] ((v & 60u8) >> 2u8) == v / 4 % 16,
{
    assert(((v & 60u8) >> 2u8) == v / 4 % 16) by (bit_vector);
}
pub broadcast proof fn field2_5(v: u8)
    ensures #[trigger] ((v & 124u8) >> 2u8) == v / 4 % 32,
{
    assert(((v & 124u8) >> 2u8) == v / 4 % 32) by (bit_vector);
}
pub broadcast proof fn field2_6(v: u8)
    ensures #[trigger] ((v & 252u8) >> 2u8) == v / 4,
{
    assert(((v & 252u8) >> 2u8) == v / 4) by (bit_vector);
}
pub broadcast proof fn field3_1(v: u8)
    ensures #[trigger] ((v & 8u8) >> 3u8) == v / 8 % 2,
{
    assert(((v & 8u8) >> 3u8) == v / 8 % 2) by (bit_vector);
}
pub broadcast proof fn field3_2(v: u8)
    ensures #[trigger] ((v & 24u8) >> 3u8) == v / 8 % 4,
{
    assert(((v & 24u8) >> 3u8) == v / 8 % 4) by (bit_vector);
}
pub broadcast proof fn field3_3(v: u8)
    ensures #[trigger] ((v & 56u8) >> 3u8) == v / 8 % 8,
{
    assert(((v & 56u8) >> 3u8) == v / 8 % 8) by (bit_vector);
}
pub broadcast proof fn field3_4(v: u8)
    ensures #[trigger] ((v & 120u8) >> 3u8) == v / 8 % 16,
{
    assert(((v & 120u8) >> 3u8) == v / 8 % 16) by (bit_vector);
}
pub broadcast proof fn field3_5(v: u8)
    ensures #[trigger] ((v & 248u8) >> 3u8) == v / 8,
{
    assert(((v & 248u8) >> 3u8) == v / 8) by (bit_vector);
}
pub broadcast proof fn field4_1(v: u8)
    ensures #[trigger] ((v & 16u8) >> 4u8) == v / 16 % 2,
{
    assert(((v & 16u8) >> 4u8) == v / 16 % 2) by (bit_vector);
}
pub broadcast proof fn field4_2(v: u8)
    ensures #[trigger] ((v & 48u8) >> 4u8) == v / 16 % 4,
{
    assert(((v & 48u8) >> 4u8) == v / 16 % 4) by (bit_vector);
}
pub broadcast proof fn field4_3(v: u8)
    ensures #[trigger] ((v & 112u8) >> 4u8) == v / 16 % 8,
{
    assert(((v & 112u8) >> 4u8) == v / 16 % 8) by (bit_vector);
}
pub broadcast proof fn field4_4(v: u8)
    ensures #[trigger] ((v & 240u8) >> 4u8) == v / 16,
{
    assert(((v & 240u8) >> 4u8) == v / 16) by (bit_vector);
}
pub broadcast proof fn field5_1(v: u8)
    ensures #[trigger] ((v & 32u8) >> 5u8) == v / 32 % 2,
{
    assert(((v & 32u8) >> 5u8) == v / 32 % 2) by (bit_vector);
}
pub broadcast proof fn field5_2(v: u8)
    ensures #[trigger] ((v & 96u8) >> 5u8) == v / 32 % 4,
{
    assert(((v & 96u8) >> 5u8) == v / 32 % 4) by (bit_vector);
}
pub broadcast proof fn field5_3(v: u8)
    ensures #[trigger] ((v & 224u8) >> 5u8) == v / 32,
{
    assert(((v & 224u8) >> 5u8) == v / 32) by (bit_vector);
}
pub broadcast proof fn field6_1(v: u8)
    ensures #[trigger] ((v & 64u8) >> 6u8) == v / 64 % 2,
{
    assert(((v & 64u8) >> 6u8) == v / 64 % 2) by (bit_vector);
}
pub broadcast proof fn field6_2(v: u8)
    ensures #[trigger] ((v & 192u8) >> 6u8) == v / 64,
{
    assert(((v & 192u8) >> 6u8) == v / 64) by (bit_vector);
}
pub broadcast proof fn field7_1(v: u8)
    ensures #[trigger] ((v & 128u8) >> 7u8) == v / 128,
{
    assert(((v & 128u8) >> 7u8) == v / 128) by (bit_vector);
}
pub broadcast group group_or {
    or8,
    or16,
    or32,
    shl0_8,
    shl0_16,
    shl0_32,
    field1_1,
    field1_2,
    field1_3,
    field1_4,
    field1_5,
    field1_6,
    field1_7,
    field2_1,
    field2_2,
    field2_3,
    field2_4,
    field2_5,
    field2_6,
    field3_1,
    field3_2,
    field3_3,
    field3_4,
    field3_5,
    field4_1,
    field4_2,
    field4_3,
    field4_4,
    field5_1,
    field5_2,
    field5_3,
    field6_1,
    field6_2,
    field7_1,
}
} // verus!
