//@ module ts
//@ prelude
broadcast use crate::spec::group_bits;

pub proof fn lemma_fill()
    ensures
        FILL_PACKET_lit().len() == 188,
        forall|i: int| 0 <= i < 188 ==> #[trigger] FILL_PACKET_lit()[i] == 0xFF,
{
    assert(FILL_PACKET_lit().len() == 188) by (compute_only);
    assert(all_are(FILL_PACKET_lit(), 0xFF, 188)) by (compute_only);
    lemma_all_are(FILL_PACKET_lit(), 0xFF, 188);
}
//@ fn is_sync
    requires ts@.len() >= 1,
    ensures r == (ts@[0] == 0x47),
//@ fn is_error
    requires ts@.len() >= 2,
    ensures r == bit(ts@[1], 7),
//@ fn is_payload
    requires ts@.len() >= 4,
    ensures r == bit(ts@[3], 4),
//@ fn is_pusi
    requires ts@.len() >= 2,
    ensures r == bit(ts@[1], 6),
//@ fn is_adaptation
    requires ts@.len() >= 4,
    ensures r == bit(ts@[3], 5),
//@ fn get_payload_offset
    requires ts@.len() >= 5,
    ensures r == ts_payload_offset(ts@),
//@ fn is_scrambled
    requires ts@.len() >= 4,
    ensures r == (ts@[3] / 64 != 0),
//@ fn get_adaptation_size
    requires ts@.len() >= 5,
    ensures r == ts@[4],
//@ fn get_pid
    requires ts@.len() >= 3,
    ensures r == ts_pid(ts@),
//@ fn get_cc
    requires ts@.len() >= 4,
    ensures r == ts@[3] % 16,
//@ fn set_pid
    requires old(ts)@.len() >= 3, pid < 8192,
    ensures final(ts)@ == ts_put_pid(old(ts)@, pid as int),
//@ at exit
proof { assert(ts@ =~= ts_put_pid(old(ts)@, pid as int)); }
//@ fn set_cc
    requires old(ts)@.len() >= 4, cc < 16,
    ensures final(ts)@ == old(ts)@.update(3, (old(ts)@[3] / 16 * 16 + cc) as u8),
//@ at exit
proof { assert(ts@ =~= old(ts)@.update(3, (old(ts)@[3] / 16 * 16 + cc) as u8)); }
//@ fn set_payload_0
    requires old(ts)@.len() >= 4,
    ensures final(ts)@ == ts_put_bit(old(ts)@, 3, 16, false),
//@ at exit
proof { assert(ts@ =~= ts_put_bit(old(ts)@, 3, 16, false)); }
//@ fn set_payload_1
    requires old(ts)@.len() >= 4,
    ensures final(ts)@ == ts_put_bit(old(ts)@, 3, 16, true),
//@ at exit
proof { assert(ts@ =~= ts_put_bit(old(ts)@, 3, 16, true)); }
//@ fn set_pusi_0
    requires old(ts)@.len() >= 2,
    ensures final(ts)@ == ts_put_bit(old(ts)@, 1, 64, false),
//@ at exit
proof { assert(ts@ =~= ts_put_bit(old(ts)@, 1, 64, false)); }
//@ fn set_pusi_1
    requires old(ts)@.len() >= 2,
    ensures final(ts)@ == ts_put_bit(old(ts)@, 1, 64, true),
//@ at exit
proof { assert(ts@ =~= ts_put_bit(old(ts)@, 1, 64, true)); }

//@ module ts::debug
//@ fn TsAdaptation::new
    requires packet@.len() >= 188,
    ensures r.0@ == packet@,
//@ fn TsPacket::new
    requires packet@.len() >= 188,
    ensures r.0@ == packet@,

//@ module ts::pcr
//@ prelude
broadcast use {crate::spec::group_bits, crate::spec::group_or64};
//@ fn is_pcr
    requires packet@.len() >= 6,
    ensures r == (bit(packet@[3], 5) && packet@[4] >= 7 && bit(packet@[5], 4)),
//@ fn set_pcr
    requires old(packet)@.len() >= 12, pcr < pcr_cycle(),
    ensures final(packet)@ == pcr_put(old(packet)@, pcr as int),
//@ at entry
proof { lemma_pcr_bytes(pcr / 300, pcr % 300); }
//@ at exit
proof { assert(packet@ =~= pcr_put(old(packet)@, pcr as int)); }
//@ fn get_pcr
    requires packet@.len() >= 12,
    ensures r == pcr_get(packet@),
//@ at entry
proof {
    let (a, b, c, d, e, f) = (packet@[6], packet@[7], packet@[8], packet@[9], packet@[10], packet@[11]);
    assert((((((a as u64) << 25) | ((b as u64) << 17)) | ((c as u64) << 9)) | ((d as u64) << 1)) | ((e as u64) >> 7)
        == (a as u64) * 33554432 + (b as u64) * 131072 + (c as u64) * 512 + (d as u64) * 2 + (e as u64) / 128)
        by (bit_vector);
    assert((((e & 0x01) as u64) << 8) | (f as u64) == ((e as u64) % 2) * 256 + (f as u64)) by (bit_vector);
}
//@ fn pcr_delta
    requires last_pcr < pcr_cycle(), current_pcr < pcr_cycle(),
    ensures
        current_pcr >= last_pcr ==> r == current_pcr - last_pcr,
        // known finding: one tick less when the counter wrapped
        current_pcr < last_pcr ==> (r == current_pcr + pcr_cycle() - last_pcr
            || r == current_pcr + pcr_cycle() - 1 - last_pcr),
//@ fn pcr_to_stc
    requires last_bytes > 0, last_delta * bytes + last_pcr <= u64::MAX,
    ensures r == (last_delta * bytes / last_bytes as int + last_pcr) % pcr_cycle(),
//@ at entry
proof {
    assert(last_delta * bytes >= 0) by (nonlinear_arith);
    assert(last_delta * bytes / last_bytes as int <= last_delta * bytes) by (nonlinear_arith)
        requires last_bytes > 0, last_delta * bytes >= 0;
}
//@ fn pcr_jitter_ns
    requires pcr < pcr_cycle(), stc < pcr_cycle(),
    ensures jitter_near(pcr as int, stc as int) ==> r == jitter_spec(pcr as int, stc as int),
//@ fn pcr_to_us
    ensures r == pcr / 27,
//@ fn pcr_to_ms
    ensures r == pcr / 27000,
//@ fn pcr_delta_bitrate
    requires delta >= 27000, bytes * 8 <= u64::MAX,
    ensures r == (bytes * 8) / (delta as int / 27000),

//@ module es
//@ fn Default for StreamType::default
    ensures r == StreamType::DATA,

//@ module es::pes
//@ prelude
broadcast use {crate::spec::group_bits, crate::spec::group_or64};
//@ fn is_prefix
    requires packet@.len() >= 3,
    ensures r == (packet@[0] == 0 && packet@[1] == 0 && packet@[2] == 1),
//@ fn is_syntax_spec
    requires packet@.len() >= 4,
    ensures r == pes_has_header(packet@[3]),
//@ fn get_length
    requires packet@.len() >= 6,
    ensures r == be16(packet@, 4),
//@ fn get_payload_offset
    requires packet@.len() >= 9,
    ensures r == (if pes_has_header(packet@[3]) { 9 + packet@[8] } else { 6 }),
//@ fn is_pts
    requires packet@.len() >= 8,
    ensures r == bit(packet@[7], 7),
//@ fn get_pts
    requires packet@.len() >= 14,
    ensures r == pes_ts(packet@, 9),
//@ at entry
proof {
    let (a, b, c, d, e) = (packet@[9], packet@[10], packet@[11], packet@[12], packet@[13]);
    assert(((((((a & 0x0E) as u64) << 29) | ((b as u64) << 22)) | (((c & 0xFE) as u64) << 14)) | ((d as u64) << 7))
        | ((e as u64) >> 1)
        == ((a as u64) / 2 % 8) * 1073741824 + ((b as u64) * 128 + (c as u64) / 2) * 32768
            + ((d as u64) * 128 + (e as u64) / 2)) by (bit_vector);
}
//@ fn pts_delta
    requires last_pts < pts_cycle(), current_pts < pts_cycle(),
    ensures r == (current_pts - last_pts) % pts_cycle(),
//@ at entry
proof { assert(forall|x: int| #[trigger] (x % (PTS_NONE as int)) == x % pts_cycle()); }
//@ fn pts_to_ms
    ensures r == pts / 90,
//@ fn is_dts
    requires packet@.len() >= 8,
    ensures r == bit(packet@[7], 6),
//@ fn get_dts
    requires packet@.len() >= 19,
    ensures r == pes_ts(packet@, 14),
//@ at entry
proof {
    let (a, b, c, d, e) = (packet@[14], packet@[15], packet@[16], packet@[17], packet@[18]);
    assert(((((((a & 0x0E) as u64) << 29) | ((b as u64) << 22)) | (((c & 0xFE) as u64) << 14)) | ((d as u64) << 7))
        | ((e as u64) >> 1)
        == ((a as u64) / 2 % 8) * 1073741824 + ((b as u64) * 128 + (c as u64) / 2) * 32768
            + ((d as u64) * 128 + (e as u64) / 2)) by (bit_vector);
}
