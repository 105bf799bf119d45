"""What each check verifies: modules of the extraction, functions that carry the property."""

NUM = ['vx', 'spec::a_bits', 'spec::b_num']

PSI = NUM + ['spec::c_crc', 'spec::d_ts', 'spec::e_psi', 'bytes', 'psi::utils::crc32', 'ts', 'psi']

TEXT = NUM + ['spec::f_tables', 'spec::g_text', 'textcode', 'textcode::data']

TYPES = ['raw', 'x09', 'x0a', 'x0e', 'x40', 'x41', 'x43', 'x44', 'x48', 'x4d', 'x4e', 'x52', 'x58', 'x5a', 'x83']

DESC = TEXT + ['spec::a_or', 'spec::h_desc', 'bytes', 'psi::utils::bcd', 'psi::utils::mjd', 'psi::descriptors'] + ['psi::descriptors::' + t for t in TYPES]

BOXED = ['a boxed descriptor holds the value it was made from, and downcast_ref gives it back when the type is right',
         'descriptor types are the fifteen of this crate: a type of another crate that implements Desc is outside the contracts']

TABLE = DESC + ['spec::c_crc', 'spec::d_ts', 'spec::e_psi', 'spec::i_tables', 'psi::utils::crc32', 'ts', 'psi']

KINDS = ['psi::pat', 'psi::pmt', 'psi::nit', 'psi::sdt', 'psi::eit', 'psi::tdt', 'psi::tot']

READ = NUM + ['spec::d_ts', 'ts', 'spec::m_read', 'reader']

SOURCE = ['the source keeps the contract of std::io::Read: at most the length of the buffer, zero only for an empty buffer or at its end, an error takes no bytes',
          'what the source delivers is a finite sequence of bytes and errors, cut into reads in any way',
          '`?` on an io::Error passes the same error on']

PROPS = {
    'C01': dict(
        modules=PSI,
        direct=[r'^psi::Psi::(demux|mux|push|clear)$', r'^ts::(FILL_PACKET|set_pid|set_cc|set_pusi_1|set_payload_1)$'],
        theorems=['spec::e_psi::lemma_packets_back', 'spec::e_psi::lemma_packet_byte'],
    ),
    'C02': dict(
        modules=PSI,
        direct=[r'^psi::Psi::(mux|push|clear)$', r'^psi::Default for Psi::default$', r'^ts::(get_payload_offset|is_payload|is_pusi|get_cc)$'],
        theorems=['spec::e_psi::lemma_sound_step', 'spec::e_psi::lemma_sound'],
    ),
    'C03': dict(
        modules=PSI,
        direct=[r'^psi::Psi::(mux|push|clear)$', r'^ts::(get_payload_offset|is_payload|is_pusi|get_cc)$'],
        theorems=['spec::e_psi::lemma_no_payload', 'spec::e_psi::lemma_gap', 'spec::e_psi::lemma_gap_start', 'spec::e_psi::lemma_start',
                  'spec::e_psi::lemma_tail_start', 'spec::e_psi::lemma_continue', 'spec::e_psi::lemma_recover'],
        assumptions=['two sections that end in one packet: the interface holds only one section, the second one is not claimed'],
    ),
    'C04': dict(
        modules=PSI,
        direct=[r'^psi::Psi::(finalize|check|check_crc32|calc_crc32|get_crc32)$', r'^psi::utils::crc32::', r'^bytes::.*(get|set)_u(16|32)$'],
        theorems=['spec::e_psi::lemma_finish', 'psi::utils::crc32::lemma_table'],
    ),
    'C12': dict(
        modules=NUM + ['bytes', 'psi::utils::bcd', 'psi::utils::mjd'],
        direct=[r'^bytes::', r'^psi::utils::(bcd|mjd)::'],
        theorems=['spec::b_num::lemma_be_roundtrip', 'spec::b_num::lemma_bcd2', 'spec::b_num::lemma_bcd4', 'spec::b_num::lemma_bcd8',
                  'spec::b_num::lemma_time4', 'spec::b_num::lemma_time6', 'spec::b_num::lemma_datetime'],
    ),
    'C13': dict(
        modules=NUM + ['spec::d_ts', 'ts'],
        direct=[r'^ts::[A-Za-z_0-9]+$'],
    ),
    'C14': dict(
        modules=NUM + ['spec::d_ts', 'ts', 'ts::pcr'],
        direct=[r'^ts::pcr::(is_pcr|get_pcr|set_pcr)$'],
        theorems=['spec::d_ts::lemma_pcr_roundtrip'],
    ),
    'C15': dict(
        modules=NUM + ['spec::d_ts', 'ts::pcr', 'es::pes'],
        direct=[r'^ts::pcr::pcr_', r'^es::pes::pts_'],
        note='one case is not proved: for pcr_delta across the overflow the contract admits the value of the open finding (known-findings.txt) beside the right one; the compiled crate is run against independent oracles.',
        assumptions=['pcr_delta with current_pcr < last_pcr: the contract admits the right value and the one of the known finding, one tick less'],
    ),
    'C16': dict(
        modules=NUM + ['spec::d_ts', 'es::pes'],
        direct=[r'^es::pes::(is_|get_)'],
    ),
    'C19': dict(
        modules=TEXT,
        direct=[r'^textcode::(get_codepage_map|StringDVB::(from_str|as_bytes|get_codepage|is_empty)|fmt::Display for StringDVB::fmt)$',
                r'^textcode::data::'],
        theorems=['textcode::data::lemma_data', 'spec::g_text::lemma_tables_sane', 'spec::g_text::lemma_text_back', 'spec::g_text::lemma_code_back'],
        assumptions=['String::from_utf8_lossy gives the decoded text for valid UTF-8 and never panics',
                     'std::fmt: a Formatter is a sink of characters that may fail'],
    ),
    'C20': dict(
        modules=TEXT,
        direct=[r'^textcode::(get_codepage_map|StringDVB::(size|assemble|assemble_sized|truncate|split|as_bytes|is_empty)|From<&\[u8\]> for StringDVB::from)$'],
        theorems=['spec::g_text::lemma_wire_back', 'spec::g_text::lemma_wire_stable', 'spec::g_text::lemma_shape_cut_able', 'spec::g_text::lemma_parts_shape'],
    ),
    'C05': dict(
        modules=TABLE + KINDS + ['spec::k_time', 'spec::l_eit'],
        direct=[r'^psi::(pat|pmt|nit|sdt|eit|tdt|tot)::\w+::(check|parse)$', r'^psi::(pat|pmt|nit|sdt|eit|tdt|tot)::(From<&Psi>|Default) for \w+::(from|default)$'],
        assumptions=BOXED + ['a section whose size is not zero has a byte in its buffer (mux and finalize keep this)'],
    ),
    'C08': dict(
        modules=TABLE + ['spec::j_back', 'psi::pat', 'psi::pmt'],
        direct=[r'^psi::(pat|pmt)::\w+::(psi_init|assemble|size|check|parse)$', r'^psi::(pat|pmt)::PsiDemux for \w+::', r'^psi::Psi::(new|finalize|demux)$'],
        theorems=['spec::j_back::lemma_table_back', 'spec::j_back::lemma_table_sections', 'spec::j_back::lemma_done_bytes'],
        assumptions=BOXED,
    ),
    'C09': dict(
        modules=TABLE + ['spec::j_back', 'psi::nit', 'psi::sdt'],
        direct=[r'^psi::(nit|sdt)::\w+::(psi_init|assemble|size|check|parse)$', r'^psi::(nit|sdt)::PsiDemux for \w+::', r'^psi::Psi::(new|finalize|demux)$'],
        theorems=['spec::j_back::lemma_table_back', 'spec::j_back::lemma_table_sections', 'spec::j_back::lemma_done_bytes'],
        assumptions=BOXED,
    ),
    'C10': dict(
        modules=TABLE + ['spec::j_back', 'spec::l_eit', 'psi::eit'],
        direct=[r'^psi::eit::\w+::(psi_init|assemble|size|check|parse)$', r'^psi::eit::PsiDemux for \w+::', r'^psi::Psi::(new|finalize|demux)$'],
        theorems=['spec::l_eit::lemma_eit_back', 'spec::l_eit::lemma_eit_sections', 'spec::l_eit::lemma_eit_numbers', 'spec::l_eit::lemma_eit_count'],
        assumptions=BOXED,
    ),
    'C11': dict(
        modules=TABLE + ['spec::k_time', 'psi::tdt', 'psi::tot'],
        direct=[r'^psi::(tdt|tot)::\w+::(check|parse)$', r'^psi::(tdt|tot)::PsiDemux for \w+::', r'^psi::Psi::(new|finalize|demux)$', r'^psi::utils::(bcd|mjd)::'],
        theorems=['spec::k_time::lemma_tdt_back', 'spec::k_time::lemma_tot_back'],
        assumptions=BOXED,
    ),
    'C21': dict(
        modules=TABLE + ['psi::pmt'],
        direct=[r'^psi::pmt::PmtItem::get_stream_type$', r'^psi::descriptors::\w+::Desc for Desc\w+::tag$', r'^psi::descriptors::Descriptor::tag$'],
        theorems=['spec::i_tables::lemma_not_private'],
        assumptions=BOXED,
    ),
    'C06': dict(
        modules=DESC,
        direct=[r'^psi::descriptors::(Descriptor|Descriptors)::parse$', r'^psi::descriptors::\w+::Desc\w+::(check|parse)$'],
        theorems=['spec::h_desc::lemma_split_step', 'spec::h_desc::lemma_split_end', 'spec::h_desc::lemma_raw_kept'],
        assumptions=BOXED,
    ),
    'C07': dict(
        modules=DESC,
        direct=[r'^psi::descriptors::(Descriptor|Descriptors)::(assemble|size|push)$', r'^psi::descriptors::\w+::Desc for Desc\w+::(tag|assemble|size)$',
                r'^psi::descriptors::\w+::Desc\w+::(check|parse)$'],
        theorems=['spec::h_desc::lemma_desc_back', 'spec::h_desc::lemma_desc_fit', 'spec::h_desc::lemma_list_back', 'spec::h_desc::lemma_list_push'],
        assumptions=BOXED,
    ),
    'C23': dict(
        modules=DESC + ['spec::c_crc', 'spec::d_ts', 'spec::e_psi', 'psi::utils::crc32', 'ts', 'psi'],
        direct=[r'^psi::descriptors::.*Clone for \w+::clone$', r'^psi::PartialEq for Psi::eq$'],
        assumptions=BOXED,
    ),
    'C17': dict(
        modules=READ,
        direct=[r'^reader::TsRead for TsReader<R>::read$', r'^reader::TsReader::(new|get_ref|into_inner|parse)$', r'^ts::(is_sync|get_pid)$'],
        theorems=['spec::m_read::lemma_reads', 'spec::m_read::lemma_packet_bytes', 'spec::m_read::lemma_fill_end'],
        assumptions=SOURCE,
    ),
    'C18': dict(
        modules=READ + ['reader::drain'],
        direct=[r'^reader::drain::(TsDrain::new|Read for TsDrain<R>::read)$'],
        theorems=['spec::m_read::lemma_calls'],
        assumptions=SOURCE + ['the inner reader keeps the contract of TsRead', 'reading from a slice gives its bytes in order (axiom_slice_source)',
                              'memory exposed by set_len holds arbitrary bytes'],
    ),
    'C22': dict(
        modules=['vx', 'spec::n_lang', 'textcode::lang'],
        direct=[r'^textcode::lang::(convert|LANG_LIST)$'],
        theorems=['textcode::lang::lemma_langs', 'textcode::lang::lemma_answers'],
        assumptions=['contracts of vstd for str equality and str::len', 'the list of ISO 639 in tools/genlang.py'],
    ),
}
NOT_APPLICABLE = {}
