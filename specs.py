"""Which harnesses decide which property, and within what bounds."""
BUDGET = {"quick": 700, "thorough": 6 * 3600}
ASSUMPTIONS = [
    "the connection accepts writes and the target honours the documented contract of its traits unless the harness scripts a failure",
    "rustc's LLVM IR at opt-level 1 with overflow checks and debug assertions is the code; logging is compiled in but no logger is installed",
    "memory allocation never fails",
]
NOT_APPLICABLE = {}


def H(fn, **k):
    k["fn"] = fn
    return k


def HS(names, **k):
    return [H(n, **k) for n in names.split()]


PROPS = {}


def prop(id, bounds, hs, assumptions=()):
    PROPS[id] = {"harnesses": hs, "bounds": bounds, "assumptions": list(assumptions)}


prop("C02", "histories of 2 (thorough: 3) exchanges, 14 probe commands, packet buffers of 44..72 bytes with arbitrary contents, every split point of one packet, packets 4 bytes around the buffer's size; packets of 255..5000 bytes followed by a short one; 6 rounds of 65 commands in 2 orders",
     HS("fr_hist1 fr_hist2 fr_stale_s fr_stale_m fr_part fr_size bg_unk bg_unko") +
     HS("mn_ses_a mn_ses_b", steps=200000000) + HS("fr_hist3", thorough=1, time=3000))
prop("C03", "bodies of up to 4 (thorough: 10) arbitrary bytes, and 88-byte write commands; every pair of checksum characters other than x/X",
     HS("ck_short ck_running ck_effect ck_long") + HS("ck_deep", thorough=1),
     ["the character x is also taken as a digit by the stub's hex parser; what it does in a checksum is left open"])
prop("C04", "replies of up to 4 (thorough: 5) arbitrary data bytes, runs of 2..160 characters between arbitrary neighbours, 12 binary bytes of two arbitrary values, 64-byte buffer; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer",
     HS("rle_any4 rle_runs1 rle_runs2 rle_runs3 rle_bins rle_other fr_stale_s bg_rle bg_bulk") + HS("rle_any5", thorough=1, time=3000))
PS = "; what was established before is still so after each of 86 commands, done or failed, and of 14 kinds of other events"
prop("C05", "sequences of 3 (thorough: 4) exchanges of 6 kinds; 6 rounds of 65 commands in 2 orders each answered as the first time, 200 exchanges with 0..2 acknowledgements each" + PS, HS("ack_seq3 ack_seq3s ack_neg ps_a ps_b ps_c ps_s ps_ev ps_evs") +
     HS("mn_ses_a mn_ses_b mn_ack", steps=200000000) + HS("ack_seq4", thorough=1, time=3000))
prop("C06", "addresses of 16/32/64 bits in 1..w digits and with leading zeros; lengths 0..12 (thorough: 40) with every short count and arbitrary contents; lengths of 1..4 arbitrary digits and of 5..16 with the outer ones arbitrary where the target has 0..4 bytes; piecewise reads of 29..80 bytes with every short count, failing at piece 1..3, up to the end of the address space; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer",
     HS("m_addr16 m_addr32 m_addr64 m_addr32s m_len_s m_len_m m_hist m_hist_m m_big16 m_big32 m_big64 m_fail_s m_fail_m m_wide_s m_wide_m bg_reads bg_readm") + HS("m_long32", cost=9) +
     HS("m_len_deep m_long16 m_long64", thorough=1, time=3000))
prop("C07", "addresses of 16/32/64 bits in 1..w digits and with leading zeros; payloads of up to 6 (thorough: 16) arbitrary bytes in hex and 5 (9) in binary, up to 64 bytes with one arbitrary byte; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer and the default one",
     HS("wm_addr16 wm_addr32 wm_addr64 wx_addr16 wx_addr32 wx_addr64 wm_data wx_data wx_esc3 wm_hist wx_hist wm_long wx_long wm_big wx_big wm_big64 wm_fail wx_fail bg_wm bg_wx bg_wmo bg_wxo") +
     HS("wm_data_deep wx_data_deep wx_esc5", thorough=1, time=3000))
prop("C08", "register blocks of 0..16 arbitrary bytes, any subset of the first 5 or any run of bytes unavailable; written blocks of 0..17 bytes against sizes 0, 1, 4, 15, 16; selected thread ids of 1..2 digits",
     HS("g_read_s g_write_s g_write_m g_write_hist g_fail_s g_fail_m g_read_hist") + HS("g_read_m", cost=9))
prop("C09", "register numbers of 1..4 arbitrary digits and of 8, 9, 16 and 18 digits with the outer ones arbitrary; fixed sizes 1, 2 and 4 and variable; reports of 0..6 bytes and over-long claims; values of 1..6 bytes",
     HS("p_read_s p_read_hist p_write_s p_write_m p_write_hist p_fail_s p_fail_m p_over_s p_over_m") + HS("p_read_m", cost=9))
prop("C10", "types 0..ff, addresses of 16/32/64 bits in 1..w digits and with leading zeros, kinds of 1..10 digits (1..6 on 16 bits), every subset of the three supports, with and without condition and command lists, two packets in a row; 256 breakpoints of every type set and removed in a row",
     HS("z_addr16 z_addr32 z_addr64 z_kind16 z_kind32 z_kind64 z_hist z_seq z_big16 z_big32 z_big64 z_fail z_none") +
     HS("mn_brk", steps=200000000))
prop("C11", "lists of 1 action of every kind and thread-id form (8), of 2 of 3 forms and of 3 of 2 forms; arbitrary signals, range bounds of 2 digits and at full width for 16 bits (64 bits: the outer 3 digits arbitrary; thorough: all); ids of 1, 2 and 16 digits; 9 classes of malformed actions after 0..2 valid ones; lists of up to 100 actions of every kind, one arbitrary at 4 places",
     HS("vc_m1 vc_m1w16 vc_m1w64 vc_m2 vc_m3 vc_mh vc_s vc_sw16 vc_sw64 vc_sh vc_bad_m vc_bad_s vc_fail_m vc_fail_s vc_leg_m vc_leg_s vc_q vc_twice") +
     HS("mn_vcont", steps=200000000) +
     HS("vc_m1f64 vc_sf64 vc_m3d", thorough=1, time=3000),
     ["a signal for all threads (C without a thread) cannot be expressed in the target interface and is left open"])
prop("C12", "every subset of resume, reverse-step and reverse-continue support; the initial thread, one selected in 8 forms, or an arbitrary 64-bit thread of the last stop; 9 kinds of preceding exchange",
     HS("rev_s rev_m"))
prop("C13", "16 shapes of stop reason with arbitrary signal, code, 64-bit thread id, 16/32/64-bit address and number; 6 subsets of the declared support; process ids of 16 bits; two stops in a row",
     HS("stop_s16 stop_s64 stop_two stop_pid") + HS("stop_m32", cost=9) + HS("stop_m64", thorough=1, time=3000))
prop("C14", "sequences of 5 (thorough: 6) events of every kind possible in each state, arbitrary signals and exit codes; one packet cut at every byte around a stop report; 120 resumptions, stops and interrupts in a row, one stop arbitrary",
     HS("st_model4 st_model5m st_split") +
     HS("mn_cyc", steps=200000000) + HS("st_model6", thorough=1, time=3000))
prop("C32", "detach and kill in every form with process ids of 1..4 digits (and 8, 9, 16, 18 digits), idle after 9 kinds of exchange and running, both answers and every failure of the target's kill; two exits in a row with arbitrary codes",
     HS("end_idle end_running end_exits end_fail"))
prop("C15", "sequences of 2 (thorough: 3) selections of both kinds in 4 forms (one selection: 8 forms) out of up to 2 threads with arbitrary 16-bit ids, before 10 operations; 4 commands in between, 9 kinds of preceding exchange; 150 selections and operations in a row" + PS,
     HS("ps_a ps_b ps_c ps_s ps_ev h_sel1 h_sel1b h_sel1h h_sel1s h_sel2 h_sel2s h_fail h_stop") +
     HS("mn_sel", steps=200000000) + HS("h_full h_sel2d h_sel3", thorough=1, time=3000))
prop("C16", "up to 3 threads with arbitrary 16-bit ids (1 with an arbitrary 64-bit id); queried ids of 1..4 arbitrary digits and of 8, 9, 16 and 18 digits with the outer ones arbitrary; 16-bit process ids; extra information of up to 4 arbitrary bytes; up to 300 threads, one of them with an arbitrary 64-bit id at 4 places (120 when asked for one)",
     HS("th_list_m th_list_w th_list_s th_alive_m th_alive_l th_alive_s th_q_m th_q_s th_cur_m th_cur_s th_extra th_extra0 th_fail th_cur1") +
     HS("mn_list mn_listp mn_alive", steps=200000000))
prop("C17", "every subset of 8..10 neighbouring capabilities out of the 28 the reply depends on, the others all on or all off (thorough: of 16 and of 17); buffers of 40..289 bytes; up to 2 (3) client features in up to 2 rounds out of 7 kinds, names of up to 3 (14) arbitrary bytes; each advertised feature used; after each of 86 commands; up to 256 client features" + PS,
     HS("ps_a ps_b ps_c ps_s ps_ev f_rep01 f_rep12 f_rep23 f_rep34 f_rep45 f_rep56 f_size f_client f_client_any f_else f_used0 f_used1 f_used2 f_used3 f_used4 f_used5 f_again_a f_again_b f_again_c") +
     HS("mn_feat", steps=200000000) +
     HS("f_client3 f_client_deep f_rep0123 f_rep3456", thorough=1, time=3000))
prop("C18", "66 commands, each lacking one capability it needs, with everything else on or everything else off, idle and running; unknown packets of up to 3 (thorough: 6) arbitrary bytes, and of up to 2 after 26 openings; resume commands with up to 3 arbitrary bytes for targets that cannot resume; names of 86 commands with one character replaced by any other; unknown packets of up to 5000 bytes",
     HS("u_lack u_lack_run u_any_full u_any_bare u_tail u_stub u_typo u_typo_b bg_unk bg_unko") + HS("u_any_deep", thorough=1, time=3000))
prop("C20", "offsets and lengths of 1..4 arbitrary digits and of 8, 9, 16 and 18 digits with the outer ones arbitrary; up to 3 (thorough: 6) arbitrary data bytes, more than fits at 30 buffer sizes; annexes of up to 3 arbitrary bytes and process ids likewise; 9 kinds of preceding exchange; 5 built-in descriptions with every offset and length below 16, wide ones, and in pieces of 1..4095; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer; descriptions of up to 2000 bytes in pieces of 1..2048 until the end, one arbitrary byte at 4 places",
     HS("x_range_mmap x_range_auxv x_range_libs x_range_exec x_range_feat x_data_mmap x_data_auxv x_data_libs x_data_exec x_data_feat x_annex_exec x_annex_feat x_hist x_room x_twice x_bad x_fail xa_range xa_pieces xa_annex xa_override bg_bulk") +
     HS("mn_xml", steps=200000000) + HS("xa_wide", cost=9) + HS("x_deep", thorough=1, time=3000))
prop("C21", "descriptors of 1..4 arbitrary digits, 8 with the outer ones arbitrary and 8 arbitrary; flags and modes of 1..5 arbitrary digits and of 8 (thorough: flags of 8 arbitrary); offsets and counts of 1..4 arbitrary digits and of 8, 9, 16 and 18; write offsets of 16/32/64 bits; paths of up to 4 and data of up to 3 (thorough: 5) arbitrary bytes, up to 61 bytes with one arbitrary byte; as much as fits at 40 buffer sizes; one arbitrary byte anywhere in the status; every error number in every request; 9 kinds of preceding exchange; 10 classes of malformed request; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer",
     HS("io_open_p io_open_f io_open_m io_close io_setfs io_unlink io_pread_h io_pread_fd io_pread_n io_pread_off io_pread_data io_room io_readlink io_pw_fd io_pw_off16 io_pw_off32 io_pw_off64 io_pw_ret16 io_pw_ret32 io_pw_ret64 io_pw_data io_pw_hist io_pw_long io_fstat io_errs io_errs_io io_bad bg_bulk bg_pwrite bg_text") + HS("io_open_deep io_pw_deep", thorough=1, time=3000))
prop("C22", "program names and up to 3 (thorough: 4) arguments of up to 2 (3) arbitrary bytes, names, values and directories of up to 3; process ids of 1..4 arbitrary digits and of 8, 9, 16 and 18 with the outer ones arbitrary; single- and multi-threaded targets with and without process ids in replies, all or only the needed sub-extensions; 9 kinds of preceding exchange; 3 requests in a row; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer; up to 200 arguments",
     HS("e_run_args e_run_three e_run_name e_run_bad e_attach e_attach_hist e_attach_nopid e_pid_bad e_attached e_switch e_switch_bad e_env e_env_hist e_other e_other_hist e_env_bad e_seq e_start e_fail bg_text") +
     HS("mn_run", steps=200000000) + HS("e_run_deep", thorough=1, time=3000))
prop("C23", "tracepoint numbers, steps and passes of 1..4 arbitrary digits and of 8, 9, 16 and 18 with the outer ones arbitrary; addresses of 16/32/64 bits; up to 2 actions of 0..1 arbitrary bytes and 1 of 0..3 (thorough: 3 of 0..2) with masks of every digit count, expressions of up to 63 bytes; source strings of up to 4 arbitrary bytes with 32-bit offsets and lengths; 10 classes of malformed definition and 8 of malformed action; failures at each of the first 3 calls; 9 kinds of preceding exchange; up to 120 actions in up to 3 packets, one arbitrary byte at 4 places",
     HS("t_num t_addr16 t_addr32 t_addr64 t_step t_pass t_hist t_act1 t_act2 t_act_wide16 t_act_wide32 t_act_wide64 t_act_hist t_act_long t_src_n t_src_a16 t_src_a32 t_src_a64 t_src_st t_src_len t_src_data t_src_hist t_unsup t_bad16 t_bad64 t_bad_act t_fail t_whole") +
     HS("mn_acts", steps=200000000) + HS("t_act3", thorough=1, time=3000))
prop("C24", "arguments of 1..4 arbitrary digits and of 8, 9, 16 and 18 with the outer ones arbitrary, addresses of 16/32/64 bits; reported values of 1, 2, 4, 8 bytes, buffer data of up to 5 arbitrary bytes in up to 2 pieces; every status, every subset of the 7 explanations; uploads of 5 requests in every order the target may dictate, of 3 with every kind of item, of 3 with restarts (thorough: 6 and 4), with and without source support; 9 classes of malformed request; 9 kinds of preceding exchange; uploads of 320 steps with one arbitrary choice at 3 places",
     HS("tx_simple tx_config tx_config_h tx_buf_h tx_buf_off tx_buf_len tx_buf_data tx_frame tx_frame_h tx_frame16 tx_frame32 tx_frame64 tx_point_h tx_point_n tx_point16 tx_point32 tx_point64 tx_point_v tx_status tx_status_h tx_info tx_bad16 tx_bad64 tx_fail tx_up3 tx_up_re tx_wide16 tx_wide64 tx_between tx_none") +
     HS("tx_up_long", steps=200000000) + HS("tx_up5", cost=9) + HS("tx_up6 tx_up_re4", thorough=1, time=3000),
     ["a target operation that fails has not reported part of a result before"])
prop("C25", "commands of up to 3 (thorough: 6) arbitrary bytes and of 60..67 bytes with one arbitrary; outputs of up to 4 (8) arbitrary bytes in writes of every size, flushed or not, with and without alloc, with run-length encoding, of 17..96 bytes with one arbitrary; through the formatting macros in 5 shapes; 9 kinds of preceding exchange; 5 classes of malformed request; packets carrying 2..2038 bytes around powers of two with one arbitrary byte, 4096-byte buffer; up to 256 writes of 1 or 2 bytes",
     HS("mo_cmd mo_cmd_hist mo_long mo_bad mo_out mo_out_hist mo_out_rle mo_out_long mo_fmt mo_fail bg_text bg_con") +
     HS("mn_con", steps=200000000) + HS("mo_out_n mo_out_longn mo_fmt_n", variant="nostd") + HS("mo_cmd_deep mo_out_deep", thorough=1, time=3000))
prop("C26", "lists of up to 3 numbers of 1..3 arbitrary digits, or the last as wide as the target's 16/32/64-bit word with the outer digits arbitrary, with and without leading zeros, and of 20 numbers; 3 requests in a row; 9 kinds of preceding exchange; 8 classes of malformed request; up to 300 numbers, one of 16 arbitrary bits at 4 places",
     HS("ca_list ca_hist ca_w16 ca_w32 ca_w64 ca_many ca_off ca_seq ca_bad16 ca_bad32 ca_bad64 ca_fail") +
     HS("mn_catch", steps=200000000))
prop("C27", "offsets and addresses of 16, 32 and 64 bits, one of the three arbitrary at a time; process ids of 1..4 arbitrary digits and of 8, 9, 16 and 18 with the outer ones arbitrary; 9 kinds of preceding exchange",
     HS("of_16 of_32 of_64 of_hist of_fail e_attached"))
prop("C30", "register numbers of 1..4 arbitrary digits and of 8, 9, 16 and 18 digits with the outer ones arbitrary; every combination of absent fields, every enumerated value, names of up to 3 arbitrary letters, each decimal with 8 arbitrary bits or one of 10 values up to 2^64-1, lists of 0..3 registers with arbitrary 64-bit numbers; both sources of the description; 9 kinds of preceding exchange; walks of up to 3 registers",
     HS("ll_no ll_hist ll_fields ll_enums ll_names ll_dec ll_wide ll_lists ll_walk ll_bad ll_none ll_fail"))
prop("C19", "86 commands of every extension failing at their 1st, 2nd or 3rd target call, resumption at any of its first 4, in 5 ways with every code; single- and multi-threaded; a second failure after the first",
     HS("er_a er_b er_c er_lists er_resume er_twice er_tstatus er_tstatus2 g_fail_s g_fail_m p_fail_s p_fail_m m_fail_s m_fail_m wm_fail wx_fail z_fail vc_fail_m vc_fail_s end_fail h_fail th_fail x_fail io_errs io_errs_io e_fail t_fail tx_fail ca_fail mo_fail of_fail ll_fail"),
     ["a target operation that fails has not reported part of a result before"])
prop("C34", "the write or flush that fails is any (16-bit index); 86 commands of every extension in 3 configurations, with and without acknowledgements and run-length encoding, monitor output of 6 kinds with and without alloc, 11 stop reasons at once or deferred, 9 resume commands on 4 configurations, 6 commands while running, every trace status, frame and buffer reply, upload steps",
     HS("cn_a cn_b cn_c cn_rle cn_mon cn_trace cn_up cn_stop cn_resume cn_running") + HS("cn_mon_n", variant="nostd"))
prop("C28", "every byte of every register arbitrary, for 13 register files; blocks of every shorter length and up to 3 trailing bytes",
     HS("ar_x64 ar_x32 ar_arm ar_a64 ar_rv32 ar_rv64 ar_msp ar_mspx ar_mips ar_mips64 ar_dsp ar_dsp64 ar_ppc ar_s_x64 ar_s_x32 ar_s_arm ar_s_a64 ar_s_rv32 ar_s_rv64 ar_s_msp ar_s_mspx ar_s_mips ar_s_mips64 ar_s_dsp ar_s_dsp64 ar_s_ppc ar_cg ar_cgx"))
prop("C29", "every register number (64 bits)",
     HS("id_x64 id_x32 id_arm id_a64 id_rv32 id_rv64 id_msp id_mspx id_mips id_mips64 id_o_x64 id_o_x32 id_o_arm id_o_rv32 id_o_rv64 id_o_msp id_o_mspx id_o_mips id_o_mips64 id_o_dsp id_o_dsp64 id_a64_names id_a64_sizes id_d_rv32 id_d_rv64 id_d_a64 id_kinds"))
prop("C31", "borrowed buffers of 0, 24 and 72 (thorough: 300) bytes with every requested size (64 bits) in both orders and replaced; packets of exactly and one more than sizes 4..52; 12 owned sizes up to 70001 and the default; every combination of hook failure, software breakpoints and opt-out",
     HS("set_b0 set_b24 set_b72 set_fits set_owned set_start") + HS("set_none", variant="nostd") + HS("set_b300", thorough=1))
prop("C35", "every value of every width up to 128 bits, byte strings of every length up to 20 with arbitrary contents, every buffer size", HS("in_conv in_be in_le"))
prop("C36", "every capability flipped on its own and every subset of 4..8 neighbouring ones in negotiation, 86 commands of every extension with 2 arbitrary bytes in the target's answers, resuming and stopping, targets failing at their first or second call with every code; connections behind 4 kinds of pointer failing at any of the first 255 writes and flushes; reads, peeks and bulk writes called directly",
     HS("dy_a dy_b dy_c dy_f0 dy_f1 dy_f2 dy_f3 dy_run dy_fail dy_conn dy_calls"))
prop("C33", "scripts of 4 client steps of 6 kinds (2 of 9, 3 of 7), with up to 3 choices of the embedding program out of 6 kinds of event and 3 answers to an interrupt; reading, writing, flushing or a target call failing at any of the first 255 places of 2-step scripts (thorough: 3); conversations of 100 steps with one arbitrary command at 3 places",
     HS("bl_any2 bl_any3 bl_any4 bl_fail bl_refused bl_literal") +
     HS("bl_long", steps=200000000) + HS("bl_fail3", thorough=1, time=3000))
prop("C01", "raw streams of up to 5 (thorough: 6) arbitrary bytes into buffers of 0..8 bytes, idle and running; 144 openings of commands up to every field, continued by up to 3 (5) arbitrary bytes, and by fields of up to 150 of 14 characters; 86 commands of every extension cut at every point, with any byte replaced by or an additional one of any value, in buffers of 0..35 bytes, in every pair, in every state, with any one capability missing or alone, with 0, 1 and 4 threads, with 36 combinations of sizes and values reported by the target; everything the other properties run, for crashes; 16/32/64-bit; with and without alloc, checked and unchecked buffer accesses",
     HS("ro_raw3 ro_raw4 ro_raw5 ro_tail1 ro_tail1m ro_tail1t ro_tail2 ro_tail2m ro_tail2t ro_tail3 ro_tail3t ro_cut ro_cut16 ro_cut64 ro_alt_a ro_alt_b ro_alt_c ro_alt16_a ro_alt16_c ro_alt64_a ro_alt64_c ro_fill ro_fillm ro_fillt ro_tiny ro_threads ro_states ro_pairs ro_answers_a ro_answers_b ro_answers_c ro_lack bg_unk bg_unko bg_text bg_wmo") +
     HS("m_len_s m_len_m m_big16 m_big32 m_big64 m_fail_s p_over_s p_over_m x_room io_room ll_lists ll_walk mo_out_long set_b24 rle_runs1 rle_any4 cn_stop u_any_full u_any_bare z_big16 z_big64 t_bad16 t_bad64 tx_bad16 tx_bad64 of_16 ca_many io_fstat") +
     HS("ro_raw5 ro_tail2 ro_tail2t ro_alt_a ro_alt_b ro_alt_c ro_cut ro_fill ro_tiny", variant="nostd") + HS("ro_raw5 ro_tail2 ro_tail2t ro_alt_a ro_alt_b ro_alt_c ro_cut ro_fill ro_tiny", variant="paranoid") +
     HS("ro_raw6 ro_tail4 ro_tail4t ro_tail5 u_any_deep", thorough=1, time=3000),
     ["a target that answers every piece of a memory read in full can be made to read 2^64 bytes: such a read ends, but not within any bound"])
prop("C37", "3 (thorough: 4) uses of a connection out of 6 kinds with up to 2 (6) arbitrary bytes each; a peer that sends up to 3 arbitrary bytes, each arriving at any point, and then ends or stays; 0 or 2 interruptions, partial transfers of every size, a full send buffer, and failure of any of the first 8 system calls with any error number up to 255; writes of 255..70000 bytes taken in up to 3 parts, 300 bytes read, peeked at and echoed one by one",
     HS("sk_tcp sk_tcp_f sk_unix sk_unix_f sk_tcp_l sk_unix_l") +
     HS("sk_big_tcp sk_big_unix", steps=200000000) + HS("sk_tcp_d sk_unix_d", thorough=1, time=3000),
     ["the system calls are a model of the kernel's documented behaviour"])
prop("C38", "every element, attribute and register of all 11 built-in descriptions (RISC-V 32/64 and AArch64 with its system registers in full; MSP430, MIPS, x86, PowerPC and ARM leave the registers to the client)",
     HS("xd_brief xd_rv32 xd_rv64 xd_a64"),
     ["the sizes of the AArch64 registers 66 and 67 are the known finding of C29"])
prop("C39", "86 commands of every extension, idle and running, in sessions with a target, an architecture and a connection that override nothing beside ones with the documented defaults spelled out; every answer of the target's own liveness hook for every thread id; lists of 0..4 arbitrary threads; 0..6 arbitrary bytes written at once with any one failing; sessions failing at any of the first 255 bytes",
     HS("df_lone_a df_lone_b df_given_a df_given_b df_run_l df_run_g df_told df_refused df_asked df_listed df_bytes df_session"))
prop("C40", "every 8-bit signal number and every name of GDB's signals.def; every 32-bit set of open flags and of file modes; every named error number",
     HS("nm_signals nm_files"))
prop("C41", "failures of every kind of call (target, connection start, read, write, flush, wait, setup), every protocol error the client can cause, every error of the builder",
     HS("ex_errors ex_apart ex_setup"))

# C01 also runs the harnesses of the other properties, where only crashes count (slow ones in the thorough tier only)
SLOW = set("""
ack_seq3 ack_seq3s bg_text bl_any4 ca_bad64 cn_rle dy_a dy_b dy_c dy_conn dy_run e_attach e_run_args e_run_name e_run_three e_seq
end_exits end_idle end_running er_a er_b er_c ex_apart f_again_a f_again_b f_again_c f_client f_rep56 fr_hist2 g_read_m g_read_s
g_write_m h_sel1 h_sel1b h_sel1h h_sel1s h_sel2 io_errs m_addr32 m_addr64 m_hist m_hist_m m_long32 mo_out_hist mo_out_rle of_64
p_read_hist p_read_m ps_a ps_b ps_c ps_s rle_runs2 rle_runs3 set_b72 st_model5m stop_m32 stop_s16 stop_s64 t_act_hist t_act_wide16
t_act_wide32 th_alive_l th_alive_m tx_between tx_frame tx_up3 tx_up5 tx_up_re tx_wide16 tx_wide64 u_lack u_stub u_typo vc_m3 vc_mh
vc_sh wm_addr64 wx_addr64 x_range_exec xa_range xd_a64 z_addr32 z_addr64 z_kind16 z_kind32 z_kind64
""".split())
_seen = {h["fn"] for h in PROPS["C01"]["harnesses"]}
for _id in sorted(PROPS):
    if _id in ("C01", "C35", "C37", "C38", "C40"):
        continue
    for _h in PROPS[_id]["harnesses"]:
        if _h["fn"] not in _seen and "variant" not in _h:
            _seen.add(_h["fn"])
            PROPS["C01"]["harnesses"].append(dict(_h, crashes=1, thorough=_h.get("thorough") or _h["fn"] in SLOW))
