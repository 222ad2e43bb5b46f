package main

// harness is one symbolic exploration: a function of a harness package run under bounds.
type harness struct {
	pkg, fn  string
	cmds     []string // commands of the repository it runs
	quick    map[string]int64
	thorough map[string]int64
	timeQ    int // seconds, quick tier
	timeT    int // seconds, thorough tier
	steps    int64
	reach    []string // labels the exploration must visit
	noNative bool     // cannot be replayed on the real build
	sched    bool     // depends on the schedule: native replay is retried
	thOnly   bool     // thorough tier only
	bounds   string   // what is symbolic, and the bounds
	samples  int
}

type check struct {
	id      string
	hs      []harness
	assume  []string
	outside string // what lies outside the bounds
}

func findCheck(id string) *check {
	for i := range checks {
		if checks[i].id == id {
			return &checks[i]
		}
	}
	return nil
}

type p = map[string]int64

var allCommands = []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress", "blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"}

var checks = []check{
	{id: "C01", hs: []harness{
		{pkg: "pbvar", fn: "H_varint_roundtrip", reach: []string{"done"}, bounds: "every 64-bit value; prefix of 0-2 and suffix of 0-1 arbitrary bytes"},
		{pkg: "pbvar", fn: "H_zigzag", reach: []string{"done"}, bounds: "every 64-bit value"},
	}},
	{id: "C02", hs: []harness{
		{pkg: "pbvar", fn: "H_varint_decode_any", quick: p{"maxlen": 12}, thorough: p{"maxlen": 14}, reach: []string{"value", "panic"}, bounds: "every buffer of 0-11 bytes (13 thorough), decoding at offset 0-2"},
		{pkg: "pbvar", fn: "H_varint_decode_cap", reach: []string{"done"}, bounds: "every slice of 0-9 bytes of a 12-byte array"},
	}},
	{id: "C03", hs: []harness{
		{pkg: "pbvar", fn: "H_list_s64_delta", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_s64_delta_zero", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_zero_unterminated", quick: p{"n": 1}, thorough: p{"n": 2}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_u64", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_s64", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_s32", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_s32_delta", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_i32", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_u32", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_list_long", quick: p{"long": 40}, thorough: p{"long": 300}, reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_scalars", reach: []string{"done"}},
	}},
	{id: "C04", hs: []harness{
		{pkg: "pbvar", fn: "H_embed_int", reach: []string{"fits", "refused"}, bounds: "every length 0..2^62, all four widths"},
		{pkg: "pbvar", fn: "H_embed", thorough: p{"big": 1}, reach: []string{"embedded", "refused"}},
		{pkg: "pbvar", fn: "H_embed_nested", reach: []string{"done"}},
		{pkg: "pbvar", fn: "H_encode_buffer", reach: []string{"done"}},
	}},
	{id: "C05", hs: []harness{
		{pkg: "pbvar", fn: "H_morton_bits", reach: []string{"done"}, bounds: "every pair of 32-bit integers"},
		{pkg: "pbvar", fn: "H_morton_decode", reach: []string{"done"}, bounds: "every 64-bit code"},
		{pkg: "pbvar", fn: "H_morton_location", reach: []string{"done"}, bounds: "every valid latitude and longitude"},
	}},
	{id: "C10", hs: []harness{
		{pkg: "pbvar", fn: "H_count_offset", reach: []string{"accepted", "refused"}, bounds: "every pair of unsigned 64-bit values"},
		{pkg: "pbvar", fn: "H_way_index_data", reach: []string{"accepted", "refused"}, bounds: "every pair of non-negative signed 64-bit values"},
	}},
	{id: "C29", hs: []harness{
		{pkg: "pbdec", fn: "H_any", quick: p{"n": 3}, thorough: p{"n": 5}, reach: []string{"value", "panic"}},
		{pkg: "pbdec", fn: "H_any_length", quick: p{"after": 1}, thorough: p{"after": 3}, reach: []string{"value", "panic"}},
	}},
	{id: "C30", hs: []harness{
		{pkg: "pbdec", fn: "H_overrun", quick: p{"remain": 2}, thorough: p{"remain": 4}, reach: []string{"done"}},
		{pkg: "pbdec", fn: "H_overrun_nested", reach: []string{"done"}},
		{pkg: "pbdec", fn: "H_list_cut", reach: []string{"done"}},
		{pkg: "pbdec", fn: "H_exact", reach: []string{"done"}},
	}},
	{id: "C16", hs: []harness{
		{pkg: "tstruct", fn: "H_block_scalars", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_defaults", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_dense", quick: p{"n": 2}, thorough: p{"n": 3}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_keyvals", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_way", quick: p{"refs": 2}, thorough: p{"refs": 3}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_relation", quick: p{"members": 2}, thorough: p{"members": 3}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_strings", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_string_long", thorough: p{"long": 1}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_blob", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_blob_header", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_whole", thorough: p{"groups": 3}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_reuse", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_large", thorough: p{"huge": 1}, timeQ: 120, timeT: 600, reach: []string{"done", "too long"}},
	}},
	{id: "C17", hs: []harness{
		{pkg: "tstruct", fn: "H_skip", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_skip_large", thorough: p{"n": 600}, steps: 200000000, reach: []string{"done"}},
	}},
	{id: "C18", hs: []harness{
		{pkg: "tstruct", fn: "H_strtab", quick: p{"n": 3}, thorough: p{"n": 4}, reach: []string{"done", "unknown"}},
		{pkg: "tstruct", fn: "H_strtab_many", thorough: p{"many": 20}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_strtab_large", thorough: p{"strings": 700}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_strtab_huge", timeQ: 120, steps: 400000000, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_tag_many", thorough: p{"tags": 600}, reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_tag_lists", reach: []string{"done"}},
		{pkg: "tstruct", fn: "H_high_level", reach: []string{"done"}},
	}},
	{id: "C22", hs: []harness{
		{pkg: "blob", fn: "H_delivery", thorough: p{"n": 6}, reach: []string{"extracted", "refused"}},
		{pkg: "blob", fn: "H_second", thorough: p{"n": 4}, reach: []string{"done"}},
		{pkg: "blob", fn: "H_large", reach: []string{"extracted"}},
		{pkg: "blob", fn: "H_stream", thorough: p{"n": 6}, reach: []string{"extracted", "refused"}},
		{pkg: "blob", fn: "H_damaged", thorough: p{"m": 2}, timeT: 600, reach: []string{"extracted", "refused"}},
		{pkg: "blob", fn: "H_plain", reach: []string{"done"}},
	}},
	{id: "C23", hs: []harness{
		{pkg: "misc", fn: "H_pool", quick: p{"steps": 4}, thorough: p{"steps": 6}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_pool_size", reach: []string{"done"}},
		{pkg: "misc", fn: "H_pool_concurrent", sched: true, reach: []string{"done"}},
	}},
	{id: "C24", hs: []harness{
		{pkg: "faulty", fn: "H_fault_decompress", cmds: []string{"decompress"}, samples: 40, reach: []string{"failed", "succeeded"}},
		{pkg: "faulty", fn: "H_fault_tagfilter", cmds: []string{"tagfilter"}, samples: 40, reach: []string{"failed", "succeeded"}},
		{pkg: "faulty", fn: "H_fault_nodeindex", cmds: []string{"nodeindex"}, samples: 40, reach: []string{"failed", "succeeded"}},
		{pkg: "faulty", fn: "H_fault_wayindex", cmds: []string{"wayindex"}, samples: 40, reach: []string{"failed", "succeeded"}},
		{pkg: "faulty", fn: "H_fault_rewritenodes", cmds: []string{"rewritenodes"}, samples: 40, reach: []string{"failed", "succeeded"}},
		{pkg: "faulty", fn: "H_fault_relindex", cmds: []string{"relindex"}, samples: 40, reach: []string{"failed", "succeeded"}},
	}},
	{id: "C25", hs: []harness{
		{pkg: "misc", fn: "H_bytes_as_int64", thorough: p{"n": 42}, reach: []string{"done", "written"}},
		{pkg: "misc", fn: "H_int64_as_bytes", thorough: p{"k": 6}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_uint64_as_bytes", thorough: p{"k": 6}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_arb", quick: p{"n": 33}, thorough: p{"n": 50}, reach: []string{"done"}},
	}},
	{id: "C26", hs: []harness{
		{pkg: "misc", fn: "H_tracker", quick: p{"steps": 6}, thorough: p{"steps": 8}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_tracker_concurrent", sched: true, reach: []string{"done"}},
		{pkg: "misc", fn: "H_tracker_version", sched: true, thorough: p{"gor": 3}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_tracker_watch", sched: true, reach: []string{"done"}},
		{pkg: "misc", fn: "H_widgets", thorough: p{"steps": 9}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_widgets_concurrent", sched: true, reach: []string{"done"}},
	}},
	{id: "C27", hs: []harness{
		{pkg: "misc", fn: "H_markup", quick: p{"n": 3, "w": 5}, thorough: p{"n": 4, "w": 9}, reach: []string{"done"}},
		{pkg: "misc", fn: "H_escape", quick: p{"n": 4}, thorough: p{"n": 6}, reach: []string{"done"}},
	}},
	{id: "C06", hs: []harness{
		{pkg: "idx", fn: "H_node_lookup", cmds: []string{"nodeindex"}, thorough: p{"n": 3}, reach: []string{"found", "not found"}},
		{pkg: "idx", fn: "H_node_geometry", cmds: []string{"nodeindex"}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_node_large", cmds: []string{"nodeindex"}, steps: 400000000, thorough: p{"nodes": 140000}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_nodeindex_schedules", cmds: []string{"nodeindex"}, sched: true, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_node_many", cmds: []string{"nodeindex"}, steps: 400000000, thorough: p{"blocks": 80, "contents": 6}, reach: []string{"done"}},
	}},
	{id: "C07", hs: []harness{
		{pkg: "idx", fn: "H_node_search", thorough: p{"ranges": 24}, reach: []string{"found", "not found"}},
		{pkg: "idx", fn: "H_node_passes", timeQ: 120, thorough: p{"ranges": 4, "size": 4, "passes": 9}, reach: []string{"found", "not found"}},
	}},
	{id: "C08", hs: []harness{
		{pkg: "idx", fn: "H_way_lookup", timeQ: 120, cmds: []string{"wayindex"}, thorough: p{"ways": 3, "refs": 3, "aligns": 3}, reach: []string{"found", "not found"}},
		{pkg: "idx", fn: "H_way_large", cmds: []string{"wayindex"}, steps: 400000000, reach: []string{"done"}},
		{pkg: "idx", fn: "H_wayindex_schedules", cmds: []string{"wayindex"}, sched: true, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_way_many", cmds: []string{"wayindex"}, steps: 400000000, thorough: p{"blocks": 80, "contents": 6}, reach: []string{"done"}},
	}},
	{id: "C09", hs: []harness{
		{pkg: "idx", fn: "H_way_search", thorough: p{"ways": 24}, reach: []string{"found", "not found"}},
		{pkg: "idx", fn: "H_way_passes", thorough: p{"ways": 4, "sizes": 4, "passes": 9}, reach: []string{"found", "not found"}},
	}},
	{id: "C11", hs: []harness{
		{pkg: "idx", fn: "H_rewrite", cmds: []string{"rewritenodes"}, thorough: p{"refs": 3}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rewrite", cmds: []string{"rewritenodes"}, quick: p{"refs": 1, "multi": 1}, thorough: p{"refs": 2, "multi": 1}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rewrite_empty", cmds: []string{"rewritenodes"}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rewrite_schedules", cmds: []string{"rewritenodes"}, sched: true, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rewrite_many", cmds: []string{"rewritenodes"}, steps: 400000000, thorough: p{"blocks": 80, "contents": 6}, reach: []string{"done"}},
	}},
	{id: "C12", hs: []harness{
		{pkg: "idx", fn: "H_relindex", cmds: []string{"relindex"}, thorough: p{"members": 3}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rel_members", cmds: []string{"relindex"}, steps: 600000000, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rel_large", cmds: []string{"relindex"}, steps: 600000000, reach: []string{"done"}},
		{pkg: "idx", fn: "H_relindex_schedules", cmds: []string{"relindex"}, sched: true, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_rel_many", cmds: []string{"relindex"}, steps: 400000000, thorough: p{"blocks": 80, "contents": 6}, reach: []string{"done"}},
	}},
	{id: "C13", hs: []harness{
		{pkg: "pipe", fn: "H_pipe", sched: true, thorough: p{"blocks": 4, "workers": 3}, reach: []string{"done", "written"}},
		{pkg: "pipe", fn: "H_pipe_window", thorough: p{"blocks": 600}, reach: []string{"done"}},
		{pkg: "pipe", fn: "H_pipe_long", thorough: p{"blocks": 140000}, steps: 400000000, reach: []string{"done"}},
	}},
	{id: "C14", hs: []harness{
		{pkg: "pipe", fn: "H_cancel", sched: true, thorough: p{"blocks": 3, "workers": 3}, reach: []string{"cut short", "complete"}},
		{pkg: "work", fn: "H_cancel_work", sched: true, reach: []string{"cut short", "complete"}},
		{pkg: "work", fn: "H_cancel_work", sched: true, quick: p{"count": 0, "workers": 2}, reach: []string{"cut short", "complete"}},
	}},
	{id: "C15", hs: []harness{
		{pkg: "pipe", fn: "H_framing", cmds: []string{"blockcount"}, thorough: p{"sizes": 3, "missing": 20}, reach: []string{"followed", "refused"}},
		{pkg: "pipe", fn: "H_header_length", cmds: []string{"blockcount"}, reach: []string{"followed", "refused"}},
		{pkg: "pipe", fn: "H_type", cmds: []string{"blockcount"}, reach: []string{"followed", "refused"}},
		{pkg: "pipe", fn: "H_negative_size", cmds: []string{"blockcount"}, reach: []string{"refused"}},
	}},
	{id: "C20", hs: []harness{
		{pkg: "app", fn: "H_decompress", cmds: []string{"decompress"}, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "app", fn: "H_decompress_schedules", cmds: []string{"decompress"}, sched: true, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "app", fn: "H_decompress_many", cmds: []string{"decompress"}, steps: 400000000, thorough: p{"blocks": 600, "contents": 6}, reach: []string{"done"}},
	}},
	{id: "C37", hs: []harness{
		{pkg: "idx", fn: "H_stats_node", thorough: p{"ranges": 9}, reach: []string{"by the hint", "hit", "missed", "deferred"}},
		{pkg: "idx", fn: "H_stats_way", thorough: p{"ways": 12}, reach: []string{"by the hint", "hit", "missed", "deferred"}},
		{pkg: "idx", fn: "H_stats_refs", cmds: []string{"rewritenodes"}, thorough: p{"refs": 3}, timeT: 300, reach: []string{"done"}},
		{pkg: "idx", fn: "H_stats_rel", cmds: []string{"relindex"}, reach: []string{"done"}},
		{pkg: "idx", fn: "H_stats_rewrite", cmds: []string{"rewritenodes"}, sched: true, reach: []string{"done"}},
	}},
	{id: "C36", hs: []harness{
		{pkg: "uih", fn: "H_ui_keys", thorough: p{"keys": 4}, reach: []string{"cancelled", "done"}},
		{pkg: "uih", fn: "H_ui_phases", thorough: p{"phases": 3}, reach: []string{"done"}},
		{pkg: "uih", fn: "H_ui_stop", reach: []string{"done"}},
		{pkg: "uih", fn: "H_cmd_cancel", cmds: []string{"decompress", "tagfilter", "nodeindex", "wayindex", "rewritenodes", "relindex"}, samples: 12, reach: []string{"ended"}},
		{pkg: "uih", fn: "H_cmd_shown", cmds: []string{"decompress", "tagfilter", "nodeindex", "wayindex", "rewritenodes", "relindex"}, samples: 12, reach: []string{"done"}},
		{pkg: "uih", fn: "H_shown_schedules", sched: true, cmds: []string{"decompress", "tagfilter", "nodeindex", "wayindex", "rewritenodes", "relindex"}, samples: 12, reach: []string{"done"}},
		{pkg: "uih", fn: "H_cancel_schedules", sched: true, cmds: []string{"decompress", "tagfilter", "nodeindex", "wayindex", "rewritenodes", "relindex"}, samples: 12, reach: []string{"ended"}},
		{pkg: "uih", fn: "H_ui_none", reach: []string{"done"}},
	}},
	{id: "C35", hs: []harness{
		{pkg: "prog", fn: "H_line_worker", reach: []string{"done"}},
		{pkg: "prog", fn: "H_line_rewriting", reach: []string{"done"}},
		{pkg: "prog", fn: "H_line_writer", reach: []string{"done"}},
		{pkg: "prog", fn: "H_line_copy", reach: []string{"done"}},
		{pkg: "prog", fn: "H_line_run", reach: []string{"done", "ran"}},
		{pkg: "prog", fn: "H_line_end", reach: []string{"done", "ran"}},
		{pkg: "prog", fn: "H_line_unread", reach: []string{"done"}},
		{pkg: "prog", fn: "H_line_file", reach: []string{"done", "shown"}},
		{pkg: "prog", fn: "H_progress", sched: true, thorough: p{"blocks": 3}, reach: []string{"done"}},
	}},
	{id: "C33", hs: []harness{
		{pkg: "cmdl", fn: "H_refused", cmds: allCommands, reach: []string{"refused"}},
		{pkg: "cmdl", fn: "H_help", cmds: allCommands, reach: []string{"done"}},
		{pkg: "cmdl", fn: "H_accepted", cmds: allCommands, reach: []string{"done"}},
	}},
	{id: "C21", hs: []harness{
		{pkg: "app", fn: "H_count", cmds: []string{"entitycount"}, thorough: p{"blocks": 3}, reach: []string{"done"}},
		{pkg: "app", fn: "H_count_schedules", cmds: []string{"entitycount"}, sched: true, thorough: p{"kind": 2}, reach: []string{"done"}},
		{pkg: "app", fn: "H_count_many", cmds: []string{"entitycount"}, steps: 400000000, thorough: p{"blocks": 600, "contents": 6}, reach: []string{"done"}},
		{pkg: "app", fn: "H_find", cmds: []string{"entityfind"}, reach: []string{"done", "found"}},
		{pkg: "app", fn: "H_find_schedules", cmds: []string{"entityfind"}, sched: true, thorough: p{"blocks": 4}, reach: []string{"done"}},
		{pkg: "app", fn: "H_find_many", cmds: []string{"entityfind"}, steps: 400000000, thorough: p{"blocks": 300, "contents": 6}, reach: []string{"done"}},
		{pkg: "app", fn: "H_blocks", cmds: []string{"blockcount"}, reach: []string{"done"}},
	}},
	{id: "C28", hs: []harness{
		{pkg: "app", fn: "H_dump_nodes", cmds: []string{"dumpnodeindex"}, thorough: p{"elements": 3, "counts": 3}, reach: []string{"done"}},
		{pkg: "app", fn: "H_dump_ways", cmds: []string{"dumpwayindex"}, thorough: p{"ways": 3}, reach: []string{"done"}},
	}},
	{id: "C19", hs: []harness{
		{pkg: "app", fn: "H_filter", cmds: []string{"tagfilter"}, thorough: p{"refs": 3, "roles": 3, "blocks": 3}, reach: []string{"done", "nothing left"}},
		{pkg: "app", fn: "H_filter_schedules", cmds: []string{"tagfilter"}, sched: true, reach: []string{"done"}},
		{pkg: "app", fn: "H_filter_many", cmds: []string{"tagfilter"}, steps: 400000000, thorough: p{"blocks": 300, "contents": 6}, reach: []string{"done"}},
		{pkg: "app", fn: "H_keys", cmds: []string{"tagfilter"}, thorough: p{"len": 10}, reach: []string{"kept", "dropped"}},
	}},
	{id: "C31", hs: []harness{
		{pkg: "idx", fn: "H_chain", cmds: []string{"nodeindex", "rewritenodes", "wayindex", "relindex"}, steps: 400000000, thorough: p{"blocks": 80, "contents": 6}, reach: []string{"done"}},
	}},
	{id: "C32", hs: []harness{
		{pkg: "faulty", fn: "H_kill_decompress", thorough: p{"kills": 2}, timeT: 600, cmds: []string{"decompress"}, samples: 8, reach: []string{"finished", "killed", "repeated"}},
		{pkg: "faulty", fn: "H_kill_tagfilter", thorough: p{"kills": 2}, timeT: 600, cmds: []string{"tagfilter"}, samples: 8, reach: []string{"finished", "killed", "repeated"}},
		{pkg: "faulty", fn: "H_kill_rewritenodes", cmds: []string{"rewritenodes"}, samples: 8, reach: []string{"finished", "killed", "repeated"}},
		{pkg: "faulty", fn: "H_kill_relindex", thorough: p{"kills": 2}, timeT: 600, cmds: []string{"relindex"}, samples: 8, reach: []string{"finished", "killed", "repeated"}},
		{pkg: "faulty", fn: "H_kill_nodeindex", thorough: p{"kills": 2}, timeT: 600, cmds: []string{"nodeindex", "rewritenodes"}, samples: 8, reach: []string{"finished", "killed", "repeated", "refused"}},
		{pkg: "faulty", fn: "H_kill_wayindex", thorough: p{"kills": 2}, timeT: 600, cmds: []string{"wayindex", "relindex"}, samples: 8, reach: []string{"finished", "killed", "repeated", "refused"}},
		{pkg: "faulty", fn: "H_cut_nodeindex", cmds: []string{"nodeindex", "rewritenodes"}, samples: 8, reach: []string{"refused"}},
		{pkg: "faulty", fn: "H_cut_wayindex", cmds: []string{"wayindex", "relindex"}, samples: 8, reach: []string{"refused"}},
	}},
	{id: "C34", hs: []harness{
		{pkg: "faulty", fn: "H_cancel_decompress", cmds: []string{"decompress"}, samples: 8, reach: []string{"some", "all"}},
		{pkg: "faulty", fn: "H_cancel_tagfilter", cmds: []string{"tagfilter"}, samples: 8, reach: []string{"some", "all"}},
		{pkg: "faulty", fn: "H_cancel_rewritenodes", cmds: []string{"rewritenodes"}, samples: 8, reach: []string{"some", "all"}},
		{pkg: "faulty", fn: "H_cancel_relindex", cmds: []string{"relindex"}, samples: 8, reach: []string{"some", "all"}},
		{pkg: "faulty", fn: "H_cancel_nodeindex", cmds: []string{"nodeindex", "rewritenodes"}, samples: 8, reach: []string{"refused", "used"}},
		{pkg: "faulty", fn: "H_cancel_wayindex", cmds: []string{"wayindex", "relindex"}, samples: 8, reach: []string{"refused", "used"}},
	}},
}
