// Code generated by gen.sh; DO NOT EDIT.
package props

// All maps harness names to functions for native replay.
var All = map[string]func(){
	"A01_t01":            A01_t01,
	"A01_t02":            A01_t02,
	"A01_t03":            A01_t03,
	"A01_t04":            A01_t04,
	"A01_t05":            A01_t05,
	"A01_t06":            A01_t06,
	"A01_t07":            A01_t07,
	"A01_t08":            A01_t08,
	"A01_t09":            A01_t09,
	"A01_t10":            A01_t10,
	"A01_t11":            A01_t11,
	"A01_t12":            A01_t12,
	"A01_t13":            A01_t13,
	"C01_decode32":       C01_decode32,
	"C01_decode64":       C01_decode64,
	"C01_int32":          C01_int32,
	"C01_int64":          C01_int64,
	"C01_tags":           C01_tags,
	"C02_containers":     C02_containers,
	"C02_header":         C02_header,
	"C02_huge":           C02_huge,
	"C02_indefinite":     C02_indefinite,
	"C02_large":          C02_large,
	"C02_lengths":        C02_lengths,
	"C02_series":         C02_series,
	"C02_small":          C02_small,
	"C03_bool":           C03_bool,
	"C03_boolbad":        C03_boolbad,
	"C03_nullenum":       C03_nullenum,
	"C04_decode":         C04_decode,
	"C04_huge":           C04_huge,
	"C04_long":           C04_long,
	"C04_many":           C04_many,
	"C04_negative":       C04_negative,
	"C04_tag":            C04_tag,
	"C04_trip":           C04_trip,
	"C05_decode":         C05_decode,
	"C05_padded":         C05_padded,
	"C05_specials":       C05_specials,
	"C05_trip":           C05_trip,
	"C06_any":            C06_any,
	"C06_container":      C06_container,
	"C06_truncated":      C06_truncated,
	"C07_confined":       C07_confined,
	"C07_deep":           C07_deep,
	"C07_huge":           C07_huge,
	"C07_nested":         C07_nested,
	"C07_siblings":       C07_siblings,
	"C07_sub":            C07_sub,
	"C08_long":           C08_long,
	"C08_nested":         C08_nested,
	"C08_ops":            C08_ops,
	"C09_assign":         C09_assign,
	"C09_history":        C09_history,
	"C09_huge":           C09_huge,
	"C09_long":           C09_long,
	"C09_trip":           C09_trip,
	"C09_typing":         C09_typing,
	"C09_unset":          C09_unset,
	"C10_contents":       C10_contents,
	"C10_element":        C10_element,
	"C10_huge":           C10_huge,
	"C10_long":           C10_long,
	"C10_order":          C10_order,
	"C11_decoded":        C11_decoded,
	"C11_element":        C11_element,
	"C11_huge":           C11_huge,
	"C11_long":           C11_long,
	"C11_order":          C11_order,
	"C11_pairs":          C11_pairs,
	"C11_single":         C11_single,
	"C11_unknown":        C11_unknown,
	"C12_contents":       C12_contents,
	"C12_element":        C12_element,
	"C12_huge":           C12_huge,
	"C12_labels":         C12_labels,
	"C12_longfields":     C12_longfields,
	"C12_many":           C12_many,
	"C12_manylabels":     C12_manylabels,
	"C12_notmatrix":      C12_notmatrix,
	"C12_order":          C12_order,
	"C12_orderfields":    C12_orderfields,
	"C12_set":            C12_set,
	"C12_unknown":        C12_unknown,
	"C13_element":        C13_element,
	"C13_fieldorder":     C13_fieldorder,
	"C13_function":       C13_function,
	"C13_huge":           C13_huge,
	"C13_invocation":     C13_invocation,
	"C13_many":           C13_many,
	"C13_manyargs":       C13_manyargs,
	"C13_unknown":        C13_unknown,
	"C14_badconn":        C14_badconn,
	"C14_connection":     C14_connection,
	"C14_huge":           C14_huge,
	"C14_label":          C14_label,
	"C14_many":           C14_many,
	"C14_signal":         C14_signal,
	"C15_empty":          C15_empty,
	"C15_huge":           C15_huge,
	"C15_large":          C15_large,
	"C15_numbers":        C15_numbers,
	"C15_qualified":      C15_qualified,
	"C15_qualifiedlarge": C15_qualifiedlarge,
	"C15_reference":      C15_reference,
	"C15_shapes":         C15_shapes,
	"C16_huge":           C16_huge,
	"C16_large":          C16_large,
	"C16_long":           C16_long,
	"C16_mixed":          C16_mixed,
	"C17_bytes":          C17_bytes,
	"C17_cut":            C17_cut,
	"C17_longpath":       C17_longpath,
	"C17_nested":         C17_nested,
	"C17_prefix":         C17_prefix,
	"C17_window":         C17_window,
	"C18_command":        C18_command,
	"C18_connection":     C18_connection,
	"C18_flags":          C18_flags,
	"C18_matrix":         C18_matrix,
	"C19_element":        C19_element,
	"C19_huge":           C19_huge,
	"C19_large":          C19_large,
	"C19_many":           C19_many,
	"C19_matrix":         C19_matrix,
	"C19_merge":          C19_merge,
	"C19_numbers":        C19_numbers,
	"C19_series":         C19_series,
	"C19_sources":        C19_sources,
	"C20_deep":           C20_deep,
	"C20_huge":           C20_huge,
	"C20_large":          C20_large,
	"C20_lookup":         C20_lookup,
	"C20_moved":          C20_moved,
	"C20_paths":          C20_paths,
	"C20_place":          C20_place,
	"C20_qualified":      C20_qualified,
	"C21_both":           C21_both,
	"C21_counts":         C21_counts,
	"C21_error":          C21_error,
	"C21_huge":           C21_huge,
	"C21_large":          C21_large,
	"C21_many":           C21_many,
	"C21_removed":        C21_removed,
	"C22_huge":           C22_huge,
	"C22_kids":           C22_kids,
	"C22_large":          C22_large,
	"C22_qualified":      C22_qualified,
	"C22_request":        C22_request,
	"C22_root":           C22_root,
	"C23_boundary":       C23_boundary,
	"C23_chunks":         C23_chunks,
	"C23_exact":          C23_exact,
	"C23_huge":           C23_huge,
	"C23_long":           C23_long,
	"C23_many":           C23_many,
	"C23_packets":        C23_packets,
	"C23_same":           C23_same,
	"C23_several":        C23_several,
	"C23_small":          C23_small,
	"C24_burst":          C24_burst,
	"C24_crc":            C24_crc,
	"C24_damaged":        C24_damaged,
	"C24_double":         C24_double,
	"C24_dropped":        C24_dropped,
	"C24_escaped":        C24_escaped,
	"C24_long":           C24_long,
	"C24_valid":          C24_valid,
	"C25_between":        C25_between,
	"C25_foreign":        C25_foreign,
	"C25_garbage":        C25_garbage,
	"C25_header":         C25_header,
	"C25_long":           C25_long,
	"C25_many":           C25_many,
	"C25_short":          C25_short,
	"C25_truncated":      C25_truncated,
	"C26_abandoned":      C26_abandoned,
	"C26_count":          C26_count,
	"C26_damaged":        C26_damaged,
	"C26_huge":           C26_huge,
	"C26_large":          C26_large,
	"C26_lost":           C26_lost,
	"C26_packets":        C26_packets,
	"C26_sequence":       C26_sequence,
	"C27_backlog":        C27_backlog,
	"C27_between":        C27_between,
	"C27_client":         C27_client,
	"C27_clientbetween":  C27_clientbetween,
	"C27_forty":          C27_forty,
	"C27_frames":         C27_frames,
	"C27_run":            C27_run,
	"C28_escapes":        C28_escapes,
	"C28_frame":          C28_frame,
	"C28_stream":         C28_stream,
	"C29_any":            C29_any,
	"C29_burst":          C29_burst,
	"C29_concurrent":     C29_concurrent,
	"C29_full":           C29_full,
	"C29_kept":           C29_kept,
	"C29_large":          C29_large,
	"C29_limit":          C29_limit,
	"C29_order":          C29_order,
	"C29_preempt":        C29_preempt,
	"C29_run":            C29_run,
	"C30_again":          C30_again,
	"C30_lengths":        C30_lengths,
	"C30_many":           C30_many,
	"C30_none":           C30_none,
	"C30_once":           C30_once,
	"C30_settings":       C30_settings,
	"C30_tie":            C30_tie,
	"C30_two":            C30_two,
	"C31_large":          C31_large,
	"C31_late":           C31_late,
	"C31_lost":           C31_lost,
	"C31_mute":           C31_mute,
	"C31_nil":            C31_nil,
	"C31_tree":           C31_tree,
	"C31_twice":          C31_twice,
	"C31_updates":        C31_updates,
	"C31_wide":           C31_wide,
	"C32_again":          C32_again,
	"C32_big":            C32_big,
	"C32_failing":        C32_failing,
	"C32_leftover":       C32_leftover,
	"C32_malformed":      C32_malformed,
	"C32_many":           C32_many,
	"C32_pending":        C32_pending,
	"C32_states":         C32_states,
	"C32_within":         C32_within,
	"C33_args":           C33_args,
	"C33_console":        C33_console,
	"C33_huge":           C33_huge,
	"C33_null":           C33_null,
	"C33_order":          C33_order,
	"C33_series":         C33_series,
	"C34_client":         C34_client,
	"C34_contents":       C34_contents,
	"C34_decoded":        C34_decoded,
	"C34_decoder":        C34_decoder,
	"C34_elements":       C34_elements,
	"C34_huge":           C34_huge,
	"C34_loggers":        C34_loggers,
	"C34_memory":         C34_memory,
	"C34_parameter":      C34_parameter,
	"C34_path":           C34_path,
	"C34_window":         C34_window,
	"C35_deep":           C35_deep,
	"C35_kinds":          C35_kinds,
	"C35_lifo":           C35_lifo,
	"C36_api":            C36_api,
	"C36_huge":           C36_huge,
	"C36_independent":    C36_independent,
	"C36_long":           C36_long,
	"C36_percent":        C36_percent,
	"C36_values":         C36_values,
	"C37_connect":        C37_connect,
	"C37_listeners":      C37_listeners,
	"C37_requests":       C37_requests,
	"C37_slow":           C37_slow,
	"C37_trees":          C37_trees,
	"C37_within":         C37_within,
	"C38_clients":        C38_clients,
	"C38_delivered":      C38_delivered,
	"C38_encode":         C38_encode,
	"C38_frames":         C38_frames,
	"C38_held":           C38_held,
	"C38_keepalive":      C38_keepalive,
	"C38_merged":         C38_merged,
	"C38_messages":       C38_messages,
	"C38_raw":            C38_raw,
	"C38_request":        C38_request,
	"C38_twice":          C38_twice,
	"C38_values":         C38_values,
	"C38_writer":         C38_writer,
}

// Bubble lists the harnesses that run in virtual time.
var Bubble = map[string]bool{
	"A01_t01":           true,
	"A01_t02":           true,
	"A01_t03":           true,
	"A01_t04":           true,
	"A01_t05":           true,
	"A01_t06":           true,
	"A01_t07":           true,
	"A01_t08":           true,
	"A01_t09":           true,
	"A01_t10":           true,
	"A01_t11":           true,
	"A01_t12":           true,
	"A01_t13":           true,
	"C27_backlog":       true,
	"C27_client":        true,
	"C27_clientbetween": true,
	"C27_forty":         true,
	"C27_run":           true,
	"C29_any":           true,
	"C29_burst":         true,
	"C29_concurrent":    true,
	"C29_full":          true,
	"C29_kept":          true,
	"C29_large":         true,
	"C29_limit":         true,
	"C29_order":         true,
	"C29_preempt":       true,
	"C29_run":           true,
	"C30_again":         true,
	"C30_lengths":       true,
	"C30_many":          true,
	"C30_none":          true,
	"C30_once":          true,
	"C30_settings":      true,
	"C30_tie":           true,
	"C30_two":           true,
	"C31_large":         true,
	"C31_late":          true,
	"C31_lost":          true,
	"C31_mute":          true,
	"C31_nil":           true,
	"C31_tree":          true,
	"C31_twice":         true,
	"C31_updates":       true,
	"C31_wide":          true,
	"C32_again":         true,
	"C32_big":           true,
	"C32_failing":       true,
	"C32_leftover":      true,
	"C32_malformed":     true,
	"C32_many":          true,
	"C32_pending":       true,
	"C32_states":        true,
	"C32_within":        true,
	"C34_client":        true,
	"C34_contents":      true,
	"C34_decoded":       true,
	"C34_decoder":       true,
	"C34_elements":      true,
	"C34_loggers":       true,
	"C34_parameter":     true,
	"C34_path":          true,
	"C34_window":        true,
	"C37_connect":       true,
	"C37_listeners":     true,
	"C37_requests":      true,
	"C37_slow":          true,
	"C37_trees":         true,
	"C37_within":        true,
	"C38_clients":       true,
	"C38_held":          true,
}
