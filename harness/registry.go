// Code generated by tools/registry.sh; DO NOT EDIT.

package harness

// All lists the harness functions.
var All = map[string]func(){
	"C01_any":         C01_any,
	"C01_far":         C01_far,
	"C01_fold":        C01_fold,
	"C01_opts":        C01_opts,
	"C01_tmpl":        C01_tmpl,
	"C02_after":       C02_after,
	"C02_doc":         C02_doc,
	"C02_line":        C02_line,
	"C02_lines":       C02_lines,
	"C02_long":        C02_long,
	"C02_many":        C02_many,
	"C03_chain":       C03_chain,
	"C03_edges":       C03_edges,
	"C03_long":        C03_long,
	"C03_many":        C03_many,
	"C03_value":       C03_value,
	"C04_key":         C04_key,
	"C04_layout":      C04_layout,
	"C04_long":        C04_long,
	"C04_many":        C04_many,
	"C04_section":     C04_section,
	"C05_after":       C05_after,
	"C05_key":         C05_key,
	"C05_lines":       C05_lines,
	"C05_long":        C05_long,
	"C05_many":        C05_many,
	"C05_modes":       C05_modes,
	"C05_read":        C05_read,
	"C05_section":     C05_section,
	"C06_align":       C06_align,
	"C06_delims":      C06_delims,
	"C06_lines":       C06_lines,
	"C06_long":        C06_long,
	"C06_modes":       C06_modes,
	"C06_names":       C06_names,
	"C06_value":       C06_value,
	"C07_append":      C07_append,
	"C07_appends":     C07_appends,
	"C07_files":       C07_files,
	"C07_lines":       C07_lines,
	"C07_loaders":     C07_loaders,
	"C07_many":        C07_many,
	"C07_merge":       C07_merge,
	"C07_reload":      C07_reload,
	"C07_three":       C07_three,
	"C08_big":         C08_big,
	"C08_buffer":      C08_buffer,
	"C08_cuts":        C08_cuts,
	"C08_fault":       C08_fault,
	"C08_kinds":       C08_kinds,
	"C08_several":     C08_several,
	"C08_types":       C08_types,
	"C09_crowd":       C09_crowd,
	"C09_loaded":      C09_loaded,
	"C09_many":        C09_many,
	"C09_repeated":    C09_repeated,
	"C09_twins":       C09_twins,
	"C09_unique":      C09_unique,
	"C10_history":     C10_history,
	"C10_loaded":      C10_loaded,
	"C10_many":        C10_many,
	"C10_readers":     C10_readers,
	"C10_twins":       C10_twins,
	"C11_deep":        C11_deep,
	"C11_delim":       C11_delim,
	"C11_dots":        C11_dots,
	"C11_loaded":      C11_loaded,
	"C11_many":        C11_many,
	"C11_repeated":    C11_repeated,
	"C11_tree":        C11_tree,
	"C11_twins":       C11_twins,
	"C12_children":    C12_children,
	"C12_default":     C12_default,
	"C12_keys":        C12_keys,
	"C12_lines":       C12_lines,
	"C12_load":        C12_load,
	"C12_many":        C12_many,
	"C12_raw":         C12_raw,
	"C12_sections":    C12_sections,
	"C12_twins":       C12_twins,
	"C12_unicode":     C12_unicode,
	"C13_cycle":       C13_cycle,
	"C13_many":        C13_many,
	"C13_mapper":      C13_mapper,
	"C13_missing":     C13_missing,
	"C13_near":        C13_near,
	"C13_parents":     C13_parents,
	"C13_refs":        C13_refs,
	"C13_text":        C13_text,
	"C13_twins":       C13_twins,
	"C14_again":       C14_again,
	"C14_bool":        C14_bool,
	"C14_default":     C14_default,
	"C14_durations":   C14_durations,
	"C14_expanded":    C14_expanded,
	"C14_float":       C14_float,
	"C14_ints":        C14_ints,
	"C14_large":       C14_large,
	"C14_limits":      C14_limits,
	"C14_times":       C14_times,
	"C14_twins":       C14_twins,
	"C15_again":       C15_again,
	"C15_any":         C15_any,
	"C15_ascii":       C15_ascii,
	"C15_delim":       C15_delim,
	"C15_expanded":    C15_expanded,
	"C15_floats":      C15_floats,
	"C15_lists":       C15_lists,
	"C15_long":        C15_long,
	"C15_many":        C15_many,
	"C15_nothing":     C15_nothing,
	"C15_times":       C15_times,
	"C15_twins":       C15_twins,
	"C16_again":       C16_again,
	"C16_expanded":    C16_expanded,
	"C16_floats":      C16_floats,
	"C16_fractions":   C16_fractions,
	"C16_in":          C16_in,
	"C16_ints":        C16_ints,
	"C16_many":        C16_many,
	"C16_near":        C16_near,
	"C16_times":       C16_times,
	"C16_twins":       C16_twins,
	"C17_api":         C17_api,
	"C17_fold":        C17_fold,
	"C17_lines":       C17_lines,
	"C17_load":        C17_load,
	"C17_many":        C17_many,
	"C17_near":        C17_near,
	"C17_off":         C17_off,
	"C17_special":     C17_special,
	"C17_split":       C17_split,
	"C17_text":        C17_text,
	"C17_twins":       C17_twins,
	"C18_api":         C18_api,
	"C18_frame":       C18_frame,
	"C18_lines":       C18_lines,
	"C18_many":        C18_many,
	"C18_off":         C18_off,
	"C18_shadows":     C18_shadows,
	"C18_special":     C18_special,
	"C18_text":        C18_text,
	"C18_twins":       C18_twins,
	"C19_body":        C19_body,
	"C19_created":     C19_created,
	"C19_fold":        C19_fold,
	"C19_kinds":       C19_kinds,
	"C19_lines":       C19_lines,
	"C19_many":        C19_many,
	"C19_several":     C19_several,
	"C19_text":        C19_text,
	"C19_twins":       C19_twins,
	"C20_absent":      C20_absent,
	"C20_again":       C20_again,
	"C20_auto":        C20_auto,
	"C20_bool":        C20_bool,
	"C20_boolread":    C20_boolread,
	"C20_lines":       C20_lines,
	"C20_many":        C20_many,
	"C20_name":        C20_name,
	"C20_skip":        C20_skip,
	"C21_after":       C21_after,
	"C21_cont":        C21_cont,
	"C21_continue":    C21_continue,
	"C21_debug":       C21_debug,
	"C21_escapes":     C21_escapes,
	"C21_large":       C21_large,
	"C21_lines":       C21_lines,
	"C21_many":        C21_many,
	"C21_open":        C21_open,
	"C21_options":     C21_options,
	"C21_pytext":      C21_pytext,
	"C21_python":      C21_python,
	"C21_quoted":      C21_quoted,
	"C22_delims":      C22_delims,
	"C22_embedded":    C22_embedded,
	"C22_expanded":    C22_expanded,
	"C22_floats":      C22_floats,
	"C22_likeTime":    C22_likeTime,
	"C22_limits":      C22_limits,
	"C22_lists":       C22_lists,
	"C22_many":        C22_many,
	"C22_mapper":      C22_mapper,
	"C22_nested":      C22_nested,
	"C22_none":        C22_none,
	"C22_package":     C22_package,
	"C22_repeated":    C22_repeated,
	"C22_same":        C22_same,
	"C22_scalars":     C22_scalars,
	"C22_slice":       C22_slice,
	"C22_targets":     C22_targets,
	"C22_times":       C22_times,
	"C22_twice":       C22_twice,
	"C22_twins":       C22_twins,
	"C22_wrong":       C22_wrong,
	"C23_child":       C23_child,
	"C23_default":     C23_default,
	"C23_delims":      C23_delims,
	"C23_floats":      C23_floats,
	"C23_ints":        C23_ints,
	"C23_kinds":       C23_kinds,
	"C23_likeTime":    C23_likeTime,
	"C23_lists":       C23_lists,
	"C23_many":        C23_many,
	"C23_mapper":      C23_mapper,
	"C23_nil":         C23_nil,
	"C23_omit":        C23_omit,
	"C23_options":     C23_options,
	"C23_over":        C23_over,
	"C23_overShadows": C23_overShadows,
	"C23_reflector":   C23_reflector,
	"C23_shadows":     C23_shadows,
	"C23_strings":     C23_strings,
	"C23_targets":     C23_targets,
	"C23_tree":        C23_tree,
	"C24_compound":    C24_compound,
	"C24_keys":        C24_keys,
	"C24_mixed":       C24_mixed,
	"C24_sections":    C24_sections,
	"C24_three":       C24_three,
	"C25_bom":         C25_bom,
	"C25_crlf":        C25_crlf,
	"C25_docs":        C25_docs,
	"C25_end":         C25_end,
	"C25_later":       C25_later,
	"C25_lines":       C25_lines,
	"C25_long":        C25_long,
	"C25_start":       C25_start,
	"C26_edited":      C26_edited,
	"C26_fault":       C26_fault,
	"C26_format":      C26_format,
	"C26_lines":       C26_lines,
	"C26_loaded":      C26_loaded,
	"C26_many":        C26_many,
	"C26_names":       C26_names,
	"C26_nowhere":     C26_nowhere,
	"C26_twins":       C26_twins,
	"C26_value":       C26_value,
	"C27_ascii":       C27_ascii,
	"C27_long":        C27_long,
	"C27_several":     C27_several,
	"C27_twins":       C27_twins,
	"C27_unicode":     C27_unicode,
	"C27_used":        C27_used,
	"C27_value":       C27_value,
	"C28_expand":      C28_expand,
	"C28_later":       C28_later,
	"C28_lists":       C28_lists,
	"C28_missing":     C28_missing,
	"C28_names":       C28_names,
	"C28_reads":       C28_reads,
	"C29_comments":    C29_comments,
	"C29_moved":       C29_moved,
	"C29_settings":    C29_settings,
	"C29_shapes":      C29_shapes,
	"C30_name":        C30_name,
	"C30_read":        C30_read,
	"C30_value":       C30_value,
	"C31_copies":      C31_copies,
	"C31_parallel":    C31_parallel,
	"C31_sequence":    C31_sequence,
	"C32_renamed":     C32_renamed,
	"C33_doc":         C33_doc,
	"C33_edges":       C33_edges,
	"C33_keys":        C33_keys,
	"C33_value":       C33_value,
}
