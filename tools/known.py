# substring of the commit subject -> [(property, what failed)]
FIXED = {
 "reverse writes each element": [("C03", "sp_times_reverse/sp_samples_reverse of n elements wrote out[n], one past the output, and left out[0] unset")],
 "samples absolute_max does not truncate": [("C02", "sp_samples_absolute_max of {0.5} returned 0: magnitudes were truncated to integers")],
 "samples swap exchanges samples": [("C03", "sp_samples_swap kept only 32 bits of a sample (temporary of type sp_time_t)")],
 "and combination of two arrays": [("C04", "sp_times_and_times compared a with the limit twice and never b")],
 "sp_times_permutations permutes": [("C34", "sp_times_permutations read a result count that is unset when the allocation fails, and ignored the given set")],
 "sp_times_compositions does not free": [("C34", "sp_times_compositions freed an uninitialised pointer when the first allocation succeeded and the second failed")],
 "sp_times_scale_sum scales the input": [("C05", "sp_times_scale_sum read out instead of in")],
 "sp_times_extract_in_range": [("C03", "sp_times_extract_in_range took values above the upper bound and stored them with gaps")],
 "sp_times_scale_y scales": [("C05", "sp_times_scale_y used an integer factor and wrote in instead of out")],
 "sp_samples_scale_y scales": [("C05", "sp_samples_scale_y divided by the count instead of scaling to the target")],
 "sp_samples_scale_sum writes": [("C05", "sp_samples_scale_sum changed in instead of out")],
 "failed allocation is not reported": [("C28", "a failed allocation returned a status whose id is the id of success")],
 "sph_helper_status_description": [("C28", "sph_helper_status_description and _name did not return their string")],
 "sp_status_name did not name": [("C28", "sp_status_name of an end-of-file status and of a memory failure reported by the helper library returned \"unknown\"")],
 "sp_times_random_discrete_unique does not read": [("C08", "sp_times_random_discrete_unique read unset output elements and wrote beyond the filled part when size exceeded cudist_size")],
 "sc header declares": [("C03", "the sc source of the samples swap declaration disagreed with its definition")],
 "sine period for odd sizes": [("C09", "sp_sine_period of an odd size divided by the truncated half size: the table does not hold one period (size 1 divided by zero)")],
 "sp_square overflowed": [("C10", "sp_square(2147483648, 10) doubled the time in 32 bits and returned the wrong half")],
 "sp_pan_to_amp was wrong for channels": [("C11", "sp_pan_to_amp(3, 3) was not full and values left [0,1] for channels above 1")],
 "sp_windowed_sinc_bp_br_ir leaked": [("C14", "sp_windowed_sinc_bp_br_ir leaked the first response when a later step failed, and the intermediate responses of a band-reject filter")],
 "sp_moving_average reflected": [("C15", "sp_moving_average({1,2,3,4,5}, radius 1) without next used in[1], in[2], .. instead of the values before the last element beyond the end")],
 "quicksort compared elements": [("C30", "quicksort of {1,2} compared the element before the range (index -1)")],
 "median of an odd number": [("C31", "sp_stat_times_median of {1,2,3} returned 1, and every median leaked its copy of the array")],
 "sp_stat_times_mean wrapped": [("C31", "sp_stat_times_mean({4294967295, 1}) returned 0")],
 "sp_samples_scale_to_times exceeded": [("C31", "sp_samples_scale_to_times({2,4}, max 10) returned 10 and 20, and equal samples divided by zero")],
 "sp_event_list_reverse of an empty": [("C18", "sp_event_list_reverse of an empty list stored an unset pointer as its head")],
 "sp_event_memory_add_with_handler wrote": [("C25", "sp_event_memory_ensure(event, 0) followed by sp_event_memory_add wrote beyond the zero-size register")],
 "sp_permutations_max divided": [("C06", "sp_permutations_max(5, 2) divided by 5 - 2 instead of its factorial")],
}
FINDINGS = [("C31", "sp_stat_times_center counts the first element twice in the sum of the masses: {1,2,3,4,5,6,7,8} gives 4.54 instead of 4.67 (the existing test asserts 4.54)")]
