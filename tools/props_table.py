p("C01", "Element-wise array operations change exactly each element, once",
  "For every array length, content and operand, the in-place element-wise operations on sample and time arrays (add, subtract, multiply, divide, square, set, and their array-with-array forms), copying and clamping leave in every element exactly the result of that one operation on its previous value and its operand. Subtraction on times stops at zero instead of wrapping. Nothing outside the given count is read or changed.",
  ["inputs"], "all counts, all element values, all operands, operand array equal to or distinct from the changed array",
  "tests call a handful of these on 2-4 element arrays; off-by-one, wrap-around and aliasing cases are outside that sample",
  [P+"arrays-template.c", P+"arrays.c"], [("arrays_template element-wise functions", P+"arrays-template.c"), ("sp_times_limit, sp_samples_limit, sp_samples_limit_abs", P+"arrays.c")],
  ["array contents after the call"])
p("C02", "Array reductions, searches and running series equal their definition",
  "For every non-empty array, minimum and maximum return an element that bounds all others, the absolute maximum returns the largest magnitude, equality and membership tests answer exactly their question, and sums add every element once. Cumulative sums, differences and the additions, multiplications and divisions series write in position i exactly the i-th term of the series. Nothing outside the given count is read or written.",
  ["inputs"], "all counts and element values, in and out arrays equal or distinct",
  "tests use arrays of up to five elements with the extreme in one position; position- and value-dependent mistakes pass",
  [P+"arrays-template.c", P+"arrays.c"], [("min, max, absolute_max, equal, cusum, additions", P+"arrays-template.c"), ("sums, contains, differences, multiplications, divisions", P+"arrays.c")],
  ["returned value", "output array"])
p("C03", "Selecting, removing and reordering array elements loses and invents nothing",
  "Reversing, taking a range, selecting by index, listing indices above a limit, extracting a value range, removing a span, inserting a gap and subdividing an interval write exactly the described elements in their original order (or its exact reverse) and report the right count. Shuffling and swapping leave a permutation of the original elements. No position outside the stated output is written and no position outside the input is read.",
  ["inputs"], "all counts, indices and contents that satisfy the documented requirements; all random states for shuffling",
  "tests use one small array per function; the boundary positions (index 0, last index, span touching the end) and value-dependent selections are not sampled",
  [P+"arrays-template.c", P+"arrays.c"], [("reverse, range, swap, shuffle, duplicate", P+"arrays-template.c"), ("select, gt_indices, extract_in_range, remove, insert_space, subdivide_difference", P+"arrays.c")],
  ["output arrays and counts"])
p("C04", "Threshold and, or and xor of two arrays follow their truth table per element",
  "For all arrays and limits, the threshold combination of two arrays writes per position exactly what its truth table over (first value reaches limit, second value reaches limit) says: and takes the second value or zero, or takes the value that reaches the limit with preference for the first, xor gives zero if both reach it. The output may be one of the inputs. Every position depends only on the same position of both inputs.",
  ["inputs"], "all counts, contents, limits; output distinct from or equal to either input",
  "tests use one 5-element example per function; combinations of the two comparisons at one position can be wrong unnoticed",
  [P+"arrays-template.c"], [("and, or, xor", P+"arrays-template.c")], ["output array"])
p("C05", "Scaling and blending hit their target at every element",
  "Scaling an array to a target maximum or target sum multiplies every element by exactly the one factor target/current, setting a gain multiplies every element by one common factor derived from the array's largest magnitude, and a silent array or zero target gain is left unchanged. Blending and masking write at each position the linear interpolation of the two inputs at that position. Clamping by magnitude keeps the sign and never changes a value already inside the limit.",
  ["inputs"], "all counts, contents, targets, fractions",
  "tests check one array whose maximum sits at one position; a factor computed from the wrong quantity or applied to part of the array passes",
  [P+"arrays.c"], [("scale_y, scale_sum, set_gain, blend, mask, limit_abs", P+"arrays.c")], ["output arrays"])
p("C06", "Powers, factorials and digit increments are exact in machine arithmetic",
  "For every base and exponent, raising to a power and the factorial return the product of their factors in machine arithmetic. The maximum counts of sequences, compositions and permutations are their closed forms over these (no sequences from an empty set; permutations n!/(n-k)! for all n and k whose factorials machine arithmetic can hold). Incrementing a sequence of digits, lowest first, adds exactly one to the number they stand for: digits at their maximum become zero up to the first that is not, which becomes one larger, and no digit above that changes; a sequence of only maximum digits becomes all zeros.",
  ["inputs"], "all bases, exponents, set sizes, and digit sequences of any length",
  "tests enumerate one set of size 3 and one sum of 5; other bases, exponents with zero bits, and longer carries are not reached",
  [P+"arrays.c", P+"main.c"], [("sp_times_sequence_increment", P+"arrays.c"), ("sp_time_expt, sp_time_factorial, sp_set_sequence_max, sp_permutations_max, sp_compositions_max", P+"main.c")], ["returned counts", "digits after the increment"])
p("C07", "The random generator is xoshiro256 seeded by splitmix64, bit for bit",
  "For every seed, the generator state is the splitmix64 expansion of that seed, and for every state each draw returns exactly the published xoshiro256** (integers) or xoshiro256+ (floats) output and advances the state by exactly one published step. Filling an array of any length gives exactly the values, and leaves exactly the state, of the same number of single draws.",
  ["inputs", "histories"], "all 2^64 seeds, all 2^256 states, all array lengths",
  "tests print or range-check a few draws from one seed; a changed rotation, shift or constant still produces plausible numbers",
  [F+"random.c", P+"main.c"], [("sph_random_state_new, sph_random_u64, sph_random_f64_bounded, array variants", F+"random.c")], ["returned values and generator state"])
p("C08", "Bounded and distributed random values are always inside their range",
  "For every generator state and every non-zero range, bounded integer draws are strictly below the range, unit and bipolar float draws lie in [0,1) and [-1,1), and bounded float draws never leave the requested range. A discrete draw from cumulative weights with a positive total returns an index of the distribution whose weight is not zero. Array forms satisfy this for every element and draw distinct values where uniqueness is promised.",
  ["inputs", "histories"], "all generator states, ranges and cumulative distributions",
  "tests draw a few values from fixed seeds; rare states at the edge of a range are practically never hit",
  [F+"random.c", P+"arrays.c"], [("bounded draws", F+"random.c"), ("sp_time_random_discrete and array forms", P+"arrays.c")], ["returned values"])
p("C09", "Wavetable oscillators read inside the table and continue phase across blocks",
  "For every table, frequency, frequency modulation and starting phase, the oscillator adds to each output sample the table value at the current phase times the amplitude, always reads inside the table, and advances the phase by exactly the step for that sample modulo the table length. Rendering n+m samples in one call or in two consecutive calls that pass the phase on gives bit-identical output and final phase. Outputs are added to what the buffer held before.",
  ["inputs", "histories"], "all tables, block splits, modulation arrays and phases",
  "tests render one table at one frequency in one call; phase hand-over between blocks and wrap positions are not covered",
  [P+"main.c"], [("sp_wave, sp_sine, sp_sine_lfo", P+"main.c"), ("sp_phase", P+"main.c")], ["output samples", "phase state"])
p("C10", "Phase counters stay inside their cycle, triangle and square stay in range",
  "Advancing a phase by any step yields the sum modulo the cycle for in-range phases, so a phase never leaves its cycle. Accumulating a fractional step rounds it up to the next whole step. The triangle function starts at 0, rises linearly to 1 over its first length and falls linearly back to 0 over its second length, staying in [0,1]; the square function is -1 in the first and 1 in the second half of its cycle. All are periodic in time.",
  ["inputs"], "all phases, steps, cycle lengths and times",
  "tests sample a few positions of one triangle and square",
  [P+"main.c"], [("sp_phase, sp_phase_float, sp_triangle, sp_square", P+"main.c")], ["returned values"])
p("C11", "Panning gives each channel its share and stays in range",
  "For every pan value and every channel number, the amplitude of the channel lies in [0,1]. Channels form pairs of an even and the following odd channel. A pan value at the position of the even channel sends the full signal to the even and silence to the odd channel, a value at the position of the odd channel does the opposite, and in the middle between both, both are full; from the middle towards one end the amplitude of the other channel falls linearly to zero. A channel is silent for values beyond the other end of its pair and full for values beyond its own end.",
  ["inputs"], "all pan values, all channel numbers",
  "the test checks a few pan values for channels 0 and 1 only",
  [P+"main.c"], [("sp_pan_to_amp", P+"main.c")], ["returned amplitudes"])
p("C12", "Block-wise convolution equals whole-signal convolution, bit for bit",
  "For every signal, impulse response and split of the signal into blocks of any lengths, the concatenated block outputs followed by the final carryover are bit-identical to convolving the whole signal at once, which itself adds each product of one input and one impulse sample exactly once into the output at the sum of their positions, in order of input position. No sample outside the stated buffers is read or written.",
  ["inputs", "histories"], "all signals, impulse responses, block length sequences (also shorter than the impulse response)",
  "tests use two fixed small integer examples with one split each; carryover positions for other length relations and float rounding order are not covered",
  [P+"main.c"], [("sp_convolve_one, sp_convolve", P+"main.c")], ["output samples", "carryover"])
p("C13", "Filter state follows its arguments without losing the running signal",
  "A convolution filter whose arguments did not change keeps its impulse response and its pending carryover; when the impulse response function or its arguments change, the new response is computed from exactly the new arguments and used from then on, with the carryover that still overlaps preserved and new positions zero. Every state owns exactly its live buffers: nothing leaks, is freed twice or stays referenced after being freed, also when an allocation or the response computation fails.",
  ["inputs", "histories", "fault_sequences"], "all sequences of calls with equal or different arguments and response lengths; every allocation failing or succeeding",
  "tests run one filter over a few blocks with unchanged arguments and no allocation failures",
  [P+"filter.c"], [("sp_convolution_filter_state_set, sp_convolution_filter, sp_convolution_filter_state_free", P+"filter.c")],
  ["output samples", "state contents", "allocations"], [("sp_convolution_filter_state_t", "running filter", P+"filter.h")])
p("C14", "Windowed sinc impulse responses have their defining structure",
  "For all cutoffs and transitions in range, generated impulse responses have odd length not below the length for the transition, low-pass responses are scaled by one common factor, the high-pass response is exactly the spectral inversion of the corresponding low-pass response (all values negated, one added at the center), and band responses are exactly the convolution or sum of a low- and a high-pass response. Spectral inversion and reversal change exactly the described elements. No path leaks memory or reports success without a response.",
  ["inputs", "fault_sequences"], "all cutoffs, transitions, lengths; every allocation failing or succeeding",
  "tests check lengths or a few sums for fixed cutoffs",
  [P+"filter.c", P+"main.c"], [("sp_windowed_sinc_lp_hp_ir, sp_windowed_sinc_bp_br_ir", P+"filter.c"), ("sp_spectral_inversion_ir, sp_spectral_reversal_ir, sp_window_blackman, sp_sinc", P+"main.c")], ["impulse responses", "status", "allocations"])
p("C15", "The moving average is the mean of a centered window over the extended signal",
  "For every input array, radius and window narrower than the array, the output at position i is the sum of the 2*radius+1 values from i-radius to i+radius divided by 2*radius+1. Where the window reaches beyond the array, values come from the neighbouring segments when prev or next are given (the last values of prev, the first values of next), and otherwise are the array's values reflected about its first or last element and negated: the value at -j is minus the value at j, the value at n-1+j is minus the value at n-1-j. Inputs are not changed and nothing outside the arrays is touched.",
  ["inputs"], "all arrays, lengths and radii",
  "the test uses one short array without checking the reflected right edge",
  [P+"filter.c"], [("sp_moving_average", P+"filter.c")], ["output samples"])
p("C16", "The transform wrappers keep their transform definition and memory",
  "The forward and inverse transform entry points accept every length, report exactly whether the transform failed, and the inverse is exactly the forward transform with real and imaginary parts exchanged. Failure to allocate is reported and leaks nothing; no element outside the arrays is touched.",
  ["inputs", "fault_sequences"], "all lengths and contents; every allocation failing or succeeding",
  "tests run one 6-element round trip; non-power-of-two and failure paths of the library are run on sampled lengths only",
  [P+"main.c", "source/c/foreign/nayuki-fft/fft.c"], [("sp_fft, sp_ffti", P+"main.c"), ("Fft_transform", "source/c/foreign/nayuki-fft/fft.c")], ["arrays after the call", "return value"])
p("C17", "Paths interpolate exactly through their points, however they are read",
  "Sampling a path over any interval gives, for points and line segments, at every position the value of the segment covering it: move and constant segments hold their value, line segments interpolate linearly between their end points, and before the first and after the last segment the value is defined. Reading an interval in one request or in consecutive smaller requests in any order gives bit-identical samples. Outputs outside the requested range are not touched.",
  ["inputs", "histories"], "all segment lists with increasing points, all request intervals and splits",
  "tests sample one path in one request and compare a few positions",
  [F+"spline-path.c", P+"path.c"], [("spline_path_set, spline_path_get, spline_path_i_line, spline_path_i_move, spline_path_i_constant", F+"spline-path.c"), ("sp_path_samples", P+"path.c")], ["sampled values"])
p("C18", "Event lists keep every event exactly once in the requested order",
  "Adding an event to any list keeps all earlier events and their order and inserts a copy of the new one directly before the first event that does not start later than it (so a list ordered by descending start stays so), with consistent forward and backward links; a failed addition changes nothing. Reversing inverts the order and keeps the links consistent in both directions, removing takes out exactly that event, calls its free function if it has one and releases its element, and freeing a list calls the free function of every event that has one exactly once, releases every element and leaves an empty list. This holds for empty lists, single elements and both ends.",
  ["inputs", "histories"], "all list lengths, event contents and operation orders",
  "tests build lists of two or three events in one order",
  [P+"sequencer.c"], [("sp_event_list_add, sp_event_list_reverse, sp_event_list_remove, sp_event_list_free", P+"sequencer.c")], ["list contents and links"])
p("C19", "The sequencer runs each event exactly over its own time span",
  "For every list of events ordered by start and every requested range, each event is prepared at most once and before its first output, is asked to generate exactly the intersection of its span and the requested range with event-relative start and end and a block positioned at the matching offset, and is freed exactly once when its end has been passed. Events outside the range produce nothing. If an event fails, the error is returned and every remaining event is freed exactly once.",
  ["inputs", "histories", "fault_sequences"], "all ordered event lists, all request ranges and splits, failure at any event",
  "tests run a few events over one range; partial overlaps at range ends, repeated calls and failing events are sampled at most once",
  [P+"sequencer.c"], [("sp_seq", P+"sequencer.c")], ["calls received by event functions", "list after the call", "returned status"])
p("C20", "Parallel sequencing delivers the same windows and releases everything",
  "For every ordered event list and range the parallel sequencer gives each overlapping event the same window as the sequential one but into an own zeroed block, and adds every such block exactly once at its event's offset. Temporary blocks and bookkeeping are released exactly once on success and on failure, and failures are reported.",
  ["inputs", "schedules", "fault_sequences"], "all ordered event lists and ranges, failures of allocation and of events",
  "the test compares one list; scheduling and failure paths are not reached",
  [P+"sequencer.c"], [("sp_seq_parallel, sp_seq_parallel_future_f", P+"sequencer.c")], ["output block", "status", "allocations"])
p("C21", "Resolution stepping covers the requested span exactly once",
  "Generating in steps of a resolution splits every non-empty requested span into consecutive pieces that cover it exactly once, in order, without loss or overlap, no piece is longer than the resolution, every piece is written at its own offset of the output, and the first error stops the stepping and is returned.",
  ["inputs", "fault_sequences"], "all spans, resolutions, durations; failure at any step",
  "tests use durations that are multiples of the resolution",
  [P+"sequencer.c"], [("sp_event_block_generate", P+"sequencer.c")], ["calls received by the generator", "status"])
p("C22", "Wave events render every channel from its own settings, independent of blocking",
  "A prepared wave event adds to each configured channel exactly the oscillator output for that channel's table, frequency, amplitude (scaled by the event amplitude) and modulation, starting at the event-relative position, and keeps one phase per channel so that rendering in consecutive pieces equals rendering at once. Channels configured as unused receive nothing.",
  ["inputs", "histories"], "all channel configurations, block splits, modulation arrays",
  "tests render one event per configuration in one piece",
  [P+"sequencer.c"], [("sp_wave_event_prepare, sp_wave_event_channel, sp_wave_event_generate", P+"sequencer.c")], ["output block", "phase state"])
p("C23", "Noise events stay inside their buffers and release them",
  "For every configuration, duration, resolution and modulation, noise events generate in steps that never exceed their temporary buffers, use the cutoffs and amplitude that apply to each step, and add the filtered noise to exactly the requested span. All memory acquired by preparing the event is registered and released exactly once when the event is freed or preparing fails.",
  ["inputs", "histories", "fault_sequences"], "all configurations, spans, resolutions; every allocation failing or succeeding",
  "tests render a few short noise events at one sample rate",
  [P+"sequencer.c", P+"filter.c"], [("sp_noise_event_prepare, sp_noise_event_generate", P+"sequencer.c")], ["output block", "allocations"])
p("C24", "Groups contain exactly the added events and end with the last of them",
  "Adding or appending an event to a group keeps all earlier events and inserts a copy of the new one at its place by start; an appended event is shifted to begin relative to where the group ended, and the group ends at the latest end of its events. An event without an end is prepared exactly once before it is added, one with an end is not, and a failing prepare function or allocation is returned and leaves the list as it was. Preparing a group puts its events in ascending order of start, and freeing it calls the free function of every contained event exactly once, releases every list element and the registered memory.",
  ["inputs", "histories", "fault_sequences"], "all sequences of add and append with all starts and ends",
  "tests build one or two groups with fixed events",
  [P+"sequencer.c"], [("sp_group_add, sp_group_append, sp_group_prepare, sp_group_free", P+"sequencer.c")], ["group end", "contained events"])
p("C25", "Registered event memory is released exactly once, by its own handler",
  "For any number of registrations, memory registered with an event is released exactly once and in order of registration, with the handler and address given, when the event memory is freed, and the register itself is released; growing the register preserves all earlier registrations. The first registration sets the event's free function only if it has none. A failed registration is reported and leaves the register as it was.",
  ["inputs", "histories", "fault_sequences"], "all registration counts and register capacities; allocation failing at any point",
  "tests register fewer addresses than the initial capacity",
  [P+"sequencer.c", F+"array3.h"], [("sp_event_memory_ensure, sp_event_memory_add_with_handler, sp_event_memory_free", P+"sequencer.c")], ["handler calls", "allocations"])
p("C26", "Written audio files carry a correct header and exactly the given samples",
  "For every channel count, rate and sequence of writes, the header fields describe the data that was written (sizes, channels, rate, block alignment, 32-bit float format), the data are exactly the given samples interleaved by channel, and reading returns them again. Failures to open, read or write are returned as an error and release the file.",
  ["inputs", "histories", "fault_sequences"], "all channel counts, rates, sample contents and write sequences; every I/O call failing or succeeding",
  "the test writes one file with one setting and reads it back",
  [P+"file.c"], [("sp_file_open_write, sp_file_write, sp_file_close_write, sp_file_open_read, sp_file_read", P+"file.c")], ["file bytes", "status"])
p("C27", "Range rendering produces exactly the requested range",
  "Rendering an event's range to a block or file delivers the samples of exactly the positions from the given start to the given end in order, without gap or repetition at block borders, and releases block, file and event exactly once whether or not something fails.",
  ["inputs", "fault_sequences"], "all start, end and rate values; failures of allocation, event and file functions",
  "the tests render from position zero with lengths below one block",
  [P+"main.c"], [("sp_render_range_file, sp_render_range_block, sp_render_file, sp_render_block", P+"main.c")], ["file or block contents", "status"])
p("C28", "Every failure is reported as a failure, every status has a name",
  "An allocation helper reports success exactly if it stored a usable block of the requested size, otherwise it returns the memory error of its group and leaves its output unchanged; zeroing allocation yields zeros, and reallocation keeps the elements that fit and leaves the old block usable when it fails. The functions that create and duplicate arrays pass such an error on. Every library status value yields its own name and description string, and every other status value a valid string.",
  ["inputs", "fault_sequences"], "all sizes, every allocation failing or succeeding; all status values",
  "tests never run out of memory and print no status",
  [F+"helper.c", F+"status.h", P+"main.c", P+"arrays-template.c"], [("sph_helper_primitive_malloc, sph_helper_primitive_calloc, sph_helper_primitive_realloc, sph_helper_primitive_malloc_string, sph_helper_status_*", F+"helper.c"), ("sp_status_description, sp_status_name", P+"main.c")], ["status", "output pointers"])
p("C29", "The task queue is first in, first out and never loses an entry",
  "From any queue state, adding puts exactly one entry at the end, removing returns exactly the oldest entry, and size, emptiness and both end markers always agree with the entries contained, including after the queue ran empty.",
  ["inputs", "histories"], "all queue lengths and operation sequences",
  "no test exercises the queue directly",
  [F+"queue.h"], [("sph_queue_init, sph_queue_enq, sph_queue_deq", F+"queue.h")], ["dequeued entries", "size"])
p("C30", "Sorting yields the same elements in order and touches nothing else",
  "For every array of integers or samples (no NaN) and every index range, quicksort with the comparison and exchange functions of the library leaves the elements of that range as a permutation in non-decreasing order, changes nothing outside the range and never compares positions outside it. It terminates for all contents including equal elements.",
  ["inputs"], "all lengths, contents (equal elements, already sorted, reversed)",
  "tests sort one array of a few elements inside the median test",
  [F+"quicksort.h", P+"arrays-template.c"], [("quicksort", F+"quicksort.h"), ("sp_time_sort_less, sp_time_sort_swap, sp_sample_sort_less, sp_sample_sort_swap", P+"arrays-template.c")], ["array contents"])
p("C31", "Statistics equal their definitions",
  "For all non-empty arrays, range, mean, median, standard deviation, skewness, kurtosis, center and inharmonicity equal their mathematical definition over all elements (exact reals), the maximum counts of unique and repeated sequences equal their closed forms, and scaling samples to times keeps every result between zero and the given maximum. No statistic changes its input or reads outside it, and no failure leaks.",
  ["inputs", "fault_sequences"], "all lengths (odd, even, one) and contents",
  "tests compute each statistic for one array",
  [P+"statistics.c"], [("sp_stat_* functions", P+"statistics.c")], ["returned statistics"])
p("C32", "Blocks own one buffer per channel and copy or clear all of it",
  "Creating a block gives every channel its own zeroed buffer of the requested size or fails with nothing left allocated; copying, clearing, offsetting and freeing act on all channels over the whole size and on nothing else. Interleaving and deinterleaving are exact inverses.",
  ["inputs", "fault_sequences"], "all channel counts and sizes; allocation failing at any channel",
  "tests allocate small blocks successfully",
  [P+"main.c", P+"file.c"], [("sp_block_new, sp_block_free, sp_block_copy, sp_block_zero, sp_block_with_offset", P+"main.c"), ("sp_interleave, sp_deinterleave", P+"file.c")], ["channel buffers", "allocations"])
p("C33", "Map events transform exactly what their event generated",
  "A map event prepares, generates and frees exactly its contained event, passes the same window on, and hands the mapping function exactly the generated output; the isolated form lets the event generate into a private block of zeros of the same size and channel count and gives the mapping function that block as input and the still unchanged output block as output, so other content of the output is not mapped. An event's prepare function is called once and forgotten after success. A failure of the event, the mapping function or an allocation is returned unchanged and nothing runs after it, and temporary blocks are always released. Freeing a map event calls the free function of the contained event once, if it has one, and releases the registered memory.",
  ["inputs", "fault_sequences"], "all windows, mapping functions and contained events; allocation and event failures",
  "one test with one mapping",
  [P+"sequencer.c"], [("sp_map_event_prepare, sp_map_event_generate, sp_map_event_isolated_generate, sp_map_event_free", P+"sequencer.c")], ["output block", "calls received"])
p("C34", "Enumerating permutations, compositions and sequences returns each row once",
  "Enumerating permutations or compositions returns only rows that are permutations of the given set, respectively that sum to the given number, each once, in freshly allocated rows, and frees everything on failure. The announced number of rows is the number of rows stored. The sequence generator fills each following row with the increment of the row before.",
  ["inputs", "fault_sequences"], "all sizes, bases and sets; every allocation failing or succeeding",
  "tests enumerate one set of size 3 and one sum of 5, and no allocation fails",
  [P+"arrays.c"], [("sp_times_sequences, sp_times_permutations, sp_times_compositions", P+"arrays.c")], ["returned rows and counts"])
