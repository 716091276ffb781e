"""what each claimed check proves and assumes; reasons for the properties that are not claimed"""
TECH = {}
B = "Every obligation (postconditions, frame, memory bounds, division, overflow, loop invariants, callee preconditions) of the listed functions is discharged for all inputs without bound. "
NOTE = {
 "C01": B + "Doubles are uninterpreted with IEEE-valid laws, so results are exact per element; the order of array elements visited does not matter.",
 "C02": B + "Floating-point sums are proved over exact reals (rounding of the compensated sum is not modelled).",
 "C03": B,
 "C04": B,
 "C05": B + "Gain and sum scaling are proved over exact reals where the code's result depends on a sum.",
 "C06": B + "Multiplication modulo 2^32 is an uninterpreted operation with the laws of a commutative monoid (trusted: commutative, associative, one is neutral). That squaring computes the product of exp factors is the ghost-code lemma h_expt in harness/lemmas.c, by induction. Factorials beyond 33 are 0 modulo 2^32; permutation counts require the divisor not to be.",
 "C07": B + "Bit-vector arithmetic for the generator steps; the array forms are related to the iterated step functions by loop invariants.",
 "C08": B + "Termination of the rejection loops is probabilistic and not claimed.",
 "C09": B + "The phase is a recursively defined function of the steps; block splitting is proved as a ghost-code lemma over the contract of the oscillator (harness/lemmas.c).",
 "C10": B + "Triangle and fractional steps are proved over exact reals.",
 "C11": B + "Exact reals.",
 "C12": B + "Doubles are uninterpreted, so the sums are exact, in the order of the direct form; streaming equals whole by ghost-code lemmas (harness/lemmas.c) over the contract of sp_convolve.",
 "C14": B + "Lengths, sums and the band responses are proved over exact reals; sin and cos are uninterpreted functions, so the window and sinc formulas are exact in them. Allocation may fail at every call.",
 "C15": B + "Over exact reals (the running sum of the code and the window sum agree up to rounding).",
 "C18": B + "Lists of any length, given to the proof as ghost arrays of their elements (harness/lemmas.c passes them as clients of the real functions); a ghost numbering of the elements stands in for the elements being distinct. Allocation may fail. Functions called through event.free are those of the client: a counting function or none.",
 "C21": B + "The generator called is a recorder (harness/lemmas.c) that checks every call it receives and may fail at any call; the resolution is positive and the span not empty.",
 "C24": B + "Lists of any length as in C18; adding and appending use the contract of sp_event_list_add proved for C18 (through the client whose body is only that call, which the verifier checks). The prepare function called is a recorder that sets an arbitrary end and may fail. For appending, start and end plus the group's end stay within the time type.",
 "C25": B + "Handlers called are a recorder (harness/lemmas.c); every capacity below 2^60 and allocation failing at every call.",
 "C28": B + "Allocation may fail or succeed at every call. malloc, calloc and realloc of the C library are assumed contracts; string comparison is an equivalence that tells literals apart by their text, over terminated strings.",
 "C29": B + "Histories: a ghost client (harness/lemmas.c) applies any sequence of operations of any length to the real functions, with entries that are contiguous in memory and added once; the contracts of the single operations cover any entry.",
 "C30": B + "Proved for quicksort instantiated with the library's own comparison and exchange functions (integer arrays and, over exact reals, sample arrays without NaN); the relation 'same elements' is the reflexive closure under in-range exchanges. The recursion is decided by its own contract with a decreasing range.",
 "C31": B + "Over exact reals. The median relies on one assumed consequence of the sorting contract (a sorted permutation lists the elements in order, which determines the element at each position); NaN is excluded. The centre of integer arrays has a known finding.",
 "C32": B + "Channel counts 0 to 2 (the size of the fixed channel array) are enumerated as cases; allocation may fail at every call.",
 "C33": B + "Contained events and mapping functions are recorders (harness/lemmas.c) that may fail and read and write the sample at one index, which is arbitrary, of each of one or two channels. Blocks are not empty."
}
NA = {
 "C13": "the filter keeps and compares its arguments as raw bytes behind a void pointer (memcmp and memcpy of a client's struct); the verifier's memory is typed cells, so no contract within reach says that equal bytes are equal arguments",
 "C16": "that the radix-2 and Bluestein routines compute the transform needs the algebra of roots of unity over index bit reversal; neither the solvers nor invariants within reach decide it, and without it the wrappers' contract says nothing a user relies on",
 "C17": "path segments call interpolation functions through pointers stored in the segments and change the segment they read; the verifier resolves function pointers per contract to one target, not per element of an array",
 "C19": "the sequencer moves events between two lists while calling generate functions that may do the same to lists they contain; contracts over two linked lists under mutation are beyond the list theory (one list with ghost numbering) used for C18 and C24",
 "C20": "threads and futures: the verifier is sequential and has no ownership transfer between threads or atomic operations",
 "C22": "a wave event reads its configuration through a void pointer and keeps one phase per channel in it, for a configuration array inside the event's own registered memory; the split lemma is proved for the oscillator itself (C09) only",
 "C23": "built on the convolution filter's state (C13), which is not under contract, and its temporary buffers are sized by floating-point rounding of it",
 "C26": "the content of a file lives behind FILE and the C library's calls (fwrite, fread, fseek) on raw bytes of a packed header; there is no contract for them here that says what a later read returns",
 "C34": "the number and content of the rows is a count over all permutations or compositions that Heap's and Kelleher's algorithms visit, in arrays of rows allocated in loops; neither an invariant within reach nor the verifier's ownership contracts (one fresh block per call) express it; the increment the sequence generator repeats is proved (C06)",
 "C27": "composed of the file functions (C26) and the sequencer (C19), neither of which is under contract",
}
WHY = {
 "C07": "The published step functions are written as logic functions over 64-bit vectors and are the postconditions of the draws; array forms are related to iterated steps by invariants.",
 "C08": "Range postconditions; the discrete draw's postcondition names the index by the cumulative sums around the deviate.",
 "C09": "Phase as a recursive logic function of the position; two-block rendering is a ghost client of the real oscillator whose postcondition is that of one call.",
 "C12": "The output is a recursive logic function (sum over input positions in order); streaming is a ghost client that calls the real functions block by block.",
 "C18": "The list is given by a ghost array of elements in order; postconditions say which array the list is afterwards.",
 "C24": "As C18, with calls to the event list through its contract.",
 "C29": "A ghost client runs an arbitrary operation sequence of arbitrary length; its loop invariant is the queue's representation invariant.",
 "C30": "Permutation by closure under exchanges, order by comparison of all pairs, recursion by contract with decreasing range.",
 "C33": "Contained functions are recorders; the order, arguments and number of their calls are postconditions, with an arbitrary index standing for all samples.",
}
