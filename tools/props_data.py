SMOKE = "The two reliable tests decode one well-formed sine file (as MHAS and as MP4) to the end and compare PCM; "

prop("C01", "Indices and lengths computed from the stream stay inside the arrays they address",
     """Whatever bytes the application supplies, every array index, pointer step and block-copy length the decoder
     derives from them lies inside the object it addresses: each count, index or length field read from the stream is
     either unable to exceed its array by its width, or is checked against the array's size before use, and a value that
     does not fit is refused with an error instead of being used.""",
     ["inputs", "configurations"], "every byte sequence of every length, in every packetisation, under every set-up",
     SMOKE + "every count in it is small and fits; a missing or off-by-one limit is not executed.",
     ["decoder/impeghd_mhas_parse.c", "decoder/ia_core_coder_init_config.c", "decoder/impd_drc_static_payload.c",
      "decoder/impeghd_multichannel.c", "decoder/impeghd_hoa_frame.c", "decoder/ia_core_coder_ext_ch_ele.c"],
     [("count fields checked against array sizes", "decoder/*.c")], ["return code of ia_mpegh_dec_*; memory outside the arrays"],
     check=("whole-program interval + taint abstract interpretation (LLVM IR), context and error-path sensitive", "other",
            """Proven sites hold for all inputs within the domain's assumptions; sites without a finite bound in the domain
            are reported as undecided in the evidence, not as covered. A reviewed list (known/imprecise.json) silences ranges judged imprecise."""))

prop("C15", "Arithmetic on stream values is defined: no zero divisor, over-wide shift or bit request",
     """Whatever the input, no integer division or remainder has a zero divisor, no shift amount is negative or as wide as
     its operand, and no read from the bit reader asks for fewer than zero or more than 32 bits: a stream-derived divisor,
     shift or width is checked or cannot take such a value.""",
     ["inputs", "configurations"], "every input and set-up",
     SMOKE + "its divisors and widths are ordinary.",
     ["decoder/ia_core_coder_igf_dec.c", "decoder/impeghd_dmx_mtx.c", "decoder/impeghd_hoa_frame.c",
      "decoder/ia_core_coder_bitbuffer.c", "decoder/impeghd_oam_dec.c"],
     [("divisors, shift amounts and field widths", "decoder/*.c")], ["process survival; decoded values"],
     check=("whole-program interval + taint abstract interpretation (LLVM IR) of divisors, shifts and field widths", "other",
            """As for C01: proven sites hold for every input, undecided ones are counted in the evidence, seven imprecise
            ranges are silenced by a reviewed list."""))

prop("C16", "Numbers from the stream and the configuration keep their value",
     """A number the decoder reads from the stream or takes from the application's configuration keeps its value on the way
     to where it is used: no variable, structure field, parameter or cast that carries it is too narrow for the values its
     field can take, and none reads it back with the other sign. A length, count, identifier or offset at the top of its
     field's range is neither cut down nor turned negative.""",
     ["inputs", "configurations"], "every value a stream or configuration field can take, up to the top of its range",
     SMOKE + "their fields hold small values, which every type carries.",
     ["decoder/impeghd_mhas_parse.c", "decoder/impeghd_mhas_parse.h", "decoder/impd_drc_static_payload.c",
      "decoder/impeghd_ele_interaction_intrfc.c", "decoder/ia_core_coder_headerdecode.c"],
     [("conversions of parsed values", "decoder/*.c"), ("field types", "decoder/*.h")], ["decoded values; lengths skipped; error codes"],
     check=("whole-program interval + taint abstract interpretation (LLVM IR) of integer conversions", "other",
            """Conversions whose operand has a finite range in the domain hold for every input; those without one are counted
            as undecided in the evidence (about one in ten). 32-bit reads are taken as bit patterns. Three reviewed entries."""))

prop("C04", "Errors raised while decoding are never dropped",
     """When any stage of configuration, parsing, decoding or rendering returns an error code, the API call in progress
     returns an error code (never success, and never silently carries on with the damaged state), except where a
     documented recovery replaces it. In particular no caller may discard, overwrite or turn into success an error it
     received.""",
     ["inputs", "fault_sequences"], "every input and set-up under which some stage reports an error; every call chain to the API",
     SMOKE + "no stage ever fails in them, so no propagation path is executed at all.",
     ["decoder/impeghd_api.c", "decoder/ia_core_coder_decode_main.c", "decoder/impeghd_mhas_parse.c",
      "decoder/impeghd_error_codes.h"],
     [("IA_ERRORCODE return values checked by each caller", "decoder/*.c")], ["return value of ia_mpegh_dec_*"],
     check=("interprocedural constant propagation of each error code from every failing call to every exit (LLVM IR)",
            "other",
            """Every call site of every function that can return an error code is an obligation; sound for codes carried in
            return values; nine callee-level exemptions (recoveries and unreachable failures) are listed in the check."""))

prop("C05", "Decoder instances share no mutable state",
     """Any number of decoder instances, created in any order and used from different threads at the same time, behave as
     if each were alone: nothing one instance does can change what another one computes. The library therefore never
     writes an object of static storage duration.""",
     ["schedules", "histories"], "all interleavings of API calls on distinct instances, all histories of earlier instances",
     SMOKE + "they run a single instance in a single thread and process.",
     ["decoder/*.c"], [("all state lives in application-allocated memory reached from the handle", "decoder/impeghd_api.c")],
     ["PCM output and return codes of concurrent instances"],
     check=("whole-program pointer-flow closure from every global/static object (LLVM IR effect analysis)", "other",
            """Exhaustive over all objects with static storage duration and all their uses in the linked library; assumes
            tables of pointers are not used to reach back into writable statics (they point to constant objects)."""))

prop("C06", "The library acts only through its API and the supplied allocator",
     """Library code performs no effect outside the memory it is handed: no file, console, environment, clock, process,
     thread or signal operation, no allocation except through the application's allocator callbacks, and it never ends or
     aborts the host process, whatever the input.""",
     ["inputs", "configurations"], "every input, configuration and call sequence",
     SMOKE + "an effect on a path they do not take (an error branch, another layout) is invisible to them.",
     ["decoder/*.c"], [("no use of stdio/stdlib services in decoder/", "decoder/")],
     ["system calls and process state during ia_mpegh_dec_*"],
     check=("call-graph effect analysis: closed set of external routines reachable from library code (LLVM IR)", "other",
            """Exhaustive over direct calls, inline assembly and address-taken declarations in all library translation
            units; indirect calls can only reach address-taken library functions or the application's callbacks."""))

prop("C14", "Decoding tables hold their defined values",
     """Every constant table the decoder works from holds the values it is defined to hold: transform windows and twiddle
     factors equal their closed forms, Huffman and arithmetic code books are decodable (prefix-free, complete,
     monotone), scale factor band tables rise to the transform length, loudspeaker layouts are consistent with each
     other, and all other tables equal the values the standard prescribes.""",
     ["inputs", "configurations"], "every entry of every constant table, whichever stream or layout would make it matter",
     SMOKE + "one sampling rate, one layout and a handful of spectral values exercise a fraction of a percent of the entries.",
     ["decoder/ia_core_coder_rom.c", "decoder/impeghd_hoa_rom.c", "decoder/impd_drc_rom.c", "decoder/impeghd_cicp_2_geometry_rom.c",
      "decoder/impeghd_multichannel_rom.c"], [("constant tables", "decoder/*rom*.c")], ["decoded PCM of streams that use the entry"],
     check=("closed-form recomputation, structural laws and reference comparison of every compiled constant initialiser", "other",
            """Exhaustive over all constant objects of the library. For tables without closed form or law the oracle is the
            pinned tree's transcription of ISO/IEC 23008-3, which is not itself verified."""))

prop("C13", "The API reports only documented error codes, each with one meaning",
     """Every value an API function can return is 0 or one of the error codes of the public header; the codes are pairwise
     distinct, the severity and class encoded in a code agree with its name (so an application that tests the fatal bit
     decides rightly), and the error handler shipped with the sample application has the message of that code, and not of
     another one, for every code.""",
     ["inputs", "configurations"], "every code and every path on which a function contributing to an API result returns",
     SMOKE + "no call fails in them.",
     ["decoder/impeghd_error_codes.h", "decoder/impeghd_api.c", "test/impeghd_error.c"],
     [("error code encoding", "decoder/impeghd_error_codes.h"), ("message tables", "test/impeghd_error.c")],
     ["return value of ia_mpegh_dec_*; message printed by the sample application"],
     check=("backward constant closure of API results, and evaluation of the code and message tables (LLVM IR)", "other",
            """Exhaustive over error codes and over all functions whose result flows into an API result."""))

prop("C24", "No pointer to a local variable is used after the variable has gone",
     """Whatever the input and whatever the order of API calls, the decoder never follows a pointer to a local variable of a
     function that has returned, or of a block that has been left: no function returns such an address, and where one is kept
     in decoder state (or in anything else that outlives the function) it is overwritten before the function returns, or is
     read only by functions called from it while the variable is still there.""",
     ["inputs", "histories"], "every address of a local that is stored, returned or merged, in every function",
     SMOKE + "a stale stack address usually still holds the old value, until another call history or build overwrites it.",
     ["decoder/*.c", "decoder/impeghd_hoa_dec_init.c", "decoder/ia_core_coder_decode_main.c"],
     [("scratch position of the renderer", "decoder/impeghd_hoa_dec_init.c impeghd_hoa_ren_input_init"),
      ("bit buffer of the HOA decoder", "decoder/ia_core_coder_decode_main.c impeghd_hoa_dec_main_process")],
     ["PCM output and return codes over any sequence of ia_mpegh_dec_init and ia_mpegh_dec_execute"],
     check=("escape analysis of stack addresses with callee summaries and coverage of every load by a live frame (LLVM IR)", "other",
            """Members are told apart by structure type, not by object; addresses passed through integers are not followed.
            Jump targets (setjmp buffers) are decided by C03."""))

prop("C23", "No variable is used before it has been given a value",
     """Whatever the input, no function of the library reads a local variable, or a member of a local structure, that
     nothing has given a value: every path to a use passes an assignment, and a result returned through a pointer has been
     written on every path that reports success.  What the decoder outputs, returns or skips therefore never depends on
     what the stack happened to hold.""",
     ["inputs", "fault_sequences"], "every path, including those behind errors and rare syntax elements",
     SMOKE + "rare branches that leave a variable unset are not taken, and stale stack contents are often zero.",
     ["decoder/*.c", "decoder/ia_core_coder_decode_main.c", "decoder/impeghd_obj_ren_dec.c"],
     [("locals and out-parameters", "decoder/*.c")], ["PCM output, byte counts and return codes: the same on every run"],
     check=("marker propagation and interprocedural definite-assignment dataflow (LLVM IR)", "other",
            """Scalar locals and members of local structures are covered, arrays only as a whole (any element written), copies
            of whole structures not; a variable whose address escapes beyond what is followed (about one in eight) is taken to be set."""))

prop("C20", "Stack use is bounded whatever the input",
     """The stack an API call needs does not depend on the input: no function has a local object whose size is computed at
     run time, no input can make functions re-enter each other more than a fixed number of times, and the deepest chain of
     calls from any API function fits into one MiB, the smallest default thread stack of the supported platforms.""",
     ["inputs", "configurations"], "every call chain from every API function",
     SMOKE + "a deep or input-sized stack shows only under the input that causes it, or on a platform with a smaller stack.",
     ["decoder/ia_core_coder_decode_main.c", "decoder/impeghd_api.c", "decoder/impeghd_mhas_parse.c",
      "decoder/impeghd_obj_ren_dec.c"],
     [("configuration change re-enters decoding once", "decoder/ia_core_coder_decode_main.c ia_core_coder_dec_main"),
      ("recursion of the sort routines", "decoder/impeghd_obj_ren_dec.c")], ["stack consumption of ia_mpegh_dec_*"],
     check=("call-graph analysis: frame sizes, dynamic allocas and proven recursion bounds (LLVM IR)", "other",
            """Sound over the call graph with indirect calls resolved by type. Frame sizes are the locals of the source
            program plus a fixed overhead per frame, not those of a particular compiler."""))

prop("C10", "PCM output saturates and never wraps",
     """Every sample delivered to the application, in each supported word size (16, 24, 32 bits) and on the way to an
     external renderer, is the decoded value scaled to that word size and, beyond full scale, the nearest full-scale value:
     clipping happens exactly at full scale and no value is converted or cut down in a way that wraps its sign.""",
     ["inputs", "configurations"], "every sample value the decoder can compute, every output word size",
     SMOKE + "16-bit words of a signal that never reaches full scale.",
     ["decoder/ia_core_coder_decode_main.c", "decoder/ia_core_coder_cnst.h"],
     [("ia_core_coder_samples_sat", "decoder/ia_core_coder_decode_main.c"),
      ("external renderer PCM", "decoder/ia_core_coder_decode_main.c ia_core_coder_dec_ext_ele_proc")],
     ["PCM bytes in the output buffer"],
     check=("value-range analysis of every float-to-integer conversion that feeds PCM words (LLVM IR)", "other",
            """Covers every PCM conversion for every number; NaN is outside the property (a comparison with it is false)."""))

prop("C09", "A call that fails still moves the input forward",
     """Whatever the input and whatever the error, when ia_mpegh_dec_init or ia_mpegh_dec_execute returns an error code the
     number of consumed bytes it reports was set by that very call and is not zero: never the count of an earlier call, never
     zero.  An application that skips what was consumed and tries again therefore gets past any damaged data and comes to an
     end, as the sample application's loops rely on.""",
     ["inputs", "fault_sequences", "histories"], "every error return of the two API functions",
     SMOKE + "early error returns are not taken by intact streams.",
     ["decoder/impeghd_api.c", "decoder/ia_core_coder_headerdecode.c", "decoder/ia_core_coder_decode_main.c"],
     [("consumed count of init and execute", "decoder/impeghd_api.c ia_mpegh_dec_init, ia_mpegh_dec_execute"),
      ("count in the decoder state", "decoder/impeghd_api.c ia_core_coder_dec_init, ia_core_coder_dec_execute")],
     ["i_bytes_consumed after ia_mpegh_dec_init and ia_mpegh_dec_execute that return an error"],
     check=("path-sensitive interprocedural typestate of the byte counts, correlated with the returned code (LLVM IR)", "other",
            """That the count is the right one, or within the bytes given, is not decided, only that it is fresh and not zero."""))

prop("C12", "Every API call returns: no input makes a loop run for ever",
     """Whatever the stream and the configuration, every loop in the library ends: it counts towards a limit its counter can
     reach, walks forward through an object, consumes input, or shrinks what it works on. No bitstream value can make a
     step zero, a limit unreachable for its counter, or a round that changes nothing.""",
     ["inputs", "configurations"], "every loop of the library and every value the stream can give its limits and steps",
     SMOKE + "a hang shows only under the value that causes it.",
     ["decoder/*.c"], [("bit reader leaves on exhausted input", "decoder/ia_core_coder_bitbuffer.c"),
                       ("loops over stream-coded counts", "decoder/*.c")], ["return of ia_mpegh_dec_*"],
     check=("classification of every natural loop by a termination argument: scalar evolution, monotone counters, strict "
            "walks, consumed input (LLVM IR)", "other",
            """Exhaustive over loops. 46 loops are beyond the classifier and accepted by review (listed in the evidence);
            they bound the number of further unclassified loops per file at zero, they are not proofs. Loops whose counter
            is a plain count may still run long: the property is about ending, not about time."""))

prop("C03", "Input that runs out mid-parse is reported, never jumped out of blindly",
     """When a parser needs more bits than its buffer holds, control leaves to an error handler that belongs to the API call
     in progress and whose function has not returned, never through a jump target left over from an earlier call or never
     set; that handler reports a non-zero error code, parses nothing more, and relies on no local whose value is lost.""",
     ["inputs", "histories", "configurations"],
     "every truncation point of every buffer, on every call after any history of calls",
     SMOKE + "no buffer ends early in them, and a stale jump target works as long as nobody jumps.",
     ["decoder/ia_core_coder_bitbuffer.c", "decoder/impeghd_api.c", "decoder/ia_core_coder_decode_main.c"],
     [("longjmp on exhausted input", "decoder/ia_core_coder_bitbuffer.c"),
      ("handlers", "decoder/impeghd_api.c ia_core_coder_dec_init, ia_core_coder_dec_execute, ia_mpegh_dec_init")],
     ["error code of ia_mpegh_dec_init and ia_mpegh_dec_execute"],
     check=("interprocedural must-typestate of jump targets from the API functions, and handler rules (LLVM IR)", "other",
            """Sound up to field-based aliasing (one abstract location per structure field). One buffer without a handler is
            accepted because its reads are proven to fit the bits checked for (scene displacement)."""))

prop("C07", "Memory taken from the application is checked, sufficient, aligned and given back",
     """Each block a decoder instance obtains from the application's allocator is checked before it is used, large enough
     and suitably aligned for every object placed in it, cleared before use, and recorded so that deleting the instance
     releases it exactly once; a failed allocation is reported as an error and leaves an instance that can still be
     deleted without leak or double release. No memory is obtained or released at any other time.""",
     ["fault_sequences", "configurations"], "every allocation succeeding or failing, every configuration, then deletion",
     SMOKE + "no allocation fails in them, and a block that is too small or never released goes unnoticed.",
     ["decoder/impeghd_api.c", "decoder/impeghd_memory_standards.h"],
     [("ia_mpegh_dec_create, impeghd_alloc_and_assign_mem, ia_mpegh_dec_delete", "decoder/impeghd_api.c")],
     ["calls of malloc_mpegh and free_mpegh; accesses to the blocks"],
     check=("path-sensitive constant propagation with a typestate per allocated block (LLVM IR)", "other",
            """Exhaustive over allocation outcomes and configuration branches of creation followed by deletion. Areas the
            decoder carves out of the scratch block later are not covered."""))

prop("C08", "Configuration values are bounded before use",
     """Whatever values the application puts into the fields of its configuration, a value outside its documented range is
     rejected or replaced before the decoder indexes a table, sizes a copy, shifts or divides with it; what the decoder
     keeps of the configuration stays in its documented range for the life of the instance.""",
     ["configurations"], "every value of every integer field of the configuration structures",
     SMOKE + "two configurations, both valid.",
     ["decoder/impeghd_api.c", "decoder/impeghd_config_params.h", "decoder/ia_core_coder_decode_main.c"],
     [("ia_mpegh_dec_create", "decoder/impeghd_api.c"), ("set_config_params", "decoder/impeghd_api.c")],
     ["values kept in the decoder instance; indices, lengths, divisors and shifts"],
     check=("whole-program interval analysis with an unbounded configuration (LLVM IR)", "other",
            """Sites whose range depends on values the intervals cannot bound are undecided and not covered; pointers of the
            configuration and the lengths that go with them are taken to be right."""))

# --- properties static analysis cannot decide here: listed as not applicable ---------------------------------------
NA_SMOKE = "Two decodes of one sine file compare PCM for one configuration; "

prop("N01", "Decoded PCM conforms to ISO/IEC 23008-3",
     """For every conformant low complexity profile stream the decoded PCM equals that of the reference decoder within the
     conformance tolerance, for every coding tool (FD, LPD, IGF, stereo prediction, multichannel coding, HOA, objects).""",
     ["inputs"], "every conformant stream", NA_SMOKE + "a wrong constant or formula in an unused tool is not run.",
     ["decoder/*.c"], [("signal processing", "decoder/*.c")], ["PCM output"],
     na="""Equality of numeric results with a reference decoder that is not present; values of floating point signal chains
     over arbitrary streams are out of reach of a static argument. The part that is data rather than computation (tables) is
     claimed as C14.""")

prop("N02", "Packetisation does not change the output",
     """The PCM obtained does not depend on how the application splits the byte stream over ia_mpegh_dec_execute calls, nor
     on whether the same access units arrive in MHAS packets or in MP4 samples.""",
     ["inputs", "histories"], "every stream and every split of it", NA_SMOKE + "with the sample application's chunking only.",
     ["decoder/impeghd_api.c", "decoder/ia_core_coder_decode_main.c", "decoder/impeghd_mhas_parse.c"],
     [("input accumulation", "decoder/ia_core_coder_decode_main.c ia_core_coder_dec_main")], ["PCM output"],
     na="""A two-run (relational) property over unbounded histories and the full decoder state; no sound static relation
     between the two runs is in reach. Tested by execution it would not be static analysis.""")

prop("N03", "Decoding continues seamlessly over configuration changes and pre-roll",
     """When an immediate play-out frame carries pre-roll, the output continues without gap, repetition or discontinuity, and
     samples of the old configuration are flushed exactly once.""",
     ["inputs", "histories"], "every sequence of configuration changes", NA_SMOKE + "the configuration never changes.",
     ["decoder/ia_core_coder_decode_main.c"], [("pre-roll", "decoder/ia_core_coder_decode_main.c")], ["PCM output"],
     na="""Depends on numeric signal content over a history of frames; the domain tracks neither.""")

prop("N04", "Loudness and dynamic range control reach their targets",
     """Loudness normalisation and the selected DRC set apply the gains the stream and the target loudness prescribe, without
     clicks at gain set changes, and the limiter keeps every sample below its ceiling.""",
     ["inputs", "configurations"], "every gain sequence, effect type and target", NA_SMOKE + "no DRC is coded.",
     ["decoder/impd_drc_gain_dec.c", "decoder/impd_drc_selection_process.c", "decoder/impeghd_peak_limiter.c"],
     [("gain decoding", "decoder/impd_drc_gain_dec.c")], ["PCM level"],
     na="""Quantifies over floating point gain curves (products, powers and exponentials of run-time values) for which no
     static bound tight enough to state the property exists. Saturation of the final words is claimed as C10.""")

prop("N05", "Rendering preserves level and position",
     """Format conversion, object rendering, HOA decoding and binauralisation map each source to the loudspeakers such that
     its energy is preserved and its direction is the coded one.""",
     ["inputs", "configurations"], "every layout, object position and HOA order", NA_SMOKE + "rendering 5.1 as 5.1 only.",
     ["decoder/impeghd_obj_ren_dec.c", "decoder/impeghd_format_conv_init.c", "decoder/impeghd_hoa_renderer.c",
      "decoder/impeghd_binaural_renderer.c"], [("gain computation", "decoder/impeghd_obj_ren_dec.c")], ["PCM output"],
     na="""Numeric identities over real matrices computed at run time (inverses, norms); static analysis of floating point
     code bounds ranges at best, not these equalities.""")

prop("N06", "Filter banks and FFT kernels compute their transform",
     """Every inverse MDCT, FFT and resampler kernel computes the transform of its mathematical definition for every length
     it is called with, and overlapping blocks reconstruct the signal.""",
     ["inputs"], "every input vector and every length", NA_SMOKE + "few lengths occur.",
     ["decoder/impeghd_fft.c", "decoder/ia_core_coder_imdct.c", "decoder/impeghd_resampler.c"],
     [("FFT kernels", "decoder/impeghd_fft.c")], ["PCM output"],
     na="""Proving a butterfly network equal to a DFT needs symbolic execution of unrolled arithmetic, which is a different
     family; the coefficient tables of these kernels are checked against their closed forms in C14.""")

prop("N07", "A flushed or re-initialised decoder behaves like a new one",
     """After the application's flush request or a second initialisation, the output for a following stream equals that of a
     freshly created instance with the same configuration.""",
     ["histories"], "every history before the flush", NA_SMOKE + "each process decodes one stream.",
     ["decoder/impeghd_api.c", "decoder/ia_core_coder_decode_main.c"],
     [("reset of decoder state", "decoder/ia_core_coder_decode_main.c")], ["PCM output after flush"],
     na="""Whether a field left over from earlier frames influences later output is a relational question over about ten
     thousand fields; a static list of fields written by the reset path is easy to produce but deciding which of the others
     are dead needs reasoning the pointer-heavy state defeats, and reporting them all would be noise.""")

prop("N08", "Decoding is fast enough for real time",
     """The work per frame is bounded so that a frame is decoded within its duration on the supported platforms.""",
     ["inputs"], "every frame", NA_SMOKE + "and measure no time.", ["decoder/*.c"], [("frame decoding", "decoder/*.c")],
     ["time per ia_mpegh_dec_execute"],
     na="""Needs a worst-case execution time model of the target and loop bounds for loops over stream-coded counts; only
     termination is claimed (C12).""")

prop("N09", "The sample application survives malformed container files",
     """The MP4 parser and the command line front end of the sample application neither crash nor read outside their buffers
     for any input file.""",
     ["inputs"], "every input file", NA_SMOKE + "one well-formed MP4 file.",
     ["test/mp4/impeghd_mp4_parser.c", "test/impeghd_main.c"], [("MP4 box parsing", "test/mp4/impeghd_mp4_parser.c")],
     ["exit of ia_mpeghd_testbench"],
     na="""The sample application lives in test/, reads files through nested heap-allocated tables sized by unrelated box
     fields; the interval domain proves almost none of its sites, so a check would decide nothing. The library is the product.""")
