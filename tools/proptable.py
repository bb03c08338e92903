NA = []
prop("C01", "Output does not depend on block size, read sizes or how output is consumed",
     "The bytes nd writes are a function of the command line and the contents of the inputs alone: they are the same whatever the internal block size, however many bytes each read of an input returns, and whether the input is a file, a pipe or standard input. "
     "In particular every combination of byte-stream, slicing and slice-editing options gives exactly the output its documentation describes, with no slice lost, duplicated, split or reordered where a slice crosses an internal boundary.",
     ["inputs", "schedules", "configurations"], "every pipeline configuration x every input contents x every sequence of read sizes x every block size",
     "Unit tests fix one block size, one mock reader per node and each node on its own; they never run two slice nodes together over short reads.",
     ["src/pipeline.rs", "src/streambuf.rs", "src/byte/mod.rs", "src/segment/mod.rs", "src/drain/scatter.rs"],
     [("incremental buffer with margin", "src/streambuf.rs StreamBuf::fill_buf, consume"), ("fill/consume protocol of slice nodes", "src/segment/*.rs fill_segment_buf, consume"),
      ("spawn pipeline", "src/pipeline.rs Pipeline::spawn_stream")])
prop("C02", "Concatenation, interleaving and alignment of the inputs",
     "With --cat N the stream is the inputs one after another, each padded at its tail with filler bytes to a multiple of N; with --zip N it is made of N-byte pieces taken from each input in turn until the end of the shortest input, whose last piece is padded with filler to N bytes. "
     "This holds for any number of inputs of any lengths (including empty ones and the same file given several times), any N >= 1 and any filler byte.",
     ["inputs", "configurations", "schedules"], "any number of inputs, any lengths, any N and filler, any delivery",
     "Unit tests use a few fixed strings with one block size; interplay of short reads, N and uneven lengths is sampled only lightly.",
     ["src/byte/cat.rs", "src/byte/zip.rs", "src/byte/raw.rs", "src/streambuf.rs"],
     [("CatStream cache/dup", "src/byte/cat.rs"), ("ZipStream gather kernels", "src/byte/zip.rs"), ("alignment at EOF", "src/streambuf.rs mark_eof")])
prop("C03", "--cut keeps the union of the ranges and --pad adds exactly N and M bytes",
     "--cut yields the bytes whose offsets lie in the union of the given ranges, in stream order and each at most once, for any mix of start- and end-relative bounds, overlapping, empty, reversed or out-of-range ranges. "
     "--pad N,M then adds exactly N filler bytes before and M after the stream.",
     ["inputs", "configurations", "schedules"], "any list of range expressions, any N,M, any stream",
     "End-relative ranges depend on the total length which a streaming implementation learns last; tests check a handful of lists.",
     ["src/byte/cut.rs", "src/byte/clip.rs", "src/mapper.rs", "src/byte/zero.rs"],
     [("CutStream two-stage cutter", "src/byte/cut.rs"), ("ClipStream / ZeroStream padding", "src/pipeline.rs, src/byte/clip.rs, src/byte/zero.rs"), ("range mapping and trans_offset", "src/mapper.rs RangeMapper")])
prop("C04", "--patch replaces exactly the recorded ranges",
     "Applying a patch gives the stream in which, for every record `offset length | array`, the bytes [offset, offset+length) of the original stream are replaced by the array (deleted if there is none) and every other byte is kept in place and order. "
     "Records at the very end of the stream insert there, a record that reaches past the end is clipped, and records beyond the end have no effect.",
     ["inputs", "schedules"], "any sorted list of disjoint records, any stream, any delivery of both",
     "Tests sample few patches at one block size; records straddling block boundaries and the end of the stream are a matter of alignment of two streams.",
     ["src/byte/patch.rs", "src/text/parser/mod.rs", "src/byte/text.rs"],
     [("PatchStream feeder and skip states", "src/byte/patch.rs"), ("patch record parser", "src/text/parser")])
prop("C05", "--width slices are exactly the windows of the stream",
     "--width N,S..E yields, for every k with k*N inside the stream, the window obtained by mapping [k*N, (k+1)*N) through S..E and clipping it to the stream, in order, omitting those that are empty. "
     "Every byte of the stream therefore appears in the default dump exactly once and at its own offset.",
     ["inputs", "configurations", "schedules"], "any N, any S..E, any stream length and delivery",
     "The slicer is driven by precomputed phase arithmetic across buffer boundaries; tests cover few parameters.",
     ["src/segment/stride.rs"], [("ConstSlicer phase/margin arithmetic", "src/segment/stride.rs")])
prop("C06", "--find reports every leftmost non-overlapping occurrence",
     "--find yields exactly the occurrences of the byte pattern met by scanning the stream from left to right and resuming after each occurrence; none is missed or duplicated at internal buffer boundaries, for any pattern length.",
     ["inputs", "schedules"], "any pattern, any stream, any delivery",
     "Boundary-crossing matches and self-overlapping patterns need particular alignments of matches and buffers.",
     ["src/segment/exact.rs"], [("ExactMatchSlicer carry-over", "src/segment/exact.rs")])
prop("C07", "--walk follows the chain of record lengths given by the expressions",
     "--walk splits the stream into consecutive chunks: at each chunk head the given expressions are evaluated over the bytes that follow the head, and give the lengths of the consecutive slices of the chunk; the next chunk starts right after it. "
     "Slices are clipped at the end of the stream, and an expression that is not positive makes nd fail rather than loop or emit wrong slices.",
     ["inputs", "configurations", "schedules"], "any list of expressions, any stream and delivery",
     "The needed look-ahead depends on data; tests use a few fixed chains at one block size.",
     ["src/segment/walk.rs", "src/eval.rs"], [("WalkSlicer", "src/segment/walk.rs")])
prop("C08", "--slice yields every given range, clipped, sorted and without duplicates",
     "--slice yields the non-empty ranges of its list after clipping them to the stream, ordered by start then end, with identical ranges reported once, for start- and end-relative bounds in any order.",
     ["inputs", "configurations", "schedules"], "any list of ranges, any stream and delivery",
     "End-relative ranges become known only at the end of the stream; tests check a handful of lists.",
     ["src/segment/range.rs", "src/mapper.rs"], [("RangeSlicer Cutter", "src/segment/range.rs")])
prop("C09", "--guide puts slices exactly where the guide file says",
     "--guide yields one slice per record of the guide file in file order, at the record's offset and length clipped to the stream; records that lie beyond the end of the stream yield nothing and a record's array is ignored.",
     ["inputs", "schedules"], "any sorted guide, any stream and delivery of both",
     "Two independent streams advance against each other; tests use one alignment.",
     ["src/segment/guided.rs", "src/text/parser/mod.rs"], [("GuidedSlicer", "src/segment/guided.rs")])
prop("C10", "--regex reports every match inside every slice and none across slices",
     "--regex yields exactly the non-overlapping leftmost-first matches of the regular expression inside each slice considered on its own, ordered by start then end over all slices.",
     ["inputs", "configurations", "schedules"], "any pattern, any slices, any stream and delivery",
     "Slices may overlap and span several buffers; tests cover one slicer over one buffer.",
     ["src/segment/regex.rs", "src/segment/mod.rs"], [("RegexSlicer", "src/segment/regex.rs"), ("settle_segments", "src/segment/mod.rs")])
prop("C11", "--invert maps every gap between neighbouring slices",
     "--invert S..E yields, for each pair of neighbouring slices (with the two ends of the stream acting as the outermost ones), the interval obtained by mapping the gap from the end of the former to the start of the latter through S..E, clipped to the stream, non-empty ones only, ordered by start then end.",
     ["inputs", "configurations", "schedules"], "any slices (overlapping ones included), any expressions, any delivery",
     "A gap is known only when the next slice has been seen, possibly many buffers later.",
     ["src/segment/bridge.rs"], [("BridgeStream", "src/segment/bridge.rs")])
prop("C12", "--extend maps every slice through every expression",
     "--extend yields, for every slice and every given expression, the slice mapped through it and clipped to the stream, non-empty ones only, ordered by start then end.",
     ["inputs", "configurations", "schedules"], "any slices, any expressions, any delivery",
     "Slices extended forwards or backwards cross buffers and change order.",
     ["src/segment/extend.rs"], [("ExtendStream", "src/segment/extend.rs")])
prop("C13", "--merge joins exactly the runs of slices closer than N",
     "--merge N replaces each maximal run of consecutive slices in which each slice starts no later than N bytes after the furthest end so far by one slice from the first start to the furthest end, and leaves all other slices alone.",
     ["inputs", "configurations", "schedules"], "any slices, any N, any delivery",
     "Runs may be arbitrarily long and span many buffers.",
     ["src/segment/merge.rs"], [("MergeStream accumulator", "src/segment/merge.rs")])
prop("C14", "--lines keeps exactly the slices whose numbers are selected",
     "--lines yields exactly the slices whose zero-based number lies in the union of the given ranges, in order, for start- and end-relative bounds in any combination.",
     ["inputs", "configurations", "schedules"], "any list of ranges, any number of slices, any delivery",
     "Numbers from the end are known only after the last slice; tests check few lists.",
     ["src/segment/filter.rs", "src/mapper.rs"], [("FilterStream", "src/segment/filter.rs")])
prop("C15", "Textual inputs denote the stream their records spell",
     "With --in-format x (hexadecimal) or d (decimal offset and length) an input is the stream in which every record's array is placed at the record's offset, gaps between records being filled with filler bytes; with nnx the arrays are simply joined. "
     "Column padding, a trailing text mosaic (whatever it contains), upper- or lower-case digits, the number of digits of offset and length, records without array and a missing last newline do not change the meaning.",
     ["inputs", "configurations", "schedules"], "any well-formed text, any delivery, both the AVX2 and the portable parser",
     "Parsing is vectorised over fixed-width chunks of lines that may be cut anywhere by a read; tests feed a few whole lines.",
     ["src/text/parser/mod.rs", "src/text/parser/x86_64.rs", "src/byte/text.rs"],
     [("record parser", "src/text/parser/mod.rs TextParser"), ("vector kernels", "src/text/parser/x86_64.rs"), ("placing of records", "src/byte/text.rs GaplessTextStream, TextStream")])
prop("C16", "The dump shows every slice with its offset, length, bytes and text",
     "For every slice the default output is one line: 12-digit hexadecimal offset, hexadecimal length, the array of its bytes as two-digit columns padded with blanks to the column width, and the same bytes as text with unprintable ones shown as dots; "
     "with --out-format d offset and length are decimal, and with b the raw bytes of the slices are written one after another.",
     ["inputs", "configurations", "schedules"], "any slices of any lengths (longer and shorter than the columns), any bytes, both the AVX2 and the portable formatter",
     "The formatter is vectorised with overhanging stores and a length field whose width varies; tests cover a few slices.",
     ["src/text/formatter/mod.rs", "src/text/formatter/x86_64.rs", "src/drain/scatter.rs", "src/pipeline.rs"],
     [("line formatter", "src/text/formatter/mod.rs TextFormatter"), ("vector kernels", "src/text/formatter/x86_64.rs")])
prop("C17", "A dump can be read back and applied: nothing is lost on the way",
     "Reading a dump with the --in-format it was written in restores the dumped bytes at their offsets (the whole stream when the slices cover it), and applying a dump of disjoint slices with --patch to the stream it was taken from leaves that stream unchanged; "
     "editing the array of one record changes exactly the bytes of that slice.",
     ["inputs", "configurations", "histories"], "any stream, any disjoint slices, every output format that keeps offsets",
     "It is a relation between two or three runs of the whole program with different formats and options.",
     ["src/text/formatter/mod.rs", "src/text/parser/mod.rs", "src/byte/text.rs", "src/byte/patch.rs"],
     [("formatter", "src/text/formatter"), ("parser", "src/text/parser"), ("patch", "src/byte/patch.rs")],
     tech="TLA+ round-trip theorem checked with TLC on small scopes; TLC trace validation of dump/restore/patch chains",
     note="spec/Round.tla checks the law for all small streams and slice lists in the specification; chains dump -> restore and dump -> patch of the real code are judged by TLC (spec/CheckChain.tla), with the dump the code itself has written. Randomised sampling of chains.")
prop("C18", "Malformed textual records are rejected, never silently misread",
     "A textual input, patch, guide or patch-back record that does not follow `offset length | array' (a character that is no digit, a missing or misplaced separator, an odd or over-long column, an over-long number, an empty line, records that overlap in a patch) makes nd fail with a non-zero exit status; no output is made up from it. "
     "Which texts are accepted does not depend on the CPU or on the position of the defect in the line.",
     ["inputs", "faults"], "any text with any defect at any position, both parsers, any delivery",
     "Defects at particular columns of particular vector chunks need particular positions; tests try three.",
     ["src/text/parser/mod.rs", "src/text/parser/x86_64.rs", "src/byte/text.rs", "src/byte/patch.rs", "src/segment/guided.rs"],
     [("separator and digit validation", "src/text/parser/mod.rs read_line"), ("vector kernels", "src/text/parser/x86_64.rs parse_hex_single, parse_multi")])
prop("C19", "Expressions have the values of 64-bit integer arithmetic wherever they occur",
     "Every option argument and template that takes an expression (N and N,M arguments, S..E bounds, --walk elements, {EXPR} in output templates) gives it one meaning: literals in the bases 2, 8, 10 and 16 with underscores and the suffixes k/M/G/T/E and ki/Mi/Gi/Ti/Ei; unary + - ~; * / %, + -, << >>, < <= > >=, &, ^, | with C's precedence and left associativity; parentheses; "
     "n and l in templates, s and e in ranges, the signed little-endian arrays b[], h[], i[], l[] in --walk. The internal simplification never changes the value, rejects a valid expression, or accepts an invalid one; S..E bounds are those expressions that come down to s+k, e+k or k.",
     ["inputs"], "every expression text in every context, every stream the arrays are read from",
     "The simplifier rewrites trees by pattern; each rewrite rule needs particular shapes of trees and particular operators at them, of which the tests fix a few dozen.",
     ["src/eval.rs", "src/mapper.rs", "src/segment/walk.rs", "src/template.rs"],
     [("lexer and parser", "src/eval.rs tokenize, mark_prefices, sort_into_rpn"), ("simplifier", "src/eval.rs canonize_rpn"), ("evaluation", "src/eval.rs eval_rpn"), ("anchors of S..E", "src/mapper.rs SegmentMapperAnchor::from_str"), ("array elements", "src/segment/walk.rs get_array_element")],
     tech="TLA+ denotation of expressions (spec/NdExpr.tla over 64-bit NdInt.tla); TLC judges the results of generated expressions run through the CLI",
     note="spec/NdExpr.tla is a lexer, parser and evaluator of the expression texts; every generated expression is run through nd (--pad, --cut, --walk, -o) and TLC evaluates the same text. No opinion on overflow, shifts outside 0..63, and the undocumented operators.")
prop("C20", "--output TEMPLATE puts every slice into the file its rendered name tells",
     "With --output TEMPLATE, the file of a slice is the template rendered for that slice alone: literal text, {n}/{l} (offset and index of the slice), {(EXPR)}, each with an optional format specifier of Rust for i64. A file is emptied before its first slice and holds, in order, the formatted slices whose names are equal; constant templates collect everything in one file; \"\" and \"-\" are the standard output. "
     "No other file is created, changed or removed. Templates that cannot be understood, and names that cannot be opened, make nd fail.",
     ["inputs", "configurations"], "every stream, slice list, template, format specifier, prior content of the directory, and every delivery of the input",
     "The index and offset of a slice are accumulated over the chunks in which slices arrive; unit tests never render a template for a slice.",
     ["src/drain/scatter.rs", "src/template.rs"],
     [("rendering", "src/template.rs Template::from_str, render"), ("per-slice dispatch, truncate/append", "src/drain/scatter.rs ScatterContext::dump_segment, fill_buf_impl_scatter")],
     tech="TLA+ denotation of templates and of the resulting file system; TLC judges the files left by recorded runs",
     note="spec/CheckScatter.tla over NdPipe and NdTempl computes the whole directory after the run; the CLI is run (three builds, two of them with blocks of 145 and 64 bytes) in scratch directories with prior files.")
prop("C21", "--inplace replaces each file atomically and touches nothing else",
     "With --inplace every named FILE (once, however often it is named) ends up holding exactly what nd makes of that file alone: its bytes by default, the format given with --out-format, or the patched stream with --patch-back; nothing is printed. "
     "At every moment each FILE has either its old or its complete new contents, and files are replaced in the order of their names. When something fails (malformed contents, a missing file, an I/O error, no space) nd exits with an error, the file at hand is intact, the files before it are new and those after it are old. "
     "No other file in the directory is changed, created or removed (existing files that happen to have a temporary file's name included), unless nd is killed, which may leave one temporary file behind. With --output naming another file the FILEs are not changed.",
     ["inputs", "faults", "crash points"], "every set of files, every pipeline, a failure, short transfer or kill at every file system call",
     "Unit tests never run main(); the failing call or the kill has to come at a particular point of the protocol.",
     ["src/main.rs", "src/pipeline.rs"],
     [("temporary file and rename", "src/main.rs main_impl, TmpFile, consume_stream"), ("default format of in-place editing", "src/pipeline.rs Pipeline::from_args, is_written_back")],
     tech="TLA+ model of the replacement protocol checked with TLC; fault and kill injection at every file system call of the real program, judged by TLC against the model's contract",
     note="spec/Inplace.tla (N files, M writes, a fault or kill at every step) is checked exhaustively and rejects four wrong protocols; its predicate Seen judges what the real program leaves in a scratch directory when the k-th call of open/read/write/rename/unlink/... (LD_PRELOAD shim) fails, is cut short or is the last. Kills model the death of the process, not of the machine (nd does not fsync).")
prop("C22", "--patch-back applies the command's output to the stream it was made from",
     "--patch-back CMD feeds the dump of the slices to CMD, reads CMD's output as patch records, and writes the original stream with these records applied: all bytes outside the records are kept, to the very end of the stream, whatever the stream's length relative to the slices. "
     "This holds whatever the order and pace in which CMD reads, writes, closes its ends and exits (also when it reads only a part of the dump, or nothing), and nd always terminates.",
     ["inputs", "schedules", "histories"], "every stream and slice list, every CMD behaviour (interleavings of reading, writing, closing, exiting), every pipe capacity",
     "Four threads/processes, two pipes and a shared cache: unit tests run `cat' over a few bytes, where nothing ever blocks.",
     ["src/drain/patch.rs", "src/byte/tee.rs", "src/pipeline.rs"],
     [("patch-back drain and its threads", "src/drain/patch.rs PatchDrain"), ("tee cache shared by the slicer and the patcher", "src/byte/tee.rs TeeStream"), ("wiring of tee and drain", "src/pipeline.rs spawn_drain")],
     tech="TLA+ model of the concurrent design checked with TLC; replay of the command behaviours it generates; TLC trace validation",
     note="spec/PatchBack.tla (slicer, command, drainer and main thread over bounded pipes) is checked exhaustively for small N for termination, absence of loss and of spurious errors; all command behaviours the model generates are replayed with a scripted child and pipes of one page; "
          "runs with real shell commands are judged by TLC against spec/NdPipe.tla. The schedules of the real threads themselves are sampled, not controlled.")
prop("C23", "The result does not depend on the CPU the program was built for",
     "The builds of nd with and without AVX2 code (x86-64-v3, x86-64), with whatever internal block size, produce the same output and the same verdict (accepted or rejected) for every command line and input, namely the one the specification gives: parsing of text records (input, patches, guides, output of --patch-back commands) and formatting of hexadecimal, decimal and mosaic columns.",
     ["inputs", "configurations"], "every command line, every input, every delivery, both builds",
     "Each build has its own code for digits, arrays and mosaics, chosen at compile time; a unit test run exercises one build and short lines.",
     ["src/text/parser", "src/text/formatter", "src/mapper.rs", "src/byte/text.rs"],
     [("AVX2 and portable parsers", "src/text/parser/*.rs"), ("AVX2 and portable formatters", "src/text/formatter/*.rs")],
     tech="TLA+ denotation of the text formats (spec/NdText.tla); TLC judges the recorded runs of four builds",
     note="the same generated command lines are run by nd built for x86-64 and x86-64-v3 with production blocks and by the pipeline API with blocks of 64 and 145 bytes; every outcome must be the one of spec/NdPipe.tla, hence equal.")
prop("C24", "A command line means what its options say, however they are spelt",
     "The outcome of nd depends only on which options are given with which values, and on the order of the FILE operands: long names, their unambiguous abbreviations, short names (clustered or not), attached (=v or v) and detached values, and any order of options and operands are equivalent; -- ends the options; no FILE or - is the standard input. "
     "Options given twice, combinations marked exclusive, unknown or ambiguous names, missing values, values outside an option's grammar or range (N, N,M, S..E lists, arrays, formats), missing files, and a standard input used twice make nd fail instead of being guessed at.",
     ["inputs", "configurations"], "every argument vector, file system content and standard input",
     "Unit tests construct the pipeline from parsed arguments of a few fixed spellings; the grammar of the values is spread over clap, the expression engine and the nodes.",
     ["src/main.rs", "src/pipeline.rs", "src/eval.rs", "src/mapper.rs", "src/text/mod.rs"],
     [("option table, exclusiveness", "src/pipeline.rs PipelineArgs, Pipeline::from_args, validate"), ("operands and standard input", "src/main.rs main_impl, build_sources"), ("argument grammars", "src/eval.rs parse_usize, parse_usize_pair; src/mapper.rs SegmentMapper::from_str; src/text/mod.rs InoutFormat")],
     tech="TLA+ specification of the command line grammar composed with the pipeline; TLC judges recorded runs of the program",
     note="spec/NdCli.tla parses the same argument vectors nd is given (options, lists, expressions, arrays, formats, files) and yields a rejection or the configuration whose outcome spec/NdPipe.tla computes; 2500 generated and mutated command lines per run. No opinion on --help/--version, pagers, output files, in-place editing and mixed column formats.")
prop("C25", "Failures are told, and what was printed before is right",
     "nd exits with 0 only if its complete output has been delivered. When an input, patch or guide file cannot be opened or read to its end, or the output cannot be written (standard output or the file of --output), nd exits with an error and a message; what it has printed by then is a prefix of the right output: a failing read is never taken for the end of the input, and nothing is lost in short transfers. "
     "A reader that closes the standard output early is no error: nd stops with status 0 and says nothing. No failure makes nd hang or crash.",
     ["inputs", "faults"], "every pipeline, every input, a failure or short transfer at every read, write and open",
     "Unit tests read from memory and never see an I/O error.",
     ["src/main.rs", "src/byte/raw.rs", "src/streambuf.rs", "src/drain/patch.rs", "src/drain/scatter.rs", "src/byte/tee.rs"],
     [("error reporting, broken pipes", "src/main.rs main, consume_stream"), ("reading", "src/byte/raw.rs RawStream::fill_buf; src/streambuf.rs fill_buf"), ("threads of --patch-back", "src/drain/patch.rs, src/byte/tee.rs"), ("output files", "src/drain/scatter.rs")],
     tech="TLA+ model of delivery under faults checked with TLC; fault injection at every file system call of the real program, judged by TLC against the model's contract and the denotation",
     note="spec/Delivery.tla (source, buffer, short writes, faults, a reader that leaves) rejects five wrong designs; its predicate Told judges real runs in which the k-th open/read/write (LD_PRELOAD shim) fails, is interrupted or is cut short, the right output being that of spec/NdPipe.tla.")
prop("C26", "Streams without end: output flows, and nd ends when it can",
     "On an input without end, nd keeps delivering output: whatever part of the output no later byte of the input can change is eventually printed, and it is the right one. When nothing that follows in the inputs can matter (--cut, --slice or --lines with all bounds counted from the start; --zip with another input that ends) nd finishes by itself with the complete output and status 0. When the reader of its output goes away nd ends quietly with status 0.",
     ["inputs", "schedules"], "every pipeline not anchored to the end of the stream, every endless input and delivery, every point at which the reader leaves",
     "Unit tests use finite inputs that fit in a few blocks.",
     ["src/main.rs", "src/streambuf.rs", "src/byte/zip.rs", "src/byte/cut.rs", "src/segment/range.rs", "src/segment/filter.rs"],
     [("zip up to the shortest input", "src/byte/zip.rs Zipper::fill_buf"), ("early end of ranges", "src/byte/cut.rs, src/segment/range.rs, src/segment/filter.rs"), ("delivery loop", "src/main.rs consume_stream")],
     tech="TLA+ model of delivery checked with TLC for termination and bounded memory; trace validation of runs on endless pipes against the denotation of two truncations",
     note="pipes and FIFOs are fed periodic data without end; TLC takes what the outputs of two truncations of the input have in common as determined and judges what was read before the reader left (or nd ended). No opinion on pipelines whose output may stop without the program being able to know, and on bounds counted from the end.")
prop("C27", "Byte stages hand on their stream by one protocol, to any consumer",
     "Every byte stage (input, text input, --cat, --zip, --cut, --pad, --patch, the tee and the formatted output) serves any consumer: fill_buf(n) makes at least n bytes visible or reports the end; what has become visible stays visible, unchanged, until it is consumed; consume(0) makes the next fill_buf show more, if there is more; the end is reported only when all that is left is visible, and stays reported; 256 bytes of margin may be read behind the visible bytes. The bytes handed on in this way are the stage's stream, whatever the requests and the amounts consumed, the reads of the sources, and the block size.",
     ["inputs", "schedules", "configurations"], "every stage over every stage, every sequence of requests and consumed amounts, every sequence of read sizes",
     "Unit tests drive a stage alone with a few consumption patterns over a well-behaved mock source; a broken promise shows only at the stage behind it.",
     ["src/byte/mod.rs", "src/streambuf.rs", "src/byte/cat.rs", "src/byte/zip.rs", "src/byte/clip.rs", "src/byte/cut.rs", "src/byte/patch.rs", "src/byte/text.rs", "src/byte/tee.rs", "src/drain/scatter.rs"],
     [("the trait", "src/byte/mod.rs ByteStream"), ("the shared buffer", "src/streambuf.rs StreamBuf")],
     tech="TLA+ protocol (spec/NdProto.tla) with models of any producer/consumer and of the shared buffer checked with TLC; TLC validates every recorded step of the real stages",
     note="spec/StreamBuf.tla models the shared buffer and is checked exhaustively for all consumers over a small block (five wrong designs rejected); real stages behind real sources with scripted reads are driven by scripted consumers at block sizes 64 and 145, each fill/consume being a transition of the trace specification CheckProto.tla. Sampled histories, not proof.",
     observe=("results of fill_buf and the visible slice after every step",))
prop("C28", "Slice stages hand on slices by one protocol, to any consumer",
     "Every slice stage (--width, --find, --slice, --guide, --walk, --regex, --invert, --extend, --merge, --lines) serves any consumer that takes what it likes until the end is reported and everything then: the slices shown by fill_segment_buf are the next ones of its result, in order, entirely within the visible bytes; no slice that is yet to come starts before the reported consumable position; consume(n) moves the stream by at most n bytes and drops exactly the slices that start before the new position; bytes and slices once shown stay until consumed; the end is reported only when every remaining slice is shown, and stays reported. The slices handed on in this way are those the stage's option describes, whatever amounts are consumed, and whatever the reads of the sources and the block size.",
     ["inputs", "schedules", "configurations"], "every slice stage over every pipeline before it, every sequence of consumed amounts, every sequence of read sizes",
     "Unit tests drive a slicer alone with random consumption over a mock source; they do not see two slice stages working on each other's partial results.",
     ["src/segment/mod.rs", "src/segment/stride.rs", "src/segment/exact.rs", "src/segment/range.rs", "src/segment/guided.rs", "src/segment/walk.rs", "src/segment/regex.rs", "src/segment/bridge.rs", "src/segment/extend.rs", "src/segment/merge.rs", "src/segment/filter.rs"],
     [("the trait", "src/segment/mod.rs SegmentStream"), ("settling of mapped slices", "src/segment/mod.rs settle_segments")],
     tech="TLA+ protocol (spec/NdProto.tla) with a model of any producer/consumer checked with TLC; TLC validates every recorded step of the real stages against the slices of the denotation",
     note="real slice stages behind real byte stages with scripted reads are driven by scripted consumers at block sizes 64 and 145; each fill/consume is a transition of the trace specification CheckProto.tla, whose slices are those of spec/NdSlices.tla. Sampled histories, not proof. --slice and --lines may report the end early, behind their last slice.",
     observe=("results of fill_segment_buf, the visible bytes and slices after every step",))
