"""Writes properties.jsonl and MANIFEST.json from one table. A property without a check is left out
until the check exists (or is listed as not applicable)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique, note=" ".join(note.split()), observe=observe))


prop("C01", "Battery results do not depend on thread scheduling",
     """For a given generator, seed, battery (built-in or custom file) and number of threads, every test result, the
     printed report and the exit code are the same in every run, whatever order the worker threads happen to be
     scheduled in. With one thread the output is likewise a pure function of the inputs.""",
     ["schedules", "configurations"],
     "all interleavings of worker threads, all thread counts 1..N, all batteries and seeds",
     "The test suite runs one battery once per plugin and never compares two runs; a test cannot force the interleavings that reorder seed draws or generator hand-out.",
     ["src/core.c", "src/threads_intf.c", "src/entropy.c"],
     [("all generators created and seeded before workers start; fixed round-robin task queues", "src/core.c"), ("thread registration", "src/threads_intf.c")],
     "delay injection at thread entry/RNG/test boundaries + repeated-run report comparison, offline checker over per-test result logs",
     "Observed interleavings only: injected delays and oversubscription make many completion orders; assumes pthreads back end.")
prop("C02", "Parallel batteries run each test exactly once without data races",
     """In a multi-threaded battery run every selected test is executed exactly once and its result appears in exactly
     its own row; each generator instance is used by only one thread from creation to destruction, no result is
     lost or duplicated, the run terminates, and no memory is accessed by two threads without synchronization.""",
     ["schedules", "configurations"],
     "all interleavings, thread counts (including more threads than tests), and batteries",
     "Unit tests are single-threaded; a race or a lost queue entry shows only in rare schedules.",
     ["src/core.c", "src/threads_intf.c"],
     [("per-thread task queue", "src/core.c"), ("dispatcher mutex", "src/threads_intf.c")],
     "ThreadSanitizer over the real scheduler + event-log conservation checker (per test / per generator instance) under delay injection",
     "TSan reports on executed interleavings; synthetic batteries of instrumented tests give exact per-test and per-instance event logs.")
prop("C03", "Seeds form the documented reproducible stream and are all logged",
     """Given a text or base64 seed, the seeds handed to generators are exactly the documented stream (BLAKE2s-256 of
     the text, respectively the decoded key, keying ChaCha20 with the documented nonce and counter), in
     order, without repetition and in full even when many threads draw concurrently; every draw is recorded (up to the log's capacity) in
     the seed log with the thread that made it. Without a supplied seed two runs get different streams.""",
     ["inputs", "schedules", "histories"],
     "all seed strings, all draw sequences (32/64-bit mixes), all concurrent draw schedules",
     "Tests check one ChaCha20 vector and one seed; they never draw concurrently nor inspect the log.",
     ["src/entropy.c", "src/core.c", "src/blake2s.c"],
     [("textseed/base64 key derivation", "src/entropy.c"), ("mutex-protected seed source and log", "src/core.c, src/entropy.c")],
     "online trace monitor comparing every drawn seed and log line with an independent BLAKE2s/ChaCha20 model; concurrent multiset checker",
     "Independent Python model is validated against hashlib and RFC vectors; platform entropy quality itself is not judged.")
prop("C04", "The seed printed with a report reproduces the report",
     """The seed string that a run prints ("Used seed: ...") given back through --seed, with the printed thread count,
     reproduces the same generator streams and the same test results. This holds for automatically chosen seeds, for text seeds and
     for base64 seeds, for every battery that prints it.""",
     ["inputs", "configurations"],
     "all seeds, thread counts and batteries",
     "Needs a second run whose input is the first run's output, for arbitrary keys and thread counts.",
     ["src/core.c", "src/entropy.c", "src/base64.c", "apps/smokerand.c"],
     [("_NN_base64 seed format", "src/entropy.c, src/core.c, apps/smokerand.c")],
     "record/replay monitor: run, extract printed seed, run again, compare generator words and result rows",
     "Sampled seeds and thread counts.")
prop("C05", "Statistical tests are memory safe on every generator output",
     """Every statistical test, with any options that batteries (built-in, scaled or custom) can reasonably give it, performs no out-of-bounds access, use
     after free, leak of its work buffers, or undefined arithmetic, whatever words the generator returns (constant, counting, extremal, adversarial, random) and
     whatever amount of RAM is reported; it terminates and returns finite numbers in valid ranges.""",
     ["inputs", "configurations"],
     "all generator output streams x all option values inside the accepted ranges x both word sizes",
     "The suite runs engines on good generators without sanitizers; bad generators drive different index and count ranges.",
     ["src/coretests.c", "src/extratests.c", "src/hwtests.c", "src/lineardep.c", "src/core.c"],
     [("buffer sizing and clamping in each engine", "src/coretests.c, src/hwtests.c, src/lineardep.c, src/extratests.c")],
     "ASan+UBSan+LeakSanitizer over real engines with hostile generators; result-range monitor",
     "Only executed inputs; option space sampled inside documented ranges.")
ENG = "offline oracle: word-exact trace of the generator is recorded and an independent implementation of the documented statistic recomputes the result"
prop("C06", "Frequency tests report the documented statistic and p-value",
     """The monobit, n-bit word, byte and 16-bit word frequency tests report exactly the statistic and p-value that their documentation
     defines (bit-sum normal deviate with two-sided p-value; chi-square per block combined by Kolmogorov-Smirnov) for the
     words they drew, using every bit of every drawn word exactly once and in the documented amount.""",
     ["inputs", "configurations"],
     "all output streams, both word sizes, all documented options",
     "Tests only see PASS on good generators; a p-value that is wrong but plausible passes.",
     ["src/coretests.c"], [("frequency engines", "src/coretests.c")], ENG,
     "Independent reference in numpy/scipy; relative tolerance 1e-6 on statistics.")
prop("C07", "Birthday-spacings and collision tests count exactly and report Poisson tails",
     """The n-dimensional birthday spacings, decimated birthday spacings and collision-over tests build points from the documented
     bit fields (lower or higher part, documented word order, bit reversal, decimation step), count duplicate spacings or collisions exactly in the
     documented sense, and report the Poisson tail probability for the documented mean; the verdict does not depend on
     which sorting path (RAM size) was used.""",
     ["inputs", "configurations"],
     "all output streams, dimensions, bits per dimension, sample counts, word sizes, RAM sizes",
     "Wrong bit order or off-by-one counts still look uniform on good generators.",
     ["src/coretests.c", "src/core.c"], [("tuple packing, sort, duplicate counting", "src/coretests.c"), ("radix sort / quicksort choice", "src/core.c")], ENG,
     "Reference re-packs the recorded words; exact integer comparison of counts.")
prop("C08", "Gap, gap16, mod3 and sum-collector tests report documented statistics",
     """The gap test, the 16-bit zero-count gap test, the mod-3 test and the sum-collector test draw the documented amount of output,
     classify it as documented and report the documented chi-square/normal statistic and p-value; a generator whose gaps
     never close yields an unambiguous failure with the test's full penalty instead of a hang.""",
     ["inputs", "configurations"],
     "all output streams including degenerate ones, both word sizes, all documented parameters",
     "Degenerate streams and boundary words are never produced by the generators of the suite.",
     ["src/coretests.c"], [("gap/gap16/mod3/sumcollector engines", "src/coretests.c")], ENG,
     "Independent reference; tolerance 1e-6.")
prop("C09", "Hamming weight tests report documented statistics",
     """The overlapping-tuple Hamming weight tests (whole words, bytes, low 8 bits, low bit, 128..1024-bit words) and the Hamming weight
     distribution test classify weights by documented borders, consume the documented bits in the documented order, and report a deviate whose
     p-value matches its documented distribution; p and its complement are consistent.
     Bits above the declared word size are ignored by the distribution test and reported by a warning.""",
     ["inputs", "configurations"],
     "all output streams, all modes, word sizes and sample sizes",
     "A mis-sized table or dropped bit only shifts the statistic slightly on good generators.",
     ["src/hwtests.c"], [("Hamming weight coding and transition tables", "src/hwtests.c")], ENG,
     "Independent reference; tolerance 1e-6.")
prop("C10", "Linear complexity and matrix rank are computed exactly over GF(2)",
     """The linear complexity test reports for the selected bit position exactly the linear complexity of the bit sequence it drew, and
     the matrix rank test classifies exactly the GF(2) ranks of the matrices it drew (full size or the low bits only);
     both report the p-values of their documented distributions.""",
     ["inputs", "configurations"],
     "all bit sequences (LFSRs of every length, all zero, late jumps, random), all bit positions, sizes and word sizes, SIMD and portable code paths",
     "LFSR lengths, degenerate sequences and the portable path are not exercised by the suite; a wrong rank class is a small statistical shift.",
     ["src/lineardep.c"], [("Berlekamp-Massey", "src/lineardep.c"), ("bit-sliced Gaussian elimination", "src/lineardep.c")], ENG,
     "Independent Berlekamp-Massey and rank on recorded words; both AVX2 and portable builds.")
prop("C11", "Ising, sphere, birthday and block-frequency batteries report documented values",
     """The Ising model tests, the unit-sphere volume test, the 64-bit birthday paradox test and the adaptive block frequency battery
     compute the documented statistic from the words they drew and report the documented p-value and verdict; the birthday battery finds
     exactly the duplicates present among the values it kept.""",
     ["inputs", "configurations"],
     "all output streams and parameters",
     "These batteries are not run by the suite at all.",
     ["src/extratests.c"], [("Wolff / Metropolis simulation, Monte-Carlo volume, birthday, block frequency engines", "src/extratests.c")], ENG,
     "Reference re-simulates the recorded stream; Ising reference values taken from the exact finite-lattice solution computed independently.")
prop("C12", "Calibrated p-values: good generators pass, flaws and documented failures appear",
     """On cryptographic-quality streams every test yields p-values that are centred and spread like uniform ones, up to documented
     discreteness and the approximate null distributions of the overlapping-tuple tests, with no excess of suspicious or failed results; streams
     with the flaw that a test exists to find (bias, short period, stuck or linear bits, lattice, counter) make it fail. End to end, a perfect stream gets
     the top quality grade and exit code 0 and a stuck stream the lowest, and every bundled generator listed in docs/results.md fails exactly the tests it is known to fail.""",
     ["inputs", "configurations"],
     "all independent ideal streams (statistical), all members of the flawed families, all bundled generators and seeds",
     "Needs many independent repetitions and a statistical oracle; one express run per plugin cannot see a distorted null distribution.",
     ["src/coretests.c", "src/hwtests.c", "src/lineardep.c", "src/extratests.c", "src/specfuncs.c", "src/bat_express.c", "docs/results.md"],
     [("null distributions built in to each test", "src/*.c"), ("documented verdicts", "docs/results.md")],
     "statistical monitor: thousands of recorded runs on independent ideal streams (mean, spread and tail of normal-transformed p-values), a detection matrix of flawed streams, the real program run on all documented generators",
     "False alarm bounds of 5-6 standard errors per statistic; detects distortions larger than the resolution of the sample; verdict sets calibrated over 20 seeds, toy generators with small states judged only for the failures they always show.")
prop("C13", "Report, verdict, grade and exit code follow from the p-values",
     """Each report row shows the test's own name, statistic, p-value and verdict; the verdict is the documented function of the p-value; the
     summary counts, the quality grade and the process exit code follow from exactly the failed rows and their documented penalties; a brief report shows precisely the rows that are not Ok; the elapsed time is the duration of the run as hours:minutes:seconds.""",
     ["inputs", "configurations"],
     "all combinations of p-values (including 0, 1 and every threshold), penalties, number of tests, report types",
     "The suite never sees failing or borderline batteries, nor parses the report.",
     ["src/core.c"], [("report printing, p-value interpretation, grade", "src/core.c")],
     "online report checker: synthetic batteries with chosen p-values run through the real scheduler, every printed row parsed and compared",
     "Sampled p-value vectors incl. all boundaries.")
prop("C14", "Selecting tests runs exactly the requested tests",
     """Selecting by number or by name runs exactly the requested test (for a name, the first test that carries it), with the same parameters and results
     as in the full battery given the same generator stream; unknown names or numbers are refused with an error exit code and run nothing; no selection runs everything.""",
     ["inputs", "configurations"],
     "all batteries, all test names and numbers, including out-of-range values",
     "The suite never passes a selection.",
     ["src/core.c", "apps/smokerand.c"], [("selection lookup", "src/core.c"), ("--testid/--testname parsing", "apps/smokerand.c")],
     "call interposition on the real CLI: executed tests, options and rows are logged and compared to the full run",
     "All numbers and names of all built-in batteries; sampled custom files.")
prop("C15", "Custom battery files run exactly the tests they describe",
     """A well-formed battery text file is executed as the tests it lists, in order, under their section names and with exactly the parameter
     values written (with the documented defaults and names), independent of comments, blank lines, whitespace and
     line endings; generator-list output and reports reflect it.""",
     ["programs", "inputs"],
     "all well-formed files: any number of sections, any documented parameter values",
     "No test reads a battery file.",
     ["src/bat_file.c"], [("parser and per-test option builders", "src/bat_file.c")],
     "grammar-based generation of files + interposed engine entry points logging the options actually received",
     "Sampled grammar; engine entry points are interposed at link level, not the parser.")
prop("C16", "Malformed battery files are rejected with a diagnostic and no crash",
     """Any byte sequence given as a battery file either runs as the well-formed battery it is or is rejected with an error message and a
     non-zero exit code before any test runs; it never crashes, hangs, corrupts memory or passes out-of-range parameters to a test.""",
     ["inputs"],
     "all byte sequences: truncated, mutated, overlong, missing or duplicate keys, out-of-range numbers",
     "No test reads a battery file.",
     ["src/bat_file.c"], [("parser error handling and range checks", "src/bat_file.c")],
     "ASan+UBSan fuzzing of the real parser (grammar mutations), oracle: own validity model + engine-parameter range monitor",
     "Generation-based fuzzing.")
prop("C17", "Built-in batteries consist of exactly the documented tests",
     """Each built-in battery (express, brief, default, full) runs the documented list of tests with documented names and parameters, in the documented order and number, for 32-bit and for 64-bit generators
     and for any thread count; listing a battery shows the same tests that running it executes.""",
     ["configurations"],
     "all batteries x word sizes x thread counts",
     "Running every test at full size takes hours, so the suite only runs the express battery.",
     ["src/bat_express.c", "src/bat_brief.c", "src/bat_default.c", "src/bat_full.c", "docs/tests.md"],
     [("battery tables", "src/bat_*.c")],
     "engine calls interposed in the real CLI (no computation), logged name/parameters/order compared with the documented tables",
     "Expected tables transcribed from docs/tests.md and the shipped battery scripts, cross-checked with the pinned release.")
prop("C18", "Tail probabilities equal the exact mathematical values",
     """The public distribution functions (normal, half-normal, chi-square, Student, Poisson, binomial, Kolmogorov-Smirnov, incomplete gamma and beta,
     linear-complexity law) return values that agree with exact mathematics to near machine accuracy over the documented argument ranges, stay in [0,1], behave correctly at limits,
     propagate not-a-number, and always terminate.""",
     ["inputs"],
     "all arguments in the documented ranges, both tails, all special values",
     "The suite checks a few dozen points; region boundaries and tails between them are free.",
     ["src/specfuncs.c"], [("series / continued fractions / asymptotics with region switches", "src/specfuncs.c")],
     "differential monitor against mpmath/scipy on random, tail and region-boundary arguments; UBSan build; watchdog for hangs",
     "Sampled arguments, tolerances about 100x the measured error.")
prop("C19", "Sorting routines sort every array in place",
     """Every sorting routine leaves the array as the ascending permutation of its input for every length (including 0 and 1) and every content,
     without touching memory outside the array; the RAM-dependent choice of algorithm never changes the outcome.""",
     ["inputs"],
     "all arrays of 32/64-bit words, all lengths, all RAM reports",
     "The suite sorts a couple of random arrays.",
     ["src/core.c"], [("radix sorts, quicksort, RAM-based dispatch", "src/core.c")],
     "ASan/UBSan runs of the real routines on shaped arrays, oracle: libc qsort of a copy",
     "Sampled shapes and lengths 0..1e6.")
prop("C20", "Output filters transform the stream exactly and keep instance isolation",
     """A filtered generator (bit-reversed, high 32 bits, low 32 bits, interleaved halves) outputs exactly the documented transformation of the underlying
     stream, word by word, announces the right word size, works for both word sizes as documented, and creates and destroys the underlying instance exactly once per filtered
     instance, also with many instances and threads and also when the underlying generator has its own parameters.""",
     ["inputs", "histories", "configurations"],
     "all underlying streams, instance histories, filters, word sizes",
     "The suite never uses --filter.",
     ["src/core.c", "apps/smokerand.c"], [("enveloped generators", "src/core.c")],
     "stream monitor on CLI stdout and API: filtered words compared with the transformation of an unfiltered stream; create/free event log",
     "Sampled streams.")
prop("C21", "Data read from standard input is tested byte for byte as supplied",
     """With the stdin generators, tests consume exactly the supplied bytes in order as little-endian 32- or 64-bit words, without loss, duplication or reordering,
     for any chunking of the pipe; exhausted input ends the run with an error status and never a fabricated verdict or crash.""",
     ["inputs", "fault_sequences", "schedules"],
     "all byte streams, all pipe chunkings (short reads, pauses), every truncation point",
     "The suite never pipes data in.",
     ["src/fileio.c", "apps/smokerand.c"], [("buffered stdin collector", "src/fileio.c")],
     "pipe-fault injection (chunk sizes, pauses, truncation) with a recording test battery; word-exact comparison",
     "Sampled chunkings and truncation points.")
prop("C22", "Data written to standard output is exactly the generator's stream",
     """The stdout modes write exactly the generator's consecutive output words (binary words in native layout, or one decimal fraction per line in the floating
     point modes, equal to the documented conversion of the drawn words) and exactly the amount that was requested; closing the pipe ends the program.""",
     ["inputs", "configurations", "fault_sequences"],
     "all generators, word sizes, requested sizes, consumer behaviours",
     "The suite never uses the stdout modes.",
     ["src/core.c", "apps/smokerand.c"], [("binary writer, float writers", "src/core.c")],
     "stream monitor on the real CLI, compared with the same seeded plugin driven directly; early-close fault injection",
     "Sampled sizes and generators, incl. adversarial words for the float conversion.")
prop("C23", "Base64, BLAKE2s and ChaCha20 primitives match their specifications",
     """Base64 encoding and decoding are inverse for every key, and text whose symbols do not encode whole 32-bit words is rejected; BLAKE2s digests equal the standard for every
     message length, key and chunking of the updates; ChaCha20 blocks equal the standard for every key, nonce and long output runs, in the C library
     and in the C++ engine alike (also for copied and interleaved engines).""",
     ["inputs", "histories"],
     "all messages, digest lengths, keys, update chunkings, malformed encodings",
     "Tests check fixed vectors only.",
     ["src/base64.c", "src/blake2s.c", "src/entropy.c", "apps/chacha.h"], [("primitives", "src/base64.c, src/blake2s.c, src/entropy.c"), ("C++ engine", "apps/chacha.h")],
     "differential monitor against hashlib.blake2s, base64 and an RFC 8439 model under ASan/UBSan",
     "Sampled messages and chunkings.")
prop("C24", "Generator plugins are isolated, deterministic and honest about word size",
     """Every generator plugin gives a stream that is a function of its seeds and parameters only: interleaving many live instances, destroying others, or running other threads never changes an instance's output;
     words fit in the announced size, a bulk sum equals the sum of single outputs, all memory comes from the provided allocator and is released, and no undefined behaviour occurs.""",
     ["histories", "inputs", "schedules"],
     "all plugins, parameters, seeds, interleavings of instances",
     "The suite runs each plugin with one instance at one seed.",
     ["generators/", "include/smokerand/cinterface.h"], [("plugin interface macros", "include/smokerand/cinterface.h")],
     "ASan/UBSan plugin host: interleaved-instance differential, tracked allocator, width and bulk-sum monitors for every plugin",
     "All plugins in the tree; sampled seeds.")
prop("C25", "Generator plugins implement their published algorithms",
     """Each generator plugin outputs exactly the sequence of the published algorithm it names, for every seed and supported parameter and
     on both the vectorised and the portable implementation, as fixed by reference implementations and by the pinned release's streams; its self-test accepts it.""",
     ["inputs", "configurations"],
     "all plugins, seeds, parameters, long streams crossing buffer and counter boundaries",
     "Self-tests check a single seed and few words, and most plugins have none.",
     ["generators/"], [("plugins", "generators/*.c")],
     "recorded-stream digests of every plugin for several seeds and parameters checked against independent references and golden digests of the pinned release",
     "Golden digests assume the pinned release is right where no independent reference exists.")
prop("C26", "The command line is robust: valid options work, invalid ones are refused",
     """Every documented option and combination of options is honoured; unknown options, missing or malformed values, unloadable or inadequate plugins and failing generator creation give a diagnostic
     and a non-zero exit code, never a crash, hang or a verdict; informational commands succeed; the same holds when memory is exhausted.""",
     ["inputs", "configurations", "fault_sequences"],
     "all argument vectors, all plugin failures",
     "The suite uses one fixed command line.",
     ["apps/smokerand.c", "src/core.c"], [("argument parser, module loader", "apps/smokerand.c, src/core.c")],
     "ASan/UBSan CLI fuzzing with a model of the documented grammar; faulty plugin and out-of-memory injection",
     "Sampled argument vectors.")
prop("C27", "Generator instances are created and destroyed once and used only while alive",
     """Across every battery and mode, each generator instance the program creates is destroyed exactly once by the matching routine and never used before creation or after destruction;
     all its memory is returned and the plugin is unloaded after its last use; an instance that could not be created is never used.""",
     ["histories", "configurations", "fault_sequences"],
     "all batteries, modes, thread counts, and creation failures at any point",
     "The suite does not observe instance lifetimes.",
     ["src/core.c", "src/bat_special.c", "src/extratests.c", "apps/smokerand.c"], [("generator state lifecycle", "src/core.c")],
     "spy plugin logging create/use/free events (per instance and thread) run through the real CLI; typestate checker, allocation balance and failure injection",
     "Every battery and mode at reduced size by interposing long tests.")
prop("C28", "128-bit arithmetic helpers are exact on every platform path",
     """The wide multiplication, addition, multiply-accumulate, 128-bit LCG, rotation, bit reversal and bit counting helpers give the exact mathematical result for all operands, and the portable implementation agrees with the compiler-intrinsic one bit for bit.""",
     ["inputs", "configurations"],
     "all operand values, all build configurations",
     "Only the native path is compiled and tested.",
     ["include/smokerand/int128defs.h", "include/smokerand/coredefs.h", "include/smokerand/core.h"], [("int128 helpers, rotations, bit reversal", "include/smokerand/*.h")],
     "differential monitor with Python integers on boundary and random operands for native and portable builds under UBSan",
     "Sampled operands.")
prop("C29", "The PE32 plugin loader maps, relocates and resolves 32-bit images exactly",
     """Loading a well-formed 32-bit PE image puts every section's bytes (zeros where the file has none) at its address, adds the load displacement at exactly the listed relocation sites and resolves exactly the exported names to their functions, whatever the layout of the image. A file that is missing, truncated, not a 32-bit i386 image, without sections or that needs imports is refused with a message. Closing or refusing leaves no memory and no file open.""",
     ["inputs", "histories"], "all well-formed PE32 images and the listed kinds of unusable files",
     "The loader only works in 32-bit processes and no test reaches it.",
     ["src/pe32loader.c"], [("PE32 loader", "src/pe32loader.c")],
     "the real loader under UBSan traps in a 32-bit process with a page-fenced heap; randomly generated images and generators linked as Windows DLLs are loaded, dumped, resolved and called, compared with an independent image model and the native plugins",
     "Sampled images; the 32-bit process uses a small freestanding C library.")
prop("C30", "The compact battery sr_tiny reports its documented tests exactly",
     """For every start time, every row and progress line of the compact sr_tiny battery gives the statistic and p-value of its documented test (birthday spacings, decimated birthday spacings, byte frequencies, linear complexity) applied to the output of the selected built-in generator seeded from that time. The elapsed time and the speed mode's figures follow from the clock, and wrong arguments are refused.""",
     ["inputs", "timing"], "all start times and all command lines of sr_tiny",
     "No test runs sr_tiny's tests; statistics of independent seeds are never recomputed.",
     ["apps/sr_tiny.c", "src/specfuncs.c"], [("tests and generators", "apps/sr_tiny.c"), ("p-values", "src/specfuncs.c")],
     "the real program under ASan/UBSan with a controlled clock; an offline checker regenerates the streams and recomputes every printed statistic and p-value independently",
     "Sampled seeds; one battery takes seconds.")
prop("C31", "Speed reports give the generators' real cost and agree with each other",
     """The speed battery and sr_speed report, for every generator, the time per call, time per byte, throughput and cycles per byte that follow from the time its functions really took, net of the baseline generator, with units and ratios that agree with each other and with the output size. Generators without a summing function get no invented figures, and generators that cannot be loaded or created are reported.""",
     ["inputs", "timing"], "all generators, costs of calls and clock behaviours",
     "Timings are not reproducible on real clocks, so the tests never check them.",
     ["src/bat_special.c", "apps/sr_speed.c"], [("speed measurement", "src/bat_special.c"), ("comparative report", "apps/sr_speed.c")],
     "the real programs with a virtual clock and generators of known virtual cost under ASan/UBSan/MSan; printed figures compared with the costs",
     "Virtual costs are sampled.")
prop("C32", "Shipped scripts and tools report exactly what their runs produced",
     """The batch scripts run every given generator exactly once with the requested battery or self-test and their logs and tallies count passed, failed, unsupported and broken runs exactly as the program's exit codes said. The seed helper passes the entropy it read unchanged, the example plug-in battery reports the test it documents, and the calibration tool runs each named test with its documented word size and sample.""",
     ["inputs", "faults"], "all generator sets, exit codes, entropy and calibration choices",
     "No test runs the scripts or the tools.",
     ["scripts/run_express.sh", "scripts/run_selftests.sh", "bin/srnd_seed.sh", "apps/bat_example.c", "apps/calibrate_dc6.c"],
     [("batch scripts", "scripts/*.sh"), ("seed helper", "bin/srnd_seed.sh"), ("example battery", "apps/bat_example.c"), ("calibration", "apps/calibrate_dc6.c")],
     "the real scripts and tools run in scratch directories against recording stand-ins and the real program; an offline checker compares logs, tallies and output with the recorded runs",
     "Sampled runs.")
prop("C33", "Test logs show the figures that belong to the results they lead to",
     """Everything a test logs is true: its parameters and sample sizes, frequency tables, intermediate statistics and final figures equal those of the words it drew and the result it returns, and agree with its row in the report. With several threads each log line stays whole, carries the number of its thread and lies between the start and finish marks of its test; the report names that thread (0 without threads). Nothing shown depends on a variable that was never set.""",
     ["inputs", "schedules", "configurations"], "all generators, parameters, batteries and thread counts",
     "No test reads the logs.",
     ["src/coretests.c", "src/hwtests.c", "src/lineardep.c", "src/extratests.c", "src/core.c", "apps/smokerand.c"],
     [("log lines of the tests", "src/*tests.c, src/lineardep.c"), ("threaded printing and marks of tests", "src/core.c")],
     "offline log checker: every figure of captured logs recomputed from the recorded words; a trace checker over whole-run logs (marks, thread numbers, report rows); runs with poisoned and zeroed variables compared",
     "Sampled runs.")

NA = {}


def main():
    props, checks = [], []
    for p in P:
        have = os.path.exists("%s/checks/%s.py" % (V, p["id"].lower()))
        if not have and p["id"] not in NA:
            continue
        props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                      "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                      "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
        if have:
            cmd = "python3-vt checks/%s.py" % p["id"].lower()
            checks.append({"property": p["id"], "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(V + "/properties.jsonl", "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
         "notes": "Runtime monitoring and sanitizers only. No hooks in /repo: observation points are link-level (interposed public functions), plugin-level (spy generators) and process-level (CLI output)."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)


main()
