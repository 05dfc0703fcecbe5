"""The properties: the one table properties.jsonl and MANIFEST.json are made from
(tools/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level="exploration", note="", state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                  why=" ".join(why.split()), files=files, mech=mech, technique=technique, level=level,
                  note=" ".join(note.split()), state=state, observe=observe))


SAN = "ASan+UBSan on the real code"
# ---------------------------------------------------------------- sm_common
prop("C01", "Identifiers are unique, totally ordered, hashable and round-trip through text",
     """Randomly generated hash identifiers are distinct and valid, also when many threads generate them at once, and the equality,
     ordering, hashing, copying and invalidation of identifiers agree with the 128 bits they hold. Writing an identifier as hexadecimal
     text and reading it back gives the same identifier; text that is not thirty-two hexadecimal digits is refused without an
     exception and leaves the identifier as it was. Integer ids of a generated id type compare, hash, stream, increment and
     serialize like the integers they wrap.""",
     ["inputs", "schedules"], "all identifier values, all input strings, any number of generating threads and interleavings",
     "The tests build a handful of ids in one thread; they cannot cover the values, malformed strings or races on the shared generator.",
     ["sm_common/include/sm/hash_id.hpp", "sm_common/include/sm/Id.hpp"],
     [("mutex-free byte-wise value type and a mutex-guarded shared random source", "sm_common/include/sm/hash_id.hpp")],
     "sanitized workload with a byte-level reference model; TSan on concurrent generation")
prop("C02", "String routines implement their documented transformations on every string",
     """For every input string, replacing characters forwards or backwards with a skip count, substituting environment variables, padding,
     fixed and scientific number formatting, joining sequences and tuples, appending a trailing slash and showing progress give
     exactly what their description says, terminate, and never read or write out of bounds.""",
     ["inputs"], "all strings (including empty, delimiter-only, non-ASCII bytes) and all parameter combinations",
     "A few literal strings are tested; loops over arbitrary strings and replacement targets are not.",
     ["sm_common/include/sm/string_routines.hpp", "sm_common/src/progress_info.cpp"],
     [("string helper functions", "sm_common/include/sm/string_routines.hpp")],
     "differential monitor against a naive model under ASan/UBSan, with a hang watchdog")
prop("C03", "Tolerant comparison, quadratic roots and rounding are right for all numbers",
     """For finite numbers exactly one of approximately-equal, definitely-greater and definitely-less holds, as decided by the difference
     relative to the larger magnitude, and a non-positive tolerance is refused. The quadratic solver returns two roots that reproduce
     the coefficients to rounding accuracy for every polynomial with a non-zero leading coefficient and real roots (as long as b^2 and 4ac neither overflow nor underflow), and throws when there is no
     real root. Rounding gives the nearest integer with halves away from zero for every value in range.""",
     ["inputs"], "all finite doubles/floats and tolerances; all coefficient triples in non-overflowing range",
     "Only a few hand-picked numbers are tested.",
     ["sm_common/include/sm/maths.hpp", "sm_common/include/sm/round.hpp", "sm_common/include/sm/numerical_comparisons.hpp"],
     [("comparison / solver / rounding templates", "sm_common/include/sm")],
     "differential monitor against long-double and exact references under UBSan")
prop("C04", "Assertions throw exactly when violated, with the stated type, values and place",
     """Every run-time assertion throws an exception of the requested type if and only if the relation it states is false (a NaN operand satisfies no
     ordering), for any operand expression, and builds its message only then; the exception text contains the exception name, the operand values, the
     message and the source file, line and function. Debug-only assertions behave the same in debug builds and when assertions are always on,
     and otherwise evaluate nothing; the logging assertions run their command or trap exactly when their condition is false.""",
     ["inputs", "programs"], "all operand values (including NaN), all assertion kinds, operands with side effects, both build modes",
     "No test checks side effects, messages, NaN operands or release mode.",
     ["sm_common/include/sm/assert_macros.hpp", "sm_logging/include/sm/logging/assert.h"],
     [("throwing assert macros", "sm_common/include/sm/assert_macros.hpp")],
     "runtime monitor on every macro with counting operands under ASan/UBSan")
prop("C05", "Deep-equality of serializable members is exact, also when combined",
     """The comparison macros for serializable objects report equality if and only if the two objects hold the same value: through the type's own
     binary comparison where it has one, else by value, and by pointee for raw and shared pointers, two null pointers being equal and
     a null pointer never being dereferenced. Combining several comparisons with logical operators means what it says, and
     verbose mode reports each difference without changing any result.""",
     ["inputs"], "all member values, pointer states (null, same, equal, different) and container contents",
     "Tests cover a few fixed members.",
     ["sm_common/include/sm/serialization_macros.hpp"],
     [("isSame dispatch", "sm_common/include/sm/serialization_macros.hpp")],
     "differential monitor against field-wise equality under ASan/UBSan")
# ---------------------------------------------------------------- sm_boost
prop("B01", "The job queue runs every submitted job exactly once and waits for all of them",
     """Every unit of work submitted to a running job queue runs exactly once, on at most the configured number of threads (and on
     that many at once while there is enough of it), in submission order on a single worker, whatever the interleaving of submitters,
     workers and waiters. What a job has captured is released without the queue being blocked. Waiting for an
     empty queue returns, and only after every job submitted before (and every job those submitted) has finished. A future
     delivers its job's value or its exception.""",
     ["schedules", "histories"], "all interleavings, thread counts and submission histories (also from inside jobs and before the start)",
     "The tests run one benign schedule; lost, doubled or early-reported work needs particular interleavings.",
     ["sm_boost/include/sm/boost/JobQueue.hpp", "sm_boost/include/sm/boost/implementation/JobQueue.hpp", "sm_boost/src/JobQueue.cpp"],
     [("queue mutex, two condition variables and an active-thread count", "sm_boost/src/JobQueue.cpp")],
     "event-count oracle (exactly-once, completion-before-return) under perturbed schedules with TSan and ASan")
prop("B02", "Stopping, joining or destroying a job queue is safe at any moment",
     """Stop, join and destruction of a job queue always return, at any moment and in any combination (before any thread is
     up, while idle, while jobs run, twice, from several threads, without ever having been started). After a join or the
     destruction no job is running and none starts any more; jobs that were started have finished and jobs that were not
     started have not run. No access to the queue happens after its destruction and no data race occurs.""",
     ["schedules", "histories"], "all moments and combinations of stop/join/destroy relative to workers and submitters",
     "No test stops a queue under load; lost wakeups and use-after-destruction need rare interleavings.",
     ["sm_boost/src/JobQueue.cpp"],
     [("kill flag and thread group join", "sm_boost/src/JobQueue.cpp")],
     "TSan/ASan with injected delays at every synchronisation call, hang watchdog, state oracle")
prop("B03", "Saving an object to a file and loading it gives the same object, or an error",
     """Saving any serializable object in binary, text or XML form and loading it back yields an equal object with its class
     version. If the file cannot be opened or cannot be written completely (at whatever byte the device fails), the save
     reports an error instead of returning normally, and loading a missing or half-written file reports an error.""",
     ["inputs", "fault_sequences"], "all object contents, every format, a write failure at every byte position",
     "Tests save small objects to a healthy disk.",
     ["sm_boost/include/sm/boost/serialization.hpp"],
     [("archive scope and stream checks", "sm_boost/include/sm/boost/serialization.hpp")],
     "round-trip oracle plus write-fault injection under ASan/UBSan")
# ---------------------------------------------------------------- all packages
prop("S01", "No operation corrupts memory, reads garbage, races or leaks, in any package",
     """Whatever its arguments (valid, invalid or from a damaged file), its history and the schedule of the threads that are documented to be allowed, no operation
     of any package accesses memory that it does not own or that was released, decides or outputs anything from memory that was never written, executes undefined behaviour, or races
     with another thread. What an operation or object has acquired (memory, open files, threads) is released when it ends, also when it ends by an exception.""",
     ["inputs", "histories", "schedules"], "all inputs, operation histories and schedules of the workloads of all other properties",
     "Tests run a few valid inputs without sanitizers and never look at memory, open files or threads.",
     ["sm_common/src/hash_id.cpp", "sm_boost/src/JobQueue.cpp", "sm_timing/src/Timer.cpp", "sm_kinematics/src/Transformation.cpp", "sm_matrix_archive/src/MatrixArchive.cpp",
      "sm_property_tree/src/BoostPropertyTreeImplementation.cpp", "sm_value_store/src/ValueStore.cpp", "sm_logging/src/LoggingGlobals.cpp", "sm_matlab/src/Engine.cpp", "sm_python/src/module.cpp"],
     [("every package", "sm_*/include and sm_*/src")],
     "AddressSanitizer, UBSan, ThreadSanitizer, memcheck and leak probes (memory, file descriptors, threads) over the workloads of all monitors")
prop("S02", "Threads that only share what they read get single-thread results",
     """Any number of threads may at the same time ask questions of the same objects (const access to archives, property trees and value stores, poses, points, uncertain quantities, rotation
     parameterisations, clock corrections, identifiers) and use objects and files of their own, through every package but the shared random generator: every result is, digit by digit, the one
     that the same calls give in a single thread, and there is no data race. (Loggers and timers are shared by design and have properties of their own.)""",
     ["schedules", "inputs"], "all schedules of threads running operations of all packages on shared constant objects and on their own objects",
     "Tests run in one thread; a static scratch variable or a cache behind a const function passes all of them.",
     ["sm_kinematics/src/quaternion_algebra.cpp", "sm_kinematics/src/Transformation.cpp", "sm_matrix_archive/src/MatrixArchive.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp",
      "sm_property_tree/src/PropertyTree.cpp", "sm_value_store/src/ValueStore.cpp", "sm_boost/include/sm/boost/serialization.hpp", "sm_common/include/sm/string_routines.hpp",
      "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"],
     [("every package", "sm_*/include and sm_*/src")],
     "ThreadSanitizer and a single-thread twin comparison of everything several threads observe")
# ---------------------------------------------------------------- sm_random
prop("R01", "Random numbers stay in range, follow the seed and their distribution",
     """Uniform draws lie in [0,1) or in the half-open interval asked for, for any bounds; integer draws lie in [a,b), reach every value and are evenly
     spread; normal draws have mean zero and unit deviation (or those asked for); vectors of draws have the requested shape and independent entries.
     The same seed always reproduces the same sequence of every kind of draw, and different (32-bit) seeds give different sequences.""",
     ["inputs", "histories"], "all interval bounds, seeds and interleavings of kinds of draw",
     "Tests draw a few numbers from one or two intervals.",
     ["sm_random/include/sm/random.hpp", "sm_random/src/random.cpp"],
     [("one process-wide generator behind free functions", "sm_random/src/random.cpp")],
     "range, reproducibility and distribution monitors under UBSan")
# ---------------------------------------------------------------- sm_timing
prop("T01", "Timer statistics equal the statistics of the measured intervals",
     """For every history of creating, starting, stopping, destroying and resetting timers under any set of names, the number of samples,
     total, mean, minimum, maximum, variance and rate (of the last fifty) reported for a name equal those of exactly the intervals completed
     under that name since its last reset. Names and handles map one to one, misuse (starting twice, stopping a stopped timer, unknown handles) is refused, and the
     printed table, in any sort order, shows these numbers once for every name.""",
     ["histories", "inputs"], "all operation histories over timers, names, handles, clock advances and time zones",
     "Tests never look at a timer statistic.",
     ["sm_timing/include/sm/timing/Timer.hpp", "sm_timing/src/Timer.cpp"],
     [("per-name accumulators", "sm_timing/src/Timer.cpp")],
     "shadow-model monitor on a virtual clock (time source interposed) under ASan/UBSan")
prop("T02", "Timers may be used and queried from many threads at once",
     """Timers with shared or distinct names can be created, started, stopped, queried, printed and reset concurrently without data races,
     deadlocks or lost samples: after all threads are done the statistics account for every completed interval.""",
     ["schedules"], "all interleavings of timer operations on several threads",
     "The tests are single-threaded.",
     ["sm_timing/src/Timer.cpp"],
     [("one mutex around the timer map", "sm_timing/src/Timer.cpp")],
     "TSan and conservation oracle under perturbed schedules")
prop("T03", "Time conversions are exact and mutually inverse",
     """Converting integer nanoseconds to seconds, to a chrono time point or a calendar time to a timeval and back gives the original, to the
     resolution of the coarser representation and with the fraction of a timeval in [0, 1) second; order is preserved, seconds become the nearest nanosecond, and the invalid-time marker is recognised
     as invalid while every other time is valid.""",
     ["inputs"], "all representable times, negative and positive, all conversions",
     "Only the current time is tried.",
     ["sm_timing/include/sm/timing/NsecTimeUtilities.hpp", "sm_timing/src/NsecTimeUtilities.cpp", "sm_boost/include/sm/boost/ptime.hpp"],
     [("integer/chrono conversions", "sm_timing/src/NsecTimeUtilities.cpp")],
     "differential monitor against integer arithmetic under UBSan")
prop("T04", "Timestamp correction follows the convex hull of all measurements",
     """For every history of measurements with increasing device times, integer or floating, the corrected time is never later than the arrival
     time, and the estimated line (also through slope, offset and queries) stays below every measurement and meets their lower convex hull at the middle of
     the device time range; the periodic variant answers like a corrector that saw only the recent measurements. Device times that do not increase and queries on too few
     measurements are refused without effect, and a reset forgets everything.""",
     ["inputs", "histories"], "all increasing device-time sequences with arbitrary arrival delays, jitter, drift and resets",
     "Tests use one simulated clock in floating-point seconds.",
     ["sm_timing/include/sm/timing/TimestampCorrector.hpp", "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp"],
     [("incremental convex hull", "sm_timing/include/sm/timing/implementation/TimestampCorrector.hpp")],
     "reference-model monitor (exact hull of all measurements) under ASan/UBSan")
# ---------------------------------------------------------------- sm_eigen
prop("E01", "Matrices of every shape survive serialization",
     """Saving and loading a matrix of any fixed or dynamic shape, storage order and scalar type, including empty ones, through any archive
     format reproduces its size and every coefficient exactly, also for many matrices in one archive. Loading into a fixed dimension
     that does not match the stored size is refused.""",
     ["inputs"], "all shapes, storage orders, scalar types, values and archive formats",
     "Tests cover a few shapes and values.",
     ["sm_eigen/include/sm/eigen/serialization.hpp"],
     [("size-prefixed coefficient arrays", "sm_eigen/include/sm/eigen/serialization.hpp")],
     "round-trip oracle under ASan/UBSan")
prop("E02", "Numerical differentiation returns the Jacobian of the function",
     """For every smooth vector function and evaluation point, the numerically estimated Jacobian has the right shape and equals the analytic
     derivative up to the finite-difference error of the step, evaluates the function only at perturbations of that point, and leaves
     its arguments unchanged.""",
     ["inputs", "programs"], "all smooth functions (dimension, scale), points and step sizes",
     "Tests use one function.",
     ["sm_eigen/include/sm/eigen/NumericalDiff.hpp"],
     [("central differences", "sm_eigen/include/sm/eigen/NumericalDiff.hpp")],
     "analytic-reference monitor under ASan/UBSan")
prop("E03", "Matrix square roots and vectors from configurations are exact",
     """The matrix square root of every positive semi-definite matrix, singular and badly scaled ones included, times its transpose gives the
     matrix back to rounding accuracy, without NaN, and no finite root is returned for a matrix that has none. Vectors read from a configuration have
     exactly the configured coefficients or report the missing one, the finiteness assertion fires exactly on matrices that are not finite, the shape
     assertions accept exactly the fitting types, random vectors follow the seed, and aligned pointers and containers hold aligned values.""",
     ["inputs"], "all PSD matrices (any rank, scale, size), configured coefficient sets, matrices with non-finite entries",
     "Tests use random well-conditioned matrices.",
     ["sm_eigen/include/sm/eigen/matrix_sqrt.hpp", "sm_eigen/include/sm/eigen/property_tree.hpp", "sm_eigen/include/sm/eigen/assert_macros.hpp", "sm_eigen/include/sm/eigen/static_assert.hpp", "sm_common/include/sm/aligned_allocation.h"],
     [("LDLT factorisation", "sm_eigen/include/sm/eigen/matrix_sqrt.hpp")],
     "defining-equation oracle under ASan/UBSan")
# ---------------------------------------------------------------- sm_matrix_archive
prop("M01", "A matrix archive read back from disk equals the archive that was written",
     """Saving an archive of any named scalars, vectors, matrices and strings and loading it yields the same names with bit-identical
     contents and sizes, for any selection of names saved or loaded; appending adds entries to a file, and loading into an archive with
     contents adds or replaces just the entries loaded. Files are in the block format that the Matlab functions of the package share, and
     the command line lister prints exactly their entries.""",
     ["inputs", "histories"], "all contents (any size incl. empty, any double incl. NaN), names and save/load/append histories",
     "Tests use a few small matrices.",
     ["sm_matrix_archive/include/sm/MatrixArchive.hpp", "sm_matrix_archive/src/MatrixArchive.cpp", "sm_matrix_archive/src/lsma.cpp"],
     [("block file format", "sm_matrix_archive/src/MatrixArchive.cpp")],
     "round-trip oracle under ASan/UBSan")
prop("M02", "A damaged archive file is refused, never misread or crashing",
     """Loading a truncated, corrupted or arbitrary file that is not a sequence of complete, well-named blocks throws a MatrixArchiveException,
     after having taken over nothing but blocks that are stored completely in the file. It never crashes, reads uninitialised data, hangs,
     or allocates memory out of proportion to the file.""",
     ["inputs", "crash_points", "fault_sequences"], "every truncation point and byte corruption of archive files, arbitrary files",
     "Tests load only files the library wrote.",
     ["sm_matrix_archive/src/MatrixArchive.cpp"],
     [("magic numbers per block", "sm_matrix_archive/src/MatrixArchive.cpp")],
     "truncation enumeration and mutation fuzzing under ASan/UBSan with a format-aware oracle")
prop("M03", "A matrix archive behaves as a map from names to values",
     """After any history of setting, creating, overwriting, querying, clearing and loading, each name holds exactly the last value given to it,
     of the kind it was last given; names that were never set or were cleared are reported as missing, and invalid names are refused without
     changing the archive.""",
     ["histories", "inputs"], "all operation histories and names",
     "Tests perform a single set/get per kind.",
     ["sm_matrix_archive/include/sm/MatrixArchive.hpp", "sm_matrix_archive/src/MatrixArchive.cpp"],
     [("name-indexed maps", "sm_matrix_archive/src/MatrixArchive.cpp")],
     "shadow-model monitor over random histories under ASan/UBSan")
prop("M04", "A matrix archive that could not be written completely is reported",
     """If the archive file cannot be opened or any byte of it cannot be written, saving throws; a save that returns normally has left the
     complete archive on disk.""",
     ["fault_sequences", "crash_points"], "a write failure at every byte position, full or missing targets",
     "Tests write to a healthy disk.",
     ["sm_matrix_archive/src/MatrixArchive.cpp"],
     [("stream checks after each write", "sm_matrix_archive/src/MatrixArchive.cpp")],
     "write-fault enumeration (file size limit at every byte) with a reload oracle", level="fault_enumeration")
# ---------------------------------------------------------------- sm_property_tree
prop("P01", "A property tree is a typed, namespaced map",
     """After any history of sets and gets through any namespace view, reading a key gives the last value written to that key by any path naming
     it, converted to the requested type, or the given default when the key is absent (which a non-const tree then remembers). A missing key
     without a default and a value that does not parse as the requested type raise the missing-key and the invalid-value error; reading never changes a value
     that is there, also when it does not parse and a default is given. Existence
     queries and child listings agree with what was written, keys are split at '/' only, and finite numbers survive being stored.""",
     ["histories", "inputs"], "all key paths, namespaces, finite numeric values, strings and operation histories",
     "Tests set and get a few keys.",
     ["sm_property_tree/include/sm/PropertyTree.hpp", "sm_property_tree/src/PropertyTree.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"],
     [("path-joined lookups on a shared implementation", "sm_property_tree/src/PropertyTree.cpp")],
     "shadow-model monitor over random histories under ASan/UBSan")
prop("P02", "A property tree saved in any format and loaded again is the same tree",
     """Saving a property tree as XML, INI, INFO or JSON and loading it gives the same keys and values, for every tree the format can hold;
     parsing a=1,b{c=2},d/e=3 strings gives exactly the keys written; updating one tree from another overwrites exactly the keys present in
     the other (refusing unknown keys when asked not to create them) and keeps the rest. A file that cannot be read, parsed or completely
     written, and an unknown file extension, is reported as an error, and a failing load leaves the tree as it was. Comments of an XML file
     are kept exactly when they are asked for.""",
     ["inputs", "fault_sequences"], "all trees representable in the format, phrase lists, pairs of trees, malformed and missing files, write failures at any byte",
     "Tests save and load one small tree.",
     ["sm_property_tree/src/BoostPropertyTree.cpp", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp"],
     [("format dispatch to Boost property_tree", "sm_property_tree/src/BoostPropertyTreeImplementation.cpp")],
     "round-trip oracle, malformed-input fuzzing and write faults under ASan/UBSan")
prop("P03", "Layered configuration files load in order, each once, later ones overriding",
     """Loading a list of configuration files applies them in order, each after the files its "parents" key names, so that later files override
     earlier ones key by key; each file is applied once however it is named, also in include cycles. Names are absolute, relative to the
     including file or searched along the search paths and infixes in order; a name ending in '!' only updates existing keys. A missing or
     malformed file, or an update of a key that does not exist, is reported as an error instead of silently continuing.""",
     ["inputs", "configurations"], "all file sets, formats, include graphs (incl. cycles and diamonds), search paths and infixes",
     "No test covers includes, cycles or search order.",
     ["sm_property_tree/src/BoostPropertyTreeLoader.cpp", "sm_property_tree/include/sm/BoostPropertyTreeLoader.hpp"],
     [("recursive loader with a visited set", "sm_property_tree/src/BoostPropertyTreeLoader.cpp")],
     "generated file sets checked against a reference loader under ASan/UBSan")
# ---------------------------------------------------------------- sm_value_store
prop("V01", "Layered value stores answer from the first layer that has the key",
     """Reading a key through a layered store gives the value of the first layer that contains it, converted to the requested type, or the
     default when none does, and reports an error when there is no default; a store exists under a key exactly when some layer has it. Children,
     listed or by name and however deep, are the union of the layers' children, each once, layered in the same order. Layering never changes
     the layers, except that a property tree may remember a default it was asked for.""",
     ["inputs", "configurations"], "all stacks of layers (also nested, empty, with prefixes), keys, types and defaults",
     "Tests use two small layers.",
     ["sm_value_store/include/sm/value_store/LayeredValueStore.hpp", "sm_value_store/src/ValueStore.cpp"],
     [("ordered layer lookup", "sm_value_store/src/ValueStore.cpp")],
     "reference-model monitor under ASan/UBSan")
prop("V02", "Prefixed value stores translate keys exactly, also nested",
     """A prefixed store answers every query exactly like the underlying store under the translated key, when adding and when removing a prefix,
     at any nesting depth, for values, defaults, existence and children by name, including children named by a part of the prefix; keys outside
     a removed prefix do not exist and give the default.""",
     ["inputs", "configurations"], "all prefixes (also of several parts), modes, nesting depths, keys and types",
     "Tests use one prefix per mode.",
     ["sm_value_store/src/PrefixedValueStore.cpp", "sm_value_store/include/sm/value_store/PrefixedValueStore.hpp"],
     [("prefix translation", "sm_value_store/src/PrefixedValueStore.cpp")],
     "reference-model monitor under ASan/UBSan")
prop("V03", "Value handles follow their store, and every view gives the same answers",
     """A handle for a key of a property tree store gives the current value of the key, and updating it changes the key for every other reader,
     also after the store object is gone; a handle that says it is not updateable never changes. Values added to an extendible store or its
     children are there for all readers and when saved. A logging wrapper, a property tree view and a read with several alternative paths
     (raising the alert of a path marked '!' when that path is used) give the same values as the store.""",
     ["histories", "inputs"], "all handles, update and addition histories, store compositions, keys and alternative lists",
     "Tests read a few handles.",
     ["sm_value_store/include/sm/value_store/ValueStore.hpp", "sm_value_store/src/ValueStore.cpp", "sm_value_store/src/VerboseValueStore.cpp",
      "sm_value_store/src/PropertyTreeValueStore.cpp"],
     [("handle indirection", "sm_value_store/include/sm/value_store/ValueStore.hpp")],
     "shadow-model monitor under ASan/UBSan")
# ---------------------------------------------------------------- sm_logging
prop("L01", "A log statement prints exactly when its level and stream are enabled",
     """At every moment of every history of level changes and of enabling and disabling named streams, a log statement prints if and only if its
     severity is at least the current level, its stream (if it names one) is enabled, and it is not below the severity the file was compiled
     with; conditional, once and throttled statements print exactly when their own condition also holds. A printed statement evaluates its
     arguments once, a suppressed one never. Threads that share a statement do not change this: once and throttled statements print once
     for all threads, and each thread's message is judged by its own level. Locations
     registered by hand are kept enabled or disabled in the same way, and nothing prints after the shutdown.""",
     ["histories", "inputs", "schedules"], "all histories of level and stream changes and of statement executions",
     "Tests print at a few levels and check nothing about history.",
     ["sm_logging/include/sm/logging/LoggingGlobals.hpp", "sm_logging/src/LoggingGlobals.cpp", "sm_logging/include/sm/logging/console.hpp", "sm_logging/include/sm/logging/macros_generated.hpp", "sm_logging/src/Levels.cpp"],
     [("cached per-site enable flag refreshed on every change", "sm_logging/src/LoggingGlobals.cpp"), ("the statements", "sm_logging/include/sm/logging/console.hpp")],
     "shadow-model monitor over random histories of 750 statements with a capturing logger and a virtual clock under ASan/UBSan, threads racing for statements under TSan")
prop("L02", "Every enabled log message is delivered whole, exactly once, with its fields",
     """Each enabled log statement delivers its message to the logger exactly once, uncut whatever its length (text without NUL characters), built
     from the caller's own arguments whatever their names, with the statement's level, stream name, file, line and function. This also holds when many
     threads log at once, and after a logger has thrown. The printed line is what the format asks for, and lines of different threads are
     not interleaved.""",
     ["schedules", "inputs"], "all message lengths and contents, formats, threads and logger failures",
     "Tests look at a few lines of one thread.",
     ["sm_logging/src/LoggingGlobals.cpp", "sm_logging/src/Formatter.cpp", "sm_logging/src/StdOutLogger.cpp", "sm_logging/include/sm/logging/Tokens.hpp", "sm_logging/include/sm/logging/console.hpp"],
     [("print mutex and formatted buffers", "sm_logging/src/LoggingGlobals.cpp")],
     "exactly-once event-log oracle, a second implementation of formats, captured stdout, TSan and ASan/UBSan")
prop("L03", "Logging and its reconfiguration are free of races and deadlocks",
     """Threads may log, change levels, enable and disable streams, and read and replace the logger concurrently: no data race, deadlock or use of a
     destroyed logger occurs, no message of an always-enabled statement is lost, and when the threads are done the level, streams and logger are ones a
     sequential execution could have produced, and every statement follows them.""",
     ["schedules"], "all interleavings of logging and reconfiguration",
     "No test is multi-threaded.",
     ["sm_logging/src/LoggingGlobals.cpp", "sm_logging/include/sm/logging/console.hpp", "sm_logging/include/sm/logging/LogLocation.hpp"],
     [("four mutexes and atomics in the logging globals", "sm_logging/src/LoggingGlobals.cpp")],
     "TSan, lock-order and hang monitors under perturbed schedules, and a final-state oracle")
# ---------------------------------------------------------------- sm_kinematics
prop("K01", "All rotation representations describe the same rotation",
     """Every conversion between rotation matrices, quaternions, axis-angle, rotation vectors, Euler-Rodriguez parameters, the three Euler-angle
     conventions and roll-pitch-yaw (passive matrices C, active R, and the elementary rotations about the axes) yields a proper rotation equal, to
     rounding accuracy, to the one converted, for every rotation including the identity, tiny and half-turn rotations, negative angles
     and gimbal lock. No conversion of a valid rotation, also one with rounding noise, produces NaN. Angles are reduced and converted
     between degrees and radians exactly to rounding.""",
     ["inputs"], "all of SO(3), with emphasis on identity, small angles, half turns and gimbal lock, and rounding-level noise on the input",
     "Tests sample a few random rotations; the singular ones have measure zero, so that random sampling does not meet them.",
     ["sm_kinematics/src/rotations.cpp", "sm_kinematics/src/quaternion_algebra.cpp", "sm_kinematics/src/RotationVector.cpp", "sm_kinematics/src/EulerRodriguez.cpp", "sm_kinematics/src/EulerAnglesYawPitchRoll.cpp", "sm_kinematics/src/EulerAnglesZYX.cpp", "sm_kinematics/src/EulerAnglesZXY.cpp"],
     [("representation conversions", "sm_kinematics/src")],
     "differential monitor against an independent extended-precision reference under ASan/UBSan")
prop("K02", "Quaternion algebra agrees with rotation composition, logarithm and interpolation",
     """Quaternion product (both orders), inverse, update by a small rotation, rotation of vectors, exponential, logarithm and interpolation agree, to
     rounding accuracy and without NaN, with the corresponding operations on rotations; products and exponentials keep unit norm over
     long chains; interpolation starts and ends at its end points and takes the shorter arc at constant speed; exponential and
     logarithm are inverse to each other up to full turns, for double and float.""",
     ["inputs", "histories"], "all unit quaternions and tangent vectors, including tiny, antipodal, half-turn and full-turn ones",
     "Tests sample a few random quaternions.",
     ["sm_kinematics/src/quaternion_algebra.cpp", "sm_kinematics/include/sm/kinematics/quaternion_algebra.hpp"],
     [("quaternion operators", "sm_kinematics/src/quaternion_algebra.cpp")],
     "algebraic-law monitor against an extended-precision reference under ASan/UBSan")
prop("K03", "Rigid transformations form a group and interpolate and serialize faithfully",
     """Composition, inversion and application of transformations to vectors and points agree with 4x4 matrix algebra, also over chains of operations;
     constructing and setting from a matrix, quaternion, Euler angles, parameters or a property tree gives the valid rigid transformation described,
     and random draws give valid ones of the requested size; the small update (oplus) and the box operators follow their documented
     conventions; interpolation between two stamped transformations hits its end points and moves at constant velocity between them;
     serialization reproduces the transformation bit by bit.""",
     ["inputs", "histories"], "all rotations and translations of any magnitude and chains of operations",
     "Tests sample a few transformations.",
     ["sm_kinematics/src/Transformation.cpp", "sm_kinematics/include/sm/kinematics/Transformation.hpp", "sm_kinematics/src/transformations.cpp", "sm_kinematics/include/sm/kinematics/property_tree.hpp"],
     [("quaternion plus translation", "sm_kinematics/src/Transformation.cpp")],
     "algebraic-law monitor against extended-precision matrix algebra under ASan/UBSan")
prop("K04", "Analytic Jacobians equal the derivatives of what they differentiate",
     """Every analytic Jacobian the kinematics library returns (angular-velocity maps of the rotation parameters, their inverses and derivatives, exponential
     and logarithm maps of quaternions, quaternion update and transformation products, rotated and transformed vectors, homogeneous point
     conversions and normalisation) equals the derivative of the corresponding operation at every regular parameter value, including
     zero and values near it.""",
     ["inputs"], "all regular parameter values and perturbation directions",
     "Tests compare a few random points with loose tolerance; cancellation near zero does not show there.",
     ["sm_kinematics/src/RotationVector.cpp", "sm_kinematics/src/quaternion_algebra.cpp", "sm_kinematics/src/transformations.cpp", "sm_kinematics/src/EulerAnglesYawPitchRoll.cpp", "sm_kinematics/src/HomogeneousPoint.cpp"],
     [("closed-form derivatives", "sm_kinematics/src")],
     "numeric derivative oracle (fourth-order difference quotients of an extended-precision reference) under ASan/UBSan",
     note="quatLogJacobian (not 2) is not differentiable at the identity as a function on R^4 and is compared away from it, along the unit sphere.")
prop("K05", "Homogeneous points behave as the Euclidean points they represent",
     """Every operation on homogeneous points (creation, addition, subtraction, transformation, normalisation, conversion, perturbation) gives the homogeneous form of the
     Euclidean result, independent of the scale of the representation, and points survive serialization.""",
     ["inputs", "histories"], "all points, scales of representation and operation sequences",
     "Tests use unit scale and a few points.",
     ["sm_kinematics/src/HomogeneousPoint.cpp", "sm_kinematics/src/UncertainHomogeneousPoint.cpp"],
     [("four-vector arithmetic", "sm_kinematics/src/HomogeneousPoint.cpp")],
     "differential monitor against Euclidean arithmetic under ASan/UBSan")
prop("K06", "Uncertainty is propagated to first order through every operation",
     """The covariance attached to the result of composing, inverting or applying uncertain transformations, of adding, subtracting, normalising or
     transforming uncertain homogeneous points, and of the arithmetic of uncertain vectors and scalars equals the covariance obtained by
     first-order propagation through that operation, whatever the homogeneous scale; it stays symmetric positive semi-definite, the mean
     equals that of the certain operation, and uncertain objects survive serialization.""",
     ["inputs"], "all means, covariances (any rank) and operations",
     "Tests compare a few products.",
     ["sm_kinematics/src/UncertainTransformation.cpp", "sm_kinematics/src/UncertainHomogeneousPoint.cpp", "sm_kinematics/include/sm/kinematics/UncertainVector.hpp"],
     [("Jacobian sandwich products", "sm_kinematics/src/UncertainTransformation.cpp")],
     "numeric first-order propagation oracle (difference quotients of the operation in extended precision) under ASan/UBSan")
prop("K07", "Point-set alignment returns the best rigid transformation",
     """Aligning two corresponding point sets, or two sets of weighted unit vectors, returns a proper rigid transformation that recovers the true one to
     rounding accuracy for noise-free data and for noisy data has no larger (weighted) squared error than any other rigid transformation, including
     for planar, mirrored, symmetric and minimal configurations and points far from the origin; the order of the correspondences does
     not matter, and an integer weight counts like that many copies.""",
     ["inputs"], "all point sets in general and degenerate-but-determined position, with noise, weights and reflections",
     "One random configuration is tested.",
     ["sm_kinematics/src/three_point_methods.cpp", "sm_kinematics/include/sm/kinematics/three_point_methods.hpp"],
     [("SVD alignment", "sm_kinematics/src/three_point_methods.cpp")],
     "optimality oracle (extended-precision closed-form optimum and random competitors) under ASan/UBSan")
prop("Y01", "The Python functions and value types give the C++ results",
     """Every function and value class of the Python module for rotations, quaternions, transformations, rotation parameterisations, rigid poses,
     homogeneous points, uncertain quantities, random numbers, time, Eigen helpers and poses read from configuration, and the converters of ids and containers, give, for every overload,
     operator and inherited method, bit for bit the result of the C++ function on the converted arguments, with its type and its uncertainty, and
     raise a Python exception exactly where C++ throws.""",
     ["inputs"], "all functions, overloads and operand types and their arguments, erroneous ones included",
     "The Python tests sample a few conversions and are not among the tests that run; which overload is called depends on registration order.",
     ["sm_python/src/exportTransformation.cpp", "sm_python/src/exportHomogeneousPoint.cpp", "sm_python/src/exportUncertainVector.cpp", "sm_python/src/export_rotations.cpp", "sm_python/src/export_quaternion_algebra.cpp", "sm_python/src/module.cpp"],
     [("overload registration", "sm_python/src/exportTransformation.cpp")],
     "differential monitor: the extension module in an embedded Python beside the same C++ calls, under ASan/UBSan",
     note="numpy_eigen, which converts matrices to numpy arrays, is not part of this repository; the monitor converts matrices to lists instead.")
prop("Y02", "Objects held from Python behave as their C++ twins",
     """Matrix archives, property trees, the configuration loader, value stores of every kind, clock correctors, the logging functions and levels, timing
     reports and progress printers used from Python go through the same states, write the same files, deliver the same log events and report the same
     errors as the C++ objects they wrap; pickling, copying, saving and loading reproduce an object completely; and an object obtained from another one
     stays valid when the other is dropped.""",
     ["inputs", "histories"], "all histories of operations on several objects, any of which may be dropped at any point",
     "No test uses these classes from Python.",
     ["sm_python/src/exportValueStoreRef.cpp", "sm_python/src/exportPropertyTree.cpp", "sm_python/src/exportMatrixArchive.cpp", "sm_python/src/Logging.cpp", "sm_python/src/exportTimestampCorrector.cpp", "sm_python/include/sm/python/boost_serialization_pickle.hpp", "sm_python/python/sm/__init__.py", "sm_python/python/sm/Progress.py"],
     [("handles on shared stores", "sm_python/src/exportValueStoreRef.cpp")],
     "model-based monitor: histories in an embedded Python mirrored on C++ twins, recorded log events and files compared, under ASan/UBSan with every Python object a heap block of its own")
# ---------------------------------------------------------------- sm_matlab, sm_opencv
prop("G01", "The MATLAB interface transfers variables and commands unchanged or refuses",
     """A number, boolean, text or matrix that is put under a valid name is held by the engine as the double, logical, character or double-matrix
     variable with exactly that value and shape, and a getter of that kind returns exactly what the engine holds. A getter returns false and leaves its
     result as it was if there is no such variable, and raises the documented kind of exception if the variable has another type, is empty or is no
     scalar; it never returns values the variable does not have. The queries for existence, emptiness, scalar, text and dimensions agree with the
     engine. A name that is empty, starts with a digit or has any other character than letters, digits and underscores is refused before the engine is
     called. A command is passed on exactly as given and its output is returned without its final line break; changing the directory names exactly
     that directory; the interactive command line passes on each line of input as one command, until "quit", "exit" or the end of the input.""",
     ["inputs", "histories"], "all values, shapes and types of variables the workspace can hold, all names, commands, outputs of any length and input lines, and all histories of calls",
     "sm_matlab is not even built without MATLAB, so none of its tests run.",
     ["sm_matlab/include/sm/matlab/Engine.hpp", "sm_matlab/src/Engine.cpp"],
     [("typed transfer through mxArray, fixed output buffer", "sm_matlab/src/Engine.cpp")],
     "reference model of the workspace behind a stand-in engine library, under ASan/UBSan",
     note="MATLAB is not installed: the engine and matrix libraries are a stand-in written after their documentation; sm_matlab itself is the real code.")
prop("G02", "The MATLAB interface uses and releases the engine correctly on every path",
     """However the calls on an engine object are ordered and whichever of them fail, the engine library is called only with an engine that is open, every engine
     that was opened is closed exactly once (by stopping or by destruction, which does not throw or terminate the program even if closing fails), and every array obtained from or made
     for the engine is released exactly once. Every operation that needs the engine raises the not-initialized exception, without calling the engine library, if it
     is not open; starting and stopping report success truthfully and can be repeated; a failed put or command raises its exception and leaves the object usable.""",
     ["histories", "faults"], "all histories of start, stop, put, get, query, command and destruction, with open, close, put and execute failing at any point",
     "sm_matlab is not even built without MATLAB, so none of its tests run; and they would not make the engine fail.",
     ["sm_matlab/include/sm/matlab/Engine.hpp", "sm_matlab/src/Engine.cpp"],
     [("engine handle and mxArray ownership", "sm_matlab/src/Engine.cpp")],
     "ownership tracking in a stand-in engine library with injected failures, under ASan/UBSan",
     note="MATLAB is not installed: the engine and matrix libraries are a stand-in written after their documentation; sm_matlab itself is the real code.")
prop("O01", "OpenCV matrices and key points survive serialization and compare exactly",
     """A two-dimensional OpenCV matrix of any element type and shape, whether it owns its data, shares it, is a region of a larger matrix or has padded rows, and
     whatever the matrix it is loaded into held before, is loaded from a text, binary or XML archive with the size, type and bytes it was saved with, and what follows it in the archive
     is read correctly. Saving changes nothing, and loading into a region changes nothing outside of that region. Points and key points come back
     with exactly their values. The binary comparison is true if and only if size, type and every byte of the elements agree.""",
     ["inputs"], "all shapes, element types, memory layouts of source and destination, byte contents and archive formats; all finite key point values",
     "sm_opencv has no tests and is not built without OpenCV.",
     ["sm_opencv/include/sm/opencv/serialization.hpp"],
     [("free save/load functions for cv::Mat", "sm_opencv/include/sm/opencv/serialization.hpp")],
     "round-trip and comparison oracle on a stand-in for cv::Mat, under ASan/UBSan",
     note="OpenCV is not installed: cv::Mat is a stand-in with OpenCV's rules for steps, regions, continuity and create(); sm_opencv itself is the real code.")
prop("E04", "Matrix test assertions fail exactly when the matrices differ",
     """The googletest assertions for matrices fail if and only if the sizes differ or a coefficient does: at all (assertEqual), by more than the tolerance (assertNear, expectNear, ASSERT_DOUBLE_MX_EQ) or by not being
     finite (assertFinite); NaN is equal to nothing, and infinity only to itself. They report the first difference with the message and position of the caller, expectNear every difference, read nothing outside of the matrices,
     change nothing, and mean the caller's own expressions. The relative comparison is symmetric and reports the error, and random covariances are symmetric, positive definite and follow the seed.""",
     ["inputs"], "all sizes and values of both matrices, including NaN, infinity and empty matrices, all tolerances",
     "The assertions are what the other tests judge with; no test judges them.",
     ["sm_eigen/include/sm/eigen/gtest.hpp"],
     [("compareRelative and the coefficient loops", "sm_eigen/include/sm/eigen/gtest.hpp")],
     "reference comparison of captured googletest results under ASan/UBSan")
prop("F01", "Archives of earlier versions are read as what was saved",
     """A serialized object outlives the program that wrote it: a binary, text or XML archive in the format of the pinned version, of transformations, homogeneous points, uncertain
     transformations, points and vectors, matrices of every shape, ids, OpenCV matrices and key points, single, in lists or through shared pointers, is loaded with exactly the values that were
     saved, whatever they are, and an archive of a newer class version than the code knows is refused.""",
     ["inputs", "histories"], "all values, formats, containers and sharing patterns of the serializable classes, written by the pinned version",
     "Tests save and load with the same build, so a format changed consistently on both sides passes them.",
     ["sm_kinematics/include/sm/kinematics/Transformation.hpp", "sm_kinematics/include/sm/kinematics/UncertainVector.hpp", "sm_eigen/include/sm/eigen/serialization.hpp", "sm_boost/include/sm/boost/serialization.hpp", "sm_common/include/sm/Id.hpp", "sm_opencv/include/sm/opencv/serialization.hpp"],
     [("members, tags, order and class versions in save and load", "sm_kinematics/include/sm/kinematics/Transformation.hpp"), ("size-prefixed coefficient arrays", "sm_eigen/include/sm/eigen/serialization.hpp")],
     "frozen writers of the pinned format as the oracle of the current readers, under ASan/UBSan")
