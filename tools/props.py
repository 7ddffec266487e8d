LV = "Exhaustive within the bounds in DESIGN.md; every explored behaviour is executed on the code built from /repo under ASan+UBSan and compared with an independent reference model. Trusts the model, the explorer and the compiler."
LS = "Every thread schedule with preemption at every synchronisation operation (bounded preemptions, DESIGN.md) of the real code, with a happens-before race detector on every memory access of the instrumented code, so synchronisation-level interleavings stand for all interleavings. Trusts the scheduler model of mutexes and the reference model."

prop('C01', 'Property tree behaves as an ordered keyed tree',
     'After any history of insertions, overwrites, removals, merges, copies and moves, a property tree holds exactly the keyed children, in insertion order, with the values that history implies, and every lookup, count, size, comparison and default-value query agrees with that content. Lookups of absent keys report absence (or throw where the call promises a value) and change nothing; operations on a copy never affect the original. Writing a part of the tree (or a tree around it) into the tree, by copy, move, merge, append or value, has the effect of writing an independent copy of it.',
     ['histories', 'inputs'], 'every sequence of tree operations over a small key/value alphabet up to the depth bound, on nested trees',
     'the tests build a handful of fixed trees; whether lookup, overwrite, erase, merge and comparison stay consistent over arbitrary histories (duplicate keys, empty keys, erased children, self-merge) is never exercised',
     ['xo/container/prop_node.h', 'xo/container/prop_node.cpp'], [('keyed child list with linear lookup', 'xo/container/prop_node.cpp'), ('typed get/set/add templates', 'xo/container/prop_node.h')],
     ['public interface of the property tree'], 'explicit-state exploration of operation histories against a reference tree', LV, [('children', 'ordered list of (key, subtree)'), ('value', 'text of the node')])

prop('C02', 'Property-tree path queries address exactly the named node',
     'A delimiter-separated path, optionally with index elements, resolves to exactly the node that stepping through the children by hand reaches, and to nothing when a step is missing; the creating form adds precisely the missing nodes, and the erasing form removes precisely the addressed node. A path computed for an existing node leads back to that node when the keys along the way are non-empty, unique and free of the delimiter.',
     ['inputs', 'histories'], 'every tree shape up to the size bound, crossed with every path built from a small component alphabet',
     'only a few fixed paths are tested; off-by-one errors in indices, duplicate keys, missing intermediate nodes and trailing delimiters need all path/tree combinations',
     ['xo/container/prop_node.cpp', 'xo/container/prop_node.h', 'xo/container/prop_node_tools.cpp'], [('recursive query resolution', 'xo/container/prop_node.cpp'), ('path computation', 'xo/container/prop_node_tools.cpp')],
     ['query results and resulting trees'], 'exhaustive enumeration of trees x queries against a reference resolver', LV)

prop('C03', 'Unused settings are reported exactly',
     'A property-tree node with a value counts as used exactly when its value was read, its children were iterated, or it was marked explicitly (looking it up, comparing or reporting it is no use), and the count and textual listing of unused nodes name exactly the remaining ones. Reading never changes tree content, and clearing the marks makes every node count as unused again.',
     ['histories'], 'every sequence of reads, marks and resets over small trees up to the depth bound',
     'tests check one fixed access pattern; a missed or superfluous mark in any single lookup variant silently hides or invents configuration errors',
     ['xo/container/prop_node.h', 'xo/container/prop_node.cpp'], [('access flag', 'xo/container/prop_node.h'), ('unaccessed report', 'xo/container/prop_node.cpp')],
     ['count and listing of unaccessed nodes'], 'explicit-state exploration of access histories against a reference', LV)

prop('C04', 'Writing a property tree as text and reading it back is lossless',
     'For every property tree that the default text format can represent, writing it in either layout style and reading the text back yields an equal tree, whatever characters its values contain, and writing that result again yields the same text. Writing and then reading through a file or an in-memory string behaves the same.',
     ['inputs'], 'every tree shape up to the size bound with keys and values from an alphabet of every special character, every byte value, and numeric extremes',
     'the test round-trips one hand-written file; whether quoting covers every special, control and non-ASCII character in every position needs enumeration',
     ['xo/serialization/prop_node_serializer_zml.cpp', 'xo/serialization/char_stream.cpp', 'xo/string/string_tools.cpp'], [('writer quoting', 'xo/serialization/prop_node_serializer_zml.cpp'), ('string escape/unescape', 'xo/string/string_tools.cpp'), ('tokenizer', 'xo/serialization/char_stream.cpp')],
     ['text written and tree read back'], 'exhaustive enumeration of trees and value strings, write-read round trip on the real code', LV)

prop('C05', 'The text-format reader terminates and accepts exactly the grammar',
     'For every input text the reader of the default configuration format terminates without touching memory it does not own, and either yields exactly the tree the grammar assigns to the text, with comments ignored and macros, references, arrays and nested groups resolved in scope, or reports an error naming the offending line. Malformed input such as unterminated groups, strings and comments, undefined macros and missing values is always reported and never silently accepted.',
     ['inputs'], 'all token sequences over the format\'s token alphabet up to the length bound and all short character strings over its special characters',
     'one valid file is parsed in the tests; malformed and nested combinations of macros, comments, references and groups are an unbounded input space that only exhaustive enumeration against a grammar covers',
     ['xo/serialization/prop_node_serializer_zml.cpp', 'xo/serialization/char_stream.cpp'], [('recursive descent reader', 'xo/serialization/prop_node_serializer_zml.cpp'), ('tokenizer', 'xo/serialization/char_stream.cpp')],
     ['tree or error returned by the reader'], 'exhaustive enumeration of token sequences against an independent reference parser', LV)

prop('C06', 'INI and XML property files round-trip and report errors',
     'Property trees within what the INI and XML formats can represent survive being written and read back unchanged, the file format is chosen from the file extension, and reading malformed text in either format yields an error instead of a partial tree being passed off as complete. A loader given an error object reports through it instead of throwing.',
     ['inputs'], 'all representable small trees with special-character values, and all malformed variants by deleting or duplicating one character or line of valid texts',
     'neither format has a round-trip test; escaping and error reporting depend on every character and truncation point',
     ['xo/serialization/prop_node_serializer_ini.cpp', 'xo/serialization/prop_node_serializer_xml.cpp', 'xo/serialization/serialize.cpp'], [('INI reader/writer', 'xo/serialization/prop_node_serializer_ini.cpp'), ('XML reader/writer', 'xo/serialization/prop_node_serializer_xml.cpp'), ('extension dispatch', 'xo/serialization/serialize.cpp')],
     ['tree or error returned'], 'exhaustive enumeration of trees and single-fault text mutations, round trip on the real code', LV)

prop('C07', 'File save and load never fail silently',
     'When saving or appending text or a property tree to a file, the call either completes with exactly the requested content on disk or reports an error; no operating-system failure at any point of the write is swallowed. Loading a missing or unreadable file reports an error, through the error object when one is passed and by exception otherwise, and never yields partial content as success.',
     ['fault_sequences', 'crash_points', 'inputs'], 'every system call of every save/append/load operation failing or writing short, for contents of every size class',
     'tests never inject an I/O failure; a full disk or a failed open at each individual call is unreachable for them',
     ['xo/filesystem/filesystem.cpp', 'xo/serialization/serialize.cpp', 'xo/serialization/prop_node_serializer.cpp'], [('stream based save/load', 'xo/filesystem/filesystem.cpp'), ('error-object adapters', 'xo/serialization/serialize.cpp')],
     ['return status and resulting file content'], 'exhaustive fault enumeration: each system call of each operation fails in turn (up to two faults)', LV)

prop('C08', 'Included configuration files are resolved completely and terminate',
     'Loading a file with include directives yields the same tree as textually composing the included trees at the place of the directive, with relative names resolved against the folder of the file that contains them, at every nesting depth. Missing files, missing include keys and inclusion cycles are reported as errors instead of being ignored or recursing forever.',
     ['configurations', 'inputs'], 'every inclusion graph over a small set of files in several folders, including cycles and missing targets',
     'a single include is tested at most; nested folders, cycles and merges are combinatorial',
     ['xo/serialization/serialize.cpp', 'xo/serialization/prop_node_serializer_zml.cpp', 'xo/container/prop_node_tools.cpp'], [('include directive in the reader', 'xo/serialization/prop_node_serializer_zml.cpp'), ('include expansion of loaded trees', 'xo/serialization/serialize.cpp')],
     ['tree or error, and list of included files'], 'exhaustive enumeration of inclusion graphs on a real scratch file system against a reference expansion', LV)

prop('C09', 'Settings keep values valid, typed and persistent',
     'A registered setting always yields a value that satisfies its declared type, range and allowed values: an assignment or loaded file entry that does not parse is rejected, one out of range is limited to the range, and an unset or reset setting yields its default. Saving and loading settings restores every explicitly set value exactly, and loading a missing file leaves the defaults.',
     ['histories', 'inputs'], 'every sequence of set, reset, save, load and reload operations over settings of each type, with valid, invalid and boundary values',
     'there is no test for settings at all',
     ['xo/system/settings.h', 'xo/system/settings.cpp'], [('schema-driven validation', 'xo/system/settings.cpp')], ['values returned by the settings interface and saved file'],
     'explicit-state exploration of set/save/load histories against a reference model', LV)

prop('C10', 'Associative containers match their mathematical model',
     'The flat map, flat set, insertion-ordered map, interning set and sorted vector hold, after any history of insertions, look-ups and removals, exactly the elements a reference map, set or multiset holds, with unique keys where promised, and always iterate in key (or insertion) order. Index and iterator results point to the right element, and an operation that fails leaves the container unchanged.',
     ['histories', 'inputs'], 'all operation sequences over a small key domain to closure of the reachable state space, initializer lists of every content, plus larger sizes under several insertion orders',
     'tests insert a few keys in one order; duplicates, erase at the boundaries and overflow of the index type are never reached',
     ['xo/container/flat_map.h', 'xo/container/flat_set.h', 'xo/container/indexed_map.h', 'xo/container/indexed_set.h', 'xo/container/sorted_vector.h'], [('sorted vector with binary search', 'xo/container/flat_map.h'), ('linear ordered map', 'xo/container/indexed_map.h')],
     ['public container interface'], 'explicit-state exploration to closure against std reference containers', LV)

prop('C11', 'Circular buffers and deques preserve first-in first-out content',
     'A circular deque holds exactly the elements a double-ended queue would hold after any sequence of pushes, pops, reserves and clears at either end, in the same order through indexing and iteration, for every capacity and wrap position. A circular frame buffer returns for each channel the frames in the order written, keeping the most recent ones when full.',
     ['histories'], 'all operation sequences up to the depth bound for every initial capacity, hence every wrap position and growth point',
     'the test pushes into one buffer size; growth while wrapped and wrap-around at each offset need enumeration',
     ['xo/container/circular_deque.h', 'xo/container/circular_buffer.h', 'xo/numerical/delayer.h'], [('modular index arithmetic', 'xo/container/circular_deque.h')], ['deque and buffer contents'],
     'explicit-state exploration of operation sequences against a reference queue', LV)

prop('C12', 'Labelled storage and tables keep rows, columns and labels aligned',
     'After any sequence of adding rows, frames, columns, channels and labels, resizing and writing cells, a labelled table or frame storage returns for each (row, column) address exactly the last value written there or the fill value, by position and by label alike, and labels and positions map one-to-one onto each other. Writing a storage as text and reading it back reproduces labels and data, duplicate labels are rejected without altering the container, time look-ups return the frame nearest in time, and interpolating outside the stored frames is an error.',
     ['histories', 'inputs'], 'all operation sequences up to the depth bound over small label/value alphabets, and all small storages for text round trips and frame look-ups',
     'tests use one fixed storage; growth of columns with existing rows, relabelling and resizing interplay only in longer histories',
     ['xo/container/storage.h', 'xo/container/storage_tools.h', 'xo/container/label_vector.h', 'xo/container/table.h'], [('row-major data with stride', 'xo/container/storage.h'), ('label index', 'xo/container/label_vector.h')], ['cells, labels and text output'],
     'explicit-state exploration of operation histories against a reference matrix', LV)

prop('C13', 'Handles, indices and collections always refer to the element they were made for',
     'A handle or typed index obtained when an element is added keeps designating that same element whatever is added later, invalid and default handles are recognisable and equal only to each other, and owned collections free every element exactly once. Name and identity look-ups in collections return the first matching element or report absence.',
     ['histories'], 'all operation sequences up to the depth bound',
     'tests cover a single add/get; aliasing after growth, removal and overflow need histories',
     ['xo/utility/handle.h', 'xo/utility/index.h', 'xo/container/handle_vector.h', 'xo/container/collection.h', 'xo/container/collection_ic.h'], [('index based handles', 'xo/utility/handle.h')], ['handle dereference'],
     'explicit-state exploration of operation histories against a reference model', LV)

prop('C14', 'Dynamic arrays and matrices have value semantics',
     'Dynamic arrays and matrices copy, move, assign (also to themselves), resize, clear and compare as values: a copy is equal and independent, a moved-from or cleared object is empty and usable, and element access reads what was last written. Vector and matrix arithmetic on them is element-wise (or the matrix product) and requires matching sizes.',
     ['histories', 'inputs'], 'all operation sequences over two or three objects up to the depth bound',
     'copy, move and self-assignment sequences are not tested',
     ['xo/container/dynarray.h', 'xo/geometry/dynmat.h', 'xo/geometry/dynvec.h', 'xo/container/array.h'], [('owning pointer plus end', 'xo/container/dynarray.h')], ['array contents and size'],
     'explicit-state exploration of operation histories against std::vector', LV)

prop('C15', 'String utilities satisfy their algebraic laws for every string',
     'Splitting, trimming, left/right/mid extraction, replacing, searching, concatenating and case conversion return, for every input string, delimiter set and index, exactly what their definition says: parts rejoin to the whole, trimmed text has no trimmed character at its ends and only those were removed, and the n-th occurrence is the n-th. Quoting or escaping any string and reversing it returns the original string, and no input makes them read outside it.',
     ['inputs'], 'all strings over small alphabets up to the length bound, all delimiter sets and indices in range and just outside, and every byte value',
     'tests check a few literals; empty strings, delimiters at the ends, negative and out-of-range positions and non-ASCII bytes are not',
     ['xo/string/string_tools.cpp', 'xo/string/string_tools.h'], [('string helper functions', 'xo/string/string_tools.cpp')], ['returned strings'],
     'exhaustive enumeration of strings against reference definitions', LV)

prop('C16', 'Wildcard patterns match exactly the strings they describe',
     'A wildcard pattern matches a string exactly when the string can be obtained by replacing every * with some (possibly empty) text and every ? with one character; a pattern list matches when one of its alternatives does, and include/exclude filters accept exactly the names matched by an include and by no exclude pattern.',
     ['inputs'], 'all pattern/text pairs over a small alphabet up to the length bounds, and all small pattern lists',
     'tests try about ten pairs; backtracking errors need repeated stars and partial matches in all combinations',
     ['xo/string/string_tools.cpp', 'xo/string/pattern_matcher.h'], [('backtracking matcher', 'xo/string/string_tools.cpp'), ('pattern list', 'xo/string/pattern_matcher.h')], ['match result'],
     'exhaustive enumeration of pattern/text pairs against a dynamic-programming reference', LV)

prop('C17', 'Converting values to text and back is exact',
     'For every boolean, integer, enumeration, version, bounds, date and path value, parsing the text produced for it yields the value again, and floating-point values round-trip to the printed precision; lists and keyed containers of such values convert to property trees and back unchanged. Text that does not begin with a value of the requested type, or whose value does not fit the type, is rejected (or yields the caller\'s default) and is never misread; flags and positional values on a command line are found where they were given.',
     ['inputs'], 'all values of small domains, all boundary and single-bit values of wide domains, and all short strings over the numeric alphabet as parser input',
     'tests convert a few literals; boundary values, signs, spaces and trailing garbage need enumeration',
     ['xo/string/string_cast.cpp', 'xo/string/string_cast.h', 'xo/utility/smart_enum.h', 'xo/system/version.h', 'xo/numerical/bounds.h', 'xo/time/date.h', 'xo/time/time.h', 'xo/container/prop_node.h', 'xo/string/dictionary.h'], [('text conversion', 'xo/string/string_cast.cpp'), ('tree conversion', 'xo/container/prop_node.h')], ['converted values'],
     'exhaustive enumeration of values and short texts against a reference', LV)

prop('C18', 'Path manipulation obeys path algebra',
     'Taking a path apart into folder, file name, stem and extension and joining it again gives back the same path up to repeated separators, replacing or removing a part changes only that part, and joining is associative and puts exactly one separator between the parts, an empty first part adding nothing. Queries on a path (absolute, relative, empty, has extension) agree with its text for every combination of separators, dots and empty components.',
     ['inputs'], 'all path strings over the alphabet of separators, dots and letters up to the length bound',
     'tests use well-formed paths only; dots in folder names, root files, trailing separators and empty parts need enumeration',
     ['xo/filesystem/path.cpp', 'xo/filesystem/path.h'], [('separator search', 'xo/filesystem/path.cpp')], ['resulting path strings'],
     'exhaustive enumeration of path strings against a reference decomposition', LV)

prop('C19', 'File-system helpers report and change exactly what is on disk',
     'Listing files returns exactly the files present that match the patterns, within the requested depth; existence, type and find operations agree with the actual directory tree and search order; and creating, copying, renaming and removing change exactly the named entries. Creating a unique file or folder never reuses or damages an existing one.',
     ['configurations', 'histories'], 'every directory tree up to the size bound, crossed with patterns, recursion depths and search paths, and operation sequences on them',
     'tests touch one temporary file; recursion, name collisions and search order depend on the tree',
     ['xo/filesystem/filesystem.cpp', 'xo/filesystem/filesystem.h', 'xo/system/system_tools.cpp'], [('directory traversal', 'xo/filesystem/filesystem.cpp')], ['returned paths and disk state'],
     'exhaustive enumeration of small directory trees and operation histories in a scratch folder', LV)

prop('C20', 'Character streams tokenise losslessly and in order',
     'A character stream delivers every token of its text once, in order, honouring quotes, escapes, comments and delimiters, counts lines correctly, and reports end of input and malformed quoted text as such for every input. Peeking never consumes, and reading past the end is reported without reading outside the text.',
     ['inputs', 'histories'], 'all short texts over the special-character alphabet, crossed with sequences of read operations',
     'only used indirectly by one test file',
     ['xo/serialization/char_stream.cpp', 'xo/serialization/char_stream.h'], [('tokenizer', 'xo/serialization/char_stream.cpp')], ['tokens, line numbers, error flags'],
     'exhaustive enumeration of texts and read sequences against a reference tokenizer', LV)

prop('C21', 'Memoised functions return the function value under every schedule',
     'A memoised or cached function returns for every argument exactly what the underlying function returns, computes each argument no more often than promised, and does not cache a computation that failed. The thread-safe form guarantees this under every interleaving of concurrent callers, without data races or deadlock.',
     ['schedules', 'histories'], 'all call sequences over a small argument domain and all interleavings of two and three concurrent callers within the preemption bound',
     'a single-threaded call sequence is all that is tested; races depend on the schedule',
     ['xo/utility/memoize.h', 'xo/utility/cached_var.h'], [('lookup/compute/insert under a mutex', 'xo/utility/memoize.h')], ['returned values and number of computations'],
     'stateless model checking of thread schedules with happens-before race detection, plus history exploration', LS)

prop('C22', 'The file resource cache never serves stale or mixed-up resources',
     'A cached file resource equals what loading the file afresh would give: it is reloaded when the modification time of the file has changed (looked at on the first request after the check interval of a few seconds), reused when it has not, and a failed load is reported and leaves no stale entry behind. Concurrent requests, in every interleaving, each obtain a resource belonging to the file they asked for, without data races.',
     ['histories', 'schedules', 'fault_sequences'], 'all sequences of requests, file modifications, load failures and cache operations, and all interleavings of concurrent requests within the preemption bound',
     'no test exists; staleness after a failure and concurrent loading are schedule and history dependent',
     ['xo/utility/file_resource_cache.h'], [('modification-time check', 'xo/utility/file_resource_cache.h'), ('reader/writer lock around the cache map', 'xo/utility/file_resource_cache.h')], ['returned resource and load counts'],
     'explicit-state exploration of histories with faults and stateless model checking of thread schedules', LS)

prop('C23', 'Every log message reaches every interested sink exactly once',
     'Each message logged at a level that a registered sink accepts is delivered to that sink exactly once, complete, unmixed with other messages and in per-thread order; messages below its level are never delivered, and the global level filter never suppresses a message some sink wants. This holds while sinks are added, removed or change level and under every interleaving of logging threads, without data races or deadlock.',
     ['schedules', 'histories'], 'all sequences of sink management and logging operations and all interleavings of two or three threads within the preemption bound',
     'the log test is single-threaded with fixed sinks',
     ['xo/system/log.cpp', 'xo/system/log.h', 'xo/system/log_sink.cpp', 'xo/system/log_sink.h'], [('global sink list under a mutex', 'xo/system/log.cpp'), ('per-sink level filter', 'xo/system/log_sink.cpp')], ['messages received by sinks'],
     'explicit-state exploration of sink histories and stateless model checking of thread schedules with race detection', LS)

prop('C24', 'Timers account for elapsed time exactly',
     'A timer, stopwatch or interval checker reports exactly the clock time that elapsed while it was running, for every order of start, pause, resume, restart and query operations, and is never negative, double counted or lost. Interval checks fire once per due interval and not before.',
     ['histories'], 'all operation sequences up to the depth bound under a virtual clock advanced by every choice of step between operations',
     'tests sleep and compare loosely; exact accounting over pause/resume orders needs a controlled clock',
     ['xo/time/timer.h', 'xo/time/timer.cpp', 'xo/time/stopwatch.h', 'xo/time/stopwatch.cpp', 'xo/time/interval_checker.h', 'xo/time/time.h'], [('accumulated plus running interval', 'xo/time/timer.cpp')], ['reported durations'],
     'explicit-state exploration of operation histories under a virtual clock', LV)

prop('C25', 'Profiler totals add up over any nesting of sections',
     'For any properly nested sequence of profiled sections, the profiler reports each section under its enclosing section once, with the number of entries and the total time spent in it, exclusive time never exceeds total time, and children never exceed their parent. Resetting returns it to the empty state.',
     ['histories'], 'all nested section sequences up to the depth bound under a virtual clock',
     'the profiler is not tested beyond running',
     ['xo/system/profiler.h', 'xo/system/profiler.cpp'], [('section tree', 'xo/system/profiler.cpp')], ['profiler report'],
     'explicit-state exploration of section histories under a virtual clock', LV)

prop('C26', 'Factories and the test framework account for every registration and result',
     'A factory creates for every registered name exactly the registered type and reports unregistered names, for any registration history. The test framework runs every selected test once and reports as failed exactly those with a failed check or an escaped exception, with correct counts and exit status.',
     ['histories', 'programs'], 'all registration/creation sequences and all small test programs made of passing, failing and throwing checks',
     'the test framework is never tested against failing programs; a miscount would hide every other failure',
     ['xo/utility/factory.h', 'xo/system/test_case.h', 'xo/system/test_case.cpp'], [('name to constructor map', 'xo/utility/factory.h'), ('check accounting', 'xo/system/test_case.cpp')], ['created types, reported counts'],
     'explicit-state exploration of registration histories and test programs against a reference', LV)

prop('C27', 'Optional, result and flag types keep value and state consistent',
     'An optional, result or error object is engaged exactly when a value was last stored, yields that value, and compares consistently (equality and inequality are complementary and symmetric) with other objects and plain values. A flag set holds exactly the flags set and not cleared, independent of the order of operations and of other flags.',
     ['histories', 'inputs'], 'all operation sequences up to the depth bound and all pairs of states',
     'comparisons between states and assignment orders are not tested',
     ['xo/utility/optional.h', 'xo/utility/result.h', 'xo/container/flag_set.h', 'xo/system/error_code.h', 'xo/system/error_code.cpp'], [('sentinel or flag based state', 'xo/utility/optional.h')], ['observable state and comparisons'],
     'explicit-state exploration of histories and state pairs against std reference types', LV)

prop('C28', 'Interpolation and piecewise functions pass through their points',
     'Piecewise and regular interpolating functions return the given value at every given point, stay between neighbouring values between points (piecewise linear and constant), and treat arguments outside the range, however far, as specified, for every number, spacing and insertion order of points. Filters, delays, averages and regressions follow their defining recurrence on every short input history.',
     ['inputs', 'histories'], 'all point sets on a small grid with all query positions on a refined grid, and all input histories over a small value alphabet',
     'tests evaluate a few positions of one function',
     ['xo/numerical/piecewise_linear_function.h', 'xo/numerical/piecewise_constant_function.h', 'xo/numerical/regular_piecewise_linear_function.h', 'xo/numerical/interpolation.h', 'xo/numerical/delayer.h', 'xo/numerical/filter.h', 'xo/numerical/average.h', 'xo/numerical/regression.h', 'xo/numerical/bounds.h'], [('segment lookup', 'xo/numerical/piecewise_linear_function.h')], ['function values'],
     'exhaustive enumeration of grids and input histories against exact reference definitions', LV)

prop('C29', 'Rotations, angles and transforms form a consistent group',
     'Unit quaternions, rotation matrices, Euler angles in every axis order and axis-angle forms that denote the same rotation act identically on every vector, conversion between forms preserves the rotation, composition matches applying one after the other, and inverses undo. Angle conversions and arithmetic, normalisation, property-tree forms, mirroring and transform composition obey the same laws for every orientation including the singular ones and rotations that add up to full turns.',
     ['inputs'], 'all products of quarter- and eighth-turn rotations about the axes (a finite group closed under composition), all axis orders and an angle grid including singular angles',
     'tests try random or single rotations; gimbal-lock and opposite-vector cases have measure zero',
     ['xo/geometry/quat.h', 'xo/geometry/mat33.h', 'xo/geometry/vec3.h', 'xo/geometry/angle.h', 'xo/geometry/transform.h', 'xo/geometry/quat_type.h'], [('conversion formulas', 'xo/geometry/quat.h')], ['rotated vectors'],
     'exhaustive enumeration of a finite rotation group and angle grids against reference matrices', LV)

prop('C30', 'Ranges, views and container algorithms visit exactly the right elements',
     'Integer and floating ranges, zipped and filtered views and element search, copy, sort, median and accumulation helpers visit or return exactly the elements their definition prescribes, in order, for every container content, bound and step, however wide the range, and never run past either end.',
     ['inputs'], 'all small containers over a small value domain and all range bounds and steps in a window',
     'tests iterate one container of each kind; empty ranges, steps that do not divide the range and duplicates are not covered',
     ['xo/utility/irange.h', 'xo/utility/frange.h', 'xo/container/view_if.h', 'xo/container/zip.h', 'xo/container/container_tools.h', 'xo/container/container_algorithms.h', 'xo/numerical/math.h', 'xo/utility/data_algorithms.h'], [('iterator adaptors', 'xo/container/view_if.h')], ['visited elements'],
     'exhaustive enumeration of containers and bounds against reference definitions', LV)

prop('C31', 'Stop requests are seen by everyone and never lost',
     'Once a stop is requested it stays requested and is visible to every holder of a token of that source, whatever the order of copying, moving and destroying tokens and sources, and to no holder of another source\'s token. This holds under every interleaving of requesting and polling threads, without data races.',
     ['schedules', 'histories'], 'all operation sequences on sources and tokens, and all interleavings of requesters and pollers within the preemption bound',
     'no test exists; visibility across threads is schedule dependent',
     ['xo/thread/stop_token.h', 'xo/thread/interruptible.h', 'xo/thread/interruptible.cpp'], [('shared stop flag', 'xo/thread/stop_token.h')], ['stop-requested queries'],
     'explicit-state exploration of histories and stateless model checking of thread schedules with race detection', LS)

prop('C32', 'Shapes, bounds and colours satisfy their geometric definitions',
     'Volume, inertia, bounding box, scaling and surface distance of every primitive shape agree with its geometric definition for all dimensions, and a shape described as a property tree and read back is the same shape. Bounding boxes contain exactly the points between their corners, and colour values convert to and from their text and integer forms within quantisation.',
     ['inputs'], 'all primitive shapes with dimensions, scales and probe points on a small grid, and all colour component values',
     'no geometric definition is checked by the tests',
     ['xo/shape/shape.h', 'xo/shape/shape.cpp', 'xo/shape/box.h', 'xo/shape/capsule.h', 'xo/shape/cylinder.h', 'xo/shape/cone.h', 'xo/shape/sphere.h', 'xo/shape/plane.h', 'xo/shape/aabb.h', 'xo/utility/color.h', 'xo/utility/color.cpp'], [('closed-form formulas', 'xo/shape/shape.cpp')], ['computed quantities'],
     'exhaustive enumeration of a parameter grid against independent reference formulas', LV)

prop('C33', 'Scalar mathematics equals its definition for every argument',
     'Comparison, sign, absolute value, clamping, rounding, gcd, modulo, wave, wrapping and power helpers return exactly what their definition says for every argument, also for negative and extreme ones, and approximate comparisons hold exactly within the stated tolerance relative to the first argument. Clamped, soft-clamped and (when set by assignment) bounded values always lie within their bounds and keep values inside them, monotonically.',
     ['inputs'], 'all pairs and triples of arguments from grids around zero, the bounds, multiples of the period and the extremes of each type',
     'a few of these functions are tested at one or two positive points; signs, boundaries, periods and monotonicity need every combination',
     ['xo/numerical/math.h', 'xo/numerical/bounded.h', 'xo/numerical/compare.h', 'xo/numerical/constants.h', 'xo/numerical/delta.h'], [('inline scalar functions', 'xo/numerical/math.h'), ('bounded value', 'xo/numerical/bounded.h')], ['returned values'],
     'exhaustive enumeration of argument grids against reference definitions', LV)

prop('C34', 'Vectors, lines, paths and splines obey their geometry',
     'Vector arithmetic, products, norms, clamping and normalisation satisfy their algebraic definition for every vector, including zero and tiny ones; nearest points and distances of lines, segments and paths are indeed nearest, and positions along a path are at the requested length. Splines pass through their control points with the tangents their definition gives, for every distinct consecutive set of points.',
     ['inputs'], 'all pairs of vectors of integer grids scaled over several magnitudes, and all lines, segments, paths and control points built from them, for both precisions',
     'tests cover one or two vectors; degenerate, parallel, reversed, tiny and zero-length configurations are combinatorial',
     ['xo/geometry/vec3.h', 'xo/geometry/vec4.h', 'xo/geometry/scale3.h', 'xo/geometry/line.h', 'xo/geometry/segment.h', 'xo/geometry/path_alg.h', 'xo/geometry/catmull_rom.h'], [('vector operators', 'xo/geometry/vec3.h'), ('closest points', 'xo/geometry/line.h'), ('path walking', 'xo/geometry/path_alg.h')], ['returned vectors and lengths'],
     'exhaustive enumeration of geometric configurations against reference geometry', LV)

prop('C35', 'Names, hashes, streams, random numbers and plots keep their laws',
     'Names marked with a side are classified, stripped, marked and mirrored consistently; run-time and compile-time hashes of text agree with each other and differ for distinct short texts; streams over containers write and read values back in order. Random numbers are reproducible from their seed and within the requested bounds, and a console plot marks each finite value in its place and never writes outside its area.',
     ['inputs', 'histories'], 'all short texts over alphabets with side markers and high bytes, all value sequences, blocks of seeds (thorough: every generator state) and all short functions and plot sizes',
     'none of these is covered by more than one example; collisions, ends of buffers, bounds of random numbers and plot edges depend on every input',
     ['xo/utility/side.h', 'xo/utility/hash.h', 'xo/utility/pair_math.h', 'xo/utility/variant_cast.h', 'xo/container/stream_wrapper.h', 'xo/numerical/random.h', 'xo/numerical/console_plot.h', 'xo/system/type_class.h'], [('side marker search', 'xo/utility/side.h'), ('FNV-1a hash', 'xo/utility/hash.h'), ('character grid', 'xo/numerical/console_plot.h')], ['returned values and text'],
     'exhaustive enumeration of inputs and call histories against reference definitions', LV)

prop('C36', 'Read-only and separate use from several threads is safe',
     'Operations of several threads that only read a shared object (property tree, settings, factory, storage, table, shape, containers) or that only use objects of their own (parsing, writing, loading and saving files, finding files, stopwatches, dates, random numbers) never race: each gives the same result as when it runs alone, in every interleaving.',
     ['schedules'], 'all pairs (thorough: triples) of an operation table in all schedules within a preemption bound, with happens-before race detection and the result of each operation compared with that of the operation alone',
     'a race through a hidden shared variable (a mutable mark, a static buffer, a global setting) needs two particular operations in a particular interleaving; the tests use one thread',
     ['xo/container/prop_node.h', 'xo/string/string_tools.cpp', 'xo/filesystem/filesystem.cpp', 'xo/serialization/serialize.cpp', 'xo/system/system_tools.cpp', 'xo/time/stopwatch.cpp', 'xo/system/settings.h', 'xo/utility/factory.h'], [('access marks', 'xo/container/prop_node.h'), ('precision of numbers in text', 'xo/string/string_tools.cpp'), ('folder of find_file', 'xo/filesystem/filesystem.cpp'), ('local time', 'xo/system/system_tools.cpp')], ['results of the operations', 'memory accesses'],
     'stateless exploration of the implementation under a controlled scheduler with race detection', LS)

prop('C37', 'Objects are configured from trees and reported as written',
     'Members read from a property tree (by the member and property macros) get the value under their tidied name, the default when it is absent, and an error (leaving the member unchanged) when a required one is absent or a value has the wrong type; writing a member back yields it on the next read. A command line becomes a tree with every flag and value in place. A tree in the log or as text shows every node once, in order, at its level; debug output, function files and scope timers show exactly what was written or measured.',
     ['inputs', 'histories'], 'all small trees x members, all identifiers, command lines and sequences of debug writes up to a length, and all small ranges of functions',
     'the macros and reports are used everywhere and have no tests; names with underscores, wrong types, repeated keys and empty values need particular combinations',
     ['xo/container/prop_node_tools.h', 'xo/container/prop_node_tools.cpp', 'xo/system/debug_storage.h', 'xo/system/debug_storage.cpp', 'xo/system/benchmark_tools.h', 'xo/system/system_tools.cpp'], [('member macros', 'xo/container/prop_node_tools.h'), ('trees in the log', 'xo/container/prop_node_tools.cpp'), ('debug output', 'xo/system/debug_storage.cpp'), ('scope timer', 'xo/system/benchmark_tools.h')], ['members', 'exceptions', 'messages of the log', 'files'],
     'exhaustive enumeration of trees, names and call histories against reference definitions', LV)
