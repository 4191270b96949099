ROOT=__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
import json
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
p("C01","parse.Source delivers the input bytes exactly, for every chunking",
"A parse source built over any reader, buffer size or string hands its consumer exactly the bytes of the input, in order, with none lost, duplicated or changed, whatever mix of peeking and consuming operations is used and however the reader splits the data. Peeking (including PeekN past the buffered data) consumes nothing, and an operation that runs past the end of the input reports an error and terminates instead of looping or panicking.",
["inputs","histories","fault_sequences"],"every input byte string, every way the reader cuts it into reads (including data returned together with EOF), every buffer size and every operation sequence up to the stated length",
"the tests use two or three fixed strings and readers with one chunking each; the guarantee is about every split point of the input against every operation",
["parse/parse.go"],[("chunk buffer refill on Consume/ConsumeN/PeekN","parse/parse.go Source.Consume, ConsumeN, PeekN"),("sticky error","parse/parse.go Source.ReportError/Error")],["parse.Source.Peek/Peek1/PeekN/Consume/ConsumeN/Error"])
p("C02","Rune peeking equals UTF-8 decoding of the remaining input",
"PeekRune on a source returns the rune and width that standard UTF-8 decoding gives for the remaining input, including invalid and truncated sequences, no matter how the input is split into reads, and it consumes nothing.",
["inputs","fault_sequences"],"every byte content and every chunking, within the stated length",
"tests decode one or two valid characters; invalid, overlong, surrogate and truncated sequences at chunk boundaries are a large space",
["parse/utf8.go","parse/parse.go"],[("PeekN plus table driven decoding","parse/utf8.go PeekRune")],["parse.Source.PeekRune"])
p("C03","Integer readers return the exact value or an overflow error",
"Reading an unsigned or signed integer from a source yields exactly the decimal value of the longest digit prefix (with optional leading minus for the signed readers) when it fits the type, consumes exactly that text and reports no error other than end of input; when the value does not fit the type it reports an error and never returns a wrapped value as if it were correct.",
["inputs"],"every text up to the stated length, including values around every type boundary, for every chunking",
"wrap-around only shows for specific 20-digit inputs; tests read a handful of small numbers",
["parse/read/int.go"],[("overflow checks in the digit loops","parse/read/int.go Uint64, Int64, Int32, Int")],["read.Uint64, read.Int64, read.Int32, read.Int, src.Error"])
p("C04","Token readers and skippers take exactly the maximal matching prefix",
"Each token reader and skipper (any-except, unicode range, unicode ranges, space, unicode space) consumes exactly the longest prefix of the remaining input that matches its class, returns exactly those bytes if it is a reader, leaves the source positioned at the first non-matching character, and terminates at end of input.",
["inputs","fault_sequences"],"every input up to the stated length and every chunking of it",
"tests use single-chunk fixed inputs; maximality and position must hold at each chunk boundary and at EOF",
["parse/read/any.go","parse/read/range.go","parse/skip/range.go","parse/skip/space.go"],[("scan of the current chunk then refill","parse/read/*.go, parse/skip/*.go")],["read.AnyExcept1/2/s, read.UnicodeRange(s), skip.*"])
p("C05","Expression parsing honours precedence and left associativity",
"Parsing with a lexer of prefix and infix tokens yields the tree dictated by the declared precedences, equal precedence associating to the left, for every expression; a token that cannot start or continue an expression, or trailing garbage where the whole input is required, is reported as an error and not silently accepted, and the lexer is not asked for operators after the end of the input or an error.",
["inputs","configurations"],"every token sequence up to the stated length over a lexer with symbolic precedences",
"the tests evaluate a few expressions over one lexer",
["parse/parse.go","parse/lexer.go"],[("precedence climbing loop","parse/parse.go Parse")],["parse.Parse, parse.String"])
p("C06","Message formatting substitutes exactly the named properties",
"Formatting a well-formed template writes its literal text unchanged and replaces every {name} (with optional formatting directives) by the formatted value of the property with that name, regardless of the order of the properties and of extra properties.",
["inputs","programs"],"every template over the stated grammar and length, every property order and every value of the stated kinds",
"tests hold around fifteen concrete templates",
["msgfmt/msgfmt.go","msgfmt/parse.go","msgfmt/formatter.go","msgfmt/custom.go"],[("template parser and per property formatter lookup","msgfmt/parse.go")],["msgfmt.Sprintf, msgfmt.Fprintf, FormatterOf.Format"])
p("C07","Malformed templates never hang or crash the caller",
"For any byte string used as a template, and any property list (odd length, keys that are not strings and nil values included) whose values' own methods do not panic, formatting terminates without a panic and returns output; a template that is malformed or names an unknown property is rendered as a visible invalid-format marker and does not take down or block the caller.",
["inputs"],"every template byte string up to the stated length",
"the crashing inputs (unclosed brace, brace at end, empty name) are outside the handful of templates tested",
["msgfmt/parse.go","msgfmt/formatter_invalid.go","parse/parse.go"],[("invalidFormatter and panic containment","msgfmt/parse.go, msgfmt/formatter_invalid.go")],["msgfmt.Sprintf"])
p("C08","Formatting depends only on template and properties, not on history",
"The output of formatting is a function of the template and the properties of that call alone: previous calls (with the same template and other property types, values, order or number) never change it, and never make it panic or read memory of the wrong type.",
["histories","inputs"],"every pair/sequence of calls drawn from the stated sets of templates and property shapes, with symbolic values",
"caches are process wide, so the outcome depends on call order; tests call each template with one shape only",
["msgfmt/msgfmt.go","msgfmt/formatter.go"],[("formatter cache","msgfmt/msgfmt.go, msgfmt/formatter.go")],["msgfmt.Sprintf"])
p("C09","Byte-slice text escaping is lossless and single-line",
"Formatting a byte slice in a log message keeps printable ASCII text, and escapes every other byte (as \\xNN) so that the output contains no raw control character below 0x20, line break or non-ASCII byte and the original bytes can be recovered.",
["inputs"],"every byte slice up to the stated length",
"256^n contents, tests check two",
["msgfmt/formatter_bytes.go"],[("safe set table and escape loop","msgfmt/formatter_bytes.go")],["msgfmt.Sprintf with []byte"])
p("C10","JSON strings are valid JSON and decode to the original",
"The JSON encoding of any string is a valid JSON string that decodes to exactly the original text (invalid UTF-8 being replaced by U+FFFD); that of any byte slice is a valid JSON string that shows ASCII text as it is and every other byte as the text \\xNN; whatever the content and wherever the characters that need escaping are located, nothing is dropped.",
["inputs"],"every content up to the stated length, and every position of special characters",
"tests cover about ten strings; escaping bugs depend on the position of a specific byte",
["msgfmt/jsonfmt/encoder_str.go","msgfmt/jsonfmt/encoder_bytes.go"],[("fast path over safe characters, slow path escape","msgfmt/jsonfmt/encoder_str.go WriteString, WriteBytes")],["jsonfmt.MarshalToString, jsonfmt.WriteString, jsonfmt.WriteBytes"])
p("C11","JSON integers are the exact decimal value for every integer type",
"Encoding any value of any signed or unsigned integer type, including the extreme values, appends exactly its canonical decimal representation (no leading zeros, minus sign when negative) after whatever the buffer already held.",
["inputs"],"all 2^8 … 2^64 values of int8…int64, uint8…uint64, int, uint, uintptr",
"the digit grouping has a separate path per magnitude; tests sample one to three values per type",
["msgfmt/jsonfmt/encoder_int.go"],[("three digit groups","msgfmt/jsonfmt/encoder_int.go")],["jsonfmt.MarshalToString, jsonfmt.WriteInt64 ..."])
p("C12","JSON floats are valid numbers within the promised precision",
"Encoding a finite float32 or float64 yields a valid JSON number that parses back to within the promised precision (six fractional digits in the lossy range, exact shortest text outside of it); a non finite value yields a JSON string naming it (NaN, +Inf or -Inf) and never output that a JSON parser reads as a number.",
["inputs"],"every float value of the stated classes",
"2^64 values, tests sample five",
["msgfmt/jsonfmt/encoder_float.go"],[("lossy fast path","msgfmt/jsonfmt/encoder_float.go")],["jsonfmt.MarshalToString"])
p("C13","JSON encoding of composite values matches encoding/json structure",
"Structs, slices, arrays, maps, pointers and interfaces, nested in any combination, as long as the data holds no pointer cycle, encode as valid JSON with the same structure and values that the Go data holds: each element and each exported field (not tagged \"-\", not a func or chan; an embedded exported struct nested under its type's name) once and in order, nil pointers, maps and interfaces as null, a nil slice as an empty array, a map key that is neither string nor number as a string of its JSON text, and no memory outside of the value is read or shown. What was encoded before, of this type or another or with another configuration, changes nothing. With a configuration of one's own, its extensions decide the encoding of the types they know wherever in the value these appear and are given the context of the call, and unexported fields are included if asked for.",
["programs","inputs"],"the stated set of nested types, with symbolic leaf values, lengths and nil-ness",
"each combination of container and pointer-shaped element takes another unsafe path; tests cover single shapes",
["msgfmt/jsonfmt/encoder.go","msgfmt/jsonfmt/encoder_stuct.go","msgfmt/jsonfmt/encoder_slice.go","msgfmt/jsonfmt/encoder_array.go","msgfmt/jsonfmt/encoder_map.go"],[("per type encoder with direct memory access","msgfmt/jsonfmt/encoder.go")],["jsonfmt.MarshalToString"])
p("C14","Errors and marshalers embed as valid JSON",
"A value implementing error or json.Marshaler always encodes to valid JSON: an error's message becomes a properly escaped JSON string that decodes to the message, a marshaler's output is embedded verbatim, and a failing marshaler is reported inside a valid JSON string.",
["inputs"],"every message content up to the stated length",
"messages with quotes, backslashes or control characters are not tested",
["msgfmt/jsonfmt/encoder_error.go","msgfmt/jsonfmt/encoder_json_marshaler.go"],[("error and marshaler encoders","msgfmt/jsonfmt/encoder_error.go, encoder_json_marshaler.go")],["jsonfmt.MarshalToString"])
p("C20","Logging calls are gated exactly by level",
"An event logged below the minimum level (set globally, or for a context by SuppressLevelsBelow) produces no output and costs no evaluation of handlers, an event at or above it is emitted with its own level; Warn, Error, Fatal, and a call-logging function whose error is non nil, always emit, the latter at WARN level (ERROR for LogAccess), whatever the minimum level. Successful calls, and other events that are aggregated into stats, are written one by one only from the minimum level for calls (MinLevel+5) on, with or without a stats collector. ShouldLog and the timers agree with the minimum level.",
["configurations","inputs"],"all combinations of logging function, minimum level, context suppression level and error presence",
"tests log at one level with one configuration",
["countlog/countlog.go","countlog/root.go","countlog/context.go"],[("minLevel comparison and ShouldLog gates","countlog/countlog.go")],["countlog.Trace … Fatal, TraceCall …"])
p("C21","Call-logging returns nil iff the call succeeded and keeps the cause",
"The error returned by the call-logging functions is nil exactly when the error passed in is nil; otherwise its text begins with the formatted event message and ends with the text of the original error, at every minimum level and through a context as well, also when the event writer fails or the text of a property or of the error can not be had.",
["configurations","inputs"],"all call-logging functions × minimum levels × error/nil × symbolic error text",
"tests look at one function and one level",
["countlog/countlog.go","countlog/context.go"],[("log() return value","countlog/countlog.go")],["countlog.TraceCall … ErrorCall"])
p("C22","Every enabled event reaches every event writer exactly once, and never panics",
"Each enabled logging call delivers exactly one event, with its own name, level, properties, context and error, to each configured event writer, and what is written for it is the same as if it was the first event logged: it does not depend on what was logged before under the same event name (other property keys, types, counts or values); a panic inside an event writer, formatting or a property's methods is contained: it does not reach the caller, does not keep the event from the other writers and does not make it be written twice.",
["histories","inputs"],"every history of logging calls up to the stated length over the stated shapes",
"handlers are cached per event at first use, so the outcome depends on history",
["countlog/root.go","countlog/spi/spi.go","countlog/output/writer.go"],[("handler cache and panic containment","countlog/root.go")],["countlog.EventWriter output"])
p("C23","Logging contexts keep and expose exactly what was added to them",
"Properties added to a logging context (also through a context derived from it) are reachable, complete and in order, from every later event of that context and not from events of other contexts, and the human readable format shows them; wrapping a logging context again returns the same context, values of the parent stay reachable, and a suppression level set on it applies to that context.",
["histories"],"every sequence of add/log/wrap operations up to the stated length with symbolic values",
"tests exercise one sequence",
["countlog/context.go","countlog/spi/context.go"],[("Context struct","countlog/context.go")],["countlog.Ctx(...)"])
p("C24","Output formats render every event completely and parseably",
"Each output format renders every event completely, whatever its name, property keys and values: json is one valid JSON object on one line, with event name, every property of the call under its key with its value, timestamp and location; the human readable format shows level, message, error if any, every property of the context and of the call, and the location from WARN level on; compact shows level, timestamp, location, message, error if any and every property of the call; printf replaces each variable of its layout by level, message, timestamp, event, func, file, line.",
["inputs","configurations"],"all formats × symbolic event contents and property values up to the stated length",
"tests check one or two lines per format",
["countlog/output/json/json.go","countlog/output/compact/compact.go","countlog/output/hrf/hrf.go","countlog/output/printf/printf.go"],[("FormatterOf per format","countlog/output/*/")],["output of EventWriter"])
p("C25","The event writer issues one complete write per event",
"For each event the event writer performs exactly one write of the complete formatted line to the configured writer, lines of concurrent or successive events are never mixed or overwritten, and a failing write or an event that can not be formatted never makes the logging call fail or lose later events.",
["schedules","fault_sequences"],"every interleaving within the bound, every pattern of write errors",
"tests run single threaded with a working writer",
["countlog/output/writer.go"],[("buffer pool per write","countlog/output/writer.go")],["io.Writer given to EventWriter"])
p("C26","Stats count every event exactly once",
"Across all exports, the value reported for a counter and dimension equals the number of matching events logged since the previous export, whatever the interleaving of logging and exporting, the number of shards, and the mix of dimension values; an export resets the window, and periodic export keeps on running.",
["schedules","histories","inputs"],"every interleaving within the bound and every sequence of events over symbolic dimension values",
"tests log two events from one goroutine",
["countlog/stats/window.go","countlog/stats/state.go","countlog/stats/counter.go","countlog/stats/stats.go"],[("sharded maps with mutex, swap on export","countlog/stats/window.go")],["stats collector points"])
p("C27","The async writer delivers everything in order, or says what it dropped",
"In blocking mode every accepted write reaches the underlying writer exactly once, unmodified even if the caller reuses its buffer, in order per producer, and before Close returns (which gives the writing of what is left one second); in dropping mode a write never blocks and each accepted message is either delivered exactly once or reported as dropped; a failing write is reported and loses no other message, and nothing is accepted once the writer is closed.",
["schedules","fault_sequences"],"every interleaving of producers, the background goroutine and Close within the bounds, every queue length in the bound, every write-error pattern",
"tests write two messages and sleep",
["countlog/output/async/async.go"],[("queue channel, background goroutine","countlog/output/async/async.go")],["inner writer, onMessageDropped"])
p("C28","The executor stops only after all its goroutines have finished",
"StopAndWait on an executor returns only after every handler started before it has finished, cancels the context given to handlers, and a panicking handler neither kills the process nor blocks the stop; waiting with a deadline returns when the deadline passes even if handlers are still running.",
["schedules"],"every interleaving within the bounds",
"tests use sleeps and observe one schedule",
["concurrent/unbounded_executor.go"],[("active goroutine counter under a mutex","concurrent/unbounded_executor.go")],["UnboundedExecutor.Go/Stop/StopAndWait"])
p("C29","Goroutine-local storage is private to its goroutine and cleaned up",
"A value set in goroutine-local storage is visible to later reads by the same goroutine and to no other; a goroutine started through the helper sees a snapshot of its parent's values, later changes on either side stay private, and storage is gone after the goroutine ends.",
["schedules","histories"],"every interleaving of set/get/start operations within the bounds",
"tests run two goroutines with sleeps",
["gls/gls.go","gls/goid.go"],[("sharded maps keyed by goroutine id","gls/gls.go")],["gls.Get/Set/ResetGls/GoWithGls"])
p("C30","Closing several resources closes each once and merges all errors",
"Closing a collection of resources closes each one exactly once in order even if some of them fail, and the merged error is nil exactly when all errors are nil and otherwise is a MultiError of exactly the errors that are not nil, in order.",
["fault_sequences"],"every subset of failing closers up to the bound",
"tests never make closers fail",
["closer.go","error.go"],[("CloseAll, MergeErrors","closer.go, error.go")],["plz.CloseAll, plz.MergeErrors"])
p("C31","Rotation strategies trigger, retain, name and purge as configured",
"The time to trigger that interval triggering gives is more than zero and at most one interval, and ends, counted from the current second, at a multiple of the interval; size triggering fires exactly when the size, what the file held at the start included, has reached the limit; retention by count selects the oldest archives and leaves the newest N; purging removes exactly the selected files, goes on after a failing removal and reports all of them; naming by time lists exactly the files whose names have the pattern, with their times and sizes, in chronological order, and gives the directory and current time as next name; naming by index lists the files named so; archiving by moving moves the file unmodified to the next name and reports what fails.",
["inputs","configurations","fault_sequences"],"every time, interval, size and archive set in the stated ranges",
"tests use one time, two sizes and two files",
["countlog/output/rotation"],[("strategies","countlog/output/rotation/trigger_by_interval.go, trigger_by_size.go, retain_by_count.go, purge_by_delete.go, name_by_time.go, name_by_index.go, archive_by_move.go")],["strategy return values and file system effects"])
p("C32","The rolling file loses and splits nothing and respects its size limit",
"Every write accepted by the rolling log file lands whole and exactly once in exactly one file, the backup files in the order of the times in their names followed by the current file contain the writes in order (also if several rotations happen within the resolution of the time in the name), and no file ever exceeds the maximum size; an oversized write is rejected with an error and writes nothing, a failing examination of the file loses nothing, a write that fails half way counts with what it wrote, and compressed backups keep their content, also if compressing fails at any point.",
["inputs","histories","fault_sequences"],"every sequence of write/rotate/close operations and write sizes within the bounds, including an existing file at start",
"tests do one or two rotations with fixed sizes",
["countlog/output/lumberjack/lumberjack.go"],[("size accounting, rotate, openExistingOrNew","countlog/output/lumberjack/lumberjack.go")],["files in the log directory"])
p("C33","Backup retention removes exactly what the limits exclude",
"After rotation the backup files kept are exactly the newest MaxBackups ones that are not older than MaxAge days by the time in their name, local or UTC as configured (zero meaning no limit; a backup and its compressed form count as one), and files that are not backups of this log are never deleted.",
["inputs","configurations"],"every set of files (names, ages) in the bound × limits",
"tests use one file set",
["countlog/output/lumberjack/lumberjack.go"],[("millRunOnce/cleanup","countlog/output/lumberjack/lumberjack.go")],["files in the log directory"])
p("C34","reflect2 slice and array access agrees with Go semantics",
"Every operation on slices and arrays through reflect2 (make, length, capacity, get, set, append, grow, assign, set to nil), by typed or raw pointer, in the default and in the safe implementation, with indices within bounds, has the result that plain Go code has, changes no other element and no memory outside of the value, and preserves existing elements when growing, to the length asked for.",
["inputs","programs","histories"],"every operation sequence, index and value in the bounds over the stated element types",
"tests use one index and value per element type",
["reflect2/unsafe_slice.go","reflect2/unsafe_array.go","reflect2/safe_slice.go"],[("raw pointer arithmetic","reflect2/unsafe_slice.go")],["reflect2 types' methods"])
p("C35","reflect2 map access agrees with Go semantics",
"Every operation on maps through reflect2 (make, set, get, try to get, iterate, assign), by typed or raw pointer, in the default and in the safe implementation, has the result that plain Go code has: set then get returns the value, other keys keep theirs, absent keys are reported absent, and iteration over a map that is not changed meanwhile visits each entry exactly once with the right key and value.",
["inputs","programs","histories"],"every operation sequence in the bounds over the stated key and element types with symbolic keys and values",
"tests use two entries",
["reflect2/unsafe_map.go","reflect2/safe_map.go","reflect2/unsafe_link.go"],[("runtime map functions by linkname","reflect2/unsafe_map.go")],["reflect2.MapType methods"])
p("C36","reflect2 struct fields, boxing and type conversion agree with Go semantics",
"Reading or writing a struct field by name or index through reflect2, fields of embedded structs included, touches exactly that field; New/Indirect/Set/PackEFace and their raw forms produce values with the same dynamic type and value that plain Go has, for pointer-shaped and other types; there is one description per type, in each implementation, and what it tells (kind, elements, nil or not, can be nil, assignable to, implements, the plain type of a kind, a type by its name) is what package reflect tells; in the default implementation a value of another type than asked for is rejected with a panic and not reinterpreted.",
["inputs","programs"],"the stated set of types with symbolic field values",
"tests use one value per type",
["reflect2/unsafe_struct.go","reflect2/unsafe_field.go","reflect2/unsafe_eface.go","reflect2/unsafe_iface.go","reflect2/unsafe_type.go","reflect2/unsafe_ptr.go"],[("eface packing","reflect2/unsafe_eface.go, unsafe_type.go")],["reflect2 methods"])
p("C37","The rotating writer loses and splits nothing",
"Everything written through the rotation Writer, after what the file held before, is found whole and in order in the archives in the order they were made followed by the current file, except for the oldest archives that retention removed, whenever the background rotation happens and also if archiving fails and is tried again; the directory and file are made if missing, and closing ends the rotation.",
["histories","schedules","fault_sequences"],"every sequence of writes and pauses and every interleaving with the rotation in the bounds",
"the only test of rotation sleeps for a minute and checks nothing",
["countlog/output/rotation/rotation.go","countlog/output/rotation/archive_by_move.go"],[("status shared between Write and rotateInBackground","countlog/output/rotation/rotation.go")],["files in the log directory"])
p("C40","Dump of arbitrary values describes the real memory",
"Dumping a value yields valid JSON describing each reachable object once by address.",["inputs"],"every value","dump tests do not compile",["dump"],[("dump.Var","dump/dumpvar.go")])
p("C41","The log viewer service serves every queued event",
"The witch viewer service delivers the logged events to the polling client in order.",["schedules"],"every interleaving","no tests compile",["witch"],[("event queue","witch/witch.go")])
open(ROOT+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
