chk("C06","msgfmth",[
  run("Subst","templates of 0..vars variables over the names a, ab, é1 (any spacing, in any order, repeated), 0..props properties with repeated and extra names, literal texts of 0..lit arbitrary bytes, values: arbitrary 2-byte strings, ints 0..99, Stringer, nil, byte slices, bools",dict(vars=2,props=2,lit=1,kinds=5),dict(vars=2,props=3,lit=1,kinds=6)),
  run("Subst","same with 14 kinds of values (structs, slices, pointers, errors, floats, arrays too), no literal text",dict(vars=2,props=2,lit=0,kinds=14),dict(vars=2,props=2,lit=1,kinds=14,spaces=4)),
  run("Time","goTime directive: default and 5 layouts, optional spaces, 3 instants, property in first or later position, an arbitrary literal byte"),
  run("Print","Fprintln with 0..3 values of 8 kinds")],
  "longer templates, other property names, formats registered by the user",["the values' own methods do not panic"])
chk("C07","msgfmth",[
  run("Malformed","every template of 0..n bytes (all byte values) with 5 property lists: none, normal, a key without value, keys that are no strings and nil values, a value json cannot encode",dict(n=4),dict(n=5),secs=300),
  run("Directive","7 beginnings with directives (known, unknown, select, plural, unclosed) followed by every text of 0..n characters over '{','}',',',' ','a','2',0xC3",dict(n=3),dict(n=5))],
  "longer templates",["the values' own methods do not panic"])
chk("C08","msgfmth",[
  run("History","two templates; a call with any of up to 2 properties (names a, b in any order, 3 kinds of arbitrary values, also a dangling key), then another such call, then formatters compiled for the first used for both",dict(kinds=3,odd=0),dict(kinds=4,odd=1)),
  run("History","same with 0..1 properties of 14 kinds",dict(kinds=14,odd=1,props=1)),
  run("History","same with up to 2 properties of 2 kinds and a dangling key",dict(kinds=2,odd=1)),
  run("Nested","a value whose text is made by calling the package itself, with any properties of 6 kinds, after 0..2 other calls, through Sprintf and Fprintf",dict(props=1),dict(props=2),secs=120),
  run("Shapes","after 20 different property lists for one template (more than the cache holds), any call again",dict(shapes=20,kinds=4),dict(shapes=40,kinds=6)),
  run("Parallel","threads calls with different property types at the same time, every schedule",dict(threads=3),dict(threads=4))],
  "longer histories",["the values' own methods do not panic"])
chk("C09","msgfmth",[run("BytesEsc","byte slices of 0..n arbitrary bytes after a plain prefix of 0, 1 or 40 characters and before a plain suffix of 0 or 2",dict(n=3),dict(n=5))],"more than n consecutive characters that need a decision")

chk("C12","jsonh",[
  run("Floats","every float64 and float32 (any bits: 63 or 31 bits of magnitude and a sign), lossy or not, written after other text",secs=300),
  run("FloatKinds","every float64 and float32 through the encoder in 8 ways: plain, named type, pointer, in an interface, a field, a slice, an array, a map")],
  "none in the values; configurations other than the default (C13, C14)",
  ["the text strconv.FormatFloat makes of a number is represented by a token that ParseFloat reads back as this number (so that strconv's own algorithms are trusted, not executed); the precision promised in the lossy range is 0.52 millionths: half a millionth and the rounding of one multiplication and addition"])
chk("C13","jsonh",[
  run("Composite","values of 36 families of types (structs with tags, unexported, embedded, recursive, pointer-shaped and padded fields; slices, arrays, maps with string, number, bool, struct, pointer and interface keys; interfaces holding every kind; named types; zero-size elements; types JSON has no form for) with symbolic leaf values, lengths and nil-ness, through MarshalToString, EncoderOf with a given buffer, and a fresh configuration whose encoder is used twice"),
  run("Configured","a struct with a type handled by an extension in fields, pointers, slices, arrays, maps, keys and interfaces; configurations with no, one or two extensions, with and without unexported fields, with a context value, before and after the default configuration"),
  run("Twice","every ordered pair of those families, encoded one after the other, then both in one slice",dict(),secs=120)],
  "other combinations of types; cyclic data")
chk("C14","jsonh",[
  run("Errors","messages of 0..3 arbitrary bytes, of error types of every shape (value, pointer, pointer-shaped struct, string, nil), directly, in fields, slices, maps and interfaces"),
  run("Marshalers","marshalers of every shape with arbitrary output and failing ones with arbitrary messages")],
  "longer messages; methods that panic")

METH=["the values' own methods do not panic where the text of the message is compared"]
chk("C20","logh",[run("Gates","every logging function of the package and of contexts, Log with any level 0..80, every minimum level 0..80 or the default, every context suppression level 0..80 or none, error or none, with or without an agg property, three aggregators (no collector, collector, sink without handlers), each call twice, called on a nil context too, after nothing, a warning, a failed call, or a call and an event of level 80 of the same name")],
  "levels above 80 or negative")
chk("C21","logh",[
  run("CallErrors","every call-logging function, every minimum level, 5 errors (arbitrary 2-byte text, template-like text, no text, wrapped), 5 messages, 6 property lists (with arbitrary values, malformed, methods that panic), 3 event writers (two of them fail)",secs=120),
  run("CallErrors","same twice in a row with other properties",dict(calls=2,writers=2,set=1,errs=2,events=2,props=4),secs=120)],
  "longer texts")
chk("C22","logh",[
  run("Deliver","one event of 20 property shapes, 2 names, with and without context, 4 formats, 4 combinations of a second writer that may fail",dict(n=1)),
  run("Deliver","every history of up to 2 events of the same name of 20 shapes, 2 functions, 4 formats",dict(n=2,failing=1,ctx=1,events=1),dict(n=2)),
  run("Deliver","every history of up to 2 events with a second writer that fails always, once, before or after the first",dict(n=2,failing=4,ctx=1,events=1,fns=1,formats=2),dict(n=2,failing=4,ctx=2,events=1,fns=3,formats=2)),
  run("Deliver","every history of up to 3 events of 20 shapes",dict(n=3,failing=1,ctx=1,events=1,formats=1,fns=1),dict(n=3,failing=1,ctx=1,events=1,formats=4,fns=2))],
  "longer histories, other shapes; two goroutines logging the same event for the first time (C25)",METH)
chk("C23","logh",[run("Ctx","every sequence of ops operations on two contexts: Add and AddLogContext with arbitrary values, directly or through a derived context, wrapping again, suppressing, logging at three levels; each followed by an event without context",dict(ops=3),dict(ops=4),secs=120)],
  "contexts shared by goroutines")
chk("C24","logh",[
  run("Json","0..1 properties with fixed, arbitrary 1-byte or hostile keys and 10 kinds of values (2 arbitrary bytes among them), 4 kinds of event names",dict(props=1,levels=1,errs=1,times=1,name=0,file=0,room=1)),
  run("Json","event names with 2 arbitrary bytes and file names with one, error or none",dict(props=0,levels=1,errs=2,times=2,name=2),secs=120),
  run("Json","up to two properties, also with equal keys",dict(props=2,levels=1,errs=1,times=1,vlen=0,events=1,name=0,kinds=4,room=1),dict(props=2,levels=1,errs=1,times=1,vlen=1,events=2,name=0,kinds=6,room=1),secs=120),
  run("Hrf","up to one property of the call, 10 kinds, any key, name, file and error text byte, 2 levels",dict(levels=2,ctx=0)),
  run("Hrf","properties of the context as well",dict(levels=2,ctx=1,vlen=1,events=1,times=1,errs=1,room=1,props=1,kinds=6),dict(levels=2,ctx=2,vlen=1,events=2,times=1,errs=1,room=1,props=1,kinds=6)),
  run("Hrf","every level",dict(levels=9,props=0,ctx=0)),
  run("Timer","the timer property: 5 durations, and values that are no time"),
  run("Compact","up to one property, 10 kinds, any key, name, file and error text byte, 2 levels",dict(levels=2,props=1),dict(levels=2,props=2)),
  run("Compact","every level",dict(levels=9,props=0)),
  run("Printf","up to one property, 10 kinds, any key, name, file and error text byte, 2 levels",dict(levels=2,props=1),dict(levels=2,props=2)),
  run("Printf","every level",dict(levels=9,props=0))],
  "longer names, keys and values (C06, C10, C13 cover the values); the escape character, as the colors are removed before comparing")
chk("C25","logh",[
  run("Faults","n events, any pattern of failing writes, of events that can not be formatted and of line sizes around the pooled buffer's, arbitrary content",dict(n=3),dict(n=4)),
  run("Concurrent","threads goroutines with each events each, every interleaving with at most @preempt preemptions at synchronisation points, data race detection, handler cached or not, one shape or two",{"@preempt":2,"@race":1},{"@preempt":3,"@race":1},secs=120),
  run("Concurrent","three goroutines",{"@preempt":1,"@race":1,"threads":3,"each":1},{"@preempt":2,"@race":1,"threads":3,"each":1})],
  "more goroutines, events and preemptions",["writers do not keep the buffer"])
chk("C28","coreh",[
  run("Exec","up to n handlers of 10 kinds (returning, sleeping, waiting for the stop, panicking with strings, errors, values that can not be compared, the stop signal, starting another), every order of execution, data race detection",{"n":2,"@race":1},{"n":3,"@race":1,"kinds":6}),
  run("Exec","one handler, 2 preemptions",{"n":1,"@preempt":2}),
  run("Exec","one handler, any goroutine may be held up while @early timers fire",{"n":1,"@early":1},{"n":1,"@early":2}),
  run("Exec","two handlers of 3 kinds, held up",{"n":2,"kinds":3,"@early":1},{"n":2,"kinds":5,"@early":1}),
  run("Exec","two handlers of 3 kinds, one preemption",{"kinds":3,"@preempt":1},{"kinds":5,"@preempt":1}),
  run("Exec","two handlers of 2 kinds, two preemptions",{"kinds":2,"@preempt":2}),
  run("ExecDeadline","StopAndWait with a deadline before, while or after the handlers finish",{"@preempt":1,"@race":1},secs=120)],
  "more handlers and preemptions; handlers started after the stop")
chk("C29","coreh",[
  run("Gls","goroutines started in 3 ways down to depth 2, each doing 2 operations (get, set, reset, in any order, on 2 keys), every order, data race detection",{"depth":2,"ops":2,"@race":1}),
  run("Gls","depth 1 with one preemption",{"depth":1,"ops":2,"@preempt":1,"@race":1},secs=180),
  run("GlsReuse","functions wrapped once and run several times, goroutine ids that are used again, two preemptions",{"@preempt":2,"@race":1})],
  "how the goroutine id is found (assembly and runtime layout) is modelled; more goroutines")
chk("C30","coreh",[
  run("CloseAll","0..n closers, each succeeding or failing with one of two error types, plain or wrapped, 4 property lists, twice",dict(n=3),dict(n=4),secs=120),
  run("Merge","0..n errors, nil or of two types",dict(n=5),dict(n=7)),
  run("Merge","0..n errors of 7 kinds (io.EOF, os.ErrClosed, a nil pointer, without text among them)",dict(n=3,errs=7),dict(n=5,errs=7)),
  run("CloseAll","0..n closers failing with errors of 7 kinds",dict(n=2,errs=7),dict(n=3,errs=7),secs=120),
  run("CloseOne","one resource, twice")],
  "closers that panic")
C["C08"]["runs"]=[r for r in C["C08"]["runs"] if r["fn"]!="Parallel"]+[run("Parallel","threads calls with different property types at the same time, every interleaving with at most @preempt preemptions, data race detection",{"threads":2,"@preempt":2,"@race":1},{"threads":3,"@preempt":2,"@race":1},secs=120)]
chk("C26","statsh",[
  run("Count","n events with up to 3 properties in 8 layouts of dimensions (none, one, up to five, missing ones), fixed or arbitrary text, numbers, an export before any of them, from one goroutine or others, of any shard, the memory of the values changed afterwards",dict(n=2),dict(n=3),secs=120,tsecs=900),
  run("Count","the first five layouts, every combination of value types",dict(n=1,full=1,types=4,specs=8),dict(n=2,full=1,types=3,specs=4),secs=120,tsecs=900),
  run("Concurrent","threads goroutines counting and one exporting, in the same or in different shards, the same or other dimensions, every interleaving with at most @preempt preemptions, data race detection",{"@preempt":1,"@race":1},{"@preempt":3,"@race":1},secs=120,tsecs=900),
  run("Concurrent","two preemptions",{"@preempt":2,"@race":1},{"@preempt":1,"@race":1,"threads":3,"exports":2},secs=120,tsecs=900),
  run("Periodic","the export of every second, by the default and by another executor, 0..2 events in each",dict(seconds=3),dict(seconds=5)),
  run("Logged","n logging calls of 6 shapes for 2 events, through the whole logging path",dict(n=2),dict(n=3),secs=120,tsecs=900)],
  "more events, dimensions and goroutines; other aggregations than counter",["a property value used as dimension is written by msgfmt as C13 decides"])
chk("C27","asynch",[
  run("Blocking","2 producers with 2 messages of arbitrary content each, buffers reused, queue of 1 or 2, any pattern of write errors, every order of execution",dict(each=2,faults=4)),
  run("Blocking","1 message each, @preempt preemptions, data race detection",{"each":1,"@preempt":1,"@race":1},{"each":1,"@preempt":2,"@race":1},tsecs=900),
  run("Blocking","1 producer, queues of 1, 2, 3 and the default length",{"threads":1,"each":3,"queues":4,"@preempt":1,"@race":1},{"threads":1,"each":4,"queues":4,"@preempt":2,"@race":1},tsecs=900),
  run("Dropping","2 producers, the queue full or not, closed while or after writing",{"each":2,"@preempt":1,"@race":1,"faults":0},{"each":2,"@preempt":2,"@race":1,"faults":0},tsecs=900),
  run("Closing","writes while the writer is closed",{"each":2,"@preempt":2,"@race":1},{"each":3,"@preempt":3,"@race":1}),
  run("Closing","writes of two producers while the writer is closed",{"each":1,"threads":2,"@preempt":1,"@race":1},{"each":1,"threads":2,"@preempt":2,"@race":1}),
  run("Sizes","4 messages of 0, 1, 2 or 5000 arbitrary bytes while the writer is stuck",{"@race":1}),
  run("Slow","n messages left in the queue when the writer is closed, written at once or in 300 ms each (virtual time), any pattern of write errors",dict(n=4)),
  run("Default","the default report of dropped messages, 2 producers, data race detection",{"@race":1,"@preempt":1},{"@race":1,"@preempt":2}),
  run("Logged","an event writer on top",dict(n=3))],
  "more producers, messages and preemptions; writing what is left takes longer than the second given to it; an inner writer that panics or never returns")
chk("C32","lumberh",[
  run("Roll","n operations (write of 0..max+1 bytes with an arbitrary one, rotate, close, time goes on, restart), an existing file of 0..max bytes or none, default and day wide names of backups, time standing still",dict(n=3,max=3,existing=5,names=1),dict(n=4,max=3,existing=5,names=3),secs=120,tsecs=900),
  run("Roll","longer histories with smaller limits",dict(n=4,max=2,formats=1,existing=2,names=1),dict(n=5,max=2,formats=2,existing=2,names=1),secs=120,tsecs=900),
  run("Roll","two operations, larger limit, other names (missing nested directories) and formats",dict(n=2,max=5,names=4,formats=3),dict(n=3,max=4,names=4,formats=3),secs=120,tsecs=900),
  run("Roll","any examination of the file fails",dict(n=2,faults=1,max=3),dict(n=3,faults=1,max=2,names=1),secs=120,tsecs=900),
  run("Parallel","two goroutines writing and one rotating, closing or neither, every order",dict(each=2,threads=2),dict(each=2,threads=3)),
  run("Parallel","with preemptions, data race detection",{"@preempt":1,"@race":1,"each":2},{"@preempt":2,"@race":1,"each":1},tsecs=900),
  run("Parallel","and removal of old backups",{"@preempt":1,"@race":1,"each":2,"backups":1},{"@preempt":2,"@race":1,"each":1,"backups":1},tsecs=900),
  run("Squeeze","n writes, rotated and compressed, names that are the same or not, before or after the background work",dict(n=3),dict(n=4)),
  run("Squeeze","every interleaving of rotating and compressing with at most @preempt preemptions",{"n":2,"@preempt":1},{"n":3,"@preempt":1},tsecs=900),
  run("SqueezeFull","n backups; compressing them fails as any of their sizes is reached by a file, or examining the first of them fails; then again without",dict(n=2),dict(n=3)),
  run("Full","n writes of 1..max bytes, any one of them while no file can grow beyond 0..max-1 bytes",dict(n=3,max=4),dict(n=4,max=5)),
  run("Limits","the default limit and a limit of one real megabyte, writes that just fit or do not")],
  "longer histories and larger limits (the unit of MaxSize is set to one byte); faults of the file system other than failing examinations and files that can not grow; several processes; moving the log directory",["the file system behaves as harness/models/fs.go: POSIX, every operation atomic; the model's histories are validated against the real one"])
chk("C33","lumberh",[
  run("Retain","any subset of own backups of 5 ages around the limits, MaxBackups 0..3, MaxAge 0..3 days, with or without rotation",dict(own=5)),
  run("Retain","three backups and any of 7 files that are none, or a directory named like one",dict(others=1)),
  run("RetainTimes","any second around the limit of a day, three time zones, local time or UTC, two formats"),
  run("Retain","any subset of two backups, rotation or not, every interleaving with the removal with at most one preemption",{"own":2,"@preempt":1},{"own":3,"@preempt":2}),
  run("RetainOrder","n backups at any of 9 days, names that do not sort by time, two formats, 1 or 2 to keep",dict(n=3),dict(n=4)),
  run("Vanish","three backups, to be removed or compressed, one of which is removed meanwhile by someone else",{"@preempt":1},{"@preempt":2}),
  run("RetainGz","backups plain, compressed or both",dict(own=3),dict(own=4)),
  run("RetainGz","the same while compressing",dict(own=2,compress=1),dict(own=3,compress=1)),
  run("Squeeze","n writes, rotated and compressed, up to 2 backups to keep or all",dict(n=3),dict(n=4)),
  run("SqueezeFull","n backups, compressing them fails; each is kept, compressed or not",dict(n=2),dict(n=3)),
  run("Odd","8 names of the log file next to files with look-alike names or any 2 characters, 3 rotations")],
  "more files; formats of backup times that can not be parsed",["the file system behaves as harness/models/fs.go"])

chk("C34","reflh",[
  run("Slices","n operations of 6 kinds (append, set, get, grow, assign, set to nil) on slices of 14 element types (nil and typed nil pointers among the values) starting nil, full, with spare capacity, or made; arbitrary values and indices; default and safe implementation, typed or raw pointers",dict(n=2,types=14),dict(n=3,types=8),secs=180,tsecs=1800),
  run("Arrays","n sets and gets of arrays of 11 types, memory around the array",dict(n=2),dict(n=3),tsecs=900)],
  "more operations; indices out of bounds, lengths above the capacity (not checked by reflect2, as documented)")
chk("C35","reflh",[
  run("Maps","n operations of 4 kinds on maps of 16 key and element types, empty, with an entry, nil; arbitrary keys and values; iteration and comparison with a plain map at the end; default and safe implementation, typed or raw pointers",dict(n=2,types=6),dict(n=3,types=3),secs=180,tsecs=1800),
  run("Maps","every key and element type",dict(n=1,types=16),dict(n=2,types=16),secs=180,tsecs=1800)],
  "more operations; NaN keys; changing the map while iterating; what the runtime's map functions do is modelled by an insertion-ordered map",["the map functions of the Go runtime"])
chk("C36","reflh",[
  run("Fields","each of 27 fields of a struct of 21 kinds of fields, six of them promoted from embedded structs and pointers to them, found by name, index or function, one of 3 neighbouring structs, arbitrary values"),
  run("Boxes","33 types, two arbitrary values, typed or raw pointers, known to the other implementation or not"),
  run("Relations","each of 23 types with each of them: descriptions, assignable, implements, elements"),
  run("Kinds","all kinds; one type by its name"),
  run("Rejects","27 operations, each with 10 values of other types")],
  "other types; TypeOf(nil)")
chk("C31","roth",[
  run("Interval","every time in the first 2^32 seconds with any nanoseconds, 10 intervals of 1 ns to a week and any of 1..100 seconds"),
  run("Size","every size up to 2^52, limits up to 2^40 KB, n writes of 6 lengths",dict(n=3),dict(n=5)),
  run("SizeFile","a real file of 8 sizes around the limits, limits 0..3 KB, n writes of 5 lengths",dict(n=3),dict(n=4)),
  run("Retain","0..n archives with arbitrary paths and sizes, limits 0..2^40",dict(n=6),dict(n=12)),
  run("Purge","n entries, each a file, missing or a directory that is not empty, selected or not",dict(n=4),dict(n=5)),
  run("Names","5 patterns, up to n files of 6 instants made in any order, one of 4 other files or none",dict(n=3),dict(n=4)),
  run("Digits","two files with arbitrary digits for day and month"),
  run("Next","5 patterns, 6 instants, 3 zones"),
  run("Move","file there or not, 2 arbitrary bytes of content, next name blocked by a directory or not, naming strategy failing or not"),
  run("Index","n of 8 names, right or not",dict(n=3),dict(n=4))],
  "negative limits; a limit of size without a file; two archives with the same name (a pattern coarser than the interval)",["the clock is not set before 1970"])
chk("C37","roth",[
  run("Write","n writes with or without a pause in between, rotation every 1 to 2 s (either extreme of its random delay), existing file or none, 0..1 failing attempts to archive, all archives kept or one",dict(n=4,keep=2,fails=1),dict(n=6,keep=2,fails=2)),
  run("Write","n writes, every interleaving with at most @preempt preemptions, pauses of the rotation that last longer, data race detection",{"n":2,"@preempt":1,"@early":1,"@race":1},{"n":3,"@preempt":2,"@early":1,"@race":1},secs=120),
  run("Retry","archiving fails 0..2 times in a row",dict(fails=3),dict(fails=6))],
  "more writes; several goroutines writing at once (the writer is for one); strategies of the user that misbehave",["one goroutine writes, as the writer requires"])
