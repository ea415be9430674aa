#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so the wording is easy to review)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=observe,hook_needed=None)))
I=["inputs"]
c="internal/core/"; d="internal/dump/"; s="internal/storage/"; j="internal/java/"; o="internal/output/"
p("C01","Primitive values decode exactly and consume exactly their width",
 "Reading a one-, two-, four- or eight-byte unsigned number, a signed 32-bit number, an object identifier (4 or 8 bytes wide, zero-extended), a typed Java value or a byte run from a dump yields the big-endian value of exactly the next bytes of the input and advances the input by exactly that many bytes. If fewer bytes than that remain, or the identifier width or Java type is unsupported, an error is returned and no value is fabricated.",
 I,"every byte content, every input position, every identifier size and every Java type code",
 "The tests decode a handful of constants, mostly with 8-byte identifiers; sign, width and truncation behaviour quantify over all byte strings and all truncation points.",
 [c+"primitive_parsers.go",c+"types.go"],[("PrimitiveParser",c+"primitive_parsers.go")],["return values and consumed bytes of the primitive readers"])
p("C02","Fixed-layout records are decoded field for field",
 "Every fixed-layout record and record header of the hprof 1.0.2 format (record header, UTF-8 string, load-class, stack frame, the five supported kinds of GC root, and the headers of instance, object-array and primitive-array dumps) is decoded so that each reported field equals the value at that field's specified offset, for both identifier sizes. Exactly the bytes the format assigns to the record (for array and instance dumps: to its header) are consumed, and a truncated record gives an error.",
 I,"all record contents and both identifier sizes",
 "One sample per record kind exists, with 8-byte identifiers and many equal or zero fields; swapped or mis-sized fields need distinguishing values and 4-byte dumps.",
 [c+"base_parsers.go",c+"records.go"],[("RecordParser",c+"base_parsers.go")],["decoded record structures"])
p("C03","Stack traces and class dumps are decoded completely and in order",
 "A stack-trace record yields exactly its declared number of frame identifiers in file order, and a class-dump record yields exactly its declared constant-pool entries, static fields (name, type, value) and instance fields (name, type) in file order, together with all fixed fields. Exactly the bytes of the record are consumed for any counts and any mix of value types; truncation anywhere gives an error.",
 I,"all counts (0..65535, or 32-bit for traces), all mixes of value types, both identifier sizes",
 "Tests contain at most a few entries per section; the decoding loops must be right for every count and type mix.",
 [c+"base_parsers.go"],[("ParseHprofTrace, ParseHprofGcClassDump",c+"base_parsers.go")],["decoded record structures"])
p("C04","Only profile 1.0.2 headers are accepted and they are decoded exactly",
 "A file header is accepted exactly when it starts with the 19-byte profile name field holding 'JAVA PROFILE 1.0.2' and its 12 following bytes are present. On acceptance the identifier size is the following big-endian 32-bit number and the timestamp is the instant that many milliseconds after the Unix epoch as the following 64-bit number says (for instants within the nanosecond-representable range of 1970-2262).",
 I,"all header bytes and all truncations",
 "Tests use one valid and a few invalid headers; the millisecond arithmetic spans two 32-bit words.",
 [c+"file_header_parser.go"],[("ParseFileHeader",c+"file_header_parser.go")],["accepted header fields; storage identifier size and timestamp"])
p("C05","Computed record sizes equal the bytes on the wire",
 "For every GC root, class dump, instance dump and array dump, with 4- or 8-byte identifiers, the size the tool computes for a decoded record equals the number of bytes that record occupies in the dump, and the computed payload size equals the bytes of field values or elements that follow its header.",
 I,"all records of each kind, both identifier sizes",
 "Size arithmetic is tested on a few samples; a wrong width for one type or one section only shows with records that use it.",
 [c+"sizes.go",c+"base_parsers.go"],[("SizeInfo",c+"sizes.go")],["size computations used to skip payloads and to track the position"])
p("C06","Tracked position and recorded offsets match the file",
 "While a well-formed dump is indexed the tracked position always equals the number of bytes consumed so far at record boundaries, so that each index entry written for an instance, object array or primitive array is the absolute file offset of that record's body. When indexing succeeds the final position is the offset just past the end-of-dump record.",
 I,"all well-formed dumps: any interleaving of records, segments and sub-records, both identifier sizes",
 "Offsets depend on the sum of the sizes of everything before them; tests index one short dump.",
 [d+"parser.go",c+"sizes.go"],[("position bookkeeping",d+"parser.go ParseHeapDump")],["index entries","reported position"])
p("C07","Indexing captures every record once and invents none",
 "When indexing a dump succeeds, the stored strings, loaded classes, frames, traces, GC roots and class dumps, the per-kind object index and the counters are exactly those obtained by applying the format's records in file order: list-like kinds in order with multiplicity, keyed kinds by their key with the last definition winning. No record is dropped, duplicated or attributed to another kind, across any number of segments.",
 I,"all well-formed dumps",
 "Needs an inductive argument over arbitrarily long record sequences and segment boundaries; tests use a single fixed sequence.",
 [d+"parser.go",s+"small.go",s+"meta.go",s+"big.go"],[("ParseHeapDump",d+"parser.go")],["all storages after indexing"])
p("C08","Indexing succeeds only on a complete, understood dump",
 "Indexing reports success only if the header was valid, every record up to and including the end-of-dump record was recognised and completely present, and every index entry was durably handed to the index files, including the final flush and close. Truncation, an unknown record or sub-record type, an invalid array element type, out-of-order object identifiers or a failing index write or close make it report an error.",
 ["inputs","fault_sequences"],"all dumps, all truncation points, all unknown tags, and all points at which an index write or close fails",
 "Tests only index valid data with storage that never fails.",
 [d+"parser.go",s+"index.go",s+"big.go"],[("error returns",d+"parser.go ParseHeapDump"),("close propagation",s+"big.go")],["result of indexing"])
p("C09","Index files hold exactly the entries put, for any batch size",
 "For any sequence of entries with non-decreasing keys and any positive batch size, after a successful close the index file contains exactly those entries in order, each as the 8-byte big-endian key followed by the 8-byte big-endian value. An entry whose key is smaller than the previous one is rejected with an error and leaves the file content unaffected.",
 ["inputs","histories"],"all entry sequences, all batch sizes, all interleavings of batch boundaries",
 "Batch boundaries at arbitrary positions need an invariant, tests use few entries and few batch sizes.",
 [s+"index.go"],[("batching writer",s+"index.go Put/Write/Close")],["bytes of the index file"])
p("C10","Index lookup is exact and always terminates",
 "For any index file with entries sorted by key, looking up a key returns the value stored with that key if present and an error if absent, whatever the number of entries, and the lookup always terminates without reading outside the file. A file whose size is not a multiple of the entry size is refused.",
 I,"all sorted index contents, all keys",
 "Binary-search boundary errors appear only for particular sizes and positions.",
 [s+"index.go"],[("binary search",s+"index.go Get")],["lookup results"])
p("C11","Small-record lookups return the matching stored record or an error",
 "Looking up a stored string, frame, trace, class dump or loaded class by its key returns the record stored under that key (for loaded classes the first in file order), and returns an error exactly when there is none. Listing a kind returns all its records in file order.",
 I,"all stored contents and all keys",
 "Tests store one or two records per kind; first-match and not-found behaviour quantify over contents.",
 [s+"small.go"],[("SmallRecordsReadStorage",s+"small.go")],["lookup results"])
p("C12","An object identifier leads to that object's own record and payload",
 "Requesting an instance, object array or primitive array by identifier positions the dump at the offset its index entry holds and returns the header decoded there, and the bytes read next are exactly that object's payload from its start. An identifier missing from the kind's index, or an unreadable offset, gives an error.",
 I,"all indexes, dumps and identifiers",
 "Depends on the index, seek and decode agreeing at arbitrary offsets; tests read one object.",
 [d+"parsed_accessor.go"],[("ParsedAccessor",d+"parsed_accessor.go")],["returned headers and payload bytes"])
p("C13","Saved small-record and counter storages restore to what was saved",
 "Serialising the small-record storage or the counters and restoring them yields storage with equal contents: identifier size, timestamp instant, every string, loaded class, frame, trace, GC root, class dump (including typed static and constant-pool values) and every counter. Corrupt or truncated data gives an error rather than a partially filled storage reported as success.",
 I,"all storage contents, all value types in class dumps",
 "Tests round-trip one small storage; value types held behind interfaces must all be encodable.",
 [s+"small.go",s+"meta.go"],[("gob encoding",s+"small.go, meta.go")],["restored storages"])
p("C14","Per-class and per-type counters are exact",
 "After any sequence of instance, object-array and primitive-array records, the instance count of every class, the array count and total element count of every array class, and of every primitive type, equal the numbers in that sequence; recording one object changes no other counter.",
 ["inputs","histories"],"all record sequences",
 "Quantifies over histories of records; tests add a couple.",
 [s+"meta.go"],[("AddInstance",s+"meta.go")],["counters"])
p("C15","A class resolves to its own name, fields and superclass chain",
 "Resolving a class identifier yields the name the dump gives the class loaded under that identifier, all static fields with name, type and value and all instance fields with name and type in declaration order, and recursively the superclass up to the root class that has none. A missing class dump, load record or name gives an error.",
 I,"all stored classes, any (finite) inheritance depth",
 "Needs induction over the superclass chain and field lists; one chain is tested.",
 [j+"heap.go",j+"models.go"],[("ParseClass",j+"heap.go")],["resolved class"])
p("C16","Field values are read from the right place in the instance",
 "Reading a field of an instance by name finds the field declared by the most derived class that declares it (the first of that name in that class), decodes it with its declared type at the offset given by the sizes of all fields laid out before it (own class first, then each superclass), and reports the declaring class as origin. An undeclared name or too-short instance data gives an error.",
 I,"all class chains, field lists, type mixes, instance contents and both identifier sizes",
 "Offsets are sums over an unbounded chain; shadowed fields and 4-byte identifiers are not tested.",
 [j+"heap.go"],[("GetFieldValueByName, findField",j+"heap.go")],["field value and origin"])
p("C17","Object arrays and Java strings are read in full",
 "Reading an object array yields its class and all its elements in order, each the identifier stored at that element's position, for 4- and 8-byte identifiers. Reading a java.lang.String reference yields the text made of exactly the bytes of its backing byte array; a reference of another class, a non-byte backing array or a missing object gives an error.",
 I,"all arrays, strings and both identifier sizes",
 "Only one 8-byte one-element array and one string are tested.",
 [j+"heap.go"],[("ParseObjectArrayFull, ParseJavaString",j+"heap.go")],["elements and strings"])
p("C18","The objects report has one correct row per class and true totals",
 "The objects report contains exactly one row per instantiated class, per object-array class and per primitive type that has arrays, with its instance count and its size (instance size times count, or element size times element count), named after the class or element type. The totals equal the sums over all rows.",
 I,"all counter contents and stored classes, both identifier sizes",
 "The package has no tests; sums range over unbounded maps.",
 ["internal/objects/objects.go"],[("GetObjects","internal/objects/objects.go")],["report rows and totals"])
p("C19","The objects listing shows every row, sorted, with true percentages",
 "The objects listing prints every row of the report exactly once, ordered by descending instance count or descending size as requested with ties by class name, and shows for each row its count, its size and their integer percentages of the totals, after header lines with both totals. It never crashes, including when a total is zero.",
 I,"all reports (any rows, any totals), both sort orders",
 "Tests print one or two reports; ties, zero totals and long names are not covered.",
 [o+"objects.go"],[("getPrintItems, print",o+"objects.go")],["printed listing"])
p("C20","Sizes and class names are formatted by fixed rules",
 "A byte count below 1024 prints as bytes with suffix B, otherwise as the whole number of K, M or G units (powers of 1024) of the largest unit not exceeding it, rounded down, with everything of 1 GiB or more in G. A class name prints with every slash replaced by a dot and nothing else changed.",
 I,"all byte counts and names","Boundaries around each unit are sampled, not covered.",
 ["internal/format/format.go"],[("Size, ClassName","internal/format/format.go")],["formatted text"])
p("C21","Method and type descriptors render as readable signatures",
 "For every well-formed JVM method or field descriptor the argument types are rendered in order, separated by a comma and a space, with primitive codes as their Java names, class references as dotted names and one [] per array dimension, and the return type is rendered the same way and returned separately.",
 I,"all well-formed descriptors, any nesting of array dimensions and names of any content",
 "The grammar is unbounded; tests list some descriptors.",
 ["internal/format/format.go"],[("Signature","internal/format/format.go")],["rendered argument list and return type"])
p("C22","Thread states and line numbers print by fixed rules",
 "A thread status word prints as the first of RUNNABLE, BLOCKED, WAITING, TIMED_WAITING, TERMINATED whose JVMTI bit is set in that order of priority. A positive line number prints in decimal, and -1, -2 and -3 print as Unknown, CompiledMethod and NativeMethod.",
 I,"all 32-bit status words and line numbers",
 "Combinations of status bits are unbounded in the tests' terms; the package with the status text has no tests of its own.",
 ["internal/threads/models.go",c+"types.go"],[("ThreadStatus.String","internal/threads/models.go"),("LineNumber.String",c+"types.go")],["printed states and line numbers"])
p("C23","The thread dump attaches the right frames and locals to each thread",
 "The thread dump has one entry per thread-object root in file order, with name, id, priority, daemon flag and status taken from that thread's own instance, and its frames in trace order, each with the method, signature, file, class and line of its frame record (a placeholder for a missing name). Each frame lists exactly the JNI locals and then the Java-frame locals recorded for that thread serial number and stack position, in file order, each with its object identifier and its type.",
 I,"all stored roots, traces and frames",
 "The package has no tests; matching by two keys over unbounded lists needs an inductive argument.",
 ["internal/threads/threads.go"],[("GetThreadDump","internal/threads/threads.go")],["thread dump structure"])
p("C24","The thread listing prints every thread and frame, ordered by id",
 "The thread listing prints every thread exactly once in ascending thread-id order, each with its header line (name, id, priority, status, daemon mark), then every frame in order with return type, class, method, arguments and location, and, only when requested, every local of the frame below it. The coloured listing carries the same texts in the same order.",
 I,"all thread dumps",
 "Tests print two dumps and never the coloured variant; the order and completeness quantify over all dumps.",
 [o+"threads.go",o+"colors.go"],[("ThreadsPlain, ThreadsPlainColor",o+"threads.go")],["printed listing"])
p("C25","Heap statistics in the summary are exact",
 "In the summary the number of classes is the number of distinct loaded class identifiers, the number of GC roots is the total of all recorded roots, the number of instances is the sum of all instance and array counters, and the heap size is the sum of element size times element count over arrays plus instance size times count over classes.",
 I,"all storages, both identifier sizes","The package has no tests; sums range over unbounded maps.",
 ["internal/summary/summary.go"],[("getHeap","internal/summary/summary.go")],["summary heap section"])
p("C26","The summary reports all system properties of the dumped JVM",
 "With all properties requested, the summary lists exactly one entry for every key in the java.lang.System property table found in the dump, with its value, sorted by key; every entry of every hash bucket is included. The environment section shows the values of the corresponding well-known keys.",
 I,"all property tables, any number of buckets and chain lengths",
 "The package has no tests; hash-bucket chains of any length must be followed.",
 ["internal/summary/summary.go"],[("getAllProps, makeSortedList, getEnv","internal/summary/summary.go")],["summary environment and properties sections"])
p("C27","The JVM uptime is dump time minus JVM start time",
 "The reported JVM uptime is the difference between the dump's timestamp and the start time in milliseconds held by the runtime management bean in the dump. If the management classes, the bean or its start-time field are missing, an error is returned instead of a made-up uptime.",
 I,"all timestamps and start times in the representable range; all dumps lacking part of the chain","The package has no tests.",
 ["internal/summary/summary.go"],[("getSystem, getJvmStartTime","internal/summary/summary.go")],["uptime"])
p("C28","The summary listing prints every section and entry, aligned",
 "The summary listing prints the Environment, Heap and System sections and, when there are properties to list, the Properties section, in that order, each with its title line and then every entry in order on one line as key, colon, padding and the value without surrounding white space. The values of all entries start in the same column, 10 places after the longest key of any section, and no input makes it fail.",
 I,"all summaries","Tests print one summary; alignment depends on the maximum over all sections.",
 [o+"summary.go"],[("printSummary",o+"summary.go")],["printed listing"])
p("C29","Option values are accepted exactly as documented",
 "The sort-by option accepts exactly 'count', 'size' and the empty string (meaning count), and the output option exactly 'plain', 'html' and the empty string (meaning plain); the chosen meaning prints back under the same name, and any other value is rejected with an error and leaves the option unchanged.",
 I,"all option strings","The packages have no tests.",
 ["internal/cmd/flags.go","internal/objects/models.go"],[("Set/String","internal/cmd/flags.go, internal/objects/models.go")],["option parsing"])
p("C30","The progress display never crashes and is always 50 cells wide",
 "For every file size and every tracked position, including an empty file and positions past the end, the progress text is produced without crashing; its bar always has exactly 50 cells, of which the filled ones are the integer part of half the completed percentage, limited to 0..50.",
 I,"all sizes and positions","The package has no tests; zero size and overshoot are corner cases of arithmetic.",
 ["internal/cmd/interactive_print.go"],[("progressBar","internal/cmd/interactive_print.go")],["progress text"])
p("C31","HTML reports carry the same data and escape all dump text",
 "The HTML variants of the three reports are produced from the same rows, threads and entries as the text variants, in the same order, and text originating in the dump (class, method, file and thread names, property keys and values, local variable types) is always HTML-escaped.",
 I,"all report contents, including markup in names and values",
 "Tests compare fixed files without markup in names.",
 [o+"html.go",o+"objects.go",o+"threads.go",o+"summary.go"],[("html/template execution",o+"*.go")],["HTML documents"])
p("C32","Indexing arbitrary bytes never crashes",
 "Indexing any byte sequence whatsoever, with index storage that may fail at any time, ends by returning success or an error; it never panics through an out-of-range index, nil dereference, failed type assumption, unsupported type code or negative size.",
 ["inputs","fault_sequences"],"all byte strings",
 "Tests only index valid dumps.",
 [d+"parser.go",c+"base_parsers.go",c+"sizes.go",s+"index.go",s+"small.go",s+"meta.go"],[("error handling",d+"parser.go")],["absence of panics while indexing"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
