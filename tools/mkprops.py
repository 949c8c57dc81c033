#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
C = "src/core/"
I = "include/core/"

p("P01", "String editing, slicing and searching match a plain character sequence",
  "For every String content and every sequence of public editing, slicing, searching, comparing and %-argument operations (also with a string passed as its own argument), the resulting content, size and returned index or flag are those of the same operation on a plain sequence of 16-bit characters. Every such operation terminates, stays inside the string's storage, and leaves every other String object unchanged; indices outside the documented range are clamped or rejected with an exception and never change the string.",
  ["inputs", "histories"], "all strings of 16-bit code units, all operation sequences, all index arguments, all aliasing of receiver and argument",
  "StringTest pins a few dozen literals; content, length, index and aliasing combinations (and capacity boundaries at multiples of 16) are unbounded.",
  [C+"String.cpp", I+"String.h", C+"Character.cpp"],
  [("length-checked copy/shift loops", C+"String.cpp:insert/deleteCharRangeAt/replace/substring"), ("capacity growth", C+"String.cpp:checkCapacity"), ("bounds checks that throw", C+"String.cpp:charAt/setCharAt")],
  ["String public API", "ASan/UBSan reports"])
p("P02", "Hash code and ordering of a String depend on its content alone",
  "Two Strings with the same characters compare equal and return the same hash code at every call, no matter how each was built, copied, assigned or edited and how often its hash was asked for before. compareTo, equals, == and < describe one total order by character values: antisymmetric, transitive, and zero exactly for equal strings.",
  ["inputs", "histories"], "all pairs of strings and all histories of construction, assignment, mutation and hash queries leading to them",
  "A cached hash only goes wrong after a particular query/mutate/assign history and only for some contents; tests ask for a hash once on a fresh literal.",
  [C+"String.cpp", I+"String.h"],
  [("hash cache mHash reset on mutation", C+"String.cpp:hashCode/append/setCharAt/operator="), ("lexicographic comparison", C+"String.cpp:compareTo")],
  ["hashCode()", "constHashCode()", "compareTo()", "equals()"])
p("P03", "Numbers written as text read back as the same number",
  "Every 64-bit integer printed by the library (plain decimal, hexadecimal, and Integer values) reads back as exactly that integer, and every floating-point number below 2^63 formatted with up to about 15 significant digits is within half a unit of the requested last digit of the value. Parsing any text with toInt that is not a decimal integer of the 64-bit range ends in an exception instead of a number.",
  ["inputs"], "all int64/uint64/int32/uint32 values, finite doubles within the printable range, all texts",
  "Tests cover small positive numbers; sign, magnitude extremes, carries (0.995, -0.004, 9.9999) and malformed text are where conversions break.",
  [C+"String.cpp", C+"Integer.cpp", I+"Integer.h"],
  [("digit loops and sign handling", C+"String.cpp:valueOf/toInt"), ("carry in fixed-precision formatting", C+"String.cpp:valueOf(double,int64,bool)"), ("hex and alphabet conversion", C+"Integer.cpp:fromHex/toHexString/toLatinAlphabetString")],
  ["String::valueOf", "String::toInt", "String::arg", "Integer"])
p("P04", "Text encoding and decoding agree with the published character sets",
  "For every text a character set can represent, decoding what the library encoded gives back the identical text (texts without U+0000 and without a leading byte order mark), and the bytes are those the published standard prescribes (UTF-8, UTF-16LE, UTF-16BE, Windows-1252, MacRoman, ASCII). Decoding standard-conforming bytes produced by any other encoder yields the same characters, with a leading byte order mark skipped.",
  ["inputs"], "all 16-bit characters and all texts over them, every supported charset, with and without BOM",
  "The tests decode a handful of short literals in the default charset; table holes, byte order, and multi-byte boundaries need every code point.",
  [C+"Charset.cpp", C+"CharsetDecoder.cpp", C+"UTF8Decoder.cpp", C+"UTF16Decoder.cpp", C+"Windows1252Decoder.cpp", C+"MacRomanDecoder.cpp"],
  [("code page tables", C+"Windows1252Decoder.cpp, MacRomanDecoder.cpp"), ("UTF-8/16 bit packing", C+"UTF8Decoder.cpp, UTF16Decoder.cpp"), ("charset lookup by name", C+"Charset.cpp:forName")],
  ["Charset::forName(..)->encode/decode", "String(const char*,Charset*)", "String::toCString"])
p("P05", "Decoding arbitrary bytes as text is memory-safe and always ends",
  "Decoding any byte sequence in any charset, guessing its charset, or URL-decoding it terminates and never reads outside the given bytes; it yields a text or an exception. Truncated, overlong and otherwise malformed sequences are no exception to this.",
  ["inputs"], "all byte sequences (malformed and truncated ones in particular), all charsets",
  "Malformed input is not in the tests at all, and an over-read by one byte passes unnoticed without instrumentation.",
  [C+"UTF8Decoder.cpp", C+"UTF16Decoder.cpp", C+"Charset.cpp", C+"String.cpp"],
  [("sequence length bookkeeping", C+"UTF8Decoder.cpp:decode"), ("charset guessing", C+"Charset.cpp:guess")],
  ["ASan reports", "returned length"])
p("P06", "Base64 and URL encoding round-trip every input",
  "Decoding the Base64 text of any byte array gives back exactly those bytes and the text is the one RFC 4648 prescribes; URL-decoding a URL-encoded text (without U+0000 or lone surrogates) gives back the same text, and encoded text is pure ASCII. Decoding malformed or truncated Base64 text yields bytes or an exception without touching memory outside its input and output.",
  ["inputs"], "all byte arrays (all lengths modulo 3), all texts, all malformed Base64 inputs",
  "There is no Base64 or URL test; padding boundaries and invalid lengths are input-dependent.",
  [C+"Base64.cpp", C+"String.cpp"],
  [("3-to-4 byte grouping and padding", C+"Base64.cpp"), ("percent escapes", C+"String.cpp:URLEncode/URLDecode")],
  ["toBase64/fromBase64", "URLEncode/URLDecode"])
p("P07", "A Hashtable behaves as a map from text to value",
  "After any sequence of put, remove and clear, a lookup returns the value of the latest put of an equal key (or nothing if there is none), containment, size and the key list agree with that, and every key is listed exactly once. This holds for colliding keys and across every internal growth, and entries are never lost or duplicated.",
  ["inputs", "histories"], "all operation histories, including keys with colliding hash codes and keys whose hash was queried or changed before",
  "HashtableTest inserts a few distinct keys; collisions, growth during chains, replace and removal inside chains depend on the history.",
  [C+"Hashtable.cpp", I+"Hashtable.h", C+"String.cpp"],
  [("chained buckets and rehash", C+"Hashtable.cpp"), ("hash of the key", C+"String.cpp:hashCode")],
  ["put/get/remove/containsKey/size/keys"])
p("P08", "Lists, stacks and arrays keep exactly the elements put into them, in order",
  "After any sequence of insertions, removals, replacements, reversals and clears, LinkedList, StringList, Stack and Array hold exactly the elements a plain sequence would hold, in the same order, and every way of reading them (index, forward and backward iteration, neighbours, first/last, size, contains, join, sort) agrees. No element is lost, duplicated or reordered, and reading or writing outside the bounds of an Array is rejected with an exception.",
  ["histories", "inputs"], "all operation histories on each container",
  "The tests run short fixed scripts; link repair at ends, emptying and refilling, and iteration during edits depend on the history.",
  [C+"LinkedList.cpp", I+"LinkedList.h", C+"StringList.cpp", I+"Stack.h", I+"Array.h", C+"Iterator.cpp"],
  [("prev/next relinking", C+"LinkedList.cpp"), ("growth and shift", C+"StringList.cpp"), ("bubble sort with bounds", I+"Array.h")],
  ["container read APIs compared after every step"])
p("P09", "Tokenizing a text partitions it at the delimiters",
  "The tokens returned for any text and delimiter set are exactly the maximal delimiter-free pieces of the text, in order; when delimiters are returned too, the concatenation of all tokens is the original text. Asking for tokens never reads outside the text and ends after finitely many tokens; splitting and re-joining a list of non-empty pieces gives the same list.",
  ["inputs"], "all texts and delimiter sets, both modes",
  "StringTokenizerTest uses one sentence; leading, trailing, adjacent and multi-character delimiters combine without bound.",
  [C+"StringTokenizer.cpp", I+"StringTokenizer.h", C+"String.cpp", C+"StringList.cpp"],
  [("scan to next delimiter", C+"StringTokenizer.cpp"), ("split/join", C+"String.cpp:split, "+C+"StringList.cpp:join")],
  ["hasNext/next", "split", "join"])
p("P10", "Compressed data decompresses to exactly the original bytes",
  "Whatever the Deflater produces for any byte array, at any size and compressibility, any standard zlib reader and the library's own Inflater turn back into exactly the original bytes. Conversely, the Inflater reproduces the original from any valid zlib or raw deflate stream written by another compressor: every level, strategy, block type, distance and length.",
  ["inputs", "configurations"], "all byte arrays from 0 bytes to several hundred KB of every compressibility, all encoder settings (level, strategy, window, memory, flush points), zlib and raw framing",
  "DeflateTest compresses one short text; stored/fixed/dynamic blocks, 32 KB window edges and incompressible data are never reached.",
  [C+"Inflater.cpp", C+"Deflater.cpp", I+"Inflater.h", I+"Deflater.h"],
  [("Huffman tables and window copy", C+"Inflater.cpp"), ("output buffer sizing", C+"Deflater.cpp")],
  ["Inflater/Deflater results vs zlib"])
p("P11", "Decompressing corrupt data is memory-safe, bounded and never silently wrong",
  "For any byte sequence given as compressed data the Inflater terminates, never reads or writes outside its buffers, and either delivers bytes or throws. If a damaged stream is one that every conforming decompressor must reject for its structure or its end being cut off, the Inflater does not deliver it as if it were complete.",
  ["inputs"], "all byte sequences: truncated, bit-flipped, spliced and random streams",
  "No test feeds corrupt data, and out-of-bounds reads are invisible without instrumentation.",
  [C+"Inflater.cpp"],
  [("block and code-length validation", C+"Inflater.cpp"), ("bounds of the compressed input", C+"Inflater.cpp")],
  ["ASan/UBSan reports", "exception vs result compared with zlib"])
p("P12", "Zip archives round-trip names, sizes and contents",
  "An archive written by the library lists, in any standard zip reader and in the library's own, exactly the entries that were added, with identical names, sizes, checksums and bytes. The library reads every entry of archives written by a standard zip tool (stored or deflated) with the same result, and writing over an older, longer file leaves a valid archive. Entries handed on from one archive to another keep their extra fields and comments byte by byte.",
  ["inputs", "histories"], "all sets of entries (names, sizes, contents, count), archives from an independent writer",
  "There is no zip test at all; offsets, checksums and stale bytes depend on entry count and sizes.",
  [C+"ZipFile.cpp", C+"ZipOutputFile.cpp", I+"ZipFile.h", C+"CRC.cpp"],
  [("central directory offsets", C+"ZipOutputFile.cpp"), ("end-of-directory search and entry lookup", C+"ZipFile.cpp")],
  ["Python zipfile", "ZipFile entries and streams"])
p("P13", "Opening a damaged zip archive is memory-safe",
  "Opening any file as a zip archive and reading any of the entries it lists terminates without touching memory outside the file's data and the entry's buffers, and ends in an entry's bytes, no entry, or an exception. Lying sizes, offsets, counts and compression methods are no exception to this.",
  ["inputs"], "all byte sequences as archive files; every header field lying",
  "No test opens a damaged archive; a heap overflow by attacker-controlled sizes is only visible under instrumentation.",
  [C+"ZipFile.cpp", C+"Inflater.cpp", C+"MemoryStream.cpp"],
  [("validation of directory fields", C+"ZipFile.cpp")],
  ["ASan/UBSan reports"])
p("P14", "XML written by the library parses back to the same document",
  "Parsing what the XML writer produced for any tree of elements, attributes and text gives back the same elements in the same order with identical attribute names, attribute values and text (up to the white space an XML reader may normalise), whatever characters XML can represent (markup, quotes, non-ASCII) they contain. The output is well-formed XML by the judgement of an independent parser, with the same content.",
  ["inputs"], "all element trees, attribute sets and texts",
  "There is no XML test; escaping, quoting and whitespace interact per input.",
  [C+"XMLWriter.cpp", C+"SAXParser.cpp", C+"SAXAttributes.cpp"],
  [("entity escaping", C+"XMLWriter.cpp"), ("entity resolution and tag splitting", C+"SAXParser.cpp")],
  ["SAX callback event list", "expat event list"])
p("P15", "Parsing arbitrary XML input is memory-safe and always ends",
  "Parsing any byte sequence as XML terminates without memory errors and ends in a finite list of events or an exception. For well-formed documents without entity declarations every start of an element is matched by its end, properly nested, and the reported elements, attributes and text agree with an independent parser up to white-space normalisation.",
  ["inputs"], "all byte sequences; all well-formed documents of the supported subset (elements, attributes, text, entities, comments, processing instructions)",
  "No XML test exists; hostile input needs instrumentation and well-formed input needs an independent oracle.",
  [C+"SAXParser.cpp", C+"SAXAttributes.cpp", I+"SAXParser.h"],
  [("character state machine", C+"SAXParser.cpp"), ("tag and attribute splitting", C+"SAXParser.cpp")],
  ["SAX callbacks", "ASan/UBSan reports"])
p("P16", "Checksums are the standard CRC values for any way of feeding the data",
  "The checksum a CRC object computes for any byte sequence is the published CRC-16/ARC value of those bytes, and is the same however the sequence is cut into successive updates; computing one checksum never influences another. The checksums the library writes into zip entries are the standard CRC-32 of their contents.",
  ["inputs", "histories"], "all byte arrays and all splits into updates",
  "No CRC test exists; table entries are only exercised by all byte values and chunkings.",
  [C+"CRC.cpp", I+"CRC.h"],
  [("table-driven update", C+"CRC.cpp")],
  ["CRC results vs zlib crc32"])
p("P17", "Byte arrays and memory streams never lose, invent or overrun bytes",
  "A ByteArray keeps exactly the bytes written to it across growth, shrinking, copying and appending, with copies independent of each other. A memory stream of fixed size transfers exactly min(requested, remaining) bytes per read or write from its current position, reports size and position accordingly, refuses positions outside [0,size], and never touches a byte outside its buffer, whatever the requested length and position.",
  ["inputs", "histories"], "all operation sequences with all lengths and positions, including beyond the end",
  "No test drives a stream to or past its end; overruns corrupt the heap silently without instrumentation.",
  [C+"ByteArray.cpp", C+"MemoryStream.cpp", C+"Stream.cpp", I+"ByteArray.h"],
  [("remaining-bytes clamp", C+"MemoryStream.cpp:read/write"), ("capacity handling", C+"ByteArray.cpp:resize/append")],
  ["returned counts, positions and bytes", "ASan reports"])
p("P18", "Files read and write exactly the bytes, at exactly the positions, asked for",
  "For any sequence of opening in a mode, reading, writing, seeking, moving and closing, the bytes read, the counts and positions returned and the file contents on disk equal those of the same sequence on an ordinary byte file. Whole-file reads return the complete content, and size and existence match the file system. A file that is not open, or no longer, transfers nothing.",
  ["histories", "inputs"], "all operation sequences and contents",
  "FileTest writes one short file; short reads at the end, reopening modes and seeks beyond the end depend on the history.",
  [C+"File.cpp", I+"File.h", C+"Stream.cpp"],
  [("stdio-backed read/write/seek", C+"File.cpp")],
  ["file bytes on disk read by independent means"])
p("P19", "File paths and file-system queries agree with the file system",
  "For every path, normalised path, parent, name, extension, joined path and absolute path are consistent with each other and name the same file the original path names. Listing, existence, kind, size, time, creation, renaming and deletion reported or performed by the library agree with what the operating system shows, and nothing outside the named paths is changed. A listing of a folder that changes meanwhile contains every entry that is there all the time exactly once.",
  ["inputs", "histories"], "all path strings and all small directory trees inside a scratch directory",
  "FileTest checks three literal paths; separators, dots and missing files combine without bound.",
  [C+"File.cpp", I+"File.h"],
  [("path normalisation", C+"File.cpp"), ("stat-based queries", C+"File.cpp")],
  ["File API vs POSIX calls"])
p("P20", "Preferences survive saving and loading unchanged",
  "Whatever text, numbers and flags are stored under any usable keys (non-empty, without '=', line breaks, zero characters or outer white space), saving the preferences and loading them in a new object gives back the same values under the same keys, and repeating save and load any number of times changes nothing. A value that is not stored yields the given default.",
  ["inputs", "histories"], "all sets of keys and values (line breaks, backslashes, separators, non-ASCII, empty), any number of save/load cycles",
  "There is no preferences test; escaping bugs show only for particular characters and grow over repeated cycles.",
  [C+"Preferences.cpp", I+"Preferences.h"],
  [("escape and unescape of values", C+"Preferences.cpp")],
  ["values after reload", "file bytes"])
p("P21", "Translations come back for exactly the messages that were loaded",
  "After loading any valid binary message catalogue, each message in it translates to its (non-empty) translation and every other text to itself, in whatever order catalogues were added. Loading any damaged catalogue ends without touching memory outside the catalogue.",
  ["inputs"], "all little-endian catalogues (any message count and text), all corruptions",
  "No i18n test exists; offsets in the catalogue are input-controlled.",
  [C+"I18nBundle.cpp", I+"I18nBundle.h"],
  [("catalogue table walk", C+"I18nBundle.cpp:appendMo"), ("lookup with fallback", C+"I18nBundle.cpp")],
  ["translate results", "ASan reports"])
p("P22", "Undo and redo restore every recorded value exactly",
  "For any history of edits grouped into closed steps, undoing k steps brings every tracked value and list back to exactly its content before those steps and redoing them brings it forward again, for every k and any interleaving of undo and redo. A new edit discards the redoable steps, an open step blocks undo and redo, and the reported step counts always match. Changes that an object makes to its members from regenerate(), while a step is undone or redone or a transaction is rolled back, are not recorded.",
  ["histories"], "all histories of edits over all tracked value types and lists, step closings, undos and redos",
  "UndoManagerTest undoes single changes of single values; multiple edits of one value in a step and undo/redo/edit interleavings are unbounded.",
  [C+"UndoManager.cpp", C+"UndoStep.cpp", C+"UndoChange.cpp", C+"LinkedList.cpp", C+"EditableObject.cpp"],
  [("swap of old and new value", C+"UndoChange.cpp:swap"), ("reverse-order replay", C+"UndoStep.cpp"), ("stacks", C+"UndoManager.cpp")],
  ["all tracked values snapshotted at each closed step"])
p("P23", "A transaction takes effect completely or not at all",
  "When the outermost transaction on an active undo manager ends successfully, all its edits take effect together and belong to the current step; when it is rolled back or ended with an error, every value and list edited inside it, at any nesting depth, is exactly as before it began. The outermost end decides; inner ends only close their level. Edits made before the transaction and the undo history are unaffected by a rollback.",
  ["histories", "fault_sequences"], "all nestings of begin, edit, commit, rollback and failing edits, at any point of an undo history",
  "The tests commit or roll back one level with one edit; nesting, mixed outcomes and failing inputs are combinatorial.",
  [C+"UndoManager.cpp", C+"UndoStep.cpp", C+"EditableObject.cpp", I+"UndoManager.h"],
  [("nesting level and status", C+"UndoManager.cpp:openTransaction/closeTransaction/commit/rollback")],
  ["values after each transaction end"])
p("P24", "Setting a member validates, stores, records and notifies consistently",
  "Setting a member of an editable object accepts exactly the values inside the given range, then stores the value and makes the change undoable; a rejected value leaves the member, the undo history and the object untouched and is reported as invalid, and an equal value (vertices within the tolerance) is reported as unchanged and records nothing. The owning document counts as changed exactly after steps that changed something.",
  ["inputs", "histories"], "all member types, all values incl. NaN, infinities and range limits, with and without a document or an open transaction",
  "EditableObjectTest sets in-range values of a few types; limits, special values and missing-document combinations multiply.",
  [C+"EditableObject.cpp", C+"Document.cpp", C+"UndoManager.cpp", C+"Property.cpp"],
  [("range check before registration", C+"EditableObject.cpp:setMember")],
  ["Status, value, undo counts, document state"])
p("P25", "Every reference-counted object is destroyed exactly once, when last released",
  "For any history of retain, release, deferred release and pool draining, an object lives as long as one owner holds it and is destroyed exactly once, no earlier than its last release or the draining of the pool it was handed to. Nothing is destroyed twice or left behind once all owners are gone, and copying or assigning an object copies no ownership.",
  ["histories"], "all histories of retain/release/autorelease, pool creation and draining, containers and undo stacks holding objects",
  "There is no test of object lifetime; use-after-free and leaks appear only for particular histories and under instrumentation.",
  [C+"Object.cpp", C+"AutoreleasePool.cpp", I+"Object.h", I+"AutoreleasePool.h"],
  [("reference count", C+"Object.cpp:retain/release"), ("deferred release list", C+"AutoreleasePool.cpp:drain")],
  ["destructor events", "ASan reports"])
p("P26", "Sharing objects between threads is race-free and keeps counts exact",
  "Any number of threads may concurrently create, retain, release and hand over objects to the shared pool while another drains it: no data race occurs, every object is destroyed exactly once, and reference counts and flags end at exactly the value the calls imply. Concurrent use of distinct values and of the read-only services (charsets, text conversion) is equally race-free.",
  ["schedules"], "all interleavings of threads sharing objects and pools",
  "The tests are single-threaded.",
  [C+"Object.cpp", C+"AutoreleasePool.cpp", C+"Mutex.cpp"],
  [("pool mutex around the count", C+"Object.cpp"), ("pool list mutex", C+"AutoreleasePool.cpp")],
  ["TSan reports", "destructor counters", "final counts"])
p("P27", "Mutexes exclude, and threads start, wake and stop on request",
  "At most one thread is inside a section guarded by a Mutex at any time, and every waiting thread gets in once it is free. A started thread runs its body exactly once; interrupting it at any moment, even before the body has begun or while it sleeps, makes its liveness check turn false and the call return once the body has ended; a sleeping thread wakes after its time or when woken.",
  ["schedules"], "all interleavings of lock/unlock, start, sleep, wake and interrupt, including an interrupt right after start",
  "The tests start no thread; lost wakeups and start/stop races need particular interleavings.",
  [C+"Mutex.cpp", C+"Thread.cpp", I+"Thread.h", I+"Mutex.h"],
  [("recursive pthread mutex", C+"Mutex.cpp"), ("alive flag and condition variable", C+"Thread.cpp")],
  ["critical-section occupancy counters", "thread body events", "TSan reports"])
p("P28", "Log messages appear whole, exactly once and in order",
  "Every message logged at a printed level appears on standard output exactly once, whole, unmixed with others and in order per thread (in the console's character set, what it cannot represent replaced), also when many threads log at once; messages of the debug level print nothing. The last error message is the last one logged as an error. Logging is free of data races.",
  ["schedules", "histories"], "all interleavings of logging threads, all level settings",
  "No test logs from two threads or checks delivery.",
  [C+"System.cpp", I+"System.h"],
  [("log mutex", C+"System.cpp:log")],
  ["lines on standard output", "TSan reports"])
p("P29", "Calendar dates and instants convert both ways without drift",
  "For every instant, the year, month, day, weekday and time of day are those of the proleptic Gregorian calendar, and building a date from those fields gives back the same instant. Formatting a date with any pattern prints exactly those fields, and date comparison agrees with instant order.",
  ["inputs"], "all instants (before 1970, leap days, century years, year boundaries), all field combinations, all format patterns",
  "DateTest samples a dozen dates; leap rules, negative instants and pattern tokens need wide sampling.",
  [C+"Date.cpp", C+"DateFormatter.cpp", I+"Date.h"],
  [("day/year arithmetic", C+"Date.cpp"), ("pattern tokenizer", C+"DateFormatter.cpp")],
  ["Date fields vs an independent calendar"])
p("P30", "A diff is a correct and shortest edit script",
  "For any two sequences the computed edit script, applied to the first, yields exactly the second, its kept elements are equal pairs in order, and its number of changes equals the reported distance. That distance is the minimum possible (Levenshtein), and computing it ends without memory errors for every pair, including empty and identical sequences.",
  ["inputs"], "all pairs of sequences",
  "There is no diff test at all; minimality and boundary diagonals depend on the pair.",
  [C+"Diff.cpp", C+"DiffDistance.cpp", C+"DiffDiag.cpp", C+"DiffBacktrace.cpp", C+"DiffInfo.cpp"],
  [("lazy diagonal evaluation", C+"DiffDiag.cpp"), ("backtrace", C+"DiffBacktrace.cpp")],
  ["edit script vs dynamic-programming distance"])
p("P31", "Binary serialisation is exact, byte-ordered and inverse",
  "Every integer and floating-point value written at any offset reads back bit-identical in the same byte order, occupies exactly the announced number of bytes in the announced order, and no other byte changes. Reading through a raw buffer and through a byte array gives the same value.",
  ["inputs"], "all values, widths, byte orders and (unaligned) offsets",
  "No serializer test exists; sign extension, float special values and unaligned offsets need full-range inputs.",
  [C+"Serializer.cpp", I+"Serializer.h"],
  [("byte-wise shifts", C+"Serializer.cpp")],
  ["bytes and values vs an independent encoding", "UBSan alignment reports"])
p("P32", "Matrix and vector arithmetic obeys linear algebra",
  "For matrices and vectors of any compatible shape, sum, difference, product, scaling, transpose, determinant, inverse, norms, trace and eigenvalues (up to 4 by 4; eigenvalues of 1 by 1, real 2 by 2 and symmetric 3 by 3 matrices) satisfy their defining equations within rounding error; an exactly singular matrix has no inverse; incompatible shapes are rejected and never read outside the operands. Copies are independent, and re-initialising a matrix neither leaks nor overruns.",
  ["inputs", "histories"], "all shapes and finite entries, operation sequences including assignment and re-initialisation",
  "MatrixTest checks fixed 2x2 to 4x4 examples; shapes, singular cases and sequences are unbounded.",
  [C+"Matrix.cpp", C+"Vector.cpp", I+"Matrix.h", I+"Vector.h"],
  [("dimension checks", C+"Matrix.cpp:operator+,-,*"), ("cofactor formulas", C+"Matrix.cpp:inverse/det")],
  ["results vs independent long double evaluation"])
p("P33", "Rotations, mirrorings and coordinate systems preserve geometry",
  "Rotations about any unit axis and mirrorings keep lengths and angles, compose and invert as expected and move points as their parameters say; moving and scaling do what they say; converting any point to the object coordinate system of any unit direction and back returns the point. Angles between any two non-zero vectors are real numbers in the documented range, including parallel and opposite vectors. Vectors are equal exactly if every coordinate is within the tolerance of its counterpart.",
  ["inputs"], "all finite vectors, angles, axes, base points and directions incl. parallel, opposite and axis-aligned ones",
  "VertexTest samples axis-aligned cases; degenerate and rounding-sensitive directions need wide sampling.",
  [C+"Vertex2.cpp", C+"Vertex3.cpp", C+"Transform.cpp", C+"Matrix.cpp"],
  [("rotation formulas", C+"Matrix.cpp:generate3x3*/init*"), ("arbitrary axis algorithm", C+"Transform.cpp")],
  ["invariants evaluated on results"])
p("P34", "Geometric constructions satisfy the equations that define them",
  "Every returned intersection point, closest point, circle, bisector and ray hit lies on the objects it was asked for and is the closest or first one; distances agree with the points; and a point is reported missing only if none exists within the tolerance of 1e-6 (direction and normal vectors of lengths 0.1 to 100). A NURBS curve passes through its clamped ends and equals the de Boor construction between them. Point-on-object predicates agree with the distance functions.",
  ["inputs"], "all well-conditioned and degenerate configurations of points, lines, planes, circles, arcs, ellipses and NURBS",
  "GeometryTest checks about a dozen configurations; rotated axes, oblique ellipses, tangencies and reversed directions are not reached.",
  [C+"Geometry.cpp", C+"NURBS.cpp", I+"Geometry.h"],
  [("linear solve and line-plane cut", C+"Geometry.cpp"), ("quadratic ray hits", C+"Geometry.cpp"), ("basis recursion", C+"NURBS.cpp")],
  ["defining equations evaluated on results"])
p("P35", "Rectangles and extents behave as point sets",
  "A point is in the intersection of two rectangles exactly if it is in both (empty if they are disjoint), the union contains both and no smaller rectangle does, and containment, overlap, edges, corners, moving, aligning and normalising agree with the covered points. Extents after adding any points or extents, in any order, are exactly the smallest box containing them.",
  ["inputs", "histories"], "all finite rectangles (also disjoint, touching, nested) and point sets in any order",
  "There is no test for rectangles or extents.",
  [C+"Rect.cpp", C+"Point.cpp", C+"Size.cpp", C+"Extents.cpp", I+"Rect.h"],
  [("min/max of edges", C+"Rect.cpp, "+C+"Extents.cpp")],
  ["membership of grid points"])
p("P36", "Colour conversions keep the colour within rounding",
  "Converting any colour between RGB, grey, CMYK and HSV gives component values within rounding of the documented formulas, keeps black, white and greys what they are, and RGB to HSV (hue in degrees) and back returns the same colour within one step per component; the alpha value is kept. Blending and interpolation with factors from 0 to 1 stay within the range spanned by the two colours and equal them at the ends, and equality means equal mode, components and alpha.",
  ["inputs"], "all 2^24 RGB colours, all grey and CMYK values, all alphas and blend factors",
  "There is no colour test; extremes (black, white, fully transparent) hit divisions by zero and narrowing.",
  [C+"Color.cpp", I+"Color.h"],
  [("mode conversions", C+"Color.cpp"), ("Porter-Duff blending", C+"Color.cpp")],
  ["components vs reference formulas", "UBSan float-cast reports"])
p("P37", "Numeric helpers keep their mathematical laws over the whole range",
  "Tolerant comparison is consistent: for any two finite numbers exactly one of less, equal, greater holds, the non-strict forms are their complements, and every number equals itself. Floor division and modulo satisfy x = y*q + r with 0 <= |r| < |y| and the divisor's sign, powers of two, rounding, swapping, interpolation, angle conversion and bounded random numbers satisfy their definitions.",
  ["inputs"], "all finite doubles of every magnitude, all int64/int32/uint32 pairs",
  "MathTest uses small numbers; tolerance versus magnitude, negative operands, zero and limits are not reached.",
  [C+"Math.cpp", I+"Math.h"],
  [("RESABS comparisons", C+"Math.cpp"), ("floor division", C+"Math.cpp:divFloor/modFloor")],
  ["laws evaluated on results"])
p("P38", "Everything the library acquires is released again",
  "Repeating the same complete use of any part of the library (create, use, destroy: strings, arrays, tables, lists, compression, archives, XML, files, undo, documents, diffs, number formatting, threads, services) leaves, after the first times, the same number of live heap blocks and bytes, open file descriptors and threads as before, however the use ends (also by an exception). A thread that ended by itself leaves nothing behind once its object is gone.",
  ["histories", "faults"], "all complete uses of the public API, repeated any number of times, ending normally or by an exception",
  "No unit test looks at what is left after it; a leak of a few bytes, a file descriptor or a thread stack per use passes every test.",
  [C+"String.cpp", I+"Array.h", I+"Hashtable.h", C+"Inflater.cpp", C+"Deflater.cpp", C+"ZipFile.cpp", C+"SAXParser.cpp", C+"File.cpp", C+"UndoManager.cpp", C+"Document.cpp", C+"Thread.cpp", C+"Resource.cpp", C+"Preferences.cpp", C+"Object.cpp"],
  [("retain/release pairs", C+"Object.cpp, "+I+"Array.h, "+I+"Hashtable.h"), ("owned buffers freed by destructors", C+"Inflater.cpp, "+C+"Deflater.cpp, "+C+"ZipFile.cpp"), ("handles and threads closed", C+"File.cpp, "+C+"Thread.cpp, "+C+"Resource.cpp")],
  ["live heap blocks and bytes", "/proc/self/fd", "/proc/self/task"])
p("P39", "Property values and document objects keep exactly what was set",
  "A property returns exactly the text and the number last set (whatever it held before), with its id, group, name, hint, editor, icon, flags and change mode; copies and assigned properties equal their source and are independent of it. Equality of two properties does not depend on their order and follows editor, type and value; a variant keeps its type and value. A document's and an object's own state (changed mark, request to regenerate, name, parent) is what the operations on it say, also after undo and redo.",
  ["inputs", "histories"], "all values, editors, types and orders of set, copy, assign and compare; histories of document edits",
  "No test touches properties or the document's flags; stale parts of a former value and one-sided comparisons need histories.",
  [C+"Property.cpp", I+"Property.h", C+"Document.cpp", C+"EditableObject.cpp"],
  [("value slots", C+"Property.cpp"), ("flags", C+"Document.cpp")],
  ["property state vs a model after each operation"])
p("P40", "Character classes and letter case follow Unicode's Latin letters",
  "For every code unit, the classes (upper case, lower case, letter, digit, digit value, white space) and the upper and lower case counterpart are those of Unicode for the letters of Basic Latin and Latin-1, and every other character maps to itself. Case conversion of a text converts each character and nothing else and leaves the source alone; trimming removes exactly the white space at both ends; two texts are equal ignoring case exactly if their lower case texts are equal.",
  ["inputs"], "all 65536 code units; all texts, in place and at any position",
  "CharTest samples a few ASCII letters; the letters without counterpart (sharp s, y diaeresis, multiplication sign) are never reached.",
  [C+"Character.cpp", I+"CharArray.h", C+"String.cpp"],
  [("range tables", C+"Character.cpp"), ("per-character loops", C+"String.cpp:toUpperCase/toLowerCase/trim")],
  ["classes vs the C library's Unicode tables"])
p("P41", "The unit-test framework counts and reports every verdict correctly",
  "Each check of a test passes exactly if its condition holds (equal, not equal, true, false, null, within tolerance, text, for every numeric type including the limits and infinities), and a failed check, and only a failed check, is reported with its message. A test vector runs every test (or exactly the selected one), each once, in order, also after one throws the library's exception, counts passed and failed checks and returns the number of failures; all tests are destroyed.",
  ["inputs", "histories", "faults"], "all operand values and sequences of checks and tests, with exceptions at any point",
  "The framework is what runs the tests; a check that always passes makes every test pass.",
  [C+"Test.cpp", C+"TestVector.cpp"],
  [("comparison of operands", C+"Test.cpp:test*"), ("exception barrier and counters", C+"TestVector.cpp")],
  ["counters and printed report vs known verdicts"])
p("P42", "Difference reports print exactly the differences",
  "For each report function, an added or deleted value prints one line with label and value, a modified value prints one line with old and new value and (for numbers) the exact difference if and only if the values differ, and anything else prints nothing, for all values including limits. A report of an object names it and shows its contents once, nested at the right depth.",
  ["inputs"], "all operations and pairs of values of every supported type",
  "No test looks at the reports; wrapping differences of unsigned and distant values are never printed.",
  [C+"DiffInfo.cpp"],
  [("line formatting", C+"DiffInfo.cpp:print*")],
  ["captured console output vs the expected lines"])
p("P43", "System services tell what the system says, and survive its refusals",
  "The language has the documented form language-REGION and follows the user's message locale; user id, full user name and MAC address are those of the operating system (a documented empty text if there is none, or the system refuses). Current folder, user folder, settings folder and the program's path, name and folder are those of the operating system for every length, and empty if it names none. Loading a dynamic library and resolving its symbols answers exactly what the loader would, and failure is reported. The application's preferences saved by one process are those the next process reads, whatever the order of starting, changing, saving and ending.",
  ["inputs", "histories", "faults"], "all locale names, account records and interface lists, including missing and failing ones; sequences of processes",
  "Tests run on one machine with one answer of the system.",
  [C+"System.cpp", C+"Preferences.cpp"],
  [("locale name parsing", C+"System.cpp:language"), ("interface scan", C+"System.cpp:macAddress1"), ("save at quit", C+"Preferences.cpp")],
  ["results vs link-time stand-ins for the operating system"])
p("P44", "The most specific translation is found, and a resource is its file",
  "For a file name and a language (or the system's), the translation found is the first existing one of file.lang_REGION, lang_REGION, file.lang, lang (none: a resource that does not exist), whatever other files there are; the default translation of a program is that of its language. A resource reads, seeks and writes exactly like the file it names, copies share one stream, assigning and destroying handles in any order loses and leaks nothing, and a failed opening is reported with the status of its cause.",
  ["inputs", "histories", "faults"], "all sets of present files, languages and file names; histories of stream operations on copied and assigned handles; failing openings",
  "No test looks up a translation file or uses a resource; the resource folder is a system path.",
  [C+"I18nBundle.cpp", C+"Resource.cpp"],
  [("order of candidates", C+"I18nBundle.cpp:transFileByBundleId"), ("shared stream", C+"Resource.cpp")],
  ["file found vs the first existing candidate", "stream results vs a byte-vector model"])
p("P45", "Exceptions carry their message and origin to whoever catches them",
  "An exception thrown anywhere arrives with exactly its message and the frames of the place it was constructed, however often it is copied, caught by value, rethrown or kept, from any thread and also if no memory is left to name the frames. Constructing it logs its message once as an error and makes it the last error; copying and destroying it logs nothing. The trace lists the frames in order and is the same for every copy.",
  ["inputs", "histories", "schedules", "faults"], "all messages, call depths, ways of catching and copying, numbers of frames; many threads at once; failing frame lookup",
  "Tests only see that an exception is thrown.",
  [C+"Exception.cpp"],
  [("constructor and copy", C+"Exception.cpp"), ("trace", C+"Exception.cpp:GetStrackTrace/printStackTrace")],
  ["message, trace and console vs the generated ones", "TSan reports"])
p("P46", "Texts and values pass through C++ streams unchanged",
  "Writing a text (without zero characters) to a C++ output stream writes exactly its bytes in the console's character set, whatever was written before or after; reading from an input stream yields exactly the lines of the stream, of any length, one per reading, and then the end. A vector, vertex or matrix printed to a stream or appended to a text shows all its numbers, in order, with the stream's precision.",
  ["inputs", "histories"], "all sequences of texts, numbers and vectors in every console character set; line sequences of any length",
  "Tests print nothing; buffers of fixed size show only with long lines.",
  [C+"String.cpp", C+"Vector.cpp", C+"Vertex2.cpp", C+"Vertex3.cpp"],
  [("stream operators", C+"String.cpp:operator<< and >>"), ("printing of vectors", C+"Vector.cpp, "+C+"Vertex3.cpp")],
  ["bytes and lines vs an independent encoding"])
p("P47", "What the system refuses is never taken for done",
  "If the system refuses to open, create, write, position or close a file (no space, size limit, missing or forbidden place, no free descriptor), then File, ZipOutputFile, XMLWriter and saving or loading Preferences and opening a ZipFile say so by an exception, a status, a false or a short count, at the latest when the file is closed, and do not crash. If none of them says so, the file holds every byte that was written. Without a refusal nothing is reported, and the same object can be used again afterwards.",
  ["faults", "histories"], "all writing sequences with refusals beginning and ending at every point and every kind of unusable path",
  "Tests write to places where everything works; data lost because a short write is ignored shows only when the medium refuses.",
  [C+"File.cpp", C+"ZipOutputFile.cpp", C+"ZipFile.cpp", C+"XMLWriter.cpp", C+"Preferences.cpp"],
  [("short writes reported when closing", C+"File.cpp:close"), ("status of opening", C+"ZipOutputFile.cpp, "+C+"XMLWriter.cpp, "+C+"Preferences.cpp")],
  ["bytes in the file vs. what the caller was told"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
