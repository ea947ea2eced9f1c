#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
L="crates/toon/src/lib.rs"; SER="crates/toon/src/ser/mod.rs"; ST="crates/toon/src/ser/stream.rs"
VB="crates/toon/src/ser/value_builder.rs"; VBA="crates/toon/src/ser/value_builder_alloc.rs"
DE="crates/toon/src/de/mod.rs"; DD="crates/toon/src/de/direct.rs"; PA="crates/toon/src/decode/parser.rs"
SC="crates/toon/src/decode/scanner.rs"; VA="crates/toon/src/decode/validation.rs"; PE="crates/toon/src/decode/path_expand.rs"
EN="crates/toon/src/encode/encoders.rs"; PR="crates/toon/src/encode/primitives.rs"; NU="crates/toon/src/number.rs"
CLI="crates/toon-cli/src/main.rs"; WA="crates/toon-wasm/src/lib.rs"; LW="crates/toon/src/encode/writer.rs"; ER="crates/toon/src/error.rs"
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":obs,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
P=[
p("C01","A writer receives the whole document exactly once, or the call fails",
 "When a value is encoded to a writer, the bytes the writer has accepted are at every moment a prefix of the document that encoding to a string yields, and the call returns Ok only if the writer accepted that whole document exactly once. Short writes and interrupted writes are ridden out to success; any other write failure (error, zero-length write, panic) makes the call fail and an error comes back as an I/O error with the writer's own kind and message. A value that cannot be encoded sends nothing to the writer.",
 ["inputs","fault_sequences","histories","configurations"],
 "every encodable value and options, each of the three writer entry points in every build that has them, documents from empty to several hundred kilobytes, every sequence of short writes, EINTR, zero writes, I/O errors and panics at any byte, and any earlier history of failed or successful calls",
 "The tests write a few small values to a Vec<u8>, which accepts everything at once and never fails; no test uses a writer that is short, interrupted or failing, or a document larger than one buffer.",
 [L,SER,ST,LW,ER],[("encode to a string first, then write_all",L+" encode_to_writer; "+SER+" to_writer, to_writer_streaming"),("io::Error converted with #[from]",ER)],
 ["Write calls made on the caller's writer","result of encode_to_writer, ser::to_writer, ser::to_writer_streaming"]),
p("C02","Reading from a reader decodes exactly the delivered bytes, or fails",
 "Decoding from a reader gives the same result as decoding the reader's complete content from a string, however the reader splits its chunks (also inside a multi-byte character) and however often it is interrupted. If the reader fails at any point, or its content is not valid UTF-8, decoding returns an error, with the reader's own kind and message where it failed, and never a value made from part of the content.",
 ["inputs","fault_sequences","histories","configurations"],
 "every document (valid, invalid, not UTF-8), options and target type, every way of chunking it, EINTR and I/O errors or panics at any byte, documents up to several hundred kilobytes, any earlier history of calls",
 "The tests decode from byte slices that deliver everything in one call and never fail.",
 [L,ER,DE],[("read_to_string, then decode_from_str",L+" decode_from_reader")],
 ["Read calls made on the caller's reader","result of decode_from_reader"]),
p("C03","An acknowledged document reads back as the value that was sent",
 "A value that was encoded and acknowledged can be decoded again as the same value (integers exactly, floats as the same double, objects by key; non-finite floats as null, None and unit as null) by every supported build of the library, into a generic value or into the type it came from, in strict and in lenient mode, after any crash and restart, and after being relayed and re-encoded with other options or another build any number of times. This holds for every value serde can hand over: nested and empty containers, enums, options, any strings, maps keyed by any scalar (strings, numbers, booleans, characters, unit variants, newtypes of them), any finite number.",
 ["inputs","histories","configurations","crash_points","fault_sequences"],
 "every serde value and every delimiter, indentation, strictness, key folding and path expansion setting, every encode entry point, every pair or chain of builds (default, std without json, alloc only, all features, wasm bindings), over a storage and transport with short and interrupted I/O, crashes before and after the acknowledgement, and restarts",
 "The tests round-trip a few dozen fixed small values with default options inside one build and one process; the encoder has three separate implementations (streaming, JSON value, alloc) and the decoder two, and they meet only at the text.",
 [ST,EN,VB,VBA,PR,NU,PA,SC,DE,PE,WA],[("quoting of ambiguous strings and keys",PR),("tabular, inline and list layouts for arrays",EN+"; "+ST),("layout recognition by indentation and header",PA),("key folding / path expansion",EN+"; "+PE),("value model to serde",DE)],
 ["bytes handed to storage by the encoding node","value produced by the decoding node"]),
p("C04","A truncated document is never mistaken for complete data",
 "If a crash, a full disk or a closed connection leaves only a prefix of an encoded document, strict decoding of that prefix either fails or yields data that agrees with the original up to the point of the cut: every array it contains is complete, and only the last entry before the cut may be shortened and later object fields missing. It never yields an array with fewer, more or different elements. (A document that is one bare scalar declares nothing: any fragment of it is another word.)",
 ["inputs","crash_points","configurations"],
 "every document, every byte offset of the cut, every delimiter and indentation, every build that decodes",
 "A handful of strict-mode tests check fixed documents with a wrong count; none cuts a document, and the layouts (inline, tabular, list, nested in list items) and the offsets are far too many to list.",
 [PA,SC,VA,DE],[("declared array length checked in strict mode",PA),("row width checked in strict mode",PA),("leftover content rejected in strict mode",PA+" parse_to_internal_value_with_options")],
 ["strict decode result of the durable prefix"]),
p("C05","Lost, repeated or reordered lines never change an array's length",
 "When lines or blocks of an encoded document are lost, repeated or reordered on the way, strict decoding either fails or every array in the result has exactly as many elements as its own header declares. This holds for root arrays and keyed arrays in every layout, at every nesting depth, with every delimiter.",
 ["inputs","fault_sequences","configurations"],
 "every document whose array keys are unique, every sequence of line and block losses, repetitions and reorderings, every delimiter and indentation",
 "The tests for strict lengths use a few fixed two-row documents; the checks are spread over many parser branches (inline, tabular, list, first field of a list item, nested keyless), each of which can lose its check alone.",
 [PA,VA],[("declared array length checked in strict mode, per layout",PA)],
 ["strict decode result of the damaged document"]),
p("C06","Damaged input never brings the process down",
 "Whatever bytes storage or network hand back (flipped bits, torn, lost, duplicated or mixed-up blocks, foreign data), decoding ends with a value or an error: it never panics, aborts, overflows the stack, runs without end or takes memory out of proportion to the input (every row of a table counts with its whole header). The process stays usable: the next intact document decodes as before.",
 ["inputs","fault_sequences","configurations"],
 "every corrupted input up to 64 KiB derived from real documents and every text built from TOON fragments, both strictness modes, all options, all decode entry points and target types, every build",
 "No test feeds damaged input apart from a few hand-written syntax errors; the repository's fuzz targets only look for panics in the default build and are not part of the suite.",
 [PA,SC,VA,DE,DD,PE],[("byte-indexed scanning with checks",SC),("errors instead of panics",PA),("size hints not trusted",ST)],
 ["process exit, panics, allocation volume and event counts of decode calls"]),
p("C07","A failing participant in serialization is reported, not papered over",
 "If any part of the value being encoded reports an error from its Serialize implementation, at whatever depth and position, encoding returns an error that carries its message, and no document is produced or written. A Serialize implementation that gives a wrong, missing or absurd length hint, or is called on a value that panics, neither changes the output of other calls nor makes the library allocate in proportion to the hint.",
 ["inputs","fault_sequences","histories","configurations"],
 "every value, every position in it that may fail (persistently), panic or lie about its length, every encode entry point, options and build",
 "No test has a Serialize implementation that fails, panics or lies; the encoders call user code at several sites each and each site can drop an error by itself.",
 [ST,VB,VBA,SER],[("errors passed up with ?",ST),("nested values built by to_value",VB+"; "+VBA)],
 ["result and output of the encode entry points"]),
p("C08","A failing consumer stops decoding with its own error and no after-effects",
 "If the type being decoded into rejects a value (its Deserialize implementation returns an error at any point), decoding returns an error that carries its message and never a value; if it panics, the panic passes through. A consumer that stops reading early never makes the library panic, and none of this changes the result of any later call.",
 ["inputs","fault_sequences","histories","configurations"],
 "every document and target shape (generic, struct, map, tuple, option, newtype, enum), every callback of the consumer at which it may fail, panic or stop early, every build",
 "The tests only use derived types that accept their input; one expects an error for a wrong type.",
 [DE,DD,L],[("consumer errors converted to Error::Message",DE+" from_str_via_internal_value; "+DD+" from_str")],
 ["result of decode_from_str and decode_from_reader"]),
p("C09","Every call is independent of all other calls",
 "The result of every encode and decode call depends only on its arguments: it is the same in a fresh process, on any thread, while any other calls are in progress on other threads or in enclosing callbacks (a Serialize, Deserialize, Read or Write implementation that itself calls the library), and after any history of successes, errors and panics. Concurrent calls never block each other forever.",
 ["schedules","histories","fault_sequences","inputs"],
 "every set of concurrent clients and their operations, every interleaving at the granularity of allocator calls and callbacks, every re-entrant call from a callback, every earlier history",
 "Every test makes one call after another on one thread and compares with a fixed text; none runs calls concurrently, re-entrantly or after a panic.",
 [L,ST,DE,PA,PR,NU],[("no shared state: all state in locals of the call",L+"; "+ST+"; "+PA)],
 ["results of all calls in a simulated history"]),
p("C10","The command line tool succeeds exactly when it delivered the complete result",
 "toon-cli exits with status 0 only if it read its whole input and its standard output accepted the complete converted document, with a final newline; otherwise (unreadable or invalid input, a failing or full output, one whose reader is gone, being killed) it exits with a failure and what it wrote is nothing or a prefix of the correct output. Short and interrupted system calls on input and output do not change the result.",
 ["inputs","fault_sequences","crash_points","configurations"],
 "every input document in both directions, every combination of its options, input from a file or from standard input, and every sequence of short, interrupted and failing read, write and open calls, and a kill at any of them; inputs up to several hundred kilobytes",
 "The CLI tests run it on a few one-line inputs over healthy pipes.",
 [CLI,L],[("read_to_string before converting",CLI),("println! of the finished text",CLI),("errors returned from main",CLI)],
 ["system calls on the input and on standard output, exit status"]),
p("C11","Running out of memory never turns into a wrong success",
 "If any memory allocation made during a call fails, the call does not return success with an incomplete or altered result: it may fail or end the process, but a document or value it does return, and every byte it has written, is what it would have been without the failure.",
 ["inputs","fault_sequences","configurations"],
 "every value and document, every allocation made by the call at which memory runs out (for one request or for good), all encode and decode entry points, every build",
 "No test can make an allocation fail.",
 [ST,EN,PA,SC,LW],[("infallible allocation: failure aborts",LW+"; "+PA)],
 ["result of the call, bytes accepted by the writer, process exit"]),
p("C12","A pipeline of tools delivers the original data or reports failure",
 "When JSON is piped through the encoder process into the decoder process, over a pipe that may deliver in any pieces and with either process failing or being killed at any system call, then if both processes report success the final JSON equals the original, and if the encoder was cut off the decoder never reports a complete document with shortened arrays.",
 ["inputs","fault_sequences","crash_points"],
 "every JSON document, every chunking of the pipe between the processes, every failing, short or interrupted system call and every kill point in either process, every delimiter option",
 "The CLI tests run single processes to completion; none connects two or interrupts one.",
 [CLI,PA,ST],[("strict decoding by default",CLI),("declared array lengths",PA)],
 ["exit status of both processes and the bytes that went through each pipe"]),
p("C13","Every build writes the same document, and passing it on does not change it",
 "For the same value and options every build of the library and every encode entry point, whatever its writer does on the way, produces the same bytes (key folding: every build with the json feature) or, where a map has keys that are no scalars, all refuse it, and a document that a client reads with one build and writes again with any other, with the same options, comes out byte for byte as it went in, however often it is passed on.",
 ["inputs","configurations","histories"],
 "every value, every option set, every combination of builds (default, perf, alloc, std, wasm) and entry points, every chain of read-and-rewrite hops through them, every chunking and soft fault of the writers",
 "serde_stream_equivalence compares a few values in one build; no test has two builds of the library in one process, and none passes a document on.",
 [ST,EN,VB,VBA,NU,PR],[("duplicated layout code",ST+"; "+EN),("table columns",ST+"; "+EN),("canonical numbers",NU)],["bytes written by each build, hop by hop"]),
p("C14","A strict reader never takes a document mangled in transit for another one",
 "When an editor, terminal or mail relay damages an encoded document at one place, strict decoding does not silently deliver other data. A line whose indentation was shifted between two levels or turned into tabs, or a blank line put between two items or rows of an array, is always refused. A lost or added cell or element, a changed count in a header, an escape the format does not know, a lost closing quote, a lost colon, an entry moved below one that has a value, a line broken in two at a space after its hyphen, expanded tabs, CRLF line ends and blank lines at the end are refused or the reader delivers exactly the original data.",
 ["inputs","fault_sequences","configurations"],
 "every document, every place in it where such damage changes its text, every delimiter and indentation, every build and every target of the strict decoder",
 "Each strict rule is tested on one or two documents; every rule is enforced separately in each layout and branch of the parser (inline, table, list, first field of a list item, nested items, quoted keys), and any branch can lose it alone.",
 [PA,VA,SC,PR],[("indentation and tabs",VA),("blank lines, counts, row widths, leftover content",PA),("quoted tokens and escapes",PA)],["strict decode result of the mangled document"]),
p("C15","Calls leave no memory behind, whatever their outcome",
 "After a call has returned or unwound, and its result has been dropped, the process holds no more memory than before: repeating the same calls any number of times, successes, errors and panics alike, does not make the live memory of the process grow, and neither does an endless succession of different values and documents.",
 ["inputs","histories","fault_sequences"],
 "every call of every entry point with any value, document, options and target, in any order, with every kind of fault at any point of its writer, reader, participant or consumer, repeated any number of times, in every build",
 "No test looks at memory; a cache, an interner or a leaked buffer passes every functional test.",
 [L,ST,DE,PA,NU,PR],[("no shared state: all state in locals of the call",L+"; "+ST+"; "+PA)],["live bytes counted by the process's allocator between calls"]),
p("C16","Every build reads any text alike, and can pass on what it read",
 "Whatever text a reader receives, hand-written, from another program, damaged on its way or not TOON at all, every build of the library and every entry point (string, reader, public parser) either all refuse it or all deliver the same data for the same options. Text a strict reader accepts is read as the same data by a lenient one. Data that was read can be written again by every build, all write it alike, and it reads back as the same data, so nothing is lost or changed when one party passes on what it got from another.",
 ["inputs","configurations","histories","fault_sequences"],
 "every text, intact or damaged at any bytes, every option set, strictness and delimiter, every combination of builds (default, perf with its own scanner and number parser, alloc, std, wasm), string and reader entry points with any chunking and soft faults of the reader",
 "The tests of the optional features compare a few intact documents inside one build; none has two builds in one process, none uses text the library's own encoder did not write or would never write, and none passes data on.",
 [PA,SC,DE,PE,VA,L,WA,PR],[("scanner twins (memchr, plain)",SC),("numbers by lexical or std",PA),("duplicate keys: last wins",PA+"; "+DE),("value model to serde, with and without json",DE)],["results of every decoding entry point of every build","bytes written when the data is passed on"]),
p("C17","A refused document is refused with the number of the line that is wrong",
 "When strict reading refuses a document because something happened to one of its lines (a changed indentation, a tab, a blank line inside an array, a cell lost or added, a wrong count, a bad escape), the error names that line, counted from one; for other damage it names that line, the one at which it first shows, or the header of the array that no longer fits. Every refusal of damaged text names a line, the line always lies inside the document, and it is the same from every build and every entry point (string, reader with any chunking, bindings).",
 ["inputs","fault_sequences","configurations"],
 "every encoded document of any layout, length and depth, one damaged place anywhere in it; and any other text; every build and entry point with line numbers, any chunking and soft faults of the reader",
 "The tests look for line numbers in a handful of errors of documents of two or three lines; each of the several parser branches counts its lines by itself, with blank lines, nested blocks and headers in between.",
 [PA,VA,SC,ER,L],[("errors built with their line at each place of refusal",PA+"; "+VA),("syntax errors carry a line",ER)],
 ["error texts of strict decoding"]),
p("C18","Time and memory grow no faster than the data",
 "When a part of a value or of a text grows (more entries, elements, rows, columns, lines or cells, longer strings or keys, deeper nesting), the steps that encoding and decoding take and the memory they use grow no faster than the bytes of the value, the text and the result together, a logarithmic factor aside, and every row of a table counted with its whole header. This holds for every build, entry point and option, with key folding and path expansion, for texts that are refused as for those that are accepted, and however readers and writers divide the data.",
 ["inputs","configurations","schedules"],
 "every value and text, any of its parts repeated up to a size of some megabytes, every build with every option, any chunking of readers and writers",
 "The tests use documents of a few lines and look at results only; the benchmarks have fixed shapes. A quadratic loop over keys, columns, lines or bytes costs nothing there and minutes on a document of a megabyte.",
 [PA,SC,DE,PE,EN,ST,LW,VB],[("lines and cells are consumed once",PA+"; "+SC),("keys are looked up when expanding, folding and forming rows",PE+"; "+EN+"; "+ST)],
 ["number of basic blocks executed and bytes moved by a call, counted by the simulated clock","peak of bytes allocated by a call"]),
p("C19","Noise in the layout of a text never changes what a reader makes of it",
 "What transport and editors add to a text without touching its data changes nothing: CRLF line ends on some or all lines, blank lines at the end, spaces at the ends of lines, spaces around the delimiters of rows and inline arrays and after colons leave the result of every reader, strict or lenient, as it was. A lenient reader also looks past blank lines anywhere in the text (empty, of spaces, of tabs) and past blocks of nested lines that moved deeper as a whole.",
 ["inputs","fault_sequences","configurations"],
 "every encoded document and every hand-written text a reader accepts, noise of these kinds at any set of places, alone and together, every build, entry point, delimiter and strictness, any chunking of the reader",
 "The tests have a handful of documents with CRLF or odd spacing; every branch of the parser looks ahead over blank lines, measures indentation and trims by itself, and any of them can drop the lines that follow without an error.",
 [SC,PA,VA,L],[("line ends and blank lines",SC),("cells trimmed",PA),("blocks found by the indentation of their first line",PA)],
 ["results of decoding the text with and without the noise"]),
# not simulation targets
p("N01","Numbers are written in canonical form",
 "Every finite number is written without exponent, without trailing fractional zeros and with -0 as 0, and identically by every encode entry point.",
 ["inputs","configurations"],"every finite number of every numeric type, at every position of a document",
 "The tests check a few dozen numbers.",[NU,PR],[("canonical formatting",NU)],["encoded text"]),
p("N02","The chosen array layout is the one the format prescribes",
 "Arrays of uniform objects with only primitive fields are written as tables, arrays of primitives inline and all others as lists; strings and keys are quoted exactly when the format requires it.",
 ["inputs","configurations"],"every value, delimiter and position",
 "The tests check chosen examples; the official fixtures are an empty submodule here.",[EN,ST,PR],[("tabular detection",EN),("quoting rules",PR)],["encoded text"]),
p("N04","Key folding and path expansion follow their rules",
 "With safe key folding only chains of single-key objects whose segments are plain identifiers are folded, up to the configured depth and without colliding with sibling keys; path expansion splits exactly the unquoted keys made of such segments and reports conflicts in strict mode.",
 ["inputs","configurations"],"every value, document, depth setting and mode",
 "The tests use a few fixed documents.",[EN,PE,PA],[("folding",EN),("expansion",PE)],["encoded text and decoded values"]),
p("N06","The wasm bindings refuse oversized input",
 "The wasm bindings refuse input over 10 MiB with an error and otherwise behave like the library with the corresponding options.",
 ["inputs"],"every input",
 "Unit tests cover one oversized input per direction.",[WA],[("size check before parsing",WA)],["results of json_to_toon and toon_to_json"]),
]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
