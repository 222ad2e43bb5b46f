#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here so that the statements are readable and diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=m[0], where=m[1]) for m in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Varint and zigzag coding of 64-bit integers is lossless and minimal",
 "Encoding any unsigned 64-bit value as a varint appends the standard base-128 form in the fewest possible bytes (1 to 10), leaves the bytes already in the buffer alone, and decoding it from there returns the same value and advances past exactly those bytes. Zigzag coding is a bijection between signed and unsigned 64-bit integers: n >= 0 becomes 2n, n < 0 becomes -2n-1, and decoding undoes it.",
 ["inputs"], "every 64-bit value, at any offset of a buffer holding arbitrary other bytes",
 "no existing test calls the codec; the ten length classes each have two edges in a 2^64 space",
 ["internal/pb/varint.go"], [("EncodeVarInt/DecodeVarInt length cascade","internal/pb/varint.go"),("EncodeZigZag/DecodeZigZag","internal/pb/varint.go")],
 ["returned buffer, decoded value and position"])
prop("C02", "Varint decoding of arbitrary bytes matches base-128 or fails loudly",
 "For any byte buffer and any position in it, decoding a varint of up to ten bytes either returns the standard base-128 value and advances to just after the first byte without a continuation bit, or (when the buffer ends first, or the value does not fit in 64 bits) panics. It never returns a value for a truncated varint, and never modifies the buffer.",
 ["inputs"], "every byte sequence up to 11 bytes, including non-minimal and truncated encodings",
 "decoding of non-minimal, truncated and over-long encodings is never exercised by a test",
 ["internal/pb/varint.go"], [("DecodeVarInt","internal/pb/varint.go")], ["decoded value, advanced position, panic"])
prop("C03", "Integer list encodings decode back to exactly the list encoded",
 "Every list form of the protobuf layer (packed, packed delta, and zero-terminated delta; signed, unsigned and zigzag; 32 and 64 bit) decodes to exactly the list that was encoded: same length, same order, same values, consuming exactly its own bytes. The zero-terminated delta form requires only that no value equals its predecessor (the first value not being 0); the 32-bit forms hold for the whole range of their type.",
 ["inputs"], "every list of values of the type, up to the stated length, followed by arbitrary trailing bytes",
 "no test covers the list codecs; the delta arithmetic wraps at extremes a sample does not hit",
 ["internal/pb/32.go","internal/pb/64.go","internal/pb/buffer.go"], [("Encode*/Decode* packed families","internal/pb/32.go, internal/pb/64.go")],
 ["decoded slice, advanced position"])
prop("C04", "Length-prefixed sections carry their exact length or are refused",
 "A section embedded with a reserved-width length prefix (1 to 4 bytes) is preceded by its field tag and a prefix that decodes, as a standard varint, to exactly the number of bytes the section's writer produced, whatever was in the buffer before. A section too long for its reserved prefix is refused with a panic instead of being written with a wrong length.",
 ["inputs"], "every payload length on both sides of each prefix's limit, every preceding buffer content, every field id",
 "no test covers embedding; the limits 128, 16384, 2097152 and 268435456 are single points in a large space",
 ["internal/pb/embed.go","internal/pb/buffer.go"], [("Embed*/Reserve*/EmbedInt*","internal/pb/embed.go")], ["bytes appended, panic"])
prop("C05", "Location coding is an exact, sign-safe bit interleave",
 "Coding two signed 32-bit values puts bit i of the first at bit 2i and bit i of the second at bit 2i+1 of the 64-bit code, and decoding inverts it for every pair. For every valid position (latitude within 900000000 and longitude within 1800000000, in 1e-7 degrees), the stored code with the marker bit is negative as a signed number, is never zero, and decodes to the same latitude and longitude.",
 ["inputs"], "every pair of 32-bit integers; every valid latitude and longitude",
 "the existing test checks a handful of pairs of a 2^64 space",
 ["internal/morton/morton.go","ENCODING.md"], [("Encode/Decode/DecodeLocation and the 256-entry spread table","internal/morton/morton.go")], ["returned code and coordinates"])
prop("C06", "Node index lookups return every node's exact location and nothing else",
 "After indexing a PBF file whose dense nodes are in ascending id order, looking up any node id of the file (id 0 or more) in the index returns exactly that node's position, and looking up any other id reports not found. This holds whatever the gaps between ids, the split into groups and blocks, the blocks' granularity and offsets, compression state, the number of workers and the lookup hint.",
 ["inputs","configurations"], "every ascending id sequence, position, granularity and offset, grouping into blocks, lookup id, hint",
 "no test indexes a file; range merging depends on exact gaps between neighbouring ids and on block boundaries",
 ["cmd/nodeindex/indexer/nodeindexer_worker.go","cmd/nodeindex/indexer/nodeindexer_writer.go","internal/nodeindex"],
 [("range building with one-id gap filling","cmd/nodeindex/indexer/nodeindexer_worker.go"),("offset assignment and file assembly","cmd/nodeindex/indexer/nodeindexer_writer.go"),("binary search","internal/nodeindex/nodesubindex.go")],
 ["index file", "lookup result"], [dict(name="index file", meaning="header, ranges, locations", where="internal/nodeindex/nodeindex.go")])
prop("C07", "Node index passes together cover every indexed node",
 "For any node index and any number of passes, going through the passes in order resolves every indexed node id in at least one pass, to the same location as an unsplit lookup; an id that is not indexed is found in no pass. No pass number below the pass count fails.",
 ["inputs","configurations"], "every small index shape and content, every pass count, every id and hint",
 "no test splits an index; the split depends on a division remainder and on where range boundaries fall",
 ["internal/nodeindex/nodeindex.go","internal/nodeindex/nodesubindex.go"], [("SubIndex","internal/nodeindex/nodeindex.go")], ["lookup results per pass"])
prop("C08", "Way index lookups return every way's exact reference list",
 "After indexing a PBF file with ways in ascending id order, looking up any way id of the file returns exactly that way's references in order, with only immediate repetitions collapsed (and a leading zero dropped), and looking up any other id reports not found. This holds for any references (node ids or coded locations), alignment shift, grouping into blocks, number of workers and lookup hint.",
 ["inputs","configurations"], "every ascending way id sequence, reference list, alignment, grouping, lookup id, hint",
 "no test builds a way index; padding and offsets depend on encoded lengths modulo the alignment",
 ["cmd/wayindex/wayindexer/wayindexer_worker.go","cmd/wayindex/wayindexer/wayindexer_writer.go","internal/wayindex"],
 [("duplicate filter, delta coding, padding","cmd/wayindex/wayindexer/wayindexer_worker.go"),("offset rebasing","cmd/wayindex/wayindexer/wayindexer_writer.go"),("binary search","internal/wayindex/subindex.go")],
 ["index file","lookup result"])
prop("C09", "Way index passes together cover every indexed way",
 "For any way index and any number of passes, going through the passes in order finds every indexed way id in at least one pass, with the same reference list as an unsplit lookup; an id that is not indexed is found in no pass. No pass number below the pass count fails.",
 ["inputs","configurations"], "every small index shape and content, every pass count, id and hint",
 "no test splits an index; the split depends on data length, remainder and alignment",
 ["internal/wayindex/wayindex.go","internal/wayindex/subindex.go"], [("SubIndexWithScaledPass","internal/wayindex/wayindex.go")], ["lookup results per pass"])
prop("C10", "Packed index fields round-trip or the value is refused",
 "Packing a count and offset (node index) or a way id and offset (way index) into one 64-bit index word either yields a word from which exactly the same two numbers are read back, or panics. A value that does not fit its field is never silently truncated or allowed to spill into the other field.",
 ["inputs"], "every pair of unsigned (node) or non-negative (way) 64-bit values",
 "the limits are single points of a 2^128 space and no test touches them",
 ["internal/nodeindex/count_offset.go","internal/wayindex/indexdata.go"], [("NewCountOffset","internal/nodeindex/count_offset.go"),("MakeIndexData","internal/wayindex/indexdata.go")], ["accessors, panic"])
prop("C11", "Rewriting replaces exactly the indexed references and keeps everything else",
 "Rewriting a PBF against a node index replaces each way reference that is an indexed node id by that node's coded location and keeps every other reference (already coded or not indexed) as it is, in the same order; way ids, tags, dense nodes, relations, string table, granularity, offsets and non-data blocks come out unchanged and in order. The result is the same for any memory limit (number of passes) and any number of workers, and no temporary file is left behind.",
 ["inputs","configurations"], "every reference list, index content, block layout, pass count, workers",
 "no test runs the rewriter",
 ["cmd/rewritenodes/rewriter/noderewriter_worker.go","cmd/rewritenodes/rewriter/noderewriter_writer.go","cmd/rewritenodes/rewritenodes.go"],
 [("reference substitution","cmd/rewritenodes/rewriter/noderewriter_worker.go"),("pass loop and temporary files","cmd/rewritenodes/rewritenodes.go")], ["output PBF file", "file system"])
prop("C12", "The relation index lists every relation's way members with their locations",
 "The relation index holds, for each relation in file order, its id, the number of way members, and for each way member in order its way id, location count and locations from the way index (count 0 when the way is not indexed); node and relation members do not appear. The result is the same for any number of passes, and no temporary file is left behind.",
 ["inputs","configurations"], "every member list, type mix, way index content, pass count",
 "no test runs relindex",
 ["cmd/relindex/relindex.go","cmd/relindex/relindexerinit"], [("initial pass","cmd/relindex/relindexerinit/relindexer_worker.go"),("per-pass rewrite","cmd/relindex/relindex.go")], ["output file","file system"])
prop("C13", "Blocks are processed and written exactly once, in file order",
 "For any number of workers and any scheduling, every block of the input file reaches exactly one worker with its exact bytes, type and position, and the writer receives every block's result exactly once, in file order. Waiting on the run returns only after the writer has finished and never blocks forever.",
 ["schedules","inputs"], "every interleaving of reader, workers, reorder step and writer at channel, select and atomic operations; workers finishing out of order",
 "no test runs the pipeline; a test run samples one schedule",
 ["internal/pbf/process.go","internal/pbf/reorder.go"], [("channel pipeline and shutdown order","internal/pbf/process.go"),("reorder buffer","internal/pbf/reorder.go")], ["blocks seen by work and write steps, return of Wait"])
prop("C14", "Cancellation ends a run cleanly with a gapless prefix",
 "Cancelling a run at any moment makes it finish without deadlock or panic, and what the writer received is the results of the first k blocks of the file, in order and without gaps, for some k. Every block handed to a worker before the cancellation took effect is still written.",
 ["schedules","crash_points"], "every point of cancellation relative to every pipeline event, within the stated schedules",
 "no test cancels; the outcome depends on where in the schedule the cancellation lands",
 ["internal/pbf/process.go","internal/pbf/reorder.go"], [("select on ctx.Done while dispatching","internal/pbf/process.go")], ["blocks seen by the writer, return of Wait"])
prop("C15", "Block framing is followed exactly, and bad framing stops the run loudly",
 "Reading a PBF file delimits blocks exactly as the framing says (4-byte big-endian header length, header with type and data size, then data), whatever the header's field order and lengths. An unknown block type, or a header or data length running past the end of the file, makes the run fail with a panic; it is never silently skipped or cut short.",
 ["inputs"], "every header length, data size, field order and block type within the stated file sizes, including truncations",
 "no test reads a PBF file",
 ["internal/pbf/process.go","internal/t/blob_header.go"], [("framing loop","internal/pbf/process.go"),("ReadBlobHeader","internal/t/blob_header.go")], ["blocks seen by workers, panic"])
prop("C16", "PBF structures survive being written and read back",
 "Writing any primitive block (string table, dense nodes, ways, relations, granularity, date granularity, offsets), blob or blob header and reading it back yields an equal value. Scalar fields not written come back as their documented defaults, negative and extreme values included. A structure whose encoding is too long for the length field reserved for it aborts the write instead of being written wrongly.",
 ["inputs"], "every field value within the stated list lengths",
 "tests cover one string table only",
 ["internal/t"], [("Read*/Write pairs","internal/t/*.go")], ["decoded structures"])
prop("C17", "Skipped sections pass through byte for byte",
 "Reading a block with any combination of the skip options (string table, dense nodes, ways, relations) and writing it again reproduces each skipped section's bytes exactly and each decoded section's content, with sections of the same kind in the same order. Skipping never changes what is decoded from the sections that are not skipped.",
 ["inputs","configurations"], "every combination of skip options, every section content within bounds",
 "no test uses the skip options",
 ["internal/t/primitive_block.go","internal/t/primitive_group.go"], [("Raw* fields","internal/t/primitive_group.go")], ["written bytes, decoded structures"])
prop("C18", "The string table maps every string to its own index, with index 0 empty",
 "A finalized string table contains the empty string at index 0 and each distinct added string exactly once, ordered by descending frequency and then by content (a tag with an empty key adds one more empty string at the end, because index 0 ends a dense node's list); looking up an added string gives the index at which the table holds it, and looking up any other string panics. Key/value lists built from a tag map name exactly that map's pairs, sorted by key.",
 ["inputs","histories"], "every sequence of additions (including the empty string and repeats) within bounds",
 "tests use six fixed sequences and never add the empty string",
 ["internal/t/string_table_builder.go"], [("frequency map and sort","internal/t/string_table_builder.go")], ["table content, indexes, panic"])
prop("C19", "Tag filtering drops exactly the untagged nodes and keeps all other content",
 "Tag filtering keeps a node, with its id and its position to the 1e-7 degree, if and only if at least one of its tags is not on the discard list (exact names and prefixes), and then with exactly its non-discarded tags. Ways and relations keep their ids, tags, references, members, roles and types; non-data blocks are copied unchanged and blocks stay in order.",
 ["inputs","configurations"], "every tag key and value, tag count, node position, block mix within bounds",
 "no test runs tagfilter",
 ["cmd/tagfilter/tagfilterer/tagfilterer_worker.go","internal/t"], [("keepTag lists","cmd/tagfilter/tagfilterer/tagfilterer_worker.go"),("rebuild of the block","internal/t/primitive_block.go")], ["output PBF file"])
prop("C20", "Decompressing a PBF preserves every block's content, type and order",
 "Decompressing a PBF file yields a valid PBF file with the same blocks in the same order and of the same types, each holding, uncompressed, exactly the content the original block held (compressed or not).",
 ["inputs","configurations"], "every payload, mixture of raw and compressed blocks, workers",
 "no test runs decompress",
 ["cmd/decompress/decompressor"], [("re-encoding","cmd/decompress/decompressor/decompressor_worker.go")], ["output PBF file"])
prop("C21", "Entity and block counts and entity search are exact",
 "Counting reports exactly the number of blocks in the file, the number of nodes, ways and relations with the largest id of each (for ids of zero or more), the total of way references and the length of the longest way; and searching prints exactly the entities whose id was asked for, for any number of workers and any scheduling of them.",
 ["inputs","schedules","configurations"], "every file content within bounds, every interleaving of the final totals",
 "no test runs these commands",
 ["cmd/entitycount","cmd/blockcount","cmd/entityfind"], [("atomic totals","cmd/entitycount/entitycount.go"),("isIn","cmd/entityfind/entityfind.go")], ["standard output"])
prop("C22", "Compressed blobs yield their exact content however the reader delivers it",
 "Extracting a zlib-compressed blob returns exactly the declared number of bytes, equal to the decompressed stream, however the decompressor splits its output into reads and whether or not it reports end-of-stream together with the last bytes. A stream that fails or ends before the declared size makes the extraction panic, never return short or stale data; an uncompressed blob returns its bytes as they are.",
 ["inputs","fault_sequences"], "every split of the output into reads, every error position, every previous content of recycled buffers",
 "no test extracts a blob; short reads depend on the decompressor's internal state",
 ["internal/t/blob.go","internal/pool/bytebuffer.go"], [("decodeZLib read loop","internal/t/blob.go")], ["returned buffer, panic"])
prop("C23", "Borrowed buffers are exact in size, never shared, and only ever pool-owned",
 "A buffer obtained from the pool has exactly the requested length; two buffers held at the same time never overlap; and a buffer that was only wrapped (not borrowed) is never handed out by the pool, whatever sequence of gets and puts preceded.",
 ["histories","schedules"], "every sequence of gets, puts and wraps with any sizes within bounds",
 "no test uses the pool",
 ["internal/pool/bytebuffer.go"], [("isBorrowed flag and size check","internal/pool/bytebuffer.go")], ["returned buffers"])
prop("C24", "I/O failures and short writes stop the run instead of corrupting output",
 "If any file operation of a command fails, or a write transfers fewer bytes than asked, the command ends with a failure or completes with the whole intended output; it never reports success with an output file that lacks, repeats or reorders bytes.",
 ["fault_sequences"], "every single failing or short file operation (open, create, read, write, seek, close, rename, map) of a run",
 "no test injects I/O faults",
 ["internal/iio/wrappers.go"], [("panic on error","internal/iio/wrappers.go"),("FWrite retry loop","internal/iio/wrappers.go")], ["exit status, output file"])
prop("C25", "Reinterpreted slices view the same bytes with the right length",
 "Viewing a byte slice as 64-bit integers or as a slice of fixed-size elements, or the reverse, yields a view of the same memory in which element i is exactly the little-endian content of its bytes, with length the number of whole elements. Writing through one view is seen through the other, no view reaches beyond the memory its input has room for, and appending to a view of arbitrary elements never overwrites memory beyond the input.",
 ["inputs"], "every length and content within bounds",
 "one test checks one element of one type",
 ["internal/iunsafe/slices.go"], [("slice header rewriting","internal/iunsafe/slices.go")], ["view length and content"])
prop("C26", "The worker list always shows exactly the currently tracked workers",
 "After any history of workers registering and unregistering, from any number of goroutines, the worker list holds exactly the registered and not yet unregistered workers in order of registration, the version number changes with every change to the list (so that a list read after the version is current for as long as the version stays the same), and a list already handed out never changes. Refreshing the displayed list shows exactly these workers, in this order.",
 ["histories","schedules"], "every history of track, untrack and list operations within bounds, and their interleavings",
 "no test uses the tracker",
 ["internal/tracker/worker_tracker.go","internal/tracker/widget_workers.go"], [("mutex-protected list, atomic version","internal/tracker/worker_tracker.go"),("refresh by version","internal/tracker/widget_workers.go")], ["listed workers, version, displayed workers"])
prop("C27", "Progress markup shows the text padded to width, split at the progress point",
 "Marking up a line of single-byte characters for a width and a fraction shows, once the markup is interpreted, the text padded with spaces to the width, with its highlighted part being the given fraction of the width (clamped to 0..1) rounded down; percent signs in the text are shown literally.",
 ["inputs"], "every fraction (infinities included), width and text within bounds",
 "no test covers it",
 ["internal/ui/format.go"], [("MarkupAsProgress/EscapePercent","internal/ui/format.go")], ["returned markup"])
prop("C28", "Index dumps print every entry exactly as looked up",
 "Dumping a node or way index prints, for each entry (in the selected element range or sub-index) and in order, the stored location or references and the result of searching for its id, and the two agree; entries without a location are shown as skipped.",
 ["inputs","configurations"], "every small index content, option combination and element range",
 "no test runs the dump commands",
 ["cmd/dumpnodeindex/dumpnodeindex.go","cmd/dumpwayindex/dumpwayindex.go"], [("dump loops","cmd/dumpnodeindex/dumpnodeindex.go")], ["standard output"])
prop("C29", "Decoding malformed data always ends, in a value or a panic",
 "Decoding any byte sequence as a blob header, blob, primitive block, group, dense nodes, way, relation or string table terminates: it returns or panics within a number of steps bounded by the input length, and never reads outside the buffer it was given.",
 ["inputs"], "every byte sequence up to the stated length",
 "tests decode one well-formed string table",
 ["internal/t","internal/pb"], [("decode loops","internal/t/*.go"),("ReadBytes/SkipBytes","internal/pb/buffer.go")], ["termination, panic"])
prop("C30", "A nested field whose length overruns its message is refused",
 "When a length-delimited field (a skipped one included) declares more bytes than remain in the message that contains it, decoding panics, and so it does when the last value of a list is cut off by the end of the list; bytes that belong to the surrounding data are never taken as the field's content.",
 ["inputs"], "every declared length (any 64-bit varint), nesting level and surrounding content within bounds",
 "no test decodes an overrunning length",
 ["internal/pb/buffer.go"], [("ReadBytes/SkipBytes bounds","internal/pb/buffer.go")], ["panic, returned content"])
prop("C31", "Chained commands resolve ways and relations to positions in the file",
 "Running the node index, node rewriting, way index and relation index commands one after another on one file, each on the outputs of the previous, yields for every relation member way exactly the positions its nodes have in the original file, in the way's order (immediate repetitions collapsed). A way that is not in the file has no positions, and a node that is not in the file leaves its id in the list. The result does not depend on the number of workers or passes, or on the way index's alignment.",
 ["inputs","configurations"], "every file within bounds: node ids and positions, ways, relations, their order and grouping into blocks, and the options of the four commands",
 "no test runs a command, and the intermediate file formats are only ever exercised together",
 ["internal/nodeindexer","internal/waynoderewriter","internal/wayindexer","internal/relationindexer"], [("the four commands and the three file formats between them","cmd, internal")], ["relation index file"])
prop("C32", "Interrupted commands leave nothing that is mistaken for a finished index",
 "If a command that writes an index, or the index file itself, stops short at any point (the command killed between any two of its file operations or within a large write, the file cut to any length), a command that uses the index afterwards either fails or gives the answers of the complete index. Running an interrupted command again, over whatever it left behind and over older outputs, writes the complete output and leaves no temporary file.",
 ["crash_points","inputs"], "every file operation of each of the six file-writing commands as the point of the kill, every length of an index file",
 "no test interrupts a command or opens an unfinished index",
 ["cmd/nodeindex/indexer/nodeindexer_writer.go","cmd/wayindex/wayindexer/wayindexer_writer.go","internal/nodeindex/nodeindex.go","internal/wayindex/wayindex.go","internal/iio/wrappers.go"],
 [("header written last","cmd/*/…_writer.go"),("version check, bounds of locations","internal/nodeindex, internal/wayindex")], ["exit status and output of the commands using the index", "output of the repeated run", "file system"])
prop("C33", "A command line is refused without touching a file, or carried out as given",
 "Every command refuses, with a failure status and before it creates, changes or removes any file or prints results, a command line that cannot be carried out: an unknown option, a stray argument, a required option left out, a value that is missing or malformed, fewer than one worker or pass, a negative alignment or refresh interval, a memory target of no locations, sub-index options that contradict each other or name no sub-index. A request for help ends well and touches no file. Any other command line is carried out with the files and values it gives, whatever the order and spelling (short or long, value attached, after '=' or separate) of its options.",
 ["inputs","configurations"], "every number of workers and passes, alignment and sub-index, every option left out, misspelled, or in another place or spelling, for all commands",
 "no test calls a command",
 ["cmd/*/args.go","internal/system/args.go","internal/ui/args.go"],
 [("parseArgs","cmd/*/args.go"),("Validate","internal/system/args.go, internal/ui/args.go")], ["exit status", "standard output", "file system"])
prop("C34", "A cancelled command ends cleanly and passes nothing off as finished",
 "Cancelling a command at any moment makes it end without failing and without leaving a temporary file. A PBF file or relation index it was writing, if it is there, holds exactly the first blocks of the complete output (in a relation index, the relations of these blocks), whole and in order. A command that uses a node or way index left behind by a cancelled command either fails or gives the answers of the complete index.",
 ["schedules","inputs"], "every file operation of each of the six file-writing commands as the moment of cancelling, one to three passes",
 "no test cancels a command",
 ["cmd/nodeindex/indexer/nodeindexer_writer.go","cmd/wayindex/wayindexer/wayindexer_writer.go","cmd/rewritenodes/rewritenodes.go","internal/pbf/process.go"],
 [("cancellation","internal/pbf/process.go, internal/icontext"),("header written last","cmd/*/…_writer.go")], ["exit status", "output", "file system", "output of the commands using the index"])
prop("C35", "Status lines show the recorded state and figures; progress never goes back",
 "The line of a worker names what it is doing and the number of the block it has, from when it has taken the block until it has handed over the result, and then that it waits; where it counts (ways done of all ways, nodes kept and dropped, blocks dropped, bytes copied of all bytes) it shows exactly these figures, and a line with a total is highlighted up to that ratio. This holds for every block number and every width of the screen, also while there is no screen or nothing to divide by, and updating a line never fails. The progress of a file never goes back and never exceeds its size, a block that a worker has got counts as reached up to where its content starts, and at the end of an uncancelled run all of the file counts as processed, as do all locations that had to be copied.",
 ["inputs","schedules"], "every block number, every state of all twelve kinds of worker and writer lines and of the file and pass lines, several widths; every interleaving of an observer with a run of up to two blocks",
 "no test draws a line or observes a run",
 ["internal/pbf/process.go","internal/ui/widget/widget_common_line.go","internal/ui/widget/widget_process_state.go","internal/ui/widget/widget_pass_progress.go","cmd/rewritenodes/rewriter/widget/widget_state_worker.go","cmd/nodeindex/indexer/widget/widget_state_writer.go","cmd/tagfilter/tagfilterer/state/state_worker.go"],
 [("status lines","cmd/*/*/widget, internal/ui/widget"),("recorded states","cmd/*/*/state"),("file progress","internal/pbf/process.go")], ["what a line draws on its view", "At, Max and CurrentState of a run"])
prop("C36", "Ctrl-C cancels the run; the screen shows the current phase, kept up to date",
 "While a command shows its display, every press of Ctrl-C cancels the run, and no other key does, nor does any other event; Ctrl-L draws everything again. At every refresh interval each line of the current phase is updated once, and the screen then shows these lines, in order and from the top, and nothing of an earlier phase. Stopping the display always ends, whatever is going on, gives the terminal back, and nothing is drawn or updated afterwards. The display never changes what a command does: it ends the same way and writes the same output as without it (refresh interval 0), in which case no terminal is touched.",
 ["inputs","schedules"], "every sequence of keys with any modifiers within bounds, every sequence of phases and refreshes within bounds, every interleaving of a small run of each command with its display, with and without Ctrl-C",
 "no test starts the display",
 ["internal/ui/ui.go","internal/ui/debugui.go","internal/ui/event_update.go","internal/ui/widget/widget_common_line.go"],
 [("display","internal/ui/ui.go"),("lines","internal/ui/widget"),("cancellation","cmd/*/*.go (main)")], ["contents of a terminal under the harness's control", "calls of the cancellation", "output files"])
prop("C37", "The figures printed about lookups count every lookup once, as what it is",
 "At the end rewritenodes and relindex print how many lookups in the index were hits by the hint, other hits, misses of ids beyond the current pass, and other misses. Every lookup made is counted exactly once, with any number of workers in any order: as a hit exactly if the id lies in an entry of the current pass's part of the index (by the hint exactly if it is the entry hinted at), as deferred exactly if the id is beyond the last entry of that part. References which are already locations are not looked up, nor are ways which an earlier pass found.",
 ["inputs","schedules"], "every id and hint in every pass of indexes within bounds, every reference and member within bounds, every interleaving of two workers",
 "no test reads the figures, and a lost count needs two workers at the same place at once",
 ["internal/nodeindex/nodesubindex.go","internal/wayindex/subindex.go","internal/nodeindex/nodeindex.go","internal/wayindex/wayindex.go"],
 [("counters","internal/{node,way}index"),("figures","cmd/rewritenodes, cmd/relindex (PrintStats)")], ["standard output of rewritenodes and relindex", "counters of an index"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
