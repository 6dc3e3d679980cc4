#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json, os
R = "brec/src/"; M = "brec_macros/src/"
def p(id, title, stmt, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None))
P = [
p("P01", "A written packet is read back identical through every reading path",
  "Any packet built from 0 to 255 blocks of any declared types with any field values and an optional payload of any declared or default type, once written, is read back with equal blocks in the same order and an equal payload. This holds for every way of reading it: plain stream, seekable, buffered, memory slice, rule-aware read and the stream extractor, and also for a single block or payload read on its own. Each such read consumes exactly the packet's bytes, so the following packet can be read next.",
  ["inputs", "configurations"], "all packets over the declared block and payload types, all field values, all block counts up to the limit, all payload sizes, all reading paths",
  "proptest samples a few hundred random packets, always uses whole in-memory cursors, and never exercises the enum-level plain-stream block reader, signature-less slice reads, custom signature or checksum widths, or counts near the limit",
  [R+"packet/read.rs", R+"packet/mod.rs", R+"traits/read/mod.rs", M+"codegen/read/block.rs", M+"collector/blocks/read.rs", M+"collector/payloads/read.rs"],
  [("generated readers and packet readers mirror the generated writers", M+"codegen/read/block.rs"), ("dispatch on signatures", M+"collector/blocks/read.rs")],
  ["value returned by each reader", "stream position after the read"]),
p("P02", "The bytes written and the sizes reported follow the documented layout",
  "The bytes produced for a packet, block, payload or storage slot are exactly those of the published layout: signatures, little-endian fixed-width fields in declaration order, lengths, presence flag and CRC-32 values, with nothing added or left out. Every size the library reports for a block, payload, payload header or packet equals the number of bytes it writes. The encoding of a value is deterministic and does not depend on the writing method.",
  ["inputs", "configurations"], "all packets over the declared types and all writing methods",
  "tests only write and read with the same build, so a symmetric change of layout, byte order, checksum coverage or signature passes every one of them",
  [R+"packet/header/write.rs", R+"packet/header/mod.rs", R+"payload/header/mod.rs", R+"storage/slot/write.rs", M+"codegen/write/block.rs", M+"codegen/props/block.rs"],
  [("header serialisation", R+"packet/header/write.rs"), ("block writers and sizes", M+"codegen/write/block.rs")],
  ["bytes written", "reported sizes"]),
p("P03", "Writing survives any pattern of partial writes, and failures are reported",
  "Whatever sequence of partial acceptances, vectored or not, and interruptions a sink answers with, a complete write (plain or vectored) delivers exactly the packet's bytes once, in order. If the sink fails or stops accepting bytes, the write returns an error and what was delivered is a prefix of the encoding. A single-attempt write returns the number of bytes it actually delivered.",
  ["inputs", "fault_sequences"], "all packets in scope and all sink behaviours up to the stated number of partial acceptances, interruptions or failures",
  "tests write into growable vectors that accept everything at once",
  [R+"traits/write/slices.rs", R+"traits/write/mod.rs", R+"packet/write.rs", M+"codegen/write/block.rs"],
  [("vectored write loop tracking written bytes across slices", R+"traits/write/slices.rs")],
  ["bytes in the sink", "returned count or error"]),
p("P04", "Damaged data is never accepted as different content",
  "If the bytes of a written packet are altered by any change the checksums guarantee to detect (any flipped bit, any changed byte, any pair of flipped bits, any short burst, or truncation), then no reading path returns a packet, block or payload whose content differs from what was written, except for types that opted out of checksums. Each path either reports an error or missing data, or returns the original content; a packet header altered this way is never accepted at all. Data whose checksum was disabled by the user is the only content not covered.",
  ["inputs", "fault_sequences"], "all packets in scope, all alterations in the stated classes, all reading paths",
  "no existing test corrupts a single byte of a packet",
  [R+"packet/header/read.rs", R+"packet/header/mod.rs", R+"traits/read/mod.rs", R+"traits/props/mod.rs", M+"codegen/read/block.rs", M+"codegen/props/block.rs"],
  [("CRC of header, block and payload checked after decoding", R+"packet/header/read.rs")],
  ["value or error from each reader"]),
p("P05", "Incomplete input is reported as such without consuming anything",
  "When only a proper prefix of a packet is available, the non-committing packet readers (seekable and buffered) report that more data is needed, with a positive amount never larger than what is really missing, and leave the source exactly where it was; adding the missing bytes makes the same call succeed. The same holds for reading a single packet header, block, payload header or payload from a seekable source, and for a packet header or payload header from a buffered one. When such a seekable read fails with an error the source is also left where it was.",
  ["inputs", "histories"], "all packets in scope, all prefix lengths, all start offsets in range, all feeding orders",
  "tests call these readers only on complete data",
  [R+"packet/read.rs", R+"packet/header/read.rs", R+"payload/header/sreader.rs", R+"payload/header/read.rs", R+"traits/read/mod.rs", M+"codegen/read/block.rs"],
  [("availability check before decoding, seek back on every non-success", R+"packet/read.rs")],
  ["returned status", "source position"]),
p("P06", "Every intact packet in a mixed stream is delivered, in order, exactly once",
  "From a stream in which packets are surrounded by arbitrary other bytes, the stream extractor delivers every intact packet exactly once, in order and with equal content, no matter what the other bytes are, short of a whole packet header with a correct checksum (look-alikes of a packet's beginning included) and no matter how the source splits the bytes into reads. The last packet is delivered even when nothing follows it. The sequence of delivered packets does not depend on how the bytes were split.",
  ["inputs", "schedules"], "all sequences of packets and foreign segments in scope, all ways of splitting the stream into reads within the bound",
  "tests place random litter around packets but always read from an in-memory cursor, so only 8 KiB boundaries occur and signature look-alikes never do",
  [R+"packet/reader.rs", R+"packet/header/mod.rs"],
  [("three-state extraction (fresh, refill, header ready) carrying partial data across reads", R+"packet/reader.rs")],
  ["packets returned by successive reads"]),
p("P07", "Bytes that are not part of a packet reach the user exactly once, in order",
  "All bytes of a stream that do not belong to a recognised packet, including an incomplete packet or any other remainder at the end of the stream, are handed to the user's callback for unrecognised data exactly once, in stream order and unmodified. No byte of a recognised packet is ever handed to that callback. This holds for every split of the stream into reads.",
  ["inputs", "schedules"], "all sequences of packets and foreign segments in scope, all splits into reads within the bound",
  "tests compare only the total length of ignored bytes for one split",
  [R+"packet/reader.rs", R+"packet/rules.rs"],
  [("ignore rule called on the part of the buffer before a packet and on discarded tails", R+"packet/reader.rs")],
  ["arguments of the ignored-data callback"]),
p("P08", "The stream extractor always makes progress and recovers from damage",
  "Reading from a finite stream reaches the end-of-data answer after a bounded number of calls whatever the stream contains, and keeps answering so afterwards. A packet some bytes of which were altered (its length unchanged) is reported as an error at most once per packet header that is still intact, and every intact packet that does not overlap the damage is still delivered. A temporary failure of the source loses nothing: continuing to read afterwards yields the same packets as if it had not happened.",
  ["inputs", "fault_sequences", "schedules"], "all sequences of intact, damaged and truncated packets and foreign segments in scope, all splits into reads, all placements of a temporary source failure",
  "tests stop at the first error and never feed damaged or truncated streams",
  [R+"packet/reader.rs"],
  [("packet bytes are consumed on every outcome", R+"packet/reader.rs")],
  ["number of calls until end of data", "packets after an error"]),
p("P09", "Filter rules select exactly the packets the user asked for",
  "With any combination of the block, payload and whole-packet filter rules, the stream extractor and the storage's filtered reads return exactly those packets, in order, that every installed rule accepts, and treat all others as skipped; a later stage is consulted only when the earlier ones accepted, with exactly that packet's blocks, payload bytes, or decoded content. Reads documented as unfiltered ignore the rules. At most one rule of each kind is active: adding a second of the same kind is refused and keeps the first, and removing a kind removes only that kind.",
  ["inputs", "configurations", "histories"], "all rule combinations over accept, reject and content-dependent predicates, all packet sequences in scope, all sequences of rule additions and removals up to the bound",
  "tests use one always-true or always-false rule of each kind and only count calls",
  [R+"packet/rules.rs", R+"packet/reader.rs", R+"packet/mod.rs", R+"storage/reader/iters.rs"],
  [("staged filters during parsing", R+"packet/mod.rs"), ("rule set with one rule per kind", R+"packet/rules.rs")],
  ["packets returned", "callback arguments"]),
p("P10", "No input can crash a reader",
  "Whatever bytes are presented, including well-checksummed headers that announce inconsistent or enormous lengths, every reading path returns a packet, a request for more data or an error. It never panics, never loops forever, and never reserves memory out of proportion to the data actually available.",
  ["inputs"], "all byte strings in the enumerated families (short strings over a critical alphabet, every truncation and mutation of valid packets, and every combination of boundary values in the header fields with a valid checksum)",
  "tests never present invalid bytes to a reader",
  [R+"packet/read.rs", R+"packet/reader.rs", R+"packet/mod.rs", R+"packet/header/read.rs", R+"payload/header/read.rs", M+"codegen/read/block.rs"],
  [("length checks before slicing and allocating", R+"packet/reader.rs")],
  ["panic, abort, allocation size, termination"]),
p("P11", "The peeking buffered reader is a transparent view of its source",
  "Through any sequence of peeks, consumes, reads and preloads, the peeking buffered reader presents the bytes of the underlying source once, in order, with nothing lost, repeated or altered. Its consumed-bytes counter always equals the number of bytes taken through it. A peek is empty only when nothing more is available. A failure of the source is reported and loses nothing: continuing presents the same bytes.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over all source chunkings in scope",
  "tests use it for one fixed loop over a single-chunk cursor",
  [R+"traits/read/reader.rs"],
  [("preload buffer merged with the inner buffer", R+"traits/read/reader.rs")],
  ["bytes peeked and read", "consumed counter"]),
p("P12", "The limit of 255 blocks per packet is the same for every reader",
  "A packet with at most 255 blocks is accepted by every reading path, and a packet announcing more is refused with an error by every reading path. No reading path returns only part of a packet's blocks. After such a refusal the stream extractor and indexed storage reads still deliver the other packets.",
  ["inputs", "configurations"], "every block count from 0 to beyond the limit, every reading path",
  "tests use fewer than 20 blocks per packet",
  [R+"lib.rs", R+"packet/read.rs", R+"packet/reader.rs", R+"packet/mod.rs"],
  [("block counter compared with the maximum", R+"packet/reader.rs")],
  ["result of each reader"]),
p("P13", "A storage behaves as an append-only list of packets",
  "After any history of insertions and re-openings, a storage contains exactly the inserted packets in insertion order: the reported number of records, iteration over all records and reopening the same data by a reader or a writer all agree with that list. Insertion never changes a record stored earlier. This holds for any number of records, in particular across the boundaries of the storage's internal groups of records.",
  ["histories", "inputs"], "all histories of insertions (of packets of different sizes), writer re-openings and reader openings up to the depth bound, from every starting size around the group boundaries",
  "tests cover eight sizes with one packet value and a single reopen",
  [R+"storage/writer/mod.rs", R+"storage/locator.rs", R+"storage/slot/mod.rs", R+"storage/reader/mod.rs"],
  [("slot of packet lengths plus free-slot locator", R+"storage/locator.rs")],
  ["count", "iteration", "reopened content"]),
p("P14", "Indexed, ranged and positioned reads agree with the full sequence",
  "For every index, start and length, reading one record by index, reading a range, and iterating from a position return exactly the corresponding part of the full sequence of records, and asking beyond the end returns nothing or an out-of-bounds error, never a wrong record. Filtered iteration returns the same sequence restricted to accepted records, and a filtered range from a start index returns the first accepted records, up to the requested number, from that index on. None of these reads changes what later reads return.",
  ["inputs", "histories"], "all indices, starts and lengths (all of them for small storages, all around the group boundaries for large ones), all pairs of consecutive read operations",
  "tests read some indices and ranges of 10 records in a storage of at most 100 records, and never position past a group boundary",
  [R+"storage/reader/mod.rs", R+"storage/reader/iters.rs", R+"storage/slot/mod.rs"],
  [("offset computation from slot metadata", R+"storage/reader/mod.rs"), ("positioned iteration", R+"storage/reader/iters.rs")],
  ["packets returned"]),
p("P15", "Refreshing a reader picks up exactly the records appended since",
  "When an open reader is refreshed after any number of records were appended, it reports exactly how many were added and afterwards every read operation sees exactly the full current content, as a newly opened reader would. Refreshing when nothing was appended reports zero and changes nothing. This holds for any numbers of records before and after, and for any sequence of refreshes.",
  ["histories"], "all pairs and triples of record counts around the group boundaries, including several new groups in one refresh",
  "the observer test refreshes in one pattern and never across several groups",
  [R+"storage/reader/mod.rs", R+"storage/locator.rs"],
  [("re-read of the last slot and discovery of new ones", R+"storage/reader/mod.rs")],
  ["returned count", "content after refresh"]),
p("P16", "A crash during insertion never loses or alters acknowledged records",
  "If the writing process stops at any point during an insertion (also when an earlier insertion of the same writer failed), the storage left behind can be opened again, contains every acknowledged record unchanged plus at most the one being inserted, and accepts further insertions that are then stored correctly. If the stop tears the rewriting of the group metadata itself, opening may instead report that metadata as damaged, but never yields wrong records, and all acknowledged records can still be extracted from the raw file with the stream extractor. Writes are assumed to reach the file in the order they were issued.",
  ["crash_points", "histories"], "every prefix of the sequence of writes, every byte position inside the last write, from every starting size around the group boundaries, followed by further insertions of shorter and longer packets and a second crash",
  "no test interrupts an insertion",
  [R+"storage/writer/mod.rs", R+"storage/slot/read.rs", R+"storage/slot/header.rs", R+"storage/reader/mod.rs"],
  [("order of packet and slot writes; slot CRC; tail handling when loading", R+"storage/writer/mod.rs")],
  ["content after reopening", "recovered packets"]),
p("P17", "A failed insertion leaves the storage consistent and usable",
  "If any operation of the underlying file fails during an insertion, the insertion returns an error and all records acknowledged before remain intact and readable. The writer stays usable: once the file works again, further insertions succeed and the storage then holds exactly the acknowledged records in order, except that the record of a failed insertion may be present at its place if it was the last attempt before reopening. If the failure tore the rewriting of the group metadata itself, a reader may meanwhile report that metadata as damaged, and until the next successful insertion the acknowledged records are then found in the raw file with the stream extractor. A failure while opening or reading is returned as an error and does not change the data; a reader whose refresh failed still has the records it had.",
  ["fault_sequences", "histories"], "a failure (outright or after a partial write) at every single file operation of an insertion, and pairs of failures, from every starting size around the group boundaries",
  "no test injects I/O errors",
  [R+"storage/writer/mod.rs", R+"storage/locator.rs"],
  [("in-memory slot state kept in step with what was written", R+"storage/writer/mod.rs")],
  ["insert results", "content afterwards"]),
p("P18", "Damage in a storage file is contained and never silently accepted",
  "If bytes of a storage's group metadata are altered, opening reports the damage instead of returning fewer, other or misplaced records. If bytes of a stored record are altered, that record is reported as an error (or read unchanged) while every other record remains readable by index, and no read returns altered content or leaves a record out without an error: ranges give an error exactly in its place, and so does iteration unless the record's packet header is what was altered. In both cases every undamaged record can be extracted from the raw file with the stream extractor, and truncating the file at any point never makes an operation panic or return wrong records.",
  ["inputs", "fault_sequences"], "every byte of the metadata and of the records of small storages with several substitutions each, every truncation length",
  "no test damages a storage file",
  [R+"storage/slot/read.rs", R+"storage/slot/header.rs", R+"storage/reader/mod.rs", R+"storage/reader/iters.rs", R+"storage/writer/mod.rs"],
  [("slot CRC, packet and payload CRC, offsets from slot metadata", R+"storage/slot/read.rs")],
  ["open result", "records read"]),
p("P19", "A reader working while a writer inserts sees a consistent prefix",
  "However the file operations of a reader (opening, refreshing, counting, reading records) interleave with those of one writer inserting records into the same file, the reader never reports damage or an error and never returns a wrong record. What it sees is always a prefix of the writer's sequence that contains at least all records acknowledged before the reader's operation began, and successive refreshes never shrink it. A single read or write request to the file is taken to be indivisible.",
  ["schedules", "histories"], "all interleavings of the file operations of a reader and a writer within the bound, from starting sizes around the group boundaries",
  "the observer test runs threads freely and samples a few interleavings",
  [R+"storage/writer/mod.rs", R+"storage/slot/read.rs", R+"storage/reader/mod.rs"],
  [("packet data written before the metadata that announces it; metadata read as one unit", R+"storage/writer/mod.rs")],
  ["reader results during insertions"]),
p("P20", "At most one locked file storage is open on a file at any time",
  "Whatever the interleaving of several openers using the same path, at most one locked storage is open at a time, and nothing is read from or written to the storage file by an opener that does not hold the lock. Without a waiting time a contended opening fails at once as locked; with one it keeps retrying at the given interval, succeeds within one interval of the lock becoming free in time, and reports a timeout only after the full waiting time has passed. Closing a storage, also after a failed opening, frees the lock, and records inserted by successive holders all survive in order.",
  ["schedules", "histories", "configurations"], "all interleavings of two and three openers (with and without waiting time) at file-operation granularity within a preemption bound, under a controlled clock; all sequences of open, insert and close operations up to the depth bound",
  "tests use real sleeps and two fixed scenarios",
  [R+"storage/writer/locker.rs"],
  [("exclusive advisory lock on a companion file held for the life of the storage", R+"storage/writer/locker.rs")],
  ["open results", "file operations of each opener", "final content"]),
p("P21", "File-growth notifications are never lost and never pile up",
  "In every interleaving of file growth after the creation of the sensor, change events (at least one after each growth) and the consumer's acknowledgements, whenever the file holds more data than was acknowledged and all parties are idle, a wake-up is waiting for the consumer or was already taken by it and not yet acknowledged. At most one wake-up is outstanding at a time, it carries the file size seen, it is only sent when the file was seen to be larger than the acknowledged position, and the event handler never blocks. The acknowledged position never moves backwards.",
  ["schedules"], "all interleavings, at the granularity of atomic operations, of the event handler and the consumer over growing files within the bound",
  "the two existing tests run one schedule each",
  [R+"storage/observer/sensor/mod.rs"],
  [("lock flag with compare-and-exchange, monotone processed length, re-check after unlock, one-place channel", R+"storage/observer/sensor/mod.rs")],
  ["wake-ups received", "final state at quiescence"]),
p("P22", "Errors in the user's payload code are reported and contained",
  "If the payload type's own code for encoding, size or checksum fails at any of its calls, or a payload is larger than the format's 32-bit length can express, writing the packet or inserting it into a storage returns an error: it never reports success and never panics, what was delivered to the sink is a prefix of the packet's encoding, and a storage keeps exactly the records acknowledged before and accepts further insertions. If the payload's decoding code rejects a packet's bytes, every reading path reports an error for that packet; the stream extractor reports one error for it and still delivers every other packet with nothing ignored, and indexed, ranged, filtered and iterating storage reads give every other record unchanged with an error in its place.",
  ["fault_sequences", "inputs", "histories"], "a failure at every call of the payload's code in every operation, for several error kinds; all sequences of good and undecodable packets up to the depth bound",
  "no test has a payload whose code fails",
  [R+"packet/write.rs", R+"packet/read.rs", R+"payload/header/mod.rs", R+"storage/writer/mod.rs", R+"storage/reader/iters.rs", R+"packet/reader.rs"],
  [("the packet is fully encoded or measured before the storage's state changes; frame lengths decide where the next packet starts", R+"storage/writer/mod.rs")],
  ["results of write and insert", "delivered bytes", "packets and records read"]),
p("P23", "Every definition the macros accept gets a correct codec",
  "For every block definition of supported field types (any number, order and lower-case names of fields, any visibility, any form of array length, with or without checksum) and every combination of payload attributes and of the options of generate!(), the macros produce code that compiles, and the generated code is right for that definition: every writing method emits the documented layout (signature derived from name and fields, fields in order in little-endian form, CRC of the field bytes or zeros), the size reported is the size written, every reader of the type and of the generated Block and Payload types gives back the same values and consumes exactly the encoding, truncated input is never accepted, and damaged input is never accepted with other values unless the checksum was disabled.",
  ["inputs", "configurations"], "all definitions up to the bounds: all single types, pairs and (over representative types) triples, all names used inside the generated code, every combination of attributes; for each all combinations of edge values",
  "the generated test crates sample random definitions",
  [M+"codegen", M+"entities", M+"collector", M+"parsing"],
  [("generated code independent of names and arrangement of fields", M+"codegen/read/block.rs"), ("fields collected into slices in order", M+"codegen/write/block.rs")],
  ["compiles", "bytes written", "values read"]),
p("P24", "Data is only ever read as the definition it was written with",
  "Data of a block whose definition differs in its name or in the name, type, order or number of its fields is never accepted: every reader reports it as another type and readers that leave the source at its position on failure do so. When packets written with one version of a protocol are read by another version that lacks or has changed some of the definitions, every packet made only of shared definitions is delivered unchanged and in order, and every other packet is reported as an error: it is never delivered in part or altered, its content is never searched for packets, and it affects no other packet. This holds in both directions for the readers of single packets, the stream extractor (which reports nothing of it as ignored bytes) and all storage reads.",
  ["inputs", "histories", "configurations"], "all ordered pairs of the enumerated definitions; all sequences of shared and unknown packets up to the depth bound, in both directions between two versions of a protocol",
  "no test reads data of another protocol",
  [M+"entities/block/mod.rs", M+"codegen/read/block.rs", M+"collector", R+"packet/read.rs", R+"packet/reader.rs", R+"storage/reader"],
  [("signature derived from the name and all fields; unknown signatures fall through to an error", M+"entities/block/mod.rs")],
  ["accepted or rejected", "packets delivered", "source position"]),
p("P25", "Memory held by readers and writers depends on pending data only",
  "The memory that a stream extractor, a buffered reader, a storage reader or a storage writer holds between calls does not grow with the amount of data that has passed through it. For an extractor it is bounded by its buffer and the packet in progress, however many packets, damaged packets, skipped packets or unrecognised bytes went before; for a buffered reader by what was refilled and not yet consumed; for storage readers and writers by a constant per record, whatever the size of the records, and repeating any operations on an unchanged storage (iterating, indexing, ranges, reloading, changing rules, refused insertions) adds nothing.",
  ["histories", "inputs"], "all cycles of stream segments and of reader operations up to the length bound, each repeated many times: the peak while the second half passes is compared with the first",
  "tests run briefly and never look at memory",
  [R+"packet/reader.rs", R+"traits/read/reader.rs", R+"storage/reader", R+"storage/writer/mod.rs"],
  [("consumed bytes are drained from internal buffers; the index keeps lengths only", R+"packet/reader.rs")],
  ["bytes held, at the allocator"]),
p("P26", "Every reading path gives the same answer for the same bytes",
  "Take any bytes that begin with a packet header with a correct checksum, all of whose announced bytes are present, whatever the header announces and whatever the bytes after it are: readers of single packets (from streams, seekable and buffered sources), the stream extractor and all reads of a storage that holds them as a record agree. Either all of them return the same packet, or none returns one. A path that returns a packet has consumed exactly the bytes its header announces, neither fewer nor more, so reading can go on with what follows; the answer does not depend on what follows. If the header is not valid, none returns a packet.",
  ["inputs", "configurations"], "all sequences of intact, altered, unknown and cut block pieces with all payload pieces (intact, every byte altered, cut, prolonged) under consistent headers; packets whose headers announce every other size, length of blocks and payload flag; every byte at every value with the checksum made to fit; each alone and followed by other data",
  "tests read only what was written, with one reader at a time",
  [R+"packet/read.rs", R+"packet/mod.rs", R+"packet/reader.rs", R+"storage/reader", M+"codegen/read/block.rs", M+"collector"],
  [("each path decodes within the announced size and then skips to its end", R+"packet/read.rs")],
  ["packet returned or not", "source position"]),
p("P27", "Payload hooks run once for every write and every packet read",
  "If a payload type has hooks of its own, before_encode is called exactly once by each call that writes the payload (alone, within a packet, by vectored or plain writing, complete or partial, or by inserting the packet into a storage), and what is written, including all lengths and checksums in the headers around it, is the encoding of the content the hook left behind, which is also the content of the object after the call; if the hook fails, the call returns its error, nothing is delivered and a storage is unchanged. after_decode is called exactly once for every packet handed out by any reading path, after its content has proved intact, and what is handed out, and what packet filters see, is the content the hook left behind; if the hook fails, an error is reported in place of that packet and other packets are unaffected. No hook is called for packets that are incomplete, damaged or rejected by a filter on blocks or payload bytes.",
  ["inputs", "histories", "fault_sequences"], "all hooks (keeping, altering, prolonging, shortening, emptying the content, failing in five ways) with all writing calls and their sequences up to the depth bound, sinks of every capacity, all reading paths, every truncation and alteration of the bytes, all packet sequences up to the depth bound with all filters",
  "no test has a payload with hooks",
  [R+"payload/mod.rs", R+"packet/write.rs", R+"traits/write/mod.rs", R+"traits/read/mod.rs", M+"collector/payloads/enums.rs"],
  [("content is prepared before anything is computed from it and finished after its checksum was confirmed", R+"traits/read/mod.rs")],
  ["calls of the hooks", "bytes written", "content of objects, packets and records"]),
]
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
