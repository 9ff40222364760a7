#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept here as readable source)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Integer run-length encoding is lossless",
  "Any sequence of signed or unsigned 64-bit integers given to the integer (RLEv2) encoder, with flushes at any points, is decoded back to exactly the same sequence, and the decoder consumes exactly the bytes that were produced. The encoder neither panics nor rejects any 64-bit value, and starts clean after every flush.",
  ["inputs","histories"],"every sequence of 64-bit values, signed and unsigned, every sequence length around the 3/10/512-value run limits, every placement of flushes",
  "tests encode a handful of fixed sequences; the choice between short-repeat, direct, patched and delta runs depends on the relation between neighbouring values and bit widths, so the interesting cases are combinations the samples never reach",
  ["orc/encoding/int.go","orc/encoding/package.go"],
  [("run selection: repeat / delta / patched / direct","orc/encoding/int.go: write, tryDeltaEncoding, tryPatch"),("bit packing and width table","orc/encoding/int.go: writeBits/readBits, orc/encoding/package.go: widthEncoding/widthDecoding")],
  ["encoding.NewIntRLV2(...).Encode/Flush bytes","encoding.NewIntDecoder(...).DecodeInt/DecodeUInt"])
p("C02","Integer runs follow the ORC v1 specification in both directions",
  "For every well-formed RLEv2 run (short repeat, direct, patched base, delta, all width codes) the integer decoder returns exactly the values the ORC v1 specification assigns to it, and every byte string the integer encoder emits means the encoded values under that specification. Malformed or truncated runs end in an error, never in a panic or an endless loop.",
  ["inputs"],"all run kinds x all 32 width codes x signed/unsigned x lengths x patch lists, plus every truncation and every header byte pair",
  "tests check the five byte strings printed in the specification; nothing compares the codec with an independent implementation, and a codec that is only self-consistent still corrupts data shared with other ORC tools",
  ["orc/encoding/int.go","orc/encoding/package.go"],
  [("decoder for the four run kinds","orc/encoding/int.go: decode, readPatched, readBits"),("encoders for the four run kinds","orc/encoding/int.go: writeShortRepeat, writeDirect, writePatch, writeDelta")],
  ["encoding.NewIntDecoder(...).DecodeInt/DecodeUInt","encoder output bytes"])
p("C03","Byte and boolean run-length encodings are lossless and spec-conformant",
  "Any sequence of bytes or booleans given to the byte or boolean encoder, with flushes at any points, is decoded back to the same sequence (booleans padded to whole bytes with false), both by this library and by an independent decoder of the ORC specification. After a flush nothing of the earlier values influences what is encoded next.",
  ["inputs","histories"],"all sequences over a small alphabet up to a length bound, plus all run structures around the 3/128/130 limits, with a flush at every position",
  "tests use a few fixed arrays; run boundaries (3 equal values, 128 literals, 130 repeats, partial last byte) interact combinatorially and flush-then-reuse is never tested",
  ["orc/encoding/byte.go","orc/encoding/bool.go"],
  [("byte run splitting","orc/encoding/byte.go: encodeBytes, findRepeats, DecodeByteRL"),("bit accumulation","orc/encoding/bool.go: Encode, Flush, DecodeBools")],
  ["encoding.NewByteEncoder/NewBoolEncoder output","encoding.DecodeByteRL/DecodeBools"])
p("C04","Scalar value conversions are exact",
  "Floats, doubles, variable-length integers, zig-zag integers, compact nanoseconds, calendar dates, timestamps and decimals keep their exact value through encoding and decoding, and their stored form is the one the ORC specification prescribes. Dates count days from 1970-01-01 and timestamps denote the same instant whatever time zone the caller's value carries.",
  ["inputs"],"every bit-pattern class of floats, every varint length, every nanosecond trailing-zero class, every day number and time of day of a multi-century grid including dates before 1970, all decimal scales",
  "tests convert a few values, mostly after 1970 and in UTC; sign, truncation and overflow of each conversion only show on the untested side of the boundaries",
  ["orc/encoding/package.go","orc/encoding/float.go","orc/encoding/time.go","orc/encoding/int.go","orc/api/type.go","orc/api/vector.go"],
  [("nanosecond packing","orc/encoding/package.go: EncodingNano/DecodingNano, orc/api/type.go: EncodingTimestampNanos/DecodingTimestampNanos"),("date arithmetic","orc/api/type.go: ToDays/FromDays"),("timestamp conversion","orc/api/type.go: GetTimestamp/Time")],
  ["exported conversion functions of orc/api and orc/encoding"])
p("C05","Chunked compression preserves every byte",
  "Any byte string passed through chunked compression with any chunk size and codec the writer accepts is restored exactly by decompression, whatever mix of compressible and incompressible chunks it contains. Every chunk carries a correct header (length and original flag), and no chunk expands to more than the configured chunk size.",
  ["inputs","configurations"],"all chunk counts 0..n, all residues of the length modulo the chunk size, all mixes of compressible / incompressible chunks, chunk sizes, codec on/off",
  "the existing test for more than one chunk fails and the others fit in one chunk; header flags and chunk boundaries depend on length modulo chunk size and on compressibility of each chunk",
  ["orc/common/misc.go"],
  [("chunk splitting and headers","orc/common/misc.go: zlibCompressingToChunks, zlibCompressingLeft, CompressingAllInChunks"),("chunk parsing","orc/common/misc.go: DecChunkHeader, Decompress, DecompressChunks")],
  ["common.CompressingChunks/CompressingLeft/CompressingAllInChunks","common.DecompressChunks"])
p("C06","Streams return every value, from the start and from recorded positions",
  "A stream of any kind (integer, byte, boolean, float, double, varint, string contents) read from its start yields exactly the values written and then reports that it is finished. After seeking to any position recorded while the stream was written, it yields exactly the values written after that position, from any earlier reading state and in any order of seeks.",
  ["inputs","histories","configurations"],"stream kind x compression x chunk size x value sequence x recorded position x previous read/seek history",
  "stream tests write one pattern, read once from the start and seek at most once with one chunk; position arithmetic (chunk offset, offset in chunk, values to skip, bit offset) depends on how runs and chunks happen to align",
  ["orc/stream/reader.go","orc/stream/writer.go","orc/stream/int.go","orc/stream/bool.go","orc/stream/byte.go","orc/stream/float.go","orc/stream/string.go"],
  [("position recording","orc/stream/writer.go: GetPosition, orc/encoding: GetPosition"),("chunk reading and seeking","orc/stream/reader.go: ReadByte, Read, seek")],
  ["stream.New*Writer Write/Flush/GetPosition/WriteOut","stream.New*Reader Next*/Seek/Finished"])
p("C07","A file returns exactly the rows that were written to it",
  "For every schema built from writable types, every row content and every null pattern, reading a closed file returns the same number of rows, in the same order, with equal values and the same nulls, for every supported compression and chunk size. Creating a writer or writing rows of an unsupported type reports an error rather than producing a file that loses data. Timestamps are delivered in the location the batch option names (the local one if it names none), and are the instants that were written if that is the location they were written in.",
  ["inputs","configurations"],"writable column type x value alphabet x all null patterns up to a bound x nesting x compression kind and chunk size",
  "file tests write one or two columns with one pattern, mostly without nulls; whether nulls, presence bits, lengths and data stay aligned depends on every combination of pattern, batch and stripe boundary",
  ["orc/writer.go","orc/stripe.go","orc/column/*.go","orc/reader.go"],
  [("column writers/readers","orc/column: New*Writer / New*Reader"),("file tail","orc/writer.go: flush, Close; orc/reader.go: extractFileTail")],
  ["orc.NewOSFileWriter Write/Close","orc.NewOSFileReader CreateBatchReader Next"])
p("C08","Row delivery does not depend on how rows are batched or striped",
  "However rows are split into write batches and stripes and whatever batch capacity the reader uses, consecutive Next calls deliver every row exactly once, in order, and signal the end exactly when no rows remain. Reusing one batch for all calls gives the same rows and nulls as using a fresh batch for each call.",
  ["histories","configurations"],"all compositions of n rows into write batches, all stripe splits reachable by stripe size, all read capacities 1..n+1, vector reuse on/off",
  "file tests use one capacity and row counts that never sit on the boundary cases, so a row lost or repeated where batch and stripe ends meet is never seen",
  ["orc/reader.go","orc/stripe.go","orc/writer.go","orc/api/vector.go"],
  [("batch loop","orc/reader.go: Next"),("stripe loop and cursor","orc/stripe.go: next"),("stripe flush","orc/writer.go: Write, flush")],
  ["BatchReader.Next results and end flag"])
p("C09","Seek positions the reader on the requested row",
  "After a successful seek to row n, from any earlier state of the batch reader, the following Next calls deliver rows n, n+1, ... to the end exactly once; seeking works with and without row indexes, across stripes and strides, forwards and backwards. Seeking past the last row is an error and never yields wrong rows.",
  ["histories","inputs"],"all sequences of Next/Seek operations up to a depth over files with several stripes and strides, with and without row index, with nulls",
  "one test seeks once in a third-party file; the cursor state left behind by earlier operations and the stride arithmetic are histories no sample covers",
  ["orc/reader.go","orc/stripe.go","orc/column/*.go","orc/stream/reader.go"],
  [("seek","orc/reader.go: Seek; orc/stripe.go: seek"),("stride positions","orc/column: SeekStride, Skip")],
  ["BatchReader.Seek/Next"])
p("C10","Column projection is invisible in the values",
  "For every subset of columns a batch reader may request, the values and nulls delivered for the requested columns are identical to those delivered when all columns are read. Columns that were not requested deliver nothing and do not disturb the others. What the caller does to the option afterwards has no effect on a batch reader that was created with it.",
  ["configurations","inputs"],"all subsets of column ids of several nested schemas x files with nulls, several stripes and batch sizes",
  "one test selects two fixed columns; stream offsets of a selected column are computed by skipping the unselected ones, so errors depend on which columns are left out",
  ["orc/api/vector.go","orc/api/type.go","orc/reader.go","orc/stripe.go"],
  [("include handling","orc/api/type.go: CreateVector; orc/api/vector.go: IsInclude"),("stream layout","orc/stripe.go: init of column readers")],
  ["BatchReader.Next with BatchOption.Includes"])
p("C11","The schema survives the file",
  "The schema obtained from a reader equals the schema given to the writer: kinds, field names, nesting, child order, and column ids numbered in pre-order. Schema trees of any shape are numbered without gaps or duplicates, each call independent of earlier calls. Trees that were not numbered are refused, and a batch made for a schema has a vector of the asked size for each included column, in the same tree, and none shared.",
  ["inputs"],"all schema trees up to a node bound over all kinds, with repeated and empty field names",
  "tests use three hand-written schemas; flattening and rebuilding is recursive over tree shape and mistakes depend on where composite nodes sit among siblings",
  ["orc/api/type.go","orc/reader.go","orc/writer.go"],
  [("flatten and number","orc/api/type.go: NormalizeSchema, SetId, Flat, SchemasToTypes"),("rebuild","orc/reader.go: unmarshallSchema")],
  ["api.NormalizeSchema/Flat/SchemasToTypes","Reader.GetSchema"])
p("C12","Column statistics describe the data",
  "The statistics in a file give, for every column, the exact number of non-null values and never deny nulls that exist, and the minimum, maximum, sum, true count or total length that the kind of the column has, equal to the exact value over all non-null values in the file, whatever the stripe split. Only a sum that does not fit and bounds that are very long strings or not numbers may be missing.",
  ["inputs","histories"],"type x all value multisets over a boundary alphabet (all negative, all positive, mixed, empty, all null) x stripe splits",
  "tests compare statistics for one increasing sequence in one stripe; wrong initial values and per-stripe merging only show on all-positive, all-negative, all-null or multi-stripe data",
  ["orc/column/*.go","orc/writer.go","orc/stripe.go"],
  [("per-value statistics update","orc/column: *Writer.Write"),("merge over stripes","orc/writer.go: flush, Close")],
  ["Reader.GetStatistics"])
p("C13","Written files are valid ORC files for an independent reader",
  "Every file this library writes can be read by an independent implementation of the ORC v1 specification, which recovers exactly the rows, the schema, the stripe row counts, stripe offsets and lengths, and the total row count. Stream lengths in each stripe footer add up exactly to the stripe's regions.",
  ["inputs","configurations"],"writable type x null patterns x stripe splits x compression x chunk sizes",
  "all tests read back with the same library, so a shared misunderstanding between its writer and reader is invisible",
  ["orc/writer.go","orc/stripe.go","orc/column/*.go","orc/stream/writer.go","orc/common/misc.go"],
  [("stripe layout","orc/stripe.go: flush, writeFooter"),("tail layout","orc/writer.go: Close")],
  ["bytes of the written file"])
p("C14","Files from other ORC writers are read as the specification says",
  "Any valid ORC v1 file using the type kinds, encodings and compression the reader accepts (including lists, maps, structs, dictionary strings, timestamps, decimals, suppressed presence streams, row indexes and unusual chunk boundaries) is read to exactly the rows it denotes. What the reader does not support is reported as an error, not delivered as wrong data.",
  ["inputs","configurations"],"independently generated files: type x encoding x null patterns x chunking x stripes x run structure",
  "only a handful of third-party files are read, most checks look at one value; the reader paths for lists, maps, dictionaries have no other coverage",
  ["orc/reader.go","orc/stripe.go","orc/column/*.go","orc/stream/*.go"],
  [("column readers","orc/column: New*Reader.NextBatch"),("tail and stripe parsing","orc/reader.go: extractFileTail; orc/stripe.go")],
  ["Reader/BatchReader API"])
p("C15","A failed write is always reported",
  "If any underlying file operation fails or is cut short while a file is being written, at least one of creating the writer, Write or Close returns an error; nil from all of them means the complete file is on disk and reads back fully. No injected failure makes the writer panic or hang.",
  ["fault_sequences"],"every single write/close/open operation of the write history failing, and every byte budget after which the file can take no more",
  "no test injects an I/O failure; error paths of the flush chain are never executed",
  ["orc/writer.go","orc/stripe.go","orc/stream/writer.go","orc/io/file.go"],
  [("error propagation","orc/writer.go: Write, Close, flush; orc/stripe.go; orc/stream/writer.go: WriteOut")],
  ["errors returned by Writer","file bytes"])
p("C16","Read failures and truncation are reported, not turned into wrong rows",
  "If any read or seek of the underlying file fails or returns early, or the file is cut short at any byte, the reader returns an error from opening or Next, or delivers only rows that are correct; short reads that are not errors never change the result. It never panics, hangs or delivers rows that were not written, and a Next that fails leaves no rows in the batch.",
  ["fault_sequences","crash_points"],"every truncation length of a set of files, every single read/seek operation failing, every short-read point",
  "no test injects read failures or truncation; the readers' error paths and partial reads are never executed",
  ["orc/reader.go","orc/stripe.go","orc/stream/reader.go","orc/io/file.go"],
  [("read loops","orc/stream/reader.go; orc/reader.go: extractFileTail"),("error propagation","orc/stripe.go, orc/column")],
  ["errors and rows from Reader/BatchReader"])
p("C17","Corrupt input never crashes or hangs the reader",
  "Opening and reading a file in which any bytes of the tail, stripe footer or data streams have been altered ends in rows or an error within bounded work, never in a panic, an endless loop or memory use out of proportion to the file and its declared row count.",
  ["inputs","fault_sequences"],"every byte of a set of small files replaced by each of a set of values, and structured footer mutations (lengths, counts, kinds, type ids)",
  "no test reads a damaged file",
  ["orc/reader.go","orc/stripe.go","orc/common/misc.go","orc/stream/reader.go","orc/encoding/*.go"],
  [("tail parsing","orc/reader.go: extractFileTail, unmarshallSchema"),("bounds in decoders","orc/encoding, orc/common/misc.go: DecChunkHeader, Decompress")],
  ["process outcome"])
p("C18","Independent readers, writers and schemas do not interfere",
  "Operations on different writers, different readers, different batch readers of one reader, and different schema trees give, under every interleaving of the goroutines using them, the results they give when run alone. They perform no unsynchronised access to common memory.",
  ["schedules"],"all interleavings of two or three goroutines up to a preemption bound, over schema numbering, writing, opening, creating batch readers, Next, Seek and Close",
  "no test starts a goroutine; hidden shared state (package variables, shared schema objects, shared file offsets) only shows when operations interleave",
  ["orc/api/type.go","orc/reader.go","orc/writer.go","orc/common/misc.go","orc/io/file.go"],
  [("schema numbering state","orc/api/type.go: SetId, NormalizeSchema"),("per-batch-reader state","orc/reader.go: CreateBatchReader; orc/io/file.go: Clone")],
  ["results of public API calls in each goroutine"])
p("C19","Batches belong to the caller",
  "Once Write has returned, nothing the caller does to the batch, its vectors or its byte slices changes the file; and values delivered by Next stay unchanged by later Next, Seek or Close calls on any batch reader, unless the caller passes the same batch again.",
  ["histories"],"all placements of mutate-after-write and read-again-after-delivery in short operation histories, for every type with reference payloads",
  "tests build a batch, write it once and compare at once; aliasing only shows in later steps of a history",
  ["orc/column/*.go","orc/encoding/string.go","orc/stream/string.go","orc/api/vector.go"],
  [("copy on encode","orc/encoding/string.go, orc/column/string.go, orc/column/binary.go"),("buffer ownership on decode","orc/stream/string.go: NextBytes")],
  ["file bytes and delivered values"])
p("C20","Row-group index positions written for a column lead to the right rows",
  "For every column type whose writer records row-group positions, seeking a reader to any recorded row group of any stripe and reading on yields exactly the rows from the start of that row group, for every stride, null pattern, chunk size and compression, and recorded row-group statistics cover the rows of that group.",
  ["inputs","configurations","histories"],"type x stride x null pattern x chunk size x compression x row group x stripe",
  "column tests seek to one or two row groups of one regular pattern; positions combine presence-bit, run and chunk offsets and go wrong only for particular alignments",
  ["orc/column/*.go","orc/stream/*.go","orc/encoding/*.go"],
  [("position recording","orc/column: *Writer.Write with WriteIndex; getStridePositions"),("seek","orc/column: SeekStride")],
  ["column.NewWriter / column.NewReader"])
p("C21","What is opened is closed, once",
  "When the callers have closed the readers, batch readers and writers they got, every file handle the library opened or cloned - for column streams, indexes or readers that could not be created - has been closed, and none was closed twice or used after it was closed; this holds for good and damaged files, for every failing operation, and for calls that return errors.",
  ["histories","faults","inputs"],"histories of open, create, next, seek, close in every order x every failing operation x every truncation and damaged byte or stripe footer field",
  "tests leave closing to the end of the process; a leaked or doubly closed descriptor only shows after many files, or in another file that got the number",
  ["orc/reader.go","orc/stripe.go","orc/column/*.go","orc/stream/*.go","orc/io/file.go","orc/writer.go"],
  [("clones of the file for streams","orc/stripe.go: clonedFile; orc/column: InitStream, Close"),("files of readers and writers","orc/reader.go, orc/writer.go: Close; orc/io/file.go")],
  ["the opened, cloned and closed files"])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
