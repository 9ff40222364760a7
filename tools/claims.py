NA={}
T["C01"]=("explicit-state bounded exhaustive exploration of encoder histories on the real code, list model as oracle",
 "Every value sequence over the stated alphabets and every run-shape combination within the stated lengths round-trips; values and shapes outside are not covered.")
T["C02"]=("exhaustive enumeration of run structures (all kinds, widths, truncations, headers) against an independent specification codec",
 "Conformance in both directions with spec/rle.go, trusted to be the ORC v1 specification, within the enumerated run structures.")
T["C03"]=("bounded exhaustive exploration of encode/flush histories against an independent specification codec",
 "All byte and bool sequences within the bound, all run structures around the limits; oracle spec/rle.go is trusted.")
T["C04"]=("exhaustive enumeration of value classes against independent arithmetic",
 "All sign/exponent classes with enumerated mantissas, all days of the listed years, all nanosecond classes (thorough: all 10^9).")
T["C05"]=("exhaustive enumeration of payload/chunk-size/write-split histories and foreign chunk layouts against an independent chunk codec",
 "All byte payloads and splits within the stated sizes; inflate/deflate itself (Go's compress/flate) is trusted.")
T["C06"]=("explicit-state bounded exploration of write/flush/read/seek histories of every stream type on the real code, list model as oracle",
 "All histories within the bounds for every stream kind, with and without compression; positions checked against the independent layout model.")
T["C07"]=("bounded exhaustive exploration of row histories x null patterns x configurations on the real writer and reader, list model as oracle",
 "All null patterns and boundary-value assignments of every writable type and of the listed struct shapes up to the stated row counts, for every listed compression/chunk/batch configuration; LIST, MAP and UNION are only checked to be refused.")
T["C08"]=("exhaustive enumeration of all batch compositions, stripe splits and read capacities on the real code, list model as oracle",
 "All compositions of up to n rows into Write calls x all stripe splits the stripe size can produce x all read capacities, with a fresh and a reused batch.")
T["C09"]=("explicit-state exploration of all Next/Seek sequences up to a depth on the real batch reader, cursor model as oracle",
 "All operation sequences of the stated depth over files with several stripes and strides, written by the library and by an independent writer, indexed and not, plus all seek pairs.")
T["C10"]=("exhaustive enumeration of all column subsets on the real reader, full read as oracle",
 "All 2^n include sets of the listed schemas (valid ones compared, invalid ones must be refused) x batch capacities x seeks.")
T["C11"]=("exhaustive enumeration of all schema trees up to a node bound on the real code, independent numbering as oracle",
 "All ordered trees of the node bound with all kind assignments of a representative set and all name patterns listed.")
T["C12"]=("bounded exhaustive exploration of value multisets and stripe splits on the real writer, exact recomputation as oracle",
 "All value sequences over boundary alphabets up to the stated length for every type x stripe splits; file, stripe and row-group statistics are recomputed from the rows.")
T["C13"]=("bounded exhaustive exploration of written files against an independent reader of the specification",
 "Every file of the enumeration is parsed by mc/spec/orcread.go, which shares no code with the library; that reader is trusted to be the specification.")
T["C14"]=("exhaustive enumeration of files written by an independent specification writer, row model as oracle",
 "All combinations of type x encoding x null pattern x chunk layout x stripe split x writer option within the stated bounds, plus the third-party files under /repo/testing.")
T["C15"]=("exhaustive fault enumeration: every operation of every write history fails, every byte budget, on the real writer under a fault injector",
 "Every single failing operation and every byte budget of each history, with and without retry after the error; OS files through file-size limits in a child process.")
T["C16"]=("exhaustive fault enumeration: every read/seek/clone operation fails or is short, every truncation length, on the real reader",
 "Every single failure position, every truncation length and every short-read width of the listed files x read scripts; OS files in addition to in-memory ones.")
T["C17"]=("exhaustive enumeration of single-byte damage and structured metadata mutations on the real reader with work and memory monitors",
 "Every byte of every listed file x a set of replacement values, every field of tail, stripe footer and index x a set of wild values; memory is measured per call against a fixed allowance.")
T["C19"]=("exhaustive enumeration of mutate/read-again histories on the real code, value snapshots as oracle",
 "All placements of caller mutations and of later reader calls within the stated histories for every type, with poisoned byte slices.")
T["C18"]=("stateless model checking of the real code: all schedules within a preemption bound under a controlled scheduler, with the race detector as additional monitor and the sequential run as oracle",
 "All pairs and listed triples of actor roles on six files, all schedules within the preemption bound that the per-scenario budget allows (bound reported); scheduling points are file operations and (instrumented copies) statements on shared state and function entries; data races by the Go race detector on every explored schedule.")
T["C20"]=("explicit-state bounded exploration of SeekStride/Skip/NextBatch histories of every column on the real code, list model as oracle",
 "All histories of the stated depth for every column kind, file layout and stride of the listed files, written by the library and by an independent writer.")
T["C21"]=("exhaustive fault and damage enumeration on the real code with a handle-counting file as monitor: every operation fails, every truncation, every damaged byte, every metadata field x use histories",
 "Every open/clone/close of every history over the listed files, with every single failing operation, every length, every byte x damage values and every stripe footer field damaged; real files counted through /proc/self/fd.")
