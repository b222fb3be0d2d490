#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[0]} for m in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every schedule delivers the whole dataset, once, in dataset order",
  "Whatever the interleaving of the background reading, decoding and consuming threads, and whatever the batch size, prefetch depth and degree of parallelism, the examples a reader returns are exactly the batches of the dataset, each once, in dataset order and with the contents sequential reading would produce. After the last batch every further read reports end of data, every read terminates, and the number of bytes read then equals the total size of the instances in the delivered batches.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of consumer, background thread and pipeline tasks up to a preemption bound, for every small combination of batch count, batch size, prefetch depth, parallel reads, skipped (undecodable) batches",
  "Tests run one free-running schedule on tiny files; a lost wakeup, a batch overtaking another, or a batch dropped when the queues swap shows only on particular interleavings.",
  ["src/mlio/parallel_data_reader.cc", "include/mlio/parallel_data_reader.h", "src/mlio/instance_batch_reader.cc", "src/mlio/data_reader_base.cc"],
  ["flow graph source -> limiter -> decode -> sequencer -> queue, a fill queue and a read queue swapped under a mutex, two condition variables"],
  [("fill_queue_/read_queue_", "decoded examples not yet consumed"), ("state_", "life-cycle of the background pipeline")],
  ["Data_reader::read_example", "Data_reader::num_bytes_read"])

p("C02", "Faults, resets and destruction are clean under every schedule",
  "An error raised while fetching or decoding the data reaches the consumer as an exception, after nothing but a correct prefix of the data and never in the form of a normal end of data, under every interleaving. Resetting or destroying a reader at any moment, including while its pipeline is busy, blocked or failed, terminates without deadlock and without touching freed state, and after a reset the reader delivers the whole dataset again from its beginning with the byte count restarted.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings up to a preemption bound x fault position (fetch or decode of batch k) x every point of the consumer's history at which reset or destruction happens",
  "Tests reset readers only between complete, fault-free epochs; deadlocks on shutdown and lost exceptions depend on where the pipeline happens to be.",
  ["src/mlio/parallel_data_reader.cc", "src/mlio/data_reader_base.cc", "src/mlio/csv_reader.cc", "src/mlio/text_line_reader.cc"],
  ["stop(): cancels the graph, clears the queues, wakes the blocked stage, joins; reset(): rewinds readers and graph; exception captured by the background thread and rethrown to the consumer"],
  [("state_", "not started / running / stopped / faulted"), ("exception_ptr_", "pending pipeline error")],
  ["Data_reader::read_example", "Data_reader::reset", "destructor"])

p("C03", "Background read-ahead is bounded",
  "At every moment the number of batches a reader has fetched from the dataset but not yet handed to the consumer is bounded by the configured prefetch depth and parallelism (at most twice the prefetch depth plus the number of parallel reads, plus one batch being fetched), however slow the consumer is; and no more batches than the configured number of parallel reads are being decoded at once. Nothing is read ahead before the first read is requested, beyond what inferring the schema needs.",
  ["schedules", "configurations"],
  "all interleavings up to a preemption bound for small prefetch depths, parallelism and datasets much longer than the bound",
  "Tests use datasets smaller than the prefetch depth, so an unbounded pipeline looks the same; the bound is an invariant of every intermediate state.",
  ["src/mlio/parallel_data_reader.cc"],
  ["limiter node with the number of parallel reads; wait of the queue stage while the fill queue is full"],
  [("fill_queue_", "bounded by num_prefetched_examples")],
  ["number of instances requested from the data store versus examples returned"])

p("C04", "Text-line records do not depend on how the bytes arrive",
  "Splitting a text stream into lines gives the same sequence of records for every way the underlying stream may deliver its bytes (any sequence of short reads, any internal chunk boundary, memory mapped or streamed): the lines of the text separated by \\n, \\r or \\r\\n, in order, without their terminators, the last one also when it is unterminated, with blank lines skipped exactly when asked to. No byte outside the data is examined, a line already returned never changes afterwards, and a line longer than the configured maximum, and only such a line, is an error.",
  ["inputs", "fault_sequences", "configurations"],
  "all texts up to a length over an alphabet of ordinary, \\r, \\n bytes x all partitions into short reads x chunk sizes x options",
  "Production chunk sizes are 32 MiB, so no test input ever crosses a chunk boundary or sees a short read.",
  ["src/mlio/record_readers/detail/text_line.cc", "src/mlio/record_readers/detail/default_chunk_reader.cc", "src/mlio/record_readers/stream_record_reader.cc", "src/mlio/record_readers/text_line_record_reader.cc", "src/mlio/record_readers/text_record_reader.cc", "src/mlio/text_line_reader.cc"],
  ["chunk reader that carries the unconsumed remainder over; incremental line scanner"],
  [("chunk remainder", "bytes of an incomplete record carried to the next chunk")],
  ["Text_line_reader::read_example", "record readers"], "chunk size made configurable under the hook define")

p("C05", "CSV rows and fields follow the CSV grammar for every input",
  "For every byte sequence, every delimiter, quote and comment character, and every way the bytes may arrive, a CSV reader splits the text into exactly the rows and fields the grammar defines: quoted fields may contain delimiters, doubled quotes and, when multi-line fields are enabled, line breaks; comment lines and (when asked) blank lines are skipped. A quoted field still open at the end of its row or of the data, a row longer than the maximum, or a row with a different number of fields is reported or treated as bad, and never silently shifts, merges or drops other rows.",
  ["inputs", "fault_sequences", "configurations"],
  "all texts up to a length over {ordinary, delimiter, quote, comment, \\r, \\n} x options x short-read patterns and chunk sizes, against an independent grammar-based reference",
  "Tests hold a handful of well-formed rows in one chunk.",
  ["src/mlio/csv_record_tokenizer.cc", "src/mlio/record_readers/csv_record_reader.cc", "src/mlio/csv_reader.cc"],
  ["state machine for row boundaries; tokenizer for fields"],
  None, ["Csv_reader::read_example"], "chunk size made configurable under the hook define")

p("C06", "CSV columns: names, selection and types are applied as configured",
  "The schema of a CSV dataset and the column each value lands in follow from the header position, explicit names, prefix, de-duplication, column selection by name and index, type overrides by name and index, default type and inference, in the documented order of precedence, for every combination of these. Values of a selected column always come from that column of the file, unselected columns are never delivered, headers are skipped in every store that has one, and inconsistent configurations and corrupt headers are reported as errors; all of this the same after every reset.",
  ["configurations", "inputs"],
  "all combinations of a small number of columns, header placement, stores, name collisions, selections, overrides",
  "The option space is combinatorial; tests exercise single options on one or two files.",
  ["src/mlio/csv_reader.cc", "include/mlio/csv_reader.h", "src/mlio/schema.cc"],
  ["header reading, name de-duplication, type inference and overrides, column skip list, parser table"],
  None, ["Csv_reader::read_schema", "Csv_reader::read_example"])

p("C07", "Numeric text converts exactly or is rejected",
  "Converting a text field to an integer type yields the number the text denotes if and only if it is a well-formed number representable in that type, and to a floating-point type the correctly rounded value of a well-formed number in range or NaN for a configured NaN marker; anything else is rejected without altering the destination. Type inference picks int64 for integers in its range, uint64 for larger ones in its range, float64 for other finite numbers and string otherwise.",
  ["inputs", "configurations"],
  "all strings up to a length over sign, digit, decimal, exponent, space and letter characters, all integers adjacent to every type boundary, all number types",
  "Tests parse a few ordinary numbers; boundaries, overflow and malformed text are a per-type input space.",
  ["src/mlio/util/number.cc", "src/mlio/parser.cc", "src/mlio/data_type.cc", "src/mlio/util/string.cc"],
  ["overflow detection on top of the string conversion functions; narrow types go through 32 bits"],
  None, ["try_parse_int", "try_parse_float", "infer_data_type", "make_parser"])

p("C08", "Batches partition the instances and the last one is handled as configured",
  "The instances of the dataset are packed in order into examples of exactly the batch size, with none lost, duplicated or mixed between rows. A last, smaller batch is delivered with its own size, dropped, or zero-padded to the batch size with the amount of padding reported, exactly as configured (the warning variants differ only by the warning).",
  ["inputs", "configurations", "histories"],
  "all combinations of number of instances, stores, batch size, handling mode, reader type, several epochs",
  "Tests cover one or two sizes; off-by-one effects need the full small cross product.",
  ["src/mlio/instance_batch_reader.cc", "src/mlio/instance_batch.cc", "src/mlio/csv_reader.cc", "src/mlio/text_line_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/example.cc"],
  ["batch reader fills up to the batch size and applies the handling of the last example"],
  None, ["Data_reader::read_example", "Example::padding"])

p("C09", "Bad instances are rejected, skipped or padded without harming others",
  "An instance that cannot be decoded raises an error, makes its whole example be skipped, or is left out of its example with the remaining good instances packed in order and the tail filled with zero padding whose size is reported, exactly as configured. The outcome does not depend on where in the batch or row the bad value is, nor on whether the batch is decoded serially or in parallel, and no value of a bad instance ever appears in a delivered example.",
  ["inputs", "configurations", "schedules"],
  "all placements of bad values in small batches x handling modes x dense, sparse and CSV data x serial and parallel decoding",
  "Tests have one bad row at one position, and parallel decoding starts only at 10 million values.",
  ["src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/image_reader.cc", "src/mlio/coo_tensor_builder.cc"],
  ["row index is advanced only for good instances; padding = batch size minus number of good instances"],
  None, ["Data_reader::read_example"], "parallel decoding threshold made configurable under the hook define")

p("C10", "Skipping, limiting, sharding, sampling and shuffling select exactly",
  "The instances delivered are exactly those selected by the configuration: the requested range after skipping, restricted to the requested shard - the shards of a dataset being disjoint and together complete for every shard count - and sampled by ratio: of every 100 consecutive instances, and of the rest at the end, the configured fraction rounded down. Shuffling delivers a permutation of that selection, reproducible from the seed, with no instance delivered more than a window's length ahead of its place, identical across epochs when reshuffling is off; without shuffling the order is that of the dataset, and every epoch selects the same instances.",
  ["configurations", "inputs", "histories"],
  "all small datasets x skip x limit x shard count and index x ratio x window x seeds x epochs x store boundaries",
  "These options have no tests beyond a few single values, and they compose.",
  ["src/mlio/instance_readers/ranged_instance_reader.cc", "src/mlio/instance_readers/sharded_instance_reader.cc", "src/mlio/instance_readers/sampled_instance_reader.cc", "src/mlio/instance_readers/shuffled_instance_reader.cc", "src/mlio/instance_readers/instance_reader.cc", "src/mlio/instance_readers/core_instance_reader.cc"],
  ["stack of instance readers, each a filter over the next, with one-instance look-ahead"],
  [("counters of each filter", "position within the range, shard, window")],
  ["Data_reader::read_example"])

p("C11", "RecordIO framing is exact and corruption is never silent",
  "A RecordIO file is split into exactly the payloads its framing defines, for every way its bytes may arrive, and payloads split over several records are reassembled byte for byte. A bad magic number, a header or payload cut short anywhere, or an out-of-order split record is reported as an error after the intact records before it, and is never read as data or as a normal end of data.",
  ["inputs", "fault_sequences"],
  "all sequences of up to a few records over kinds x payload sizes x every truncation point and header corruption x short-read patterns and chunk sizes",
  "Test files are intact and smaller than a chunk.",
  ["src/mlio/record_readers/recordio_record_reader.cc", "src/mlio/record_readers/detail/recordio_header.cc", "src/mlio/record_readers/stream_record_reader.cc", "src/mlio/record_readers/detail/default_chunk_reader.cc", "src/mlio/instance_readers/core_instance_reader.cc"],
  ["header decoding, 4-byte alignment, chunk remainder, merge of begin/middle/end records"],
  None, ["Recordio_protobuf_reader::read_example", "record readers"], "chunk size made configurable under the hook define")

p("C12", "RecordIO-protobuf tensors equal the encoded records",
  "The tensors delivered for a batch of RecordIO-protobuf records hold exactly the encoded values of each feature and label, each in the row of its record: dense features at their positions, sparse features at the coordinates their keys denote in the given shape. Records whose features, types, sizes, keys or shapes disagree with the schema are treated as bad instances.",
  ["inputs", "configurations"],
  "all small batches over feature counts, types, dense or sparse, shapes, key sets, and every kind of mismatch",
  "Tests decode two fixed files.",
  ["src/mlio/recordio_protobuf_reader.cc", "src/mlio/coo_tensor_builder.cc", "src/mlio/tensor.cc"],
  ["schema inference from the first record; copy into dense tensors; coordinate builder for sparse ones"],
  None, ["Recordio_protobuf_reader::read_example", "Recordio_protobuf_reader::read_schema"])

p("C13", "Compressed data reads as its uncompressed contents, or fails",
  "Reading a gzip-compressed store or stream yields exactly the bytes that were compressed, whatever the read sizes, the short reads of the underlying stream, the buffer boundaries, and the number of concatenated gzip members, and the end of data is reported only at the real end. Unless its compression is given, a file is taken for compressed exactly when its name ends with .gz; one that ends with .bz2 or .zip is refused, any other is read as it is. Corrupted or truncated compressed data raises an error and never passes as a complete shorter file.",
  ["inputs", "fault_sequences"],
  "all small payloads and member sequences x read sizes x short-read patterns x every truncation and byte corruption; all short file names",
  "No test reads compressed data.",
  ["src/mlio/streams/gzip_inflate_stream.cc", "src/mlio/streams/detail/zlib.cc", "src/mlio/data_stores/compression.cc", "src/mlio/data_stores/detail/util.cc", "src/mlio/data_stores/in_memory_store.cc", "src/mlio/data_stores/file.cc"],
  ["inflate loop over an input buffer; store opens an inflating stream according to the compression or the file name"],
  None, ["make_gzip_inflate_stream", "Data_store::open_read"], "inflate buffer size made configurable under the hook define")

p("C14", "Text in any supported encoding reads as the equivalent UTF-8",
  "Reading text through the transcoding stream yields exactly the UTF-8 form of the text for every supported encoding, named or detected from its byte order mark, however the bytes and multi-byte characters are split by short reads, buffer boundaries and read sizes, and again when the store is opened again (the byte order mark itself may or may not be kept; UTF-8 text is passed through as it is). When another encoding is converted, malformed or truncated characters raise an error rather than being altered or dropped.",
  ["inputs", "fault_sequences", "configurations"],
  "all short texts over 1 to 4 byte characters x encodings with and without BOM x short-read patterns x buffer and read sizes x truncations",
  "No test transcodes anything, and the buffer is 32 MiB.",
  ["src/mlio/streams/utf8_input_stream.cc", "src/mlio/streams/detail/iconv.cc", "src/mlio/text_encoding.cc", "src/mlio/record_readers/text_record_reader.cc"],
  ["preamble detection, incremental conversion with a carried-over remainder"],
  None, ["make_utf8_stream", "Text readers with an encoding"], "buffer size made configurable under the hook define")

p("C15", "Streams and stores agree with a plain byte array",
  "Every sequence of read, seek, position, size, and close operations on a stream behaves as on a byte array with a cursor: reads return the bytes at the cursor and advance it, zero bytes are returned only at the end, slices and copies agree, positions are clamped to the data, and operations on a closed stream are rejected. A data store yields the same contents each time it is opened, whether from memory, mapped or plain file, compressed or not, and one open stream never disturbs another. An instance that is a whole store holds exactly its contents.",
  ["histories", "inputs"],
  "all operation sequences up to a depth over each stream and store kind, with lengths and offsets around the boundaries",
  "Tests read files once from beginning to end.",
  ["src/mlio/streams/memory_input_stream.cc", "src/mlio/streams/file_input_stream.cc", "src/mlio/streams/input_stream_base.cc", "src/mlio/data_stores/file.cc", "src/mlio/data_stores/in_memory_store.cc", "src/mlio/memory/file_mapped_memory_block.cc", "src/mlio/instance.cc"],
  ["memory streams over slices; file descriptors; memory mapping"],
  [("position", "cursor of the stream")],
  ["Input_stream", "Data_store::open_read"])

p("C16", "SageMaker pipes are exclusive, sequenced and read completely",
  "A pipe channel has at most one reader at a time, and each new reader opens the next numbered pipe of the channel, starting from the configured number, whatever the order in which readers are opened, fail, are closed and destroyed. A reader delivers all bytes written to the pipe in order and reports the end only when the writer is done, waits at most the configured time for the first data, and leaves the channel usable after any failure.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of open, read, close, destroy on two channels with environment answers (missing pipe, no data yet, interrupted, short data, error)",
  "There are no tests of pipes; the environment's answers are what matters.",
  ["src/mlio/streams/sagemaker_pipe_input_stream.cc", "src/mlio/data_stores/sagemaker_pipe.cc"],
  ["process-wide table of channel numbers; select with timeout; retry on EAGAIN"],
  [("fifo_ids_", "next pipe number of each channel, or in use")],
  ["make_sagemaker_pipe_input_stream", "Sagemaker_pipe::open_read"])

p("C17", "Memory blocks and slices keep their bytes for as long as referenced",
  "Resizing a block of any kind - heap, file backed, or moving from one to the other at the threshold - preserves the common prefix of its contents, gives it the requested size, and touches no byte outside it. A slice or example keeps the bytes it refers to alive and unchanged until the last reference to them is dropped, at which point they are released exactly once, under every interleaving of threads taking and dropping references; a slice never reaches outside the slice it was made from.",
  ["histories", "schedules", "inputs"],
  "all sequences of allocate, resize, write, slice, drop up to a depth over sizes around the threshold; all interleavings of threads copying and dropping references",
  "No test touches these classes.",
  ["src/mlio/memory/file_backed_memory_allocator.cc", "src/mlio/memory/file_backed_memory_block.cc", "src/mlio/memory/heap_memory_block.cc", "src/mlio/memory/util.cc", "include/mlio/memory/memory_slice.h", "include/mlio/intrusive_ptr.h", "include/mlio/intrusive_ref_counter.h"],
  ["intrusive reference counts; realloc, mremap; hybrid block that migrates to a file"],
  [("ref_count_", "number of owners")],
  ["Memory_block", "Memory_slice", "Intrusive_ptr"])

p("C18", "Listing files returns exactly the matching files in natural order",
  "Listing returns each regular file reachable under the given paths that matches the pattern and the predicate, exactly once per path that reaches it, nothing else, and in natural order (digit runs without leading zeros compared as numbers, whitespace ignored, ties broken by the bytes) within each path, independent of directory order. Missing or unreadable paths are reported as errors.",
  ["inputs", "configurations"],
  "all small directory trees over a set of names x patterns x predicates x orders of creation; all pairs and triples of short names for the ordering",
  "Tests list a fixed directory.",
  ["src/mlio/data_stores/file_list.cc", "third-party/natsort/strnatcmp.c", "src/mlio/data_stores/detail/util.cc"],
  ["fts traversal with a natural order comparison; fnmatch of the pattern"],
  None, ["list_files"])

p("C19", "Tensors accept exactly consistent shapes and export them faithfully",
  "A dense tensor can be built exactly when every element that its shape and strides address lies in its data (tensors with a zero-sized dimension have no elements, a tensor without dimensions has one, and a dimension with a negative stride starts at its far end), a COO or CSR tensor exactly when the number and sizes of its arrays fit its shape and each other (the contents of index arrays are not examined). A tensor then reports that shape, those strides (row-major by default), data type and data unchanged, also in its copies and through its DLPack export, whose memory stays valid until its deleter runs even if the tensor is gone. Schemas and examples reject features whose count or names are inconsistent, and look features up by name correctly. A visitor of a tensor is called exactly once, by its most specific function for the kind of tensor and its constness, and a visitor without one refuses the tensor with an error.",
  ["inputs", "histories"],
  "all small shapes and strides x data sizes x data types; all orders of dropping tensor and export; all sets of functions a visitor may have",
  "Tests check only tensors of the readers' own making.",
  ["src/mlio/tensor.cc", "src/mlio/schema.cc", "src/mlio/example.cc", "src/mlio/integ/dlpack.cc", "src/mlio/cpu_array.cc", "include/mlio/cpu_array.h"],
  ["validation in the tensor constructors; reference-counted DLPack context"],
  None, ["Dense_tensor", "Coo_tensor", "Csr_tensor", "as_dlpack"])

p("C20", "Decoded images have the requested geometry and pixels",
  "Every image an image reader delivers has exactly the requested dimensions, channels and layout, its pixels are those of the encoded image after the requested resizing and centred cropping in RGB order when asked, and each image is in the row of its instance with its label. Resizing scales the shorter edge to the requested size and the longer edge in proportion (rounded down). Images that cannot be decoded or resized, are too small for the crop, or, if four channels are requested, do not have four channels of 8 bits are treated as bad instances.",
  ["inputs", "configurations"],
  "all small image sizes x channels x resize x crop sizes x color order x placement of undecodable images in a batch",
  "Tests use a few fixed pictures.",
  ["src/mlio/image_reader.cc"],
  ["OpenCV decode, resize, crop and copy into the batch tensor; RecordIO image header"],
  None, ["Image_reader::read_example"])

p("C21", "Column statistics do not depend on batching and equal the definition",
  "The statistics computed for each column of a dataset equal those of the plain list of its cells by their documented definitions, for every way the cells are grouped into batches and whatever mixture of empty, blank, null-like, text and number cells the batches hold; rows that only pad a batch are not cells. Lengths, their minimum, maximum and average and the number of rows are over all cells, empty ones included; words are the pieces between single spaces; numbers are the cells the library's conversion accepts, other than NaN, and every other nonblank cell counts as not a number; blank cells are left out of the numeric, null-like and captured statistics; the captured values are the first distinct values up to the limit, each with its number of occurrences in the whole column, and overflow tells whether there were more; cardinalities are those of a HyperLogLog sketch of the set of distinct values and words.",
  ["inputs", "configurations"],
  "all columns up to a length over a set of cells representing each class x all partitions into batches x capture limits",
  "There are no tests of the insights module.",
  ["src/mlio-py/mlio/contrib/insights/column_analyzer.cc", "src/mlio-py/mlio/contrib/insights/column_statistics.h", "src/mlio-py/mlio/contrib/insights/utils.cc", "src/mlio-py/mlio/contrib/insights/hll/hyperloglog.cc", "src/mlio-py/mlio/contrib/insights/module.cc"],
  ["running mean merged per batch; sets and hyperloglog sketches"],
  None, ["mlio.contrib.insights.analyze_dataset"])

p("C22", "Peeking, schema reading and rereading never change what is read",
  "For every reader, every sequence of peek, read, schema and reset operations returns what a cursor over the sequence of examples would return: peeking yields the next example without consuming it and reading then yields that same example, reading the schema never consumes data and always gives the same answer, reset restarts from the first example, and after the end all reads and peeks report the end until reset. Once an error has been reported, all reads and peeks report an error, not data or the end, until reset. Examples already returned are never changed by later operations.",
  ["histories", "configurations"],
  "all operation sequences up to a depth over each kind of reader and small datasets, including empty ones",
  "Tests call read in a loop and hardly ever mix operations.",
  ["src/mlio/data_reader_base.cc", "src/mlio/parallel_data_reader.cc", "src/mlio/instance_readers/instance_reader_base.cc", "src/mlio/record_readers/record_reader_base.cc", "src/mlio/csv_reader.cc", "src/mlio/text_line_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/image_reader.cc"],
  ["one-element look-ahead at each level; cached schema"],
  [("peeked example", "example handed out by peek and not yet read")],
  ["Data_reader", "Record_reader"])

p("C23", "Parquet streams split into their files whole, or fail",
  "A stream holding one or several concatenated Parquet files is split into exactly those files, byte for byte and in order, for every way its bytes may arrive and whatever their contents, as long as they do not contain a complete footer (metadata that starts and ends like metadata, its size, the magic number) before their end. Data that does not start with, or is cut off before, a file's end marker raises an error.",
  ["inputs", "fault_sequences"],
  "all sequences of up to a few files over payloads including marker look-alikes x short-read patterns x chunk sizes x truncations",
  "There are no tests of the Parquet record reader.",
  ["src/mlio/record_readers/parquet_record_reader.cc", "src/mlio/record_readers/stream_record_reader.cc", "src/mlio/record_readers/detail/default_chunk_reader.cc"],
  ["search for the footer marker with a metadata length check"],
  None, ["Parquet_record_reader::read_record"], "chunk size made configurable under the hook define")

p("C24", "Python objects that share native memory keep it valid",
  "Every Python view of native data - buffers of memory slices, tensors' arrays, memoryviews, DLPack capsules, stores and streams built on Python buffers - shows the bytes of its source without copying, and stays valid and unchanged for as long as the view exists, whatever the order in which the objects involved are dropped or the readers reset; once all of them are gone, nothing keeps the source in use. Iterating a reader from Python yields the same examples as the native interface.",
  ["histories", "configurations"],
  "all orders of creating views and dropping owners over each kind of exporting object",
  "Tests keep every object alive until the end.",
  ["src/mlio-py/mlio/core/py_buffer.cc", "src/mlio-py/mlio/core/py_device_array.cc", "src/mlio-py/mlio/core/py_memory_block.cc", "src/mlio-py/mlio/core/tensor.cc", "src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/integ/numpy.py", "src/mlio-py/mlio/integ/scipy.py"],
  ["buffer protocol over intrusive pointers; keep-alive of the exporting object"],
  None, ["mlio Python package"])

p("C25", "Values cross the boundary between Python and native code unchanged",
  "A NumPy array or Python buffer of any supported type, shape, memory order and strides becomes a tensor, array, store or stream of exactly its elements, and a tensor of any type and strides becomes an array or buffer of exactly its elements, without copying; what cannot be represented - unsupported types, buffers with gaps, repeated or reversed elements where a plain block is needed, text that is not UTF-8 - is rejected with an exception and nothing is read outside of the source. The same holds for the conversions to and from NumPy, SciPy, pandas, TensorFlow and DLPack. Every parameter given to a reader from Python takes effect on the data read as documented and reads back as set. Every native error reaches Python as the documented exception type with its causes, and iteration ends exactly at the end of the data.",
  ["inputs", "configurations"],
  "all element types x shapes x memory orders and strides x directions of conversion; all parameters x values; all errors",
  "The few Python tests convert one array of one type and order.",
  ["src/mlio-py/mlio/core/tensor.cc", "src/mlio-py/mlio/core/py_buffer.cc", "src/mlio-py/mlio/core/py_device_array.cc", "src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/core/exception.cc", "src/mlio-py/mlio/core/module.cc", "src/mlio-py/mlio/integ/numpy.py", "src/mlio/integ/dlpack.cc"],
  ["buffer protocol and NumPy interoperation; translation of exceptions and parameters"],
  None, ["mlio Python package"])

p("C26", "Python callbacks and blocked calls never deadlock or lose anything",
  "A Python program that reads through the library always proceeds: while one of its threads waits in the library for data, resets or drops a reader, or analyzes a dataset, its other threads run, be it log message handlers called from background threads, the writer of the pipe being read, or the release of buffers owned by Python. Log message handlers may be set, replaced and cleared at any time, even by themselves and while another thread is inside one; what they raise does no harm; every message of the set level reaches the handler in place. Predicates of file listings are called once for each file, may call the library, and what they raise ends the listing and reaches the caller. In all schedules the examples read are the same.",
  ["schedules", "histories"],
  "all positions of a paused handler x operations of the main thread meanwhile and after x behaviours of the handler; all ways a thread feeds a pipe",
  "Tests install no handler and use one thread.",
  ["src/mlio-py/mlio/core/logging.cc", "src/mlio-py/mlio/core/data_reader.cc", "src/mlio-py/mlio/core/data_store.cc", "src/mlio-py/mlio/core/input_stream.cc", "src/mlio-py/mlio/core/py_buffer.cc", "src/mlio-py/mlio/core/py_memory_block.cc", "src/mlio-py/mlio/contrib/insights/module.cc", "src/mlio/logger.cc"],
  ["GIL released around blocking calls and acquired by background threads"],
  None, ["mlio Python package"])

p("C27", "No data races between readers, their background threads and the program",
  "Threads that each use readers and streams of their own, and share only stores, examples, tensors, schemas, memory slices, the memory allocator and the logger, never race: every two accesses of the library to the same memory, one of them a write, are ordered by its own synchronisation in every schedule. The same holds between the background work of a reader (prefetching, parallel reads, rows of a batch decoded in parallel, logging) and the thread that reads, peeks, resets or destroys it, and for examples handed to other threads while reading goes on. Each thread gets the results it would get alone.",
  ["schedules", "histories"],
  "all pairs of operations in two threads and crossed sequences of them, consumers handing examples to a user thread, the pipeline's scripts with faults, resets and destruction, and batches decoded in parallel, x schedules up to a bound of deviations; in each, all accesses to memory against the happens-before relation",
  "A race does not show in the result of a test run; only the order of accesses in all schedules tells.",
  ["src/mlio/parallel_data_reader.cc", "include/mlio/parallel_data_reader.h", "include/mlio/intrusive_ref_counter.h", "src/mlio/logger.cc", "src/mlio/data_stores", "src/mlio/streams", "src/mlio/csv_reader.cc", "src/mlio/recordio_protobuf_reader.cc", "src/mlio/memory"],
  ["atomics and mutexes around all state shared between threads"],
  None, ["mlio C++ library"])

p("C28", "Failures of the operating system are reported and lose nothing",
  "When a call of the operating system fails while a file, directory or memory map is opened, read, positioned, mapped, resized or listed, the operation under way ends with an exception, never with wrong, missing or repeated data, a premature end, or a crash; only failures that cannot change the outcome (advice on access, a short read, truncating a file that is larger than needed) may pass unreported. All that is handed out before the failure, and after it until a reset, is right: no example, record or byte is skipped or handed out twice, whether the failure is met while reading the schema, an example or a record, with whatever skipping, sharding, sampling or shuffling. A reset after the failure has passed gives the whole data again. A memory block that could not be resized keeps its size and contents. No file descriptor, memory map or temporary file stays behind once the objects are gone.",
  ["fault_sequences", "inputs", "histories"],
  "all places and kinds of failing system calls, up to a number of failures per history, x kinds of files (mapped or not, gzip or not) x operation sequences x readers and selections",
  "Tests cannot make a read or a mapping fail, let alone at each point of each history.",
  ["src/mlio/streams/file_input_stream.cc", "src/mlio/streams/utf8_input_stream.cc", "src/mlio/streams/gzip_inflate_stream.cc", "src/mlio/memory/file_mapped_memory_block.cc", "src/mlio/memory/file_backed_memory_block.cc", "src/mlio/memory/file_backed_memory_allocator.cc", "src/mlio/record_readers/detail/default_chunk_reader.cc", "src/mlio/instance_readers", "src/mlio/parallel_data_reader.cc", "src/mlio/data_stores/file.cc", "src/mlio/data_stores/detail/util.cc"],
  ["errors are sticky until reset at each level; descriptors and maps owned by objects"],
  None, ["mlio C++ library"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties", [ (x["id"], len(x["title"])) for x in P if len(x["title"])>80])
