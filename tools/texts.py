"""The properties in words; tools/gen.py writes properties.jsonl and MANIFEST.json from this and spec.py."""

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)


p("C01", "Control frames are encoded to the specified layout and decode back",
  """Encoding a control frame whose type and content types are within the limits writes exactly the big-endian
  layout of the Frame Streams protocol (optional escape and length header, type, then each content type as field
  type, length and bytes), reports the same size as the size query, fails without writing when the output buffer is too small, and never
  writes past it. Decoding the result yields the same type and the same content types in order. Resetting a control frame object empties it.""",
  ["inputs"], "every type, every list of content types of any bytes within the bound, every output buffer size, with and without header",
  "The control frame tests encode and decode a fixed list of frames; they do not vary sizes of the buffer or the bytes.",
  ["fstrm/control.c", "fstrm/control.h", "fstrm/buf.h"],
  [("size computation and encoder", "fstrm/control.c fstrm_control_encoded_size, fstrm_control_encode")])

p("C02", "The control frame decoder accepts exactly the well-formed frames",
  """For any byte string, decoding a control frame succeeds if and only if the string is one well-formed frame of a known type
  (right escape and exact length if a header is expected, at most 512 bytes, only content type fields of at most 256 bytes, at most one in START,
  none in STOP and FINISH, no trailing bytes), and then the type and every content type equal the bytes on the wire.
  It never reads outside the given bytes, and whatever the object held before does not matter.""",
  ["inputs"], "every byte string up to the bound, every prefix and over-long variant of larger frame shapes",
  "Tests decode some dozens of valid and invalid frames; a network peer can send any bytes.",
  ["fstrm/control.c", "fstrm/buf.h"],
  [("bounded big-endian reads and length checks", "fstrm/control.c fstrm_control_decode; fstrm/buf.h fs_load_be32, fs_buf_bytes")])

p("C03", "No control frame or content type over the size limits is emitted",
  """A control frame with a content type longer than 256 bytes, or whose encoding (with the escape and length header, if requested) would exceed 512 bytes, is refused by the encoder and by the size query alike;
  every control frame within the limits is encodable. What is emitted is always accepted by the decoder.""",
  ["inputs"], "content type lengths on both sides of each limit, with and without header, any content bytes",
  "Tests use content types far below the limits.",
  ["fstrm/control.c", "fstrm/control.h"],
  [("length limits", "fstrm/control.c fstrm_control_add_field_content_type, fstrm_control_encoded_size, fstrm_control_encode")])

p("C04", "Content type matching allows exactly the listed types",
  """Matching a content type against a control frame succeeds exactly if the frame lists no content types, or lists one that is equal in length and bytes; a missing
  content type matches only a frame that lists none. STOP and FINISH frames never match.""",
  ["inputs"], "every list of content types and every probed content type up to the bound, including none",
  "Tests try a handful of pairs; equality over lengths and contents (prefixes, embedded zero bytes, empty types) is a statement over all pairs.",
  ["fstrm/control.c"], [("comparison", "fstrm/control.c fstrm_control_match_field_content_type")])

p("C05", "A reader delivers exactly the data frames of the stream, then its end",
  """From any stream of data and control frames, the reader returns each data frame once, in order, with its exact length and bytes, skipping control frames
  it does not know, until STOP, which it reports as the end of the stream and after which it reads nothing more and, on a bidirectional stream, answers with FINISH when closed.
  A truncated stream, a failed transport call or a control frame of an impossible length never yields data.
  The transport is opened once, never used after a failure, and closed and destroyed once.""",
  ["inputs", "fault_sequences"], "streams of every frame kind in the listed orders with any content, unknown control types of any value, any single failing transport call",
  "The tests read back what the library itself wrote through healthy transports.",
  ["fstrm/reader.c", "fstrm/rdwr.c", "fstrm/control.c"],
  [("frame loop", "fstrm/reader.c fstrm_reader_read"), ("finish handshake", "fstrm/reader.c fstrm_reader_close")])

p("C06", "A reader never accepts a frame over its configured maximum size",
  """A data frame is delivered exactly if its length is at most the configured maximum frame size; a longer one is a failure (not the end of the stream) and nothing of its content is read or allocated.
  The maximum can be set to exactly the values 512 to 2^32-2, and control frames over 512 bytes are failures likewise.""",
  ["inputs", "configurations"], "every frame length in 32 bits, every value of the maximum",
  "Tests never send a frame near or over the maximum.",
  ["fstrm/reader.c", "fstrm/reader.h"],
  [("length check before reading", "fstrm/reader.c fstrm_reader_read"), ("range check", "fstrm/reader.c fstrm_reader_options_set_max_frame_size")])

p("C07", "A reader opens exactly the streams whose content type it wants",
  """A reader opens a stream if and only if the peer's handshake frames have the right types and START carries a content type the reader is configured for, or none, or the reader has none configured.
  On a bidirectional stream it answers READY with one ACCEPT carrying exactly those of its own content types the peer offered (all of its own when the peer offers none), and nothing else.
  The START frame is then available as received, and after a failed handshake the transport is closed.""",
  ["inputs", "configurations"], "every choice of own, offered and announced content types up to the bound, any bytes, wrong frame types at each step",
  "Tests run the reader against the library's own writer with one content type.",
  ["fstrm/reader.c", "fstrm/control.c", "fstrm/rdwr.c"],
  [("handshake", "fstrm/reader.c fstrm_reader_open")])

p("C08", "A reader is safe under any sequence of calls and failures",
  """Whatever sequence of open, read, get_control, close and destroy a user makes, the transport is opened only while it is closed, never used while it is closed, and closed exactly once per opening and destroyed once.
  The first read or get_control opens the reader; a reader that is open (also after STOP was read) is not opened again; one that is not open cannot be closed; after close, reads report the end of the stream, after a failure they fail, and neither touches the transport.
  When a transport call fails, the call that caused it does not succeed and leaves the transport closed. A reader that is closed can be opened again and then delivers the new stream from its beginning.
  The control frames of the stream (START; READY, ACCEPT; STOP once read) are returned by get_control, and nothing leaks.""",
  ["histories", "fault_sequences"], "every sequence of up to four calls, longer listed ones, and every single failing transport call",
  "Tests make the one sequence open, read to the end, destroy on files that never fail.",
  ["fstrm/reader.c", "fstrm/rdwr.c"],
  [("state machine", "fstrm/reader.c fstrm_reader_open, fstrm_reader_read, fstrm_reader_close, fstrm_reader_destroy, fstrm_reader_get_control"), ("open and close once", "fstrm/rdwr.c fstrm_rdwr_open, fstrm_rdwr_close")])

p("C09", "A writer emits START, the frames in order, and STOP, byte for byte",
  """The bytes a writer gives to its transport are exactly: the handshake frames, one START, each frame as its 32-bit big-endian length followed by its content, in the order written, and one STOP at close or destruction;
  nothing is emitted for refused frames. A writer opens implicitly at the first write, can be closed and opened again for a new complete stream, refuses writes once closed, and waits for FINISH on a bidirectional stream.""",
  ["histories", "inputs"], "the listed call sequences with any content bytes",
  "Tests write one healthy stream of fixed content and read it with the library itself, so an error symmetric in both sides passes.",
  ["fstrm/writer.c", "fstrm/rdwr.c", "fstrm/control.c"],
  [("frame assembly", "fstrm/writer.c fstrm_writer_write, fstrm_writer_writev"), ("open and close", "fstrm/writer.c fstrm_writer_open, fstrm_writer_close")])

p("C10", "A writer starts a stream only with a content type the peer accepts",
  """On a bidirectional transport a writer offers exactly its configured content types in READY, and sends START only if the peer answers with an ACCEPT that allows one of them (or lists none, or the writer has none).
  START then carries exactly one content type, the first of its own that the peer accepts (on a unidirectional transport its first), or none if it has none. Any other answer makes opening fail with no START, closes the transport, and closing succeeds exactly if the peer answers STOP with FINISH.""",
  ["inputs", "configurations"], "every choice of own and accepted content types up to the bound, any bytes, wrong frame types at each step",
  "Tests use one content type, always accepted.",
  ["fstrm/writer.c", "fstrm/control.c", "fstrm/rdwr.c"],
  [("handshake", "fstrm/writer.c fstrm_writer_open"), ("finish", "fstrm/writer.c fstrm_writer_close")])

p("C11", "Writer failures are reported and close the transport",
  """When a transport call fails, the call on the writer that caused it reports a failure, the transport is closed exactly once and not used again, and no later call reports success for data that was not handed to an open transport.
  A writer can open a fresh stream afterwards, which again begins with the full handshake and START.""",
  ["fault_sequences", "histories"], "every single transport call of the listed histories fails",
  "Tests use transports that never fail.",
  ["fstrm/writer.c", "fstrm/rdwr.c"],
  [("failure handling", "fstrm/writer.c fstrm_writer_write, fstrm_writer_writev, fstrm_writer_open, fstrm_writer_close")])

p("C12", "Vectored writes frame every buffer with its true length, whatever the number",
  """Writing any number of frames in one call emits each of them, in order and exactly once, as a big-endian 32-bit length equal to the buffer's size followed by that buffer,
  in system calls of a bounded number of buffers. A call with a frame whose length the format cannot express (zero or over 2^32-1) is refused as a whole and emits nothing.""",
  ["inputs"], "every 64-bit length of every frame; numbers of frames on both sides of the batching limits",
  "Tests write few, small frames per call.",
  ["fstrm/writer.c"], [("batching", "fstrm/writer.c fstrm_writer_writev, fstrm__writer_maybe_open_write...")])

p("C13", "Socket writes send every byte once, in order, or fail and close",
  """Writing a list of buffers to a UNIX or TCP socket transport reports success only if the system has taken every byte of every buffer exactly once and in order, however the system splits the
  transfer and however often it is interrupted by signals. On an error the write fails, nothing more is sent, and the connection is closed; a vanished peer raises no signal.""",
  ["fault_sequences", "inputs"], "every split of the bytes over the allowed number of partial sends, interruptions and errors in the listed orders, any buffer lengths",
  "Local sockets almost never send partially, so tests do not reach the continuation code.",
  ["fstrm/unix_writer.c", "fstrm/tcp_writer.c", "fstrm/rdwr.c"],
  [("partial send continuation", "fstrm/unix_writer.c and fstrm/tcp_writer.c, write operation")])

p("C14", "Socket reads fill the whole buffer in order, or fail and close",
  """Reading from a UNIX or TCP socket transport reports success only if exactly the requested number of bytes has been stored, in order, however the system splits the transfer and however often it is
  interrupted. The end of the connection or an error before that makes the read fail and closes the connection.""",
  ["fault_sequences", "inputs"], "every split of the bytes over the allowed number of partial reads, interruptions, end of file and errors in the listed orders, any length",
  "Handshake frames arrive in one piece in the tests.",
  ["fstrm/unix_writer.c", "fstrm/tcp_writer.c", "fstrm/rdwr.c"],
  [("partial read continuation", "fstrm/unix_writer.c and fstrm/tcp_writer.c, read operation")])

p("C15", "Socket transports never leak, reuse or double-close a descriptor",
  """Over any sequence of opens, closes, reads and writes with any outcome of the system calls, a socket transport holds exactly one descriptor while it is open and none otherwise, closes each descriptor exactly once,
  never uses a closed one, does not leak it to executed programs, and frees all its memory when destroyed. Opening fails exactly if creating or connecting the socket fails.""",
  ["histories", "fault_sequences"], "every sequence of calls up to the bound, every failure of socket, fcntl, connect, close, send and read",
  "Tests do not make these system calls fail.",
  ["fstrm/unix_writer.c", "fstrm/tcp_writer.c", "fstrm/rdwr.c"],
  [("descriptor ownership", "fstrm/unix_writer.c and fstrm/tcp_writer.c, open, close, read, write operations")])

p("C16", "File transports transfer complete buffers, report errors and close the file",
  """The file reader and writer open exactly the configured file (or standard input or output for "-") in the right mode, read and write exactly the given buffers in order, report the end of the file as the end of the
  stream and any error as a failure, close the file after a failed transfer, never close or use a file twice, and leak nothing. An error when the file is closed is reported.""",
  ["histories", "fault_sequences"], "every sequence of calls up to the bound with every result of the stdio calls, any buffer lengths",
  "Tests use files that never fail.",
  ["fstrm/file.c", "fstrm/rdwr.c"], [("stdio wrappers", "fstrm/file.c")])

p("C17", "The lock-free queue is FIFO and loses nothing under every interleaving",
  """With one producer and one consumer working concurrently on the single-producer queue, each element accepted is delivered exactly once, whole, and in insertion order, under every interleaving.
  An insertion fails only if the queue is full, a removal only if it is empty, and the reported space and count are those of some moment during the call.""",
  ["schedules"], "every interleaving of the memory accesses of the compiled operations, at each position of the ring, for the bounded numbers of operations",
  "The queue test hopes the scheduler will hit a bad interleaving; it cannot choose one.",
  ["libmy/my_queue_mb.c"],
  [("index publication order", "libmy/my_queue_mb.c insert and remove")],
  state=[("head and tail indices", "written only by the producer and the consumer respectively", "libmy/my_queue_mb.c struct my_queue")])

p("C18", "The multi-producer queue is FIFO and loses nothing under every interleaving",
  """With several producers and one consumer working concurrently on the multi-producer queue, each element accepted is delivered exactly once, whole, in the order its producer inserted it, and in real-time order between producers.
  An insertion fails only if the queue is full, a removal only if it is empty, the reported space and count are those of some moment during the call, and the lock is never left held.""",
  ["schedules"], "every interleaving of the memory accesses and lock operations of the compiled operations of two producers and a consumer",
  "The queue test hopes the scheduler will hit a bad interleaving; it cannot choose one.",
  ["libmy/my_queue_mutex.c"],
  [("mutual exclusion", "libmy/my_queue_mutex.c insert and remove")])

p("C19", "A queue is a bounded FIFO of its capacity",
  """Both queue implementations, used by one thread, behave as a FIFO list of at most one less than the queue's size: every element comes out whole, once and in order at any position of the ring; an insertion fails exactly when that many elements are held,
  a removal exactly when there are none, leaving the caller's element alone; the space and count reported are exact. A queue is created exactly for a size that is a power of two and at least 2.""",
  ["histories", "inputs"], "every sequence of operations up to the bound, any content, every 32-bit size",
  "Tests use one size with one pattern of insertions and removals.",
  ["libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"],
  [("ring arithmetic", "libmy/my_queue_mb.c, libmy/my_queue_mutex.c insert and remove"), ("size check", "libmy/my_queue_mb.c, libmy/my_queue_mutex.c init")])

p("C36", "Socket transports connect to exactly the configured address",
  """A TCP transport is created exactly for a numeric IPv4 or IPv6 address and a decimal port of at most 65535, and connects to that address and port; a UNIX transport is created exactly for a path that fits into a socket
  address with its terminator, and connects to that path, byte for byte. Without an address, port or path none is created.""",
  ["inputs", "configurations"], "every port string up to the bound, every path content at lengths on both sides of the limit, both address families",
  "Tests use one address and one path.",
  ["fstrm/tcp_writer.c", "fstrm/unix_writer.c"],
  [("address parsing", "fstrm/tcp_writer.c and fstrm/unix_writer.c, init functions")])

p("C20", "The I/O thread frees every accepted payload exactly once and loses none",
  """Every payload that fstrm_iothr_submit accepts is released through its own callback, with its own argument, exactly once: after it has been written, or when it is discarded because the output is closed, or at the latest when the
  fstrm_iothr object is destroyed; it is never released before or while it is being written. A payload that was not accepted is never touched. This holds for any order of submissions, wake-ups, open and write failures and
  shutdown, also if the thread never got to run, and destroy frees everything else.""",
  ["schedules", "histories", "fault_sequences"], "every history of the listed lengths: submissions to each queue before, between and during the thread's steps, any outcome of each open and write, shutdown at each point",
  "Tests submit everything, sleep, and destroy; they do not make the writer fail in the middle.",
  ["fstrm/iothr.c", "libmy/my_queue_mb.c", "libmy/my_queue_mutex.c"],
  [("deferred deallocation", "fstrm/iothr.c fstrm__iothr_flush_output, fstrm__iothr_process_queue_entry, fstrm__iothr_free_queues")],
  state=[("outq_entries, outq_idx", "the frames taken from the input queues and not yet written or freed", "fstrm/iothr.c struct fstrm_iothr")])

p("C21", "The I/O thread writes each queue's frames once, in order, in bounded batches",
  """As long as opening and writing succeed, every frame accepted by fstrm_iothr_submit is written exactly once with its own bytes and length, frames of one input queue in the order of submission, and all of them before
  fstrm_iothr_destroy returns. A write never carries more than output_queue_size frames, and never several frames whose sizes with their length prefixes reach buffer_hint bytes, for frames of any length.""",
  ["schedules", "histories", "inputs"], "every history of the listed lengths, every 32-bit frame length, both queue models, 1 to 3 queues",
  "Batching boundaries depend on lengths, queue sizes and timing that tests do not control.",
  ["fstrm/iothr.c"],
  [("batching", "fstrm/iothr.c fstrm__iothr_maybe_flush_output"), ("final drain", "fstrm/iothr.c fstrm__iothr_thr")])

p("C22", "The I/O thread survives output failures and reopens at the configured pace",
  """When the output cannot be opened, or a write fails, the I/O thread closes it once, discards what it cannot write, keeps accepting frames, and tries to open it again when reopen_interval seconds have passed since the last attempt and not before.
  It never writes to a closed output, never opens an open one, never closes a closed one, and resumes writing after a successful reopen. On shutdown it closes the output exactly if it is open and destroys the writer once.""",
  ["fault_sequences", "histories", "schedules"], "every outcome of each open and write in the listed histories, at any times",
  "Tests never make the output fail.",
  ["fstrm/iothr.c", "fstrm/time.c"],
  [("open state", "fstrm/iothr.c fstrm__iothr_maybe_open, fstrm__iothr_close, fstrm__iothr_flush_output")],
  state=[("opened, last_open_attempt", "whether the writer is open, and when opening was last tried", "fstrm/iothr.c struct fstrm_iothr")])

p("C23", "I/O thread options accept exactly the documented values",
  """Each fstrm_iothr option setter accepts exactly the documented values and refuses all others with a failure; a refused value changes nothing, an accepted one takes effect, and without options the documented defaults apply.
  fstrm_iothr_init copies the options, so they can be destroyed afterwards.""",
  ["inputs", "configurations"], "every 32-bit value of every option; behaviour after refused values",
  "Tests use a few valid values.",
  ["fstrm/iothr.c", "fstrm/iothr.h"], [("range checks", "fstrm/iothr.c fstrm_iothr_options_set_*")])

p("C24", "Each input queue is handed out exactly once, also to concurrent callers",
  """fstrm_iothr_get_input_queue returns each of the num_input_queues input queues exactly once, to whichever threads call it and however their calls overlap, and NULL only when none is left;
  fstrm_iothr_get_input_queue_idx returns the queue of a valid index and NULL otherwise.""",
  ["schedules", "inputs"], "every interleaving of the memory accesses and lock operations of concurrent calls, every index",
  "Two threads getting the same queue breaks the single-producer rule, but only in a narrow race.",
  ["fstrm/iothr.c"], [("index under lock", "fstrm/iothr.c fstrm_iothr_get_input_queue")])

p("C25", "Submitting never blocks and reports full queues and unusable data",
  """fstrm_iothr_submit accepts a frame of 1..2^32-2 bytes exactly if its queue holds fewer than input_queue_size - 1 frames, answers fstrm_res_again otherwise, and fstrm_res_invalid for a NULL pointer or any other length;
  the frame remains the caller's unless it was accepted. A submission that leaves queue_notify_threshold free entries wakes the I/O thread, and no frame is accepted once the shutdown has begun.""",
  ["histories", "inputs"], "queues at every fill level up to their capacity, every length, before and after the thread has drained them",
  "Tests do not fill queues exactly, nor use extreme lengths.",
  ["fstrm/iothr.c"], [("submission", "fstrm/iothr.c fstrm_iothr_submit")])

p("C26", "No frame stays in the output buffer longer than the flush timeout",
  """While the I/O thread is running, a frame in its output buffer is written (or discarded, if the output is closed) within flush_timeout seconds: the thread never sleeps beyond that moment, whatever wakes it in between,
  and flushes when the time is over. Deadlines are computed on the clock the thread waits on.""",
  ["schedules", "histories"], "every time of each event in the listed histories, wake-ups with and without a timeout in any order",
  "Timeouts of seconds and early wake-ups in an unlucky rhythm are not tested.",
  ["fstrm/iothr.c", "fstrm/time.c"], [("flush deadline", "fstrm/iothr.c fstrm__iothr_thr")])

p("C28", "fstrm_capture follows the protocol with every client",
  """fstrm_capture expects READY, START, data frames and STOP from each connection, in this order. It answers a READY that lists its content type, or none, with an ACCEPT of exactly that type, takes a START with its type or none,
  answers STOP with FINISH, and closes the connection once FINISH has been sent. Anything else (another content type, another or unknown control frame, data outside START and STOP, a malformed control frame or one over 512 bytes) closes
  that connection at once, with no answer and nothing written to the output; other connections are not affected. All of this is independent of how the bytes are split into reads.""",
  ["inputs", "histories"], "every sequence of frames in the listed histories, any content bytes, frames split anywhere",
  "The test suite runs only well-behaved clients.",
  ["src/fstrm_capture.c", "fstrm/control.c"],
  [("connection state machine", "src/fstrm_capture.c process_control_frame, cb_read, cb_write"), ("frame detection", "src/fstrm_capture.c can_read_full_frame, load_control_frame")],
  state=[("conn->state", "what this connection must send next", "src/fstrm_capture.c struct conn")])

p("C29", "fstrm_capture writes every accepted data frame once, whole and in order",
  """The output of fstrm_capture is one valid stream: START with the configured content type, the data frames of all connections, each whole and exactly once, in the order in which they were completely received, and STOP on shutdown.
  A data frame up to the buffer size (including its length field) is written; a longer one, up to 2^32-1 bytes, is skipped as a whole and the following frames are not affected. This does not depend on how connections interleave or how bytes are split into reads,
  and no frame makes a connection stall.""",
  ["inputs", "schedules", "histories"], "any content bytes, chunkings and interleavings of the listed histories",
  "Oversized frames, frames at exactly the buffer size and unlucky splits are not tested.",
  ["src/fstrm_capture.c"],
  [("frame detection and skipping", "src/fstrm_capture.c can_read_full_frame, cb_read"), ("output", "src/fstrm_capture.c process_data_frame, open_write_file, close_write_file")],
  state=[("conn->bytes_skip", "bytes of an oversized frame still to be discarded", "src/fstrm_capture.c struct conn")])

p("C30", "fstrm_capture rotates without losing frames and reports output errors",
  """With --split, the output file is finished and a new one started after the first data frame at least that many seconds after the file was opened; SIGUSR1 does so at once, except on standard output; SIGHUP only flushes.
  Every file is a complete stream (START to STOP), is opened empty after the previous one was closed, and each frame is in exactly one file. If opening, writing or closing an output file fails, the program ends with a failure status.""",
  ["histories", "fault_sequences", "inputs"], "any times of the events in the listed histories, each single failing output call",
  "Rotation and output errors are not tested.",
  ["src/fstrm_capture.c"],
  [("rotation", "src/fstrm_capture.c rotate_output, maybe_rotate_output, do_sigusr1"), ("output errors", "src/fstrm_capture.c close_write_file, process_data_frame")])

p("C31", "fstrm_capture never serves more than --maxconns connections",
  """With --maxconns, fstrm_capture stops accepting connections exactly while that many are open, and accepts again as soon as one is closed, whatever the reason it is closed for; without it, it always accepts. Closing a connection releases everything it held.""",
  ["histories"], "the listed histories of connections that end, fail, finish or break the protocol",
  "The limit is not tested.",
  ["src/fstrm_capture.c"], [("listener control", "src/fstrm_capture.c cb_accept_conn, cb_close_conn")],
  state=[("ctx->remaining_connections", "connections that may still be accepted", "src/fstrm_capture.c struct capture")])

p("C33", "fstrm_dump copies a stream exactly and reports any failure",
  """For every input file, fstrm_dump with an output file writes a stream with the START frame's content type (or none) of the input, exactly the input's data frames in order and unchanged, and a STOP.
  It exits with success if and only if the input is a complete stream that ends with STOP, and every byte was written, including by the final close; with a truncated, damaged or missing input, or a failing read, write, open or close, it exits with failure,
  after writing the frames read before. All files are closed.""",
  ["inputs", "fault_sequences"], "the listed stream shapes with any content bytes; every single failing stdio call",
  "Tests dump one complete file of known content.",
  ["src/fstrm_dump.c", "fstrm/reader.c", "fstrm/writer.c", "fstrm/file.c"],
  [("copy loop and exit status", "src/fstrm_dump.c main"), ("START frame copied", "src/fstrm_dump.c process_start_frame")])

p("C34", "fstrm_replay sends the frames of the matching files, whole and in order",
  """fstrm_replay connects once to the given socket, with the given content type, and sends exactly the data frames of those input files whose START frame has this content type (or none), in the order of the files and of the frames, unchanged, in one stream with one START and one STOP.
  Files that are missing, damaged at the start or of another type are skipped, a truncated one is sent up to where it ends. If connecting, sending or finishing the stream fails, the exit status is a failure, otherwise a success.""",
  ["inputs", "fault_sequences"], "the listed files with any content bytes and any content types; every single failing call of the transport",
  "Tests replay one file of the right type to a server that never fails.",
  ["src/fstrm_replay.c", "fstrm/reader.c", "fstrm/writer.c", "fstrm/file.c", "fstrm/control.c"],
  [("file loop", "src/fstrm_replay.c process_file"), ("exit status", "src/fstrm_replay.c main")])

p("C35", "fstrm_dump prints every byte of every data frame",
  """On standard output fstrm_dump prints one line per data frame: a blank, and the frame between double quotes, where printable ASCII characters stand for themselves, a double quote is preceded by a backslash, and every other byte is \\x and two hexadecimal digits. Nothing else goes to standard output.""",
  ["inputs"], "every content of frames of one and two bytes, with and without an output file",
  "Tests compare the output for a single sample file.",
  ["libmy/print_string.h", "src/fstrm_dump.c"],
  [("quoting", "libmy/print_string.h print_string")])


p("C38", "Configured content types are copied, exactly as given",
  """Reader and writer options accept content types of any content and of 0 to 256 bytes, and refuse longer ones without effect. They copy what they are given, and a reader or writer keeps the content types that were configured when it was made:
  later changes to the caller's buffers, to the options or their destruction do not affect it, and one option object can serve several of them. A transport without a read (reader) or write (writer) method is refused and remains the caller's.""",
  ["inputs", "configurations", "histories"], "any bytes, lengths on both sides of the limit, options used twice and changed in between",
  "Tests configure one content type and use it at once.",
  ["fstrm/reader.c", "fstrm/writer.c"],
  [("copies", "fstrm/reader.c and fstrm/writer.c, options_add_content_type and init")])

p("C39", "A transport object calls its methods only when it may",
  """The transport object passes each call on to its method with the object and arguments given and returns its result. Reading and writing is refused unless the transport was opened, close reaches the method exactly once per successful opening,
  a read or write that fails closes the transport, a missing method is a failure and not a crash, and destroy calls its method once if there is one.""",
  ["histories", "configurations", "fault_sequences"], "every sequence of calls up to the bound with any results of the methods",
  "Tests use the library's own, complete and healthy transports.",
  ["fstrm/rdwr.c"], [("open state", "fstrm/rdwr.c fstrm_rdwr_open, fstrm_rdwr_close, fstrm_rdwr_read, fstrm_rdwr_write")])
