PBT = 'property-based testing: tape-driven generator, reference-model oracle, shrinking'
SIM = ' Deterministic simulation of threads (switching at memory accesses of the queue and I/O thread code), locks and time; sequentially consistent.'
PROG = ' The real program (its main() in a forked child under ASan/UBSan, real libevent and sockets or files) is driven one generated step at a time, so that chunk boundaries, signal points and clock readings are as generated and replayable.'
TRUST = ' Trusts the independent reference model in harness/ref.hpp, clang\'s sanitizers and the libc interposers; sampling, not exhaustive.'
prop('C01', 'Control frame encoding is exact, bounded and reversible',
 'Encoding a control frame built through any sequence of control-frame API calls either is refused or produces exactly the Frame Streams wire form of its type and content types in order (at most 256 bytes per content type, at most one content type for START, none for STOP and FINISH, control payload at most 512 bytes, escape header optional), and the reported encoded size always equals the number of bytes produced. Frames outside those limits are always refused, encodable frames never are, and decoding the result gives back the same type and content types. No encode call writes outside the given buffer, and a buffer that is too short is refused. Every type and field type, known or not, has its documented name.',
 ['inputs', 'histories'], 'for every sequence of control-frame calls, every type, content type list, buffer length and escape flag',
 't/test_control.c encodes a handful of fixed frames; it never reaches limits (256/257-byte types, 512-byte payload), undersized buffers or reuse of an object.',
 ['fstrm/control.c', 'fstrm/control.h'], [('encoder and size computation', 'fstrm/control.c fstrm_control_encode / fstrm_control_encoded_size'), ('field limits', 'fstrm/control.c fstrm_control_add_field_content_type')],
 PBT, note='Each case builds, encodes and decodes one frame object through a random call history and compares every byte and result code with an independent encoder, under ASan/UBSan.' + TRUST)
prop('C02', 'Control frame decoding accepts exactly the well-formed frames',
 'Decoding any byte string as a control frame succeeds exactly when the bytes are one well-formed control frame within the protocol limits (known type, only content type fields, per-type number of fields, lengths consistent, no trailing bytes), and then yields exactly the encoded type and content types. It never reads outside the given bytes. A frame object is reusable: the outcome never depends on what the object held before.',
 ['inputs', 'histories'], 'for every byte string, with and without escape header, and every prior use of the object',
 'The unit test decodes about twenty fixed frames; malformed lengths, truncation at every offset and stale state from earlier decodes are not covered.',
 ['fstrm/control.c'], [('decoder', 'fstrm/control.c fstrm_control_decode')],
 PBT + ' over mutated wire images', note='Differential against an independent parser on structured, mutated and truncated frames placed in exact-size heap buffers under ASan.' + TRUST)
prop('C03', 'Content type matching follows the documented set semantics',
 'Matching a content type against a control frame succeeds exactly when the frame carries no content types or carries one equal to it byte for byte (same length, any bytes including NUL); no frame state changes as a result. A frame without content types matches anything, including an absent content type.',
 ['inputs', 'histories'], 'for every content type list and candidate, including empty, prefix-related, NUL-carrying and maximum-length values',
 'Unit tests match a few literal strings only.',
 ['fstrm/control.c'], [('matcher', 'fstrm/control.c fstrm_control_match_field_content_type')],
 PBT, note='Set-membership oracle over related strings.' + TRUST)
prop('C04', 'A one-way writer emits exactly one well-formed stream per open/close',
 'For every sequence of open, write, vectored write, control-frame query and close calls on a writer over a one-way transport, the bytes emitted on each connection are exactly one START frame carrying the first configured content type (or none), then each accepted payload as a length-prefixed data frame in call order, then on close or destroy one STOP frame. Payloads that cannot be framed (zero length, or longer than 2^32-1 bytes) are refused and emit no data; writing after close is refused; vectored writes of any number of payloads are equivalent to the same writes one by one.',
 ['histories', 'inputs'], 'for every call history and every payload list (including vectors far longer than the internal chunk size and payloads that look like control frames)',
 'Tests write the same short string in a loop; vector chunking, reopen, and refusal paths are never run.',
 ['fstrm/writer.c', 'fstrm/rdwr.c'], [('framing and chunking', 'fstrm/writer.c fstrm__writer_write_iov*'), ('state machine', 'fstrm/writer.c fstrm_writer_open/close')],
 PBT + ' (stateful, model-based)', note='A call-by-call model predicts result codes, open state and every emitted byte on a recording transport.' + TRUST)
prop('C05', 'Everything written is read back unchanged, in order, then end of stream',
 'For every list of payloads written with a writer (one by one or vectored) and closed, a reader with compatible content types and a sufficient frame size limit returns exactly those payloads in order and then end-of-stream; this holds for one-way and two-way transports and for files, including files holding arbitrarily many frames of any size and the standard streams (file path "-"). The START and STOP frames a reader reports equal the ones the writer sent, and reopening the same file after closing the reader rereads the same content.',
 ['inputs', 'histories', 'configurations'], 'for every payload list, content type configuration, transport kind and read/reopen history',
 'test_file_hello writes n copies of one string and reads them with another program; sizes, reopen, limits and vectored writes are not varied.',
 ['fstrm/writer.c', 'fstrm/reader.c', 'fstrm/file.c', 'fstrm/rdwr.c'], [('reader', 'fstrm/reader.c'), ('file transport', 'fstrm/file.c')],
 PBT + ' (round trip)', note='Random writer histories are replayed through real readers over recorded one-way/two-way transports and real files (including reopen) and compared frame by frame.' + TRUST)
prop('C06', 'A reader on arbitrary bytes returns exactly the data frames of the valid prefix',
 'Given any byte string as input, a reader returns exactly the payloads of the data frames that precede the first STOP frame, end of input or protocol error, with nothing invented, altered, skipped or reordered, and never reports success without a payload; a payload stays as returned until the next read. A malformed or over-long control frame, or a data frame above the configured size limit, makes the reader fail at that frame; control frames of unknown type are ignored. After reporting end of stream or failure it never returns data again, and no input makes it read or write out of bounds or allocate more than a small multiple of the configured frame limit. That limit is exactly the last value its option accepted; values from 512 to 2^32-2 are accepted, others are refused and change nothing.',
 ['inputs'], 'for every byte string (structured, mutated, truncated) and every frame size limit',
 'The tests only read streams produced by this library; no malformed, truncated or hostile stream is ever presented.',
 ['fstrm/reader.c', 'fstrm/rdwr.c', 'fstrm/control.c'], [('frame loop', 'fstrm/reader.c fstrm__reader_next_data'), ('control frame reading', 'fstrm/rdwr.c fstrm__rdwr_read_control_frame')],
 PBT + ' over mutated streams', note='Differential against an independent stream parser over structured, mutated and truncated streams, with a heap watch for over-large allocations.' + TRUST)
prop('C07', 'The handshake negotiates exactly the documented content type',
 'A two-way writer sends READY with all its content types in order, and after an ACCEPT carries on with START holding its first own content type that the ACCEPT lists (its first one if the ACCEPT lists none, none if it has none), or fails if none matches; any other reply makes opening fail. A two-way reader answers READY with an ACCEPT listing exactly those of its own content types that the READY offers (all of them if it offers none), then opens only on a START it can match. One-way readers apply the same START rule, and each side reports the exact control frames exchanged, which stay as reported while it is not opened again.',
 ['inputs', 'histories'], 'for every pair of content type lists and every scripted peer reply, well formed or not',
 'The tests use a single content type on both ends, so multi-type negotiation, mismatch and malformed replies never run.',
 ['fstrm/writer.c', 'fstrm/reader.c'], [('writer handshake', 'fstrm/writer.c fstrm__writer_open_bidirectional'), ('reader handshake', 'fstrm/reader.c fstrm__reader_open_bidirectional')],
 PBT + ' with scripted peers', note='A handshake model predicts every emitted frame and result for scripted peers, plus real writer/reader pairs.' + TRUST)
prop('C08', 'Transports are opened, used, closed and destroyed in a balanced, safe order',
 'For every sequence of reader or writer calls and every failing transport operation, the transport is opened only while closed, closed only while open, read or written only while open, never left open by a failed open or by destroy, and destroyed exactly once as the last operation. A call that reports success had all its transport operations succeed and put exactly its own bytes on the stream; a call whose transport operation failed reports failure and emitted at most a prefix of its bytes. No memory is leaked and none is touched after it is freed.',
 ['histories', 'fault_sequences'], 'for every call history and every set of failing open/read/write/close operations',
 'The tests never make a transport operation fail.',
 ['fstrm/rdwr.c', 'fstrm/writer.c', 'fstrm/reader.c'], [('transport state', 'fstrm/rdwr.c fstrm_rdwr_open/close'), ('error paths', 'fstrm/writer.c, fstrm/reader.c')],
 'stateful property-based testing with injected transport faults', 'fault_enumeration', note='Random call histories with failing transport operations at random positions; a transport that checks the protocol of its own use, and a leak-counting heap.' + TRUST)
prop('C09', 'Socket writers deliver the exact bytes under short and interrupted I/O',
 'However the operating system splits, interrupts or shortens socket reads and writes, a TCP or UNIX-socket writer that reports success has delivered exactly the bytes of its frames, in order, once each, and reads exactly the bytes of the peer\'s replies. An I/O error or a closed peer is reported as failure, with at most a prefix of the bytes delivered, and never kills the process by a signal. No file descriptor is leaked, closed twice or passed on to executed programs over any open/write/close/destroy history.',
 ['schedules', 'fault_sequences', 'inputs'], 'for every pattern of short/interrupted/failing socket calls and every frame list',
 'Loopback sockets in the tests practically always complete each call in full.',
 ['fstrm/tcp_writer.c', 'fstrm/unix_writer.c', 'libmy/read_bytes.h'], [('partial send handling', 'fstrm/tcp_writer.c and fstrm/unix_writer.c op_write'), ('full reads', 'libmy/read_bytes.h')],
 'fault-injecting property-based testing at the libc boundary', 'fault_enumeration', note='The socket system calls are replaced by a model socket driven by the generated tape (short, interrupted, failing calls); descriptor accounting per case.' + TRUST)
prop('C10', 'A file writer that reports success has produced the complete file',
 'If writing and closing a file-backed stream all report success, the file contains exactly the complete Frame Streams byte stream; if the operating system refuses or shortens any write at any point (disk full, size limit), some call reports failure. What is in the file is always a prefix of the expected stream, and opening a writer replaces any previous content.',
 ['fault_sequences', 'inputs', 'crash_points'], 'for every payload list and every byte offset at which the underlying file stops accepting data',
 'Tests only write to a file system with free space.',
 ['fstrm/file.c', 'fstrm/writer.c'], [('write and close error reporting', 'fstrm/file.c fstrm__file_op_write/close')],
 'fault-injecting property-based testing (failing offset enumeration)', 'fault_enumeration', note='The file under the writer stops accepting data at a generated offset or call; success is compared with the actual content.' + TRUST)
prop('C11', 'The asynchronous writer delivers accepted messages once and in order',
 'Every message whose submission was accepted before the I/O thread object is destroyed appears in the output exactly once, whole and unaltered, and messages from one input queue appear in their submission order; nothing that was not accepted appears. By the time destroy returns the whole stream, including the final STOP, has been written, for every number of queues, producers, queue model, queue size, buffer hint, output queue size and flush setting.',
 ['schedules', 'histories', 'configurations'], 'for every interleaving of producers, I/O thread and destroy, with a healthy transport',
 'The integration tests use a few fixed configurations, mostly at defaults, and check counts on ordinary schedules.',
 ['fstrm/iothr.c', 'libmy/my_queue.h', 'libmy/my_queue_mb.c', 'libmy/my_queue_mutex.c'], [('drain and flush', 'fstrm/iothr.c fstrm__iothr_process_queues, fstrm__iothr_flush_output'), ('queues', 'libmy/my_queue_mb.c, libmy/my_queue_mutex.c')],
 PBT + ' over configurations and simulated schedules', note='Parsed output compared with the accepted submissions.' + SIM + TRUST)
prop('C12', 'Message ownership: freed exactly once if accepted, never if refused',
 'For each accepted submission the caller\'s free callback is called exactly once, with that submission\'s data and argument, after the message was handed to the transport or dropped and no later than the return of destroy; for a refused submission (full queue, invalid length or pointer, shutting down) it is never called; an invalid one is refused as such, never with "try again". This holds also when the transport fails, never opens, or disappears midway, and for a submission that is under way when destroy is called.',
 ['schedules', 'histories', 'fault_sequences'], 'for every history of submissions (accepted and refused), faults and destroy times',
 'Tests use plain free() with an always-working peer, so double or missing frees on drop and shutdown paths are invisible.',
 ['fstrm/iothr.c'], [('buffer release', 'fstrm/iothr.c fstrm__iothr_flush_output, fstrm__iothr_free_queues, fstrm_iothr_submit')],
 'stateful property-based testing with injected transport faults under simulated schedules', 'fault_enumeration', note='Every free callback is recorded, buffers are poisoned and released in it.' + SIM + TRUST)
prop('C13', 'The asynchronous writer survives transport failures and reconnects',
 'Under any sequence of transport open, write, read and close failures every connection\'s bytes are a prefix of one well-formed stream (handshake, whole data frames of accepted messages in queue order, STOP) and no message is duplicated or reordered within or across connections. After a failure a new connection is attempted, not more often than once per reopen interval (however the wall clock is set meanwhile), and once the transport works again newly accepted messages are delivered; destroy always completes, and the SIGPIPE of a broken pipe written to in the I/O thread never reaches the process.',
 ['fault_sequences', 'histories', 'schedules'], 'for every pattern of transport failures relative to submissions and time',
 'No test breaks the connection underneath the I/O thread.',
 ['fstrm/iothr.c', 'fstrm/writer.c'], [('reopen', 'fstrm/iothr.c fstrm__iothr_maybe_open')],
 'stateful property-based testing with fault injection, simulated schedules and a virtual clock', 'fault_enumeration', note='Connections, open attempts and every loss are checked against the injected outages; one second of tolerance.' + SIM + TRUST)
prop('C14', 'Accepted messages are flushed within bounded time; submit never blocks',
 'While the transport works, every accepted message is handed to the transport within about one flush timeout (never more than two) of its submission, however much other traffic there is and however the wall clock is set, and filling a queue wakes the I/O thread without waiting for the timeout (given a notify threshold at least two below the queue capacity), and destroy does not wait for it either. Submission never blocks: it fails with "try again" exactly when the queue holds its full capacity.',
 ['schedules', 'histories', 'configurations'], 'for every submission pattern in time, queue size, notify threshold and flush timeout',
 'Tests run with wall-clock time and destroy the object, which flushes anyway; no test measures latency or a full queue.',
 ['fstrm/iothr.c'], [('timed wait', 'fstrm/iothr.c fstrm__iothr_thr'), ('notification threshold', 'fstrm/iothr.c fstrm_iothr_submit')],
 'property-based testing under simulated schedules and a virtual clock', note='Latency bound of two flush timeouts checked per message; thresholds at least two below the queue capacity for the wake-up part.' + SIM + TRUST)
prop('C15', 'I/O thread options accept exactly the documented values and are honoured',
 'Each option setter accepts exactly its documented range and leaves the previous setting in place when it refuses; every combination of accepted settings gives an I/O thread that can be created, and exactly the configured number of distinct input queues can then be obtained, further requests returning none. Each setting takes effect as documented whatever the others are and in whatever order they were set. Creating or destroying one with any accepted options leaks nothing.',
 ['configurations', 'inputs'], 'for every option value (boundaries included) and every combination of settings',
 'Tests use defaults and a few hand-picked values; refusal and boundary values are not exercised.',
 ['fstrm/iothr.c', 'fstrm/iothr.h'], [('setters', 'fstrm/iothr.c fstrm_iothr_options_set_*'), ('init', 'fstrm/iothr.c fstrm_iothr_init')],
 PBT, note='Model of the setters plus observation of each setting in force; queue model and notification point are not observable.' + SIM + TRUST)
prop('C16', 'The message queues are FIFO and bounded under all interleavings',
 'For both queue implementations and any interleaving of one producer and one consumer (and of many producers under the caller\'s lock), what is removed is exactly what was inserted, once each, unaltered and in order; insertion fails exactly when the queue is full and removal exactly when it is empty, and the reported space and count agree with the contents when quiescent. Capacity is the same for both implementations and only valid sizes can be created.',
 ['schedules', 'histories', 'configurations'], 'for every operation history, element size and queue size, and real-thread interleavings',
 'test_queue runs one timed pattern per implementation and checks only sums on whatever schedule occurs.',
 ['libmy/my_queue.h', 'libmy/my_queue_mb.c', 'libmy/my_queue_mutex.c'], [('ring indices and barriers', 'libmy/my_queue_mb.c'), ('mutex variant', 'libmy/my_queue_mutex.c')],
 PBT + ' (model-based, simulated interleavings)', note='Reference deque, simulated producer/consumer interleavings at every memory access, and a few real-thread runs.' + TRUST)
prop('C17', 'fstrm_capture records exactly the frames its clients send',
 'For every set of well-behaved clients sending any data frames in any fragmentation, the capture output is one well-formed stream: START with the configured content type, every complete data frame of every client byte-for-byte and in that client\'s order, then STOP once terminated, whether or not a client waits for the replies before it goes on. Frames larger than the configured limit are skipped without disturbing the frames around them, for every configured buffer size, and content type negotiation admits exactly the clients whose offered types include the configured one.',
 ['inputs', 'schedules', 'configurations'], 'for every client set, frame sizes, fragmentation, and buffer-size setting',
 'The shell tests send identical small frames from a single healthy writer.',
 ['src/fstrm_capture.c'], [('connection state machine', 'src/fstrm_capture.c process_data/can_read_full_frame')],
 PBT + ' (stateful, scripted clients against the real program)', note='Random client sets, offers, frame sizes around the buffer size and chunkings; the output is parsed and compared frame by frame with a connection model.' + PROG + TRUST)
prop('C18', 'fstrm_capture is robust against arbitrary client bytes',
 'No sequence of bytes sent by clients, in any fragmentation or with disconnects anywhere, crashes or wedges the capture program, corrupts its output, or disturbs other clients. Data is recorded only from a client that completed the handshake (READY with a matching content type, then START with it) and has not sent STOP; a client that breaks the protocol is disconnected. The numbers of frames and bytes reported for a connection are those recorded from it.',
 ['inputs', 'schedules'], 'for every byte string from every client and every disconnect point',
 'No test sends anything but this library\'s own well-formed output.',
 ['src/fstrm_capture.c'], [('frame validation', 'src/fstrm_capture.c cb_read')],
 'structured fuzzing of the real program with hostile clients against a connection model, shrinking', note='Arbitrary and mutated client byte streams with well-behaved clients alongside; replies, disconnections and the recorded output are compared with a connection model.' + PROG + TRUST)
prop('C19', 'Capture output files are always complete streams across rotation and signals',
 'However rotation signals, time-based splitting and termination fall between client frames, every finished output file is a complete stream on its own (START, whole frames, STOP), and the concatenated data of the files in order is exactly what was captured, with nothing lost, repeated or reordered at a boundary; a file that already exists is replaced, and the numbers of frames and bytes the program reports for each file when closing it are those of the file. A flush signal (SIGHUP) puts everything captured so far into the file and changes nothing else. Termination by signal finishes the current file and exits successfully; if the output cannot be written the program does not exit successfully.',
 ['schedules', 'crash_points', 'fault_sequences'], 'for every placement of rotation/termination relative to the traffic',
 'The shell test sends at most a fixed number of HUP signals at fixed times.',
 ['src/fstrm_capture.c'], [('rotation', 'src/fstrm_capture.c do_sigusr1, rotate_output, maybe_rotate_output')],
 'property-based testing with generated signal, clock and output-fault schedules against the real program', 'fault_enumeration', note='Signals raised between chunks or at any system call of the event loop, virtual clock, file size limits, full devices; every output file is parsed and the concatenation compared with what the clients sent.' + PROG + TRUST)
prop('C20', 'fstrm_capture enforces its connection limit and serves waiting clients',
 'With a connection limit of N, at most N clients are served at a time; further clients wait without receiving anything and are served in arrival order as soon as a served connection ends, however it ends (STOP, disconnect, reset, protocol error). No client is refused, lost or starved by the limit or by a passing failure to accept connections, and no slot is ever leaked; without a limit every client is served at once.',
 ['histories', 'schedules', 'configurations'], 'for every limit, number of clients and order of arrivals and departures',
 'No test uses the connection limit option.',
 ['src/fstrm_capture.c'], [('connection accounting', 'src/fstrm_capture.c cb_accept_conn, cb_close_conn, remaining_connections'), ('listener pausing', 'src/fstrm_capture.c evconnlistener_enable/disable')],
 PBT + ' (stateful, model-based)', note='A FIFO model of waiting and served clients is compared with the replies each client gets after every step.' + PROG + TRUST)
prop('C21', 'fstrm_dump renders and copies data faithfully',
 'For every file the dump program prints on standard output, for each data frame of the valid prefix in order, exactly one line holding the quoted payload rendered as documented (printable bytes verbatim, quotes escaped, all others as two-digit hex escapes), and on standard error the START frame, its content type, each frame length and the STOP frame, each only if present in the input. Given an output file it also writes a byte-identical data sequence with the same content type. It ends successfully exactly when the input is complete up to its STOP frame and all output could be written: truncated, malformed or missing input, and output that cannot be written completely, always end unsuccessfully, never in a crash.',
 ['inputs', 'fault_sequences'], 'for every frame list and any byte contents (frames up to the 1 MiB reader limit), for mutated and truncated files, for every way of supplying the input, and every offset at which the output fails',
 'The tests dump a single tiny hello file and grep for strings.',
 ['src/fstrm_dump.c', 'libmy/print_string.h'], [('rendering', 'src/fstrm_dump.c main, libmy/print_string.h'), ('copying', 'src/fstrm_dump.c main')],
 PBT + ' of the real program, with output faults', 'fault_enumeration', note='stdout, stderr, exit status and output file compared with an independent parser and renderer.' + PROG + TRUST)
prop('C22', 'fstrm_replay sends every frame of its input files unchanged',
 'For every list of input files, the replay program delivers to its TCP or UNIX-socket peer exactly the data frames of the valid prefixes of those files whose content type matches (or is absent), in order and once each, within one well-formed two-way session (READY and START with the given content type, data, STOP), skipping missing, foreign and malformed files, however many (no file stays open). It exits successfully exactly when the session was completed, i.e. the peer accepted the content type and confirmed the end with FINISH; to a peer that does not accept the type it sends no data.',
 ['inputs', 'configurations', 'schedules', 'fault_sequences'], 'for every file list, payloads, transport, and peer (pacing, piece sizes, wrong or malformed replies, leaving at any point)',
 'Tests replay one fixed file and compare counts.',
 ['src/fstrm_replay.c'], [('replay loop', 'src/fstrm_replay.c process_file, main'), ('session', 'fstrm/writer.c')],
 PBT + ' of the real program against scripted peers', 'fault_enumeration', note='Every byte the peer receives and the exit status are compared with the session the files and the peer call for; socket calls are shortened at random.' + PROG + TRUST)
prop('C24', 'Socket writers connect exactly to the configured address or refuse it',
 'A TCP or UNIX-socket writer opens a connection to exactly the address, port or path it was configured with, or refuses to initialise: no invalid, out-of-range or over-long address, port or path is silently altered or truncated into a different destination, and no valid one is refused.',
 ['inputs', 'configurations'], 'for every address, port and path string, including boundary lengths and malformed values',
 'Tests connect to one loopback address and one short path.',
 ['fstrm/tcp_writer.c', 'fstrm/unix_writer.c'], [('address parsing', 'fstrm/tcp_writer.c fstrm_tcp_writer_init'), ('path handling', 'fstrm/unix_writer.c fstrm_unix_writer_init')],
 PBT, note='connect() is interposed and its argument compared with an independent parse of the configured strings.' + TRUST)

prop('C25', 'The programs honour their documented command lines and refuse others',
 'fstrm_capture and fstrm_replay accept every combination of their documented options in any order and form (short or long, value as next argument or after an equals sign) with the documented effect of each, also when started again right after they ended (a socket or port used before is no obstacle), and refuse, with a message, unsuccessful exit status and no side effect (nothing served, connected to, written or removed), command lines with a mandatory option missing, exclusive options together, a required companion option missing, an unknown option, a missing value, a surplus argument, or an invalid port, address or path. No command line whatsoever makes them access memory out of bounds or hang.',
 ['inputs', 'configurations'], 'for every sequence of command-line arguments',
 'The test scripts use two or three fixed command lines and never a wrong one.',
 ['libmy/argv.c', 'src/fstrm_capture.c', 'src/fstrm_replay.c'], [('option parsing', 'libmy/argv.c do_list/do_arg/string_to_value'), ('validation', 'src/fstrm_capture.c parse_args, src/fstrm_replay.c parse_args')],
 PBT + ' of the real programs, and fuzzing of argument sequences', note='Accepted command lines are judged by their observed effect (address served, limits, file names, content type), refused ones by the absence of any.' + PROG + TRUST)
prop('C23', 'The parts compose: what is submitted is what every tool downstream shows',
 'Messages an application submits from any number of threads through I/O threads and socket writers to a running fstrm_capture, while its output is rotated by signal, are all found in the output files once each, unaltered and in their producer\'s order (those above the capture limit excepted, which disturb nothing); fstrm_dump accepts and copies each such file exactly; and fstrm_replay of the files into another fstrm_capture reproduces the same data frames in the same order. An orderly end (I/O threads destroyed, SIGTERM) loses nothing and every program ends successfully.',
 ['schedules', 'inputs', 'configurations'], 'for every producer and queue layout, message sizes, library settings, capture limit, transport, and placement of rotations in the traffic',
 'The shell tests chain the programs with identical messages from one example writer and compare counts.',
 ['fstrm/iothr.c', 'fstrm/unix_writer.c', 'fstrm/tcp_writer.c', 'src/fstrm_capture.c', 'src/fstrm_dump.c', 'src/fstrm_replay.c'], [('submission to socket', 'fstrm/iothr.c, fstrm/writer.c'), ('capture', 'src/fstrm_capture.c'), ('file tools', 'src/fstrm_dump.c, src/fstrm_replay.c, fstrm/reader.c')],
 PBT + ' end to end, over real threads, processes and sockets', note='What was submitted is compared with the parsed output files, the dump copies and the second capture\'s output.' + PROG + TRUST)
prop('C26', 'Distinct objects are independent of each other',
 'What an operation on one object (control frame, reader, writer, raw reader/writer, file, I/O thread, queue, option structure) returns and does never depends on what happens to other objects in between: interleaving the operations of several objects, in one thread or in one thread each with any schedule, gives each exactly the results and the bytes it gives alone. A failure of one object affects no other. No locking by the caller is needed between distinct objects.',
 ['histories', 'schedules'], 'for every set of objects, operation histories and interleaving, including switches in the middle of an operation',
 'Tests use one object at a time, or several identical ones whose results would not differ.',
 ['fstrm', 'libmy'], [('shared state', 'fstrm/*.c (any static storage)'), ('callback contexts', 'fstrm/rdwr.c')],
 PBT + ' (metamorphic: alone against interleaved, under a generated schedule)', note='Each actor\'s trace of results and transport bytes is recorded alone and interleaved, and must be equal.' + SIM + TRUST)
prop('C27', 'A failed read is never taken for the end of the data',
 'When the operating system or an application transport reports an error while a stream is being read, at whatever byte, the reader returns exactly the data frames that lie wholly before it and then failure, never end of stream, and never reports a STOP frame or data afterwards; fstrm_dump exits with failure. Reading that ends regularly before the error is not affected by it, and no file stays open.',
 ['fault_sequences', 'inputs'], 'for every stream and every byte offset and kind of read error',
 'Tests read only intact files.',
 ['fstrm/file.c', 'fstrm/reader.c', 'src/fstrm_dump.c'], [('error or end of file', 'fstrm/file.c fstrm__file_op_read'), ('reader failure', 'fstrm/reader.c fstrm__reader_next_data')],
 'fault-injecting property-based testing (failing offset enumeration)', 'fault_enumeration', note='The stream cut off at the failing offset, parsed independently, gives what must be returned before the failure.' + TRUST)
prop('C28', 'Settings are copied and ownership passes exactly when creation succeeds',
 'Creating a reader, writer, file or socket writer or I/O thread succeeds exactly when its required parts are there (read or write method, path, address and port); it then takes over the transport or writer handed to it (setting the caller\'s pointer to NULL) and copies every setting, so that changing, reusing or destroying the option objects afterwards has no effect on it, and NULL options mean the defaults. A refused creation takes nothing, calls nothing and leaks nothing, and can be repeated once the missing part is there. Every destroy function accepts NULL, sets the pointer to NULL, and calls a transport\'s optional destroy method exactly once.',
 ['histories'], 'for every history of option, transport and object calls',
 'Tests create each object once from fresh options with all parts present.',
 ['fstrm/writer.c', 'fstrm/reader.c', 'fstrm/rdwr.c', 'fstrm/file.c', 'fstrm/tcp_writer.c', 'fstrm/unix_writer.c', 'fstrm/iothr.c'], [('options copied', 'fstrm/writer.c fstrm_writer_init'), ('required method', 'fstrm/reader.c fstrm_reader_init'), ('destroy', 'fstrm/rdwr.c fstrm_rdwr_destroy')],
 'stateful model-based property-based testing', 'exploration', note='A model remembers the settings at creation; each object is then used to observe the settings it has.' + TRUST)
prop('C29', 'A transport object invokes the methods it was given, only while open',
 'Each operation on a transport object invokes exactly the method of that name most recently set for it, once, with the state object given at creation and the caller\'s buffers, and returns its result; a missing method means failure. Reads and writes reach the methods only between a successful open and the next close; outside they fail without touching anything. A read or write whose method does not succeed closes the transport (the close method is invoked once, the result is still that of the read or write), so that later reads, writes and closes reach no method until it is opened again. A failed open leaves it closed; closing a closed transport succeeds without effect. Destroying invokes the optional destroy method exactly once, returns its result, sets the pointer to NULL and leaks nothing; destroying NULL has no effect.',
 ['histories', 'fault_sequences'], 'for every history of transport operations, sets of methods and results of the methods',
 'Tests never use a transport object directly, nor one whose methods fail.',
 ['fstrm/rdwr.c'], [('closing after a failure', 'fstrm/rdwr.c fstrm_rdwr_read, fstrm_rdwr_write'), ('state', 'fstrm/rdwr.c fstrm_rdwr_open, fstrm_rdwr_close')],
 'stateful model-based property-based testing', 'exploration', note='A model predicts the methods invoked, their arguments and every result.' + TRUST)
