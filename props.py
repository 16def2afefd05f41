"""The properties: text (properties.jsonl is generated from it by gen.py) and what decides each of them."""

PROPS = {}
NOT_APPLICABLE = {}

TECH = 'contracts on the real functions; weakest-precondition obligations from the clang AST, discharged by z3; native witness search for failed obligations'
TECHB = 'contracts with a bounded native stand-in for functions out of the verifier\'s reach'


def P(pid, title, statement, over, text, why, files, mech, state=None, observe=None, **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state or [], observe=observe or [], **kw)


P('C01', 'Socket reads deliver exactly the next requested bytes, in order',
  'A blocking read of n bytes from a connection consumes at most n bytes, stores them contiguously and in order, and reports success exactly when all n arrived, however the peer or the kernel fragments or interrupts the transfer. '
  'A partial read additionally reports how many bytes it obtained; a closed connection is never reported as a timeout, and a message cut short by a timeout is never mistaken for an idle connection.',
  ['inputs', 'fault_sequences', 'schedules'],
  'every length, every fragmentation of the stream, every interruption, timeout, error or close at any byte',
  'The tests run over loopback, where a short read, an interrupted call or a failure at a chosen byte practically never happens.',
  ['src/tcp_utils.c'],
  [dict(name='loop that asks for the missing tail', where='src/tcp_utils.c: tcp_utils_read_data_partially'), dict(name='exact read on top of it', where='src/tcp_utils.c: tcp_utils_read_data')],
  observe=['bytes of the buffer', 'return value', 'position of the stream'],
  funcs=[('net', 'tcp_utils_read_data_partially'), ('net', 'tcp_utils_read_data')], witness=['w_tcp'],
  note='Proved for all lengths and all behaviours of recv; recv itself is modelled (at most n bytes, in stream order).')

P('C02', 'Socket writes put exactly the given bytes on the wire, in order, once',
  'Writing a buffer to a connection reports success only when every byte of it went out, in order and without duplication or gaps, however the kernel splits the transfer; on failure what went out is a prefix of the buffer and the failure is reported.',
  ['inputs', 'fault_sequences'],
  'every buffer and every sequence of short writes and failures',
  'Loopback sockets with large buffers accept everything at once; short writes under back-pressure are not exercised.',
  ['src/tcp_utils.c'],
  [dict(name='loop over the unsent tail', where='src/tcp_utils.c: tcp_utils_write_data')],
  observe=['bytes on the wire', 'return value'],
  funcs=[('net', 'tcp_utils_write_data')], witness=['w_tcp'],
  note='Proved for all lengths and all behaviours of write/send; the system call is modelled.')

QF = ['src/queue.c']
P('C05', 'The sample hand-over queue delivers accepted blocks in order, unchanged',
  'Between one producer and one consumer, every block the queue accepted is handed to the consumer exactly once, in acceptance order, with exactly the samples and the length it had when it was accepted, and a block that does not fit is rejected as a whole. '
  'This holds for every interleaving of producer, consumer and shutdown.',
  ['schedules', 'histories', 'inputs'],
  'every queue capacity, block length, and interleaving of put, take, complete and interrupt',
  'The tests use a handful of sequential calls; the interleavings at lock boundaries and around wake-ups are never enumerated.',
  QF, [dict(name='free and filled chains under one mutex', where='src/queue.c: queue_put, take_buffer_for_processing, complete_buffer_processing')],
  state=[dict(name='first_filled_node .. last_filled_node', meaning='accepted, not yet taken blocks in order', where='src/queue.c')],
  observe=['blocks returned to the consumer'],
  funcs=[('queue', 'queue_put'), ('queue', 'take_buffer_for_processing'), ('queue', 'complete_buffer_processing'), ('queue', 'interrupt_waiting_the_data')],
  witness=['w_queue'],
  note='The lock invariant (chains, contents, lengths) is proved to be kept by every operation for every interleaving at the lock; mutex and condition variable are modelled by havoc of the lock-protected state.')

P('C06', 'Queue overload, blocking and shutdown never lose a wake-up or hang',
  'A blocking queue makes the producer wait and never drops a block; a non-blocking queue that is full overwrites only blocks not yet handed out, in the documented way, and keeps everything else. '
  'After shutdown both sides return promptly, accepted data that is still waiting is delivered first, and no wake-up needed by a waiting side is ever lost.',
  ['schedules', 'histories'],
  'every interleaving of put, take, complete and interrupt with every fill level',
  'A lost wake-up needs a particular interleaving; the tests run producer and consumer in sequence.',
  QF, [dict(name='wait loops re-checking their condition under the mutex; signal on every transition', where='src/queue.c')],
  observe=['return of the blocked calls', 'blocks delivered'],
  funcs=[('queue', 'queue_put'), ('queue', 'take_buffer_for_processing'), ('queue', 'complete_buffer_processing'), ('queue', 'interrupt_waiting_the_data')],
  witness=['w_queue'],
  note='Wait conditions and signals are proof obligations (the consumer is woken after every accepted block and on interruption, the producer after every completion).')

P('C07', 'The block being processed is never touched by the producer; nothing leaks',
  'From the moment a block is handed to the consumer until it is given back, the producer changes neither its samples nor its length, and every block buffer is at all times in exactly one place. '
  'Destroying a queue in any state releases everything it allocated exactly once.',
  ['schedules', 'histories'],
  'every interleaving and every history of operations before destruction',
  'Needs the producer to run while the consumer processes, on a full queue; tests do not overlap them.',
  QF, [dict(name='detached node', where='src/queue.c: take_buffer_for_processing, complete_buffer_processing'), dict(name='destruction of all three places', where='src/queue.c: destroy_queue')],
  observe=['samples seen by the consumer', 'allocations still live'],
  funcs=[('queue', 'queue_put'), ('queue', 'take_buffer_for_processing'), ('queue', 'complete_buffer_processing'), ('queuec', 'create_queue'), ('queuec', 'destroy_nodes'), ('queuec', 'destroy_queue')],
  witness=['w_queue'], always=['w_queue'],
  note='Isolation, conservation, construction (it establishes the lock invariant the operations keep, or gives everything back) and destruction (from any state of that invariant everything is released once) are proved.')

P('C08', 'The registry list keeps exactly the members that were not removed',
  'Adding, removing and iterating the list of active streams keeps every other member, in order of addition, exactly once; a removed member is destroyed exactly once, and destroying the list destroys each remaining member exactly once. '
  'A failed addition leaves the list as it was and does not destroy the caller\'s object.',
  ['histories', 'inputs', 'fault_sequences'],
  'every sequence of additions, selective removals, iterations and destruction, of any length, with allocation failures',
  'Tests remove from a list of a few elements; positions (head, middle, tail, all, repeated) and allocation failures are not covered.',
  ['src/linked_list.c'],
  [dict(name='singly linked list with selector and destructor callbacks', where='src/linked_list.c')],
  observe=['members seen by iteration', 'calls of the destructor'],
  funcs=[('llist', 'linked_list_find'), ('llist', 'linked_list_foreach'), ('llist', 'linked_list_add'), ('llist', 'linked_list_remove_by_id'), ('llist', 'linked_list_destroy_by_id'), ('llist', 'linked_list_destroy_by_selector'), ('llist', 'linked_list_destroy')], witness=['w_list'], always=['w_list'],
  note='Every function of the list is proved for lists of any length against a ghost sequence of members; the callbacks are modelled by what they may touch. The native search is added on top.')

SRVF = ['src/tcp_server.c', 'src/api_utils.c']
P('C03', 'Messages are framed and answered exactly as the protocol says',
  'Every message is taken from the connection as a six byte header (version, type, length in network order) followed by exactly that many body bytes, and what is parsed is exactly those bytes; an oversized length is refused before anything is read. '
  'Every response goes out as one complete frame of the same layout, carries the status and details the server decided on and, on success, the id of the connection; malformed, unsupported or early messages get the documented error.',
  ['inputs', 'histories', 'fault_sequences'],
  'every header, length, body, fragmentation, pipelining and failure of the connection, and every sequence of messages',
  'Tests send a few well-formed messages in one piece; lengths near the limit, truncated bodies, unknown versions and pipelined messages are infinite in number.',
  ['src/api_utils.c', 'src/tcp_server.c', 'src/api.h'],
  [dict(name='header and body readers', where='src/api_utils.c: api_utils_read_header, api_utils_read_*'), dict(name='response writer', where='src/api_utils.c: api_utils_write_response'),
   dict(name='per client loops', where='src/tcp_server.c: acceptor_worker, tcp_worker')],
  observe=['bytes on the wire', 'position of the stream', 'status and details of the response'],
  funcs=[('api', 'api_utils_read_header'), ('api', 'api_utils_read_tx_data'), ('api', 'api_utils_read_tx_request'), ('api', 'api_utils_read_rx_request'), ('api', 'api_utils_write_response')],
  witness=['w_server'], always=['w_server'],
  note='Framing is proved for every length and stream; the dispatch loops of the server around it are searched natively (bounded). Protobuf is external.')

P('C04', 'A request is accepted only if it is complete and supported',
  'A receive or transmit request is accepted exactly when every mandatory field is present and supported by the configured hardware, and otherwise it is refused with the invalid-request answer before any device, file or worker is opened. '
  'Accepting never depends on the order of requests or on other clients.',
  ['inputs', 'histories'],
  'every combination of present, missing, zero and out-of-range fields under every server configuration',
  'The tests flip one field at a time; combinations (file device without file settings, doppler with two lines, decimation above 255, no modulation settings) are not covered.',
  ['src/tcp_server.c'],
  [dict(name='request validation', where='src/tcp_server.c: validate_rx_request, validate_tx_request')],
  observe=['status and details of the response', 'devices opened'],
  funcs=[('server', 'validate_rx_request'), ('server', 'validate_tx_request')],
  witness=['w_server'], always=['w_server'],
  note='The acceptance conditions are proved as an equivalence; that nothing is opened for a refused request is searched natively (bounded).')

P('C11', 'A transmission is reported successful only if everything was sent in order',
  'Each transmit-data message gets exactly one response; it reports success if and only if every byte was modulated by the modulator of that client, passed through the requested doppler and frequency corrections once, in that order, and accepted by the device, batch by batch in order. '
  'After a failure nothing more of the message is transmitted and the failure is reported; the optional dump file holds exactly what was given to the device.',
  ['inputs', 'histories', 'fault_sequences'],
  'every message length and batch size, every combination of corrections, and a failure at any batch',
  'Tests transmit one short message; partial failures, batch boundaries and combinations of corrections are not covered.',
  SRVF + ['src/tcp_server.h'],
  [dict(name='batched transmit pipeline', where='src/tcp_server.c: handle_tx_data'), dict(name='set-up of the pipeline', where='src/tcp_server.c: tcp_server_init_tx_device and handle_tx_client')],
  observe=['samples given to the device', 'dump file', 'responses'],
  funcs=[('server', 'handle_tx_data'), ('server', 'tcp_worker_is_txing'), ('api', 'api_utils_read_tx_data'), ('api', 'api_utils_write_response')],
  witness=['w_server'], always=['w_server'],
  note='handle_tx_data is proved for every message; modulator, corrections and device are models here (they have properties of their own). The set-up of the pipeline is searched natively (bounded).')

P('C12', 'The transmitter is exclusive; receivers share a device only when compatible',
  'At any time at most one client owns the transmitter, and a second one is told so; receive streams share one device connection only if their centre frequency, rate and offset can be served by it, and a Pluto receiver is never opened twice. '
  'Each device is opened with exactly the parameters of the request, is released when its last user is gone, and is then available again.',
  ['schedules', 'histories', 'fault_sequences'],
  'every sequence and overlap of connecting, failing and disconnecting clients',
  'Needs overlapping clients that fail or leave at a particular moment; tests connect one or two clients in a fixed order.',
  ['src/tcp_server.c', 'src/sdr_worker.c'],
  [dict(name='registry of clients under one mutex', where='src/tcp_server.c: handle_tx_client, handle_rx_client, tcp_worker_is_txing, tcp_worker_is_rxing'), dict(name='compatibility of streams', where='src/sdr_worker.c: sdr_worker_find_closest')],
  observe=['devices open', 'parameters they were opened with', 'responses'],
  funcs=[('server', 'tcp_worker_is_txing'), ('server', 'tcp_worker_is_rxing'), ('server', 'tcp_worker_convert'), ('sdrw', 'sdr_worker_find_closest'), ('sdrw', 'sdr_worker_create'), ('sdrw', 'sdr_worker_destroy_by_dsp_worker_id'), ('sdrw', 'sdr_worker_destroy')],
  witness=['w_server'], always=['w_server'], level='exploration',
  note='bounded: the whole server runs under a deterministic scheduler with scripted clients and recording devices; the registry predicates and the parameter conversion are proved')

P('C13', 'Every connection is answered, closed once and leaves nothing behind',
  'Every accepted connection is closed exactly once, whatever the client sends, whenever it leaves and whatever fails inside the server; its thread ends and is joined, and everything allocated for it is released exactly once. '
  'Stopping the server ends every client and the server itself; a server that cannot start reports it and keeps nothing.',
  ['schedules', 'histories', 'fault_sequences'],
  'every history of clients, every failing allocation, thread or socket operation, and shutdown at any time',
  'Tests stop the server with a connected client once; leaving or failing at other moments is not covered.',
  ['src/tcp_server.c'],
  [dict(name='life cycle of a client', where='src/tcp_server.c: acceptor_worker, tcp_worker, tcp_worker_destroy, cleanup_terminated_threads, tcp_server_join_thread')],
  observe=['close calls per socket', 'allocations still live', 'threads joined'],
  funcs=[('server', 'tcp_worker_is_stopped')],
  witness=['w_server'], always=['w_server'], level='exploration',
  note='bounded: the whole server runs under a deterministic scheduler with scripted clients, failing allocations, threads and sockets')

P('C14', 'Filtering a stream equals filtering it whole, decimated, whatever the blocks',
  'A low pass or FIR filter fed with a stream in blocks of any sizes up to the announced maximum produces exactly the convolution of the whole stream with its taps, sampled at every decimation-th input, each output once and in order: block boundaries are invisible. '
  'The generated low pass taps are symmetric, have unit gain at zero frequency and the documented length; unusable parameters are refused, and a block beyond the maximum yields nothing and does not disturb the stream.',
  ['inputs', 'histories'],
  'every filter length, decimation, maximum, real or complex stream and division of it into blocks',
  'Tests feed one or two blocks of one size; history carried over block boundaries depends on every residue of block length against decimation and filter length.',
  ['src/dsp/fir_filter.c', 'src/dsp/lpf.c', 'src/dsp/lpf_taps.c'],
  [dict(name='working buffer with history and aligned taps', where='src/dsp/fir_filter.c: fir_filter_process_*'), dict(name='windowed sinc taps', where='src/dsp/lpf_taps.c: create_low_pass_filter')],
  state=[dict(name='working_buffer[0 .. history_offset)', meaning='the samples of earlier blocks that later outputs still need', where='src/dsp/fir_filter.c')],
  observe=['number and values of the outputs'],
  funcs=[('firc', 'fir_filter_process_complex'), ('firc', 'fir_filter_process'), ('firc', 'lpf_process'), ('firf', 'fir_filter_process_float'), ('firf', 'fir_filter_process'), ('firf', 'lpf_process'), ('ctor', 'create_aligned_taps'), ('ctor', 'fir_filter_create'), ('ctor', 'lpf_create')], always=['w_dsp'], level='exploration',
  note='Proved for all taps, decimations, blocks and histories: output k is the dot product (uninterpreted, as the VOLK kernel computes it) of the taps with the window at input k times decimation of the whole stream, the history keeps what later outputs need, and every access is inside the buffers. The constructors are proved to establish that state (reversed taps, empty history, buffers of the announced size) and to refuse unusable parameters. Bounded: the values of the low pass taps and the arithmetic of the kernel.')

P('C15', 'Demodulation does not depend on how the stream is cut into blocks',
  'Every stage of the FSK demodulator, and the demodulator as a whole, produces for a stream cut into blocks of any sizes the same soft bits as its definition gives for the whole stream: conjugate product phase times gain, block-average removal, Mueller-Muller clock recovery with its interpolator, and saturation to signed bytes. '
  'It reads and writes only inside its buffers for any block up to the maximum, and whatever the modulator sent comes back as the same bits.',
  ['inputs', 'histories'],
  'every parameter set, stream and division into blocks',
  'Tests compare one recorded stream with a few block sizes; state carried between blocks and buffer bounds for other rates and sizes are not covered.',
  ['src/dsp/fsk_demod.c', 'src/dsp/clock_recovery_mm.c', 'src/dsp/mmse_fir_interpolator.c', 'src/dsp/quadrature_demod.c', 'src/dsp/dc_blocker.c', 'src/math/fast_atan2f.c'],
  [dict(name='chain of stages', where='src/dsp/fsk_demod.c: fsk_demod_process'), dict(name='clock recovery with kept tail', where='src/dsp/clock_recovery_mm.c: clock_mm_process')],
  observe=['soft bits', 'memory accesses'],
  funcs=[], always=['w_demod', 'w_dsp'], level='exploration',
  note='bounded: generated streams and divisions against reference implementations of every stage; composition of the stages is compared exactly')

P('C16', 'GFSK modulation is a continuous, block-independent function of the bits',
  'The modulator turns every byte, most significant bit first, into eight times the samples per symbol samples of constant amplitude whose phase is the running sum of the bits shaped by a unit gain Gaussian pulse: the same for the stream in one block or many, continuous at block boundaries. '
  'A block beyond the maximum yields nothing; unsupported samples per symbol are refused.',
  ['inputs', 'histories'],
  'every byte stream, samples per symbol, sensitivity, maximum and division into blocks',
  'Tests modulate one short message in one block.',
  ['src/dsp/gfsk_mod.c', 'src/dsp/gaussian_taps.c', 'src/dsp/frequency_modulator.c'],
  [dict(name='unpacking, interpolation and frequency modulation', where='src/dsp/gfsk_mod.c: gfsk_mod_process'), dict(name='phase accumulator', where='src/dsp/frequency_modulator.c: frequency_modulator_process'), dict(name='pulse', where='src/dsp/gaussian_taps.c')],
  observe=['samples'],
  funcs=[('sig', 'frequency_modulator_process'), ('ctor', 'frequency_modulator_create'), ('ctor', 'gaussian_taps_create'), ('ctor', 'gfsk_mod_convolve')], always=['w_dsp'], level='exploration',
  note='The frequency modulator (phase, continuity, length) and its construction are proved; pulse shaping and the composition are bounded: generated messages and divisions against a double precision modulator')

P('C17', 'Doppler correction follows the satellite, continuous in phase, second by second',
  'Every sample is shifted by the Doppler frequency the orbit model predicts for the time of that sample (counted from the requested start in samples, linear within each second) plus the configured offset, downwards for transmission and upwards for reception, with continuous phase and unchanged amplitude. '
  'The result does not depend on the block sizes, the orbit is asked once per second of signal, and a block beyond the maximum yields nothing.',
  ['inputs', 'histories'],
  'every orbit, station, centre frequency, rate, offset, start time and division of the stream into blocks',
  'Tests compare one pass of one satellite fed in one block size.',
  ['src/dsp/doppler.c'],
  [dict(name='per second frequency with linear interpolation', where='src/dsp/doppler.c: doppler_process_*'), dict(name='oscillator', where='src/dsp/sig_source.c')],
  observe=['frequency and phase of every sample', 'times asked from the orbit model'],
  funcs=[('sig', 'sig_source_multiply'), ('sig', 'sig_source_process'), ('ctor', 'doppler_create')], always=['w_orbit'], level='exploration',
  note='The oscillator and the construction of the corrector are proved; bounded: the orbit model is replaced by a scripted range rate; generated streams and divisions are checked sample by sample with a tolerance of the slope over two blocks. Accuracy of SGP4/SDP4 itself is not claimed.')

P('C18', 'Frequency shifting multiplies by one continuous oscillator',
  'Successive blocks are multiplied by an oscillator of the requested amplitude whose phase advances by 2*pi*f/fs per sample with the frequency requested for each block and never jumps, whatever the blocks and however the frequency changes; block count and order are unchanged. '
  'A block beyond the announced maximum yields nothing and leaves the phase.',
  ['inputs', 'histories'],
  'every rate, sequence of frequencies (negative, zero, beyond the rate) and block sizes',
  'Tests use one frequency and one block.',
  ['src/dsp/sig_source.c'],
  [dict(name='phase accumulator', where='src/dsp/sig_source.c: sig_source_process, sig_source_multiply')],
  observe=['samples'],
  funcs=[('sig', 'sig_source_process'), ('sig', 'sig_source_multiply')], witness=['w_dsp'], always=['w_dsp'],
  note='Proved over exact real arithmetic (no rounding): every sample is amplitude times the input turned by one oscillator whose angle continues from block to block. Rounding is covered by the bounded native search against a double precision oscillator.')

P('C19', 'Interpolation equals zero stuffing and convolution of the whole stream',
  'The interpolating filter produces exactly interpolation-many outputs per input, equal to the convolution of the zero-stuffed whole stream with the taps, for any number of taps (multiple of the factor or not) and any division of the stream into blocks. '
  'A block beyond the announced maximum yields nothing and does not disturb the stream.',
  ['inputs', 'histories'],
  'every tap count, interpolation factor, maximum, stream and division into blocks',
  'Tests use one tap count that is a multiple of the factor and few blocks.',
  ['src/dsp/interp_fir_filter.c', 'src/dsp/fir_filter.c'],
  [dict(name='polyphase bank', where='src/dsp/interp_fir_filter.c')],
  observe=['number and values of the outputs'],
  funcs=[], always=['w_dsp'], level='exploration',
  note='bounded: generated filters, streams and divisions against a double precision convolution')

P('C21', 'Orbital elements are accepted only if valid and converted faithfully',
  'Two-line elements are accepted exactly when both lines have valid characters and checksums, belong to the same satellite and have the required fixed characters; every accepted field is converted to the value the text denotes, in the units the model expects, with the name trimmed. '
  'The three lines of a request reach the parser separately, terminated and truncated to their fixed width, whatever their length in the request.',
  ['inputs'],
  'every three lines of text of any length and content',
  'Tests parse a few real element sets; rejected characters, checksums and odd fields are endless.',
  ['src/sgpsdp/sgp_in.c', 'src/api_utils.c'],
  [dict(name='checks and conversion', where='src/sgpsdp/sgp_in.c: Good_Elements, Convert_Satellite_Data, Get_Next_Tle_Set'), dict(name='copy from the request', where='src/api_utils.c: convert_tle')],
  observe=['accepted or not', 'values of the element set'],
  funcs=[('api', 'api_utils_convert_tle')], always=['w_orbit', 'w_server'], level='exploration',
  note='bounded: generated and mutated element sets against an independent parser; the copy from the request is proved')

P('C22', 'Calendar and Julian date functions agree with the civil calendar',
  'For every instant of the two-digit-year range of element sets (1957 to 2056) the conversions between civil date and time, day of year, Julian date and element epoch agree with the Gregorian calendar and invert each other to the second; every leap year, year end and midnight included.',
  ['inputs'],
  'every second of 1957 to 2056',
  'Tests check a few dates.',
  ['src/sgpsdp/sgp_time.c'],
  [dict(name='calendar arithmetic', where='src/sgpsdp/sgp_time.c')],
  observe=['converted dates'],
  funcs=[], always=['w_orbit'], level='exploration',
  note='bounded: generated instants, biased to midnights, month and year ends, against the C library calendar')

P('C09', 'Every attached receiver gets every block of the device, in order, once',
  'One device stream is shared by all receivers that asked for the same frequency: from the moment a receiver is attached until it is detached or stopped, every block the device produced is offered to it exactly once, in order and unchanged, independently of other receivers attaching and detaching. '
  'When the device ends, each receiver still attached finishes the blocks it accepted, is stopped and told so; attaching and detaching never lose another receiver.',
  ['inputs', 'schedules', 'histories'],
  'every interleaving of the device thread with receivers attaching, detaching and stopping',
  'Tests run one or two receivers on one benign schedule.',
  ['src/sdr_worker.c', 'src/dsp_worker.c'],
  [dict(name='fan-out to the list under the mutex', where='src/sdr_worker.c: sdr_worker_callback'), dict(name='attach and detach', where='src/sdr_worker.c: sdr_worker_add_dsp_worker, sdr_worker_destroy_by_dsp_worker_id')],
  state=[dict(name='dsp_workers', meaning='the receivers attached to the device, each once', where='src/sdr_worker.c')],
  observe=['blocks offered to every receiver', 'receivers destroyed'],
  funcs=[('sdrw', 'sdr_worker_callback'), ('sdrw', 'sdr_worker_foreach_put'), ('sdrw', 'sdr_worker_add_dsp_worker'), ('sdrw', 'sdr_worker_destroy_by_dsp_worker_id'), ('sdrw', 'sdr_worker_destroy'), ('dspw', 'dsp_worker_put'), ('dspw', 'dsp_worker_find_by_id'), ('dspw', 'dsp_worker_shutdown')],
  witness=['w_rx'], always=['w_rx'],
  note='Proved for every behaviour of the device and every interleaving at the mutex: each block the device returns is offered under the lock exactly once before the next is read, only the end of the device ends the thread, the receivers are then told once, and attaching and detaching change the list under the same lock. The list itself is proved in C08. Thread interleavings with recording stand-ins are searched natively on top.')

P('C10', 'A receiver turns every accepted block into the outputs its client asked for',
  'Each block taken from the queue is, in order and exactly once, written to the raw dump when requested, corrected for Doppler when requested, demodulated, and the soft bits go completely to the file or the socket (or both) the client asked for, nothing else to either. '
  'A failing dump or destination ends that receiver only, and releases its files, queue and thread once.',
  ['inputs', 'schedules', 'fault_sequences'],
  'every combination of requested outputs, block sizes and failure of a write at any byte',
  'Tests check one request with one file or socket and no failures.',
  ['src/dsp_worker.c'],
  [dict(name='processing loop', where='src/dsp_worker.c: dsp_worker_callback'), dict(name='construction per request', where='src/dsp_worker.c: dsp_worker_create')],
  observe=['bytes of the dump, the file and the socket'],
  funcs=[('dspw', 'dsp_worker_callback'), ('dspw', 'dsp_worker_create'), ('dspw', 'dsp_worker_destroy')], witness=['w_rx'], always=['w_rx'],
  note='Proved for every request, block and failing write: what each output is given, in which order, that a failure ends the worker and gives the block back, that construction follows the request and a failed construction releases everything. Doppler, demodulator, fwrite and fopen are models (names of files are searched natively only).')

P('C20', 'The configuration file means what it says',
  'A configuration file that parses yields exactly the values written in it, with the documented default for every setting that is absent and nothing taken from another setting; '
  'an unreadable file, an unknown device type, a text setting that is not text or a read timeout that is not positive is refused without leaving anything allocated, and the Pluto library is loaded exactly when a Pluto device is configured.',
  ['inputs'],
  'every combination of present, absent and invalid settings',
  'Tests load one full, one minimal and a few invalid files.',
  ['src/server_config.c'],
  [dict(name='lookup with defaults', where='src/server_config.c: server_config_create')],
  observe=['fields of the configuration', 'return value', 'allocations'],
  funcs=[('config', 'server_config_create'), ('config', 'server_config_destroy'), ('config', 'read_and_copy_str'), ('config', 'iio_lib_create'), ('config', 'iio_lib_destroy'), ('config', 'iio_lib_dlsym')], always=['w_config'], level='proof',
  note='libconfig, the loader of libraries and the string functions of libc are models; numbers outside of the range of their field wrap; the harness runs the real parser on generated files')

P('C23', 'A Pluto device is set up as requested and carries every sample',
  'A created device is tuned to the requested frequency, rate, bandwidth and gain in its direction, with the hardware filter and decimation the rate needs (rates below 520834 refused), test tones off before transmitting and the transmitter powered down when only receiving. '
  'Transmitted samples are scaled to 16 bit and pushed once, in order, in batches that fit the buffer, a failed push is reported; received samples are scaled by 1/2048. When any step fails nothing stays allocated, and the shared context lives until the last device is destroyed.',
  ['inputs', 'fault_sequences', 'histories'],
  'every configuration, failure of every driver call, and order of creation and destruction of devices',
  'The test mock ignores every setting and never fails.',
  ['src/sdr/plutosdr.c'],
  [dict(name='set up', where='src/sdr/plutosdr.c: plutosdr_create, plutosdr_setup_fir_filter, plutosdr_configure_streaming_channel'), dict(name='batches', where='src/sdr/plutosdr.c: plutosdr_process_tx'), dict(name='shared context', where='src/sdr/plutosdr.c: global_iio_ctx_usages')],
  state=[dict(name='global_iio_ctx_usages', meaning='number of devices that use the shared context', where='src/sdr/plutosdr.c')],
  observe=['attributes written', 'samples pushed and returned', 'contexts, buffers and allocations left'],
  funcs=[('pluto', 'plutosdr_process_tx'), ('pluto', 'plutosdr_process_rx'), ('pluto', 'plutosdr_select_fir_filter_config')], always=['w_pluto'], level='exploration',
  note='the sample paths and the choice of the filter are proved; set up and release bounded: generated configurations, sequences and failing calls on a simulated device behind the libiio call table')

P('C24', 'The sdr server client requests the right stream and returns it unbroken',
  'The client sends one well-formed request with the requested frequency, rate and band, accepts only a success response of the expected version and type, and then returns the samples of the stream in order, whole, in blocks up to the maximum, whatever the fragmentation and read timeouts on the way. '
  'Rejection, a malformed answer, the end of the stream and being stopped are reported, and the connection and memory are released once.',
  ['inputs', 'fault_sequences', 'schedules'],
  'every fragmentation, timeout and end of the connection at any byte, every answer, and stopping at any point',
  'Tests use a loopback server that sends whole blocks.',
  ['src/sdr/sdr_server_client.c', 'src/tcp_utils.c'],
  [dict(name='request and response', where='src/sdr/sdr_server_client.c: sdr_server_client_create'), dict(name='sample alignment', where='src/sdr/sdr_server_client.c: sdr_server_client_read_stream')],
  observe=['bytes sent', 'samples returned', 'sockets closed'],
  funcs=[('client', 'sdr_server_client_read_stream'), ('net', 'tcp_utils_read_data_partially'), ('net', 'tcp_utils_read_data'), ('net', 'tcp_utils_write_data')], always=['w_client'], level='exploration',
  note='bounded: a scripted server and network; the socket transfers are proved')

P('C25', 'The file device replays and records samples exactly',
  'Reading yields exactly the whole samples of the file in order, in blocks up to the maximum, shifted by the configured offset with continuous phase; at the end of the file it waits until it is stopped and then reports the end, an error is reported at once. '
  'Writing appends exactly the given samples, shifted likewise, to the file and reports failures; both files are closed once.',
  ['inputs', 'histories', 'schedules'],
  'every file length (also inside a sample), block size, offset and moment of stopping',
  'Tests read one short file with one block size.',
  ['src/sdr/file_source.c', 'src/dsp/sig_source.c'],
  [dict(name='read, shift and wait at the end', where='src/sdr/file_source.c: file_source_process_rx'), dict(name='shift and write', where='src/sdr/file_source.c: file_source_process_tx')],
  observe=['samples returned', 'bytes of the file'],
  funcs=[('filedev', 'file_source_process_rx'), ('filedev', 'file_source_process_tx'), ('filedev', 'file_source_stop'), ('ctor', 'file_source_create'), ('ctor', 'file_source_destroy')], witness=['w_file'], always=['w_file'],
  note='Reading, writing and stopping are proved for every file, block and schedule at the mutex (fread, fwrite and ferror are modelled; arithmetic of the oscillator over exact reals), and so are construction and destruction (files are opened and closed exactly once). Rounding is covered by the bounded native search.')

P('C26', 'A constructor that fails leaves nothing behind',
  'When memory, a file, a thread or a library is not available, every constructor of the system returns an error, releases everything it had obtained exactly once and nothing it was not given, and leaves the process able to create the same object afterwards, which then works as if nothing had happened. '
  'Every destructor releases exactly what its constructor obtained.',
  ['fault_sequences', 'inputs'],
  'the failure of every single allocation of every constructor, for every parameter set',
  'Tests never run out of memory.',
  ['src/dsp/fir_filter.c', 'src/dsp/interp_fir_filter.c', 'src/dsp/gfsk_mod.c', 'src/dsp/fsk_demod.c', 'src/dsp/doppler.c', 'src/queue.c', 'src/linked_list.c', 'src/sdr/iio_lib.c', 'src/sdr/plutosdr.c', 'src/sdr/file_source.c', 'src/sdr/sdr_server_client.c', 'src/server_config.c'],
  [dict(name='construct, and destroy on the first error', where='src/dsp/*.c: *_create, *_destroy')],
  observe=['return value', 'allocations left'],
  funcs=[('config', 'server_config_create'), ('config', 'server_config_destroy'), ('config', 'read_and_copy_str'), ('config', 'iio_lib_create'), ('config', 'iio_lib_destroy'),
         ('ctor', 'sig_source_create'), ('ctor', 'sig_source_destroy'), ('ctor', 'frequency_modulator_create'), ('ctor', 'frequency_modulator_destroy'), ('ctor', 'quadrature_demod_create'), ('ctor', 'quadrature_demod_destroy'), ('ctor', 'moving_average_create'), ('ctor', 'moving_average_destroy'), ('ctor', 'dc_blocker_create'), ('ctor', 'dc_blocker_destroy'),
         ('ctor', 'create_hamming_window'), ('ctor', 'create_low_pass_filter'), ('ctor', 'gaussian_taps_create'), ('ctor', 'gfsk_mod_convolve'), ('ctor', 'create_aligned_taps'), ('ctor', 'fir_filter_create'), ('ctor', 'fir_filter_destroy'), ('ctor', 'lpf_create'), ('ctor', 'lpf_destroy'), ('ctor', 'doppler_create'), ('ctor', 'doppler_destroy'), ('ctor', 'file_source_create'), ('ctor', 'file_source_destroy'),
         ('queuec', 'create_queue'), ('queuec', 'destroy_nodes'), ('queuec', 'destroy_queue')], always=['w_oom', 'w_file', 'w_client', 'w_pluto', 'w_config'], level='exploration',
  note='Proved for the constructors and destructors under contract, for all parameters and every pattern of failing allocations; the remaining ones (clock recovery, demodulator, interpolating filter, modulator, workers, server, devices) are bounded: every allocation fails once for generated parameters')
