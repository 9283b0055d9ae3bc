"""The properties, in the words of properties.jsonl, plus what MANIFEST.json says about them."""
S = 'src/sofa/pbrpc/'
PROPS = []


def P(id, title, statement, over, for_all, why, files, mechanism, level_note='', observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, why=why, files=[S + f for f in files],
                      mechanism=[(a, S + b) for a, b in mechanism], level_note=level_note, observe=observe, na=na))


P('B01', 'Message buffers deliver exactly the bytes written and free each block once',
  'Bytes put into an outgoing message buffer, by streaming or by reserving space and filling it later, are read back from the incoming view in the '
  'same order with nothing lost, duplicated or altered, and every reported byte count matches. Giving back unused space, skipping, backing up and '
  'appending one buffer to another keep this exact. A memory block stays alive while any buffer still refers to it and is released exactly once.',
  ['inputs', 'histories'], 'every sequence of buffer operations with any sizes, any contents, and any number and size of blocks',
  'The buffer unit test walks a few fixed sequences with small sizes; the guarantee is over all operation sequences, block boundaries and reference counts.',
  ['buffer.cc', 'buffer.h', 'buf_handle.h', 'tran_buf_pool.h'],
  [('WriteBuffer::Next/BackUp/Reserve/SetData/Append/SwapOut', 'buffer.cc'), ('ReadBuffer::Next/BackUp/Skip/Append/ToString', 'buffer.cc'),
   ('TranBufPool reference counting', 'tran_buf_pool.h')],
  'Every obligation of every function under contract is discharged for all inputs and iterations; std::deque and std::string are assumed contracts '
  '(conformance-tested natively), sizes bounded by 2^24 blocks of at most 1 MiB so that byte counts stay below 2^44.')

P('K01', 'Base64 and hex codecs round-trip, follow the standard, and never overrun',
  'Encoding any byte string and decoding the result gives back exactly that byte string, and the encoded text is the standard padded base64 (or two '
  'lower-case hex digits per byte). Encoding and decoding touch no memory outside their input and output for any byte values. Text of impossible length or '
  'with characters outside the alphabet is rejected instead of being decoded to something else.',
  ['inputs'], 'every byte string of every length, and every text handed to a decoder',
  'No existing test touches the codecs at all, and a handful of strings cannot cover all byte values, lengths modulo 3 and invalid characters.',
  ['bin2ascii.h'], [('b64_encode / b64_decode', 'bin2ascii.h'), ('bin2hex / hex2bin', 'bin2ascii.h')],
  'Loops are verified by inductive invariants for all lengths; std::string is an assumed contract, conformance-tested by the native harness.')

P('F01', 'Client receives exactly the framed messages, whatever the packet boundaries',
  'The client cuts the bytes received on a connection into messages exactly as the 24-byte headers frame them: each message is handed over once, in order, '
  'with its own meta and data sizes and exactly its own bytes, no matter how the network splits or coalesces the bytes. A header with a wrong magic, a '
  'negative size or sizes that do not add up ends the connection instead of being interpreted, and no byte is read outside the receive block.',
  ['inputs', 'histories'], 'every byte stream, every split of it into reads, every receive block size',
  'No unit test drives the message stream; splits inside headers and several messages per read depend on network timing.',
  ['rpc_message_stream.h', 'rpc_message_header.h', 'rpc_client_stream.h'],
  [('RpcMessageStream::split_and_process_message / on_read_some / identify_message_header / try_start_receive', 'rpc_message_stream.h'),
   ('header check', 'rpc_message_header.h')],
  'Proved for all byte streams and splits by an inductive framing invariant; the socket, std::deque and shared_ptr are assumed contracts.')

P('Q01', 'Queued messages are sent whole, once, in order, and never stranded',
  'A message handed to a connection is written to it whole, exactly once and not interleaved with the bytes of another message, in the order of the queue. '
  'At any moment at most one sender owns the send token, and a message that was queued while the connection is open is never left in the queue with nobody sending '
  'it: either the current owner or the thread that queued it picks it up. The pending count and buffer size account for what is queued.',
  ['inputs', 'schedules', 'histories'], 'every message size, every split of writes by the socket, every interleaving of the queueing threads with the sender at the atomic operations',
  'No unit test sends anything; losing a message needs another thread to queue it between the last look into the queue and the release of the token.',
  ['rpc_message_stream.h', 'rpc_byte_stream.h'],
  [('RpcMessageStream::async_send_message / try_start_send / on_write_some / get_from_pending_queue', 'rpc_message_stream.h')],
  'Proved function by function with the other threads as arbitrary interference between the atomic operations and lock regions; std::deque, shared_ptr and the socket are assumed contracts.')

P('S01', 'A response completes exactly the call it answers',
  'A response received from a server completes the one outstanding call that carries its sequence id, with that response\'s body or with its error code and reason, '
  'and removes it, so a second response with the same id completes nothing. A response that matches no outstanding call is dropped. A call that is cancelled or cannot '
  'be sent is completed with that error, and when the connection closes every call still outstanding on it is completed; no other call is touched.',
  ['inputs', 'histories'], 'every response message, every set of outstanding calls, every order of responses, timeouts, cancellations and connection closing',
  'Mixing up answers needs duplicated, unknown or reordered sequence ids, which tests with a well-behaved server never produce.',
  ['rpc_client_stream.h'],
  [('RpcClientStream::on_received / call_method / erase_request / on_sending / on_closed', 'rpc_client_stream.h')],
  'Proved for every content of the outstanding-call map; std::map and the protobuf parsers are assumed contracts.')

P('C01', 'Every call completes exactly once and a synchronous caller waits for it',
  'Whatever combination of response, error, timeout, cancellation and closing connection reaches a call, it completes exactly once: the first outcome is the one recorded, '
  'the completion callback given by the user is run exactly once (or the waiting synchronous caller is woken, after the outcome is recorded), and later outcomes '
  'change nothing. A synchronous call returns only after it has completed, and a spurious wake-up does not release it. A call that cannot be handed over completes with its error.',
  ['schedules', 'histories'], 'every race of the threads that try to complete one call, every outcome, every number of callbacks',
  'The double completion or the lost one needs two threads to complete the same call within a few instructions, or a spurious wake-up of a condition variable.',
  ['rpc_controller_impl.h', 'simple_rpc_channel_impl.cc', 'wait_event.h'],
  [('RpcControllerImpl::Done', 'rpc_controller_impl.h'), ('SimpleRpcChannelImpl::CallMethod / DoneCallback / WaitDone', 'simple_rpc_channel_impl.cc'), ('WaitEvent', 'wait_event.h')],
  'Proved with the competing threads as arbitrary interference at the atomic and lock operations; pthread, boost::function and the thread pool are assumed contracts.')

P('T01', 'A call with a timeout fails once its deadline has passed, never earlier',
  'A call made with a timeout is given the deadline start time plus timeout. When it has not completed by then, the next timer tick fails it, once, with the timeout error and '
  'forgets it on its connection; it is never failed with a timeout before its deadline. A call that completed earlier and was taken off the timer is not timed out, and every other '
  'waiting call keeps waiting. A call without a timeout is never timed out.',
  ['inputs', 'histories', 'schedules'], 'every set of waiting, added and erased calls, every order of adding and erasing between timer ticks, every clock reading (times within 2^61 microseconds)',
  'The merge of the added, erased and waiting sets has many cases (erased before it was merged, due on arrival, ids between) that timing-based tests do not reach.',
  ['rpc_timeout_manager.h', 'rpc_controller_impl.h'],
  [('RpcTimeoutManager::timer_run / add / erase / notify_timeout', 'rpc_timeout_manager.h'), ('RpcControllerImpl::StartTimer', 'rpc_controller_impl.h')],
  'Proved for every content of the three sets with an arbitrary call as witness; boost::multi_index, std::set, std::deque and posix_time are assumed contracts.')

P('M01', 'A call leaves as one well-formed request and its answer is decoded as sent',
  'A call is either failed with the error that applies or handed to a connection exactly once, after its completion callback and timer are in place. The message sent is a header that '
  'states the exact sizes, a meta that carries the new unique sequence id, the method, the timeout and the compression, and the request body compressed as stated. A connection to the same server '
  'is reused while it is open and replaced when it is closed. On success the response is decoded from the bytes received with the right decompression, and an undecodable response fails the call.',
  ['inputs', 'schedules', 'histories'], 'every request, option combination and serialisation outcome, every state of the connection table, every interleaving of id generation',
  'Unit tests never assemble a message; wrong sizes, missing flushes or a stale connection show only with certain options or failures.',
  ['rpc_client_impl.cc', 'counter.h'],
  [('RpcClientImpl::CallMethod / DoneCallback / FindOrCreateStream / OnClosed / GenerateSequenceId', 'rpc_client_impl.cc')],
  'Proved for all paths with protobuf, the compressors, WriteBuffer (proved in B01), std::map and shared_ptr as contracts; messages below 2^31 bytes.')

P('F02', 'Server cuts requests exactly as framed, whatever the packet boundaries',
  'The server takes the bytes received on a connection as consecutive requests: the first four bytes of each choose the parser that accepts them, that parser is fed exactly the bytes '
  'that follow, without gap or overlap, and a request is delivered once, complete, in order, with its own header, meta and body bytes and the addresses of its connection, no matter how the '
  'network splits or coalesces the bytes. Bytes that no parser accepts, or a header with negative or inconsistent sizes or a message above the size limit, '
  'close the connection instead of being interpreted, and nothing is read outside the receive block.',
  ['inputs', 'histories'], 'every byte stream, every split of it into reads, every receive block size, every set of parsers',
  'No unit test drives the server stream; splits inside the magic, the header or the body, and several requests per read, depend on network timing.',
  ['rpc_server_message_stream.h', 'binary_rpc_request_parser.cc', 'rpc_message_header.h'],
  [('RpcServerMessageStream::split_and_process_message / choose_rpc_request_parser / on_read_some / try_start_receive', 'rpc_server_message_stream.h'),
   ('BinaryRpcRequestParser::Parse / CheckMagicString / Reset', 'binary_rpc_request_parser.cc')],
  'Proved for all byte streams, splits and parsers by an inductive framing invariant; the socket, protobuf, std::deque and shared_ptr are assumed contracts.')

P('Q02', 'The server sends queued responses whole, once, in order, and strands none',
  'A response handed to a server connection is written to it whole, exactly once and not interleaved with the bytes of another response, in the order of the queue. '
  'A short write continues where it stopped. Whenever responses are queued and nothing is being written, the sender is started, or the queue is left for the flow control to restart; '
  'when the connection closes every queued response is reported as failed.',
  ['schedules', 'histories'], 'every queue content, every interleaving of senders with the writer, every length of partial writes',
  'Lost wake-ups and reordering need senders racing the completion of a write; the unit tests have no connection.',
  ['rpc_server_message_stream.h', 'rpc_byte_stream.h'],
  [('RpcServerMessageStream::async_send_message / try_start_send / on_write_some / put_into_ / get_from_pending_queue', 'rpc_server_message_stream.h')],
  'Proved with the other threads as arbitrary interference at lock and token operations; boost::asio, std::deque and shared_ptr are assumed contracts.')

P('D01', 'Each request runs the method it names once and gets one matching response',
  'A request received by the server is decoded as sent and runs the service method it names exactly once, with a controller that carries its addresses, timeout and id; or it is answered with the error that applies '
  '(malformed method name, unknown method, undecodable body). A request whose server timeout has passed before it is run or answered is dropped, and no other is. When the method is done one response is sent on the connection the request came from, if that still '
  'exists: a header with the exact sizes, a meta with the sequence id of the request, the failure flag, code and reason the method set, and the serialised and compressed body. Request and response objects are released once.',
  ['inputs', 'histories', 'schedules'], 'every request, every registered service set, every outcome of the method, every moment at which the connection goes',
  'Unit tests never dispatch a request; double release, a missing response or a response under another id show only on error and race paths.',
  ['binary_rpc_request.cc', 'rpc_request.cc', 'service_pool.h', 'rpc_controller_impl.h'],
  [('BinaryRpcRequest::ProcessRequest / AssembleSucceedResponse / AssembleFailedResponse', 'binary_rpc_request.cc'),
   ('RpcRequest::CallMethod / OnCallMethodDone / SendSucceedResponse / SendFailedResponse / ParseMethodFullName / FindMethodBoard', 'rpc_request.cc')],
  'Proved for all paths with protobuf, the service, the compressors and WriteBuffer (proved in B01) as contracts; server timeouts below 2^53 ms.')

P('H01', 'HTTP requests are read exactly as sent, whatever the packets, or refused',
  'From the byte stream of a connection, cut into packets in any way, the HTTP reader extracts the requests one after the other: method, path, query parameters (decoded), headers and the body of exactly the declared length, '
  'each equal to the bytes sent, with nothing lost, repeated or carried over to the next request. A request is complete exactly when the last byte of its declared body has arrived, never earlier. '
  'Bytes that are not a request of the accepted grammar are refused at the first character that breaks it, and no length or character makes the reader go outside its buffers.',
  ['inputs', 'histories'], 'every byte string, every split into packets, every declared length',
  'A split at one particular byte, a length beyond 2^31, or an escape at the end of a parameter are single points among all byte strings; the unit tests never run the HTTP reader.',
  ['http_rpc_request_parser.cc', 'http_rpc_request_parser.h', 'rpc_request_parser.h'],
  [('HTTPRpcRequestParser::CheckMagicString / ParseInternal / Parse / ParsePath / Reset', 'http_rpc_request_parser.cc')],
  'Proved for every state and character and every piece length; std::string and the header map are assumed contracts. The grammar is the one the reader documents by its states.')

P('H02', 'Each HTTP request gets one well-formed answer: its method, a page, or an error',
  'An HTTP request whose path names a registered method runs it once with the message its JSON body, its `request` parameter or its protobuf body describes, and the controller shows path, parameters and headers; '
  'a body that does not parse is answered with the parse error and no method runs; a path that names no method goes to the web pages or is answered with the not-found error. '
  'Each answer is one well-formed HTTP message: status line, the right content type, the exact content length and the body (protobuf when asked for, otherwise JSON; errors as a JSON string with code and reason).',
  ['inputs', 'histories', 'schedules'], 'every request, every registered service set, every outcome',
  'Unit tests never dispatch an HTTP request; a missing or double answer, a wrong length or a leak shows only on error paths.',
  ['http_rpc_request.cc', 'rpc_request.cc'],
  [('HTTPRpcRequest::ProcessRequest / InnerProcess / AssembleSucceedResponse / AssembleFailedResponse / RenderResponse / SendResponse', 'http_rpc_request.cc')],
  'Proved for all paths with the JSON conversion, protobuf, Printer and WriteBuffer as contracts. The order of answers to pipelined requests is not kept (known finding).')

P('L01', 'Throughput limits hold, refusals are served in order, idle connections close',
  'With a limit on incoming or outgoing throughput, every transfer is paid for from a quota that is refilled once per tenth of a second with a tenth of the limit: unused quota is not saved up, what was '
  'overdrawn is paid back first, and nothing starts while the quota is used up. Every connection that was refused is tried again at each refill, the longest refused first, also after the limit has been lifted. '
  'Changed limits, buffer sizes and keep-alive times take effect from the next slice; without a limit nothing waits. A connection is closed as idle only when it had no traffic for the keep-alive time and no call in progress.',
  ['inputs', 'schedules', 'histories'], 'every quota value, every interleaving of takers and refills, every set of connections, every option change',
  'No test sets a limit; wrong accounting shows only over many slices, and a forgotten connection only after a particular order of refusals and option changes.',
  ['flow_controller.h', 'rpc_server_impl.cc', 'rpc_client_impl.cc', 'timer_worker.h', 'rpc_message_stream.h', 'rpc_server_message_stream.h'],
  [('FlowController', 'flow_controller.h'), ('RpcServerImpl::TimerMaintain / ResetOptions', 'rpc_server_impl.cc'), ('RpcClientImpl::TimerMaintain / ResetOptions', 'rpc_client_impl.cc'), ('TimerWorker::on_timeout', 'timer_worker.h')],
  'That a stream asks for quota before each transfer is proved in F01/Q01 (client) and F02/Q02 (server). Containers, std::sort and the asio timer are contracts; quota debts are assumed below 2^30 bytes.')

P('V01', 'Servers and clients start completely or not at all and stop leaving nothing',
  'Start() either brings up every part it needs (threads, listener, timer) and the server accepts connections, or it reports failure and leaves nothing running, so that it can be tried again; starting a running server or client, or stopping '
  'a stopped one, changes nothing. Stop() closes the listener, stops maintenance before anything maintenance uses is released, closes every connection once, runs what was posted to the worker threads, and afterwards no handler of the '
  'server runs; the server can be started again. A connection is admitted only while the server runs and the number of live connections is below the limit; a refused one is closed at once. A listener goes on accepting after every accepted connection and reports its failure once.',
  ['inputs', 'schedules', 'histories'], 'every outcome of every step of starting and stopping, every order of start/stop/accept/fail/maintenance',
  'Tests start and stop a server in the regular order only; a step that fails, or a maintenance run at the moment of stopping, is never exercised.',
  ['rpc_server_impl.cc', 'rpc_client_impl.cc', 'rpc_listener.h', 'thread_group_impl.h', 'timer_worker.h', 'rpc_server.cc'],
  [('RpcServerImpl::Start / Stop / OnAccepted / RestartListen', 'rpc_server_impl.cc'), ('RpcClientImpl::Start / Stop', 'rpc_client_impl.cc'), ('RpcListener', 'rpc_listener.h'), ('IOServicePool', 'io_service_pool.h')],
  'boost::asio, pthread and the STL are contracts; the order of releases is proved per function, absence of races between threads only through the locks taken.')

P('N01', 'A connection opens once, closes once and for good, and reports it once',
  'A connection starts closed or connecting and becomes connected only by the completion of its own connect attempt; closing it (by anyone, at any moment, any number of times) succeeds once: the socket is shut down, the reason of the first '
  'close is kept and reported once, and nothing that happens later (a connect that completes, a timer, a read or write that ends) makes it connected again. A connect attempt that fails or takes longer than its time closes the connection. '
  'Reading and writing begin only after it is connected, with exactly the bytes and the handler asked for, and every completion is handed on once.',
  ['inputs', 'schedules', 'histories'], 'every interleaving of open, connect completion, timeout, close and transfers on one connection',
  'No test opens a stream directly; a close that falls between two steps of the connect completion needs a particular schedule.',
  ['rpc_byte_stream.h'], [('RpcByteStream', 'rpc_byte_stream.h')],
  'boost::asio calls each completion handler once: assumed. Steps are checked against interference by any other operation of the same stream at every atomic access.')

P('R01', 'Services are found by full name, listed once, and their statistics add up',
  'A service registered with a server is found under its full name and under no other, however many services there are; a name that is taken is refused and changes nothing; the list of services has every registered one exactly once; '
  'a service given to the server is deleted with it exactly once, one that was kept by the user is never deleted. Every finished call is counted once, as succeeded or failed, under its own method in the running second; the statistics '
  'for any period asked for are the sums and maxima over exactly that many complete past seconds (limited to what is kept), whatever the number asked for. Every builtin method answers exactly once, after its answer is complete, and an options update changes exactly the given options.',
  ['inputs', 'histories'], 'every set of names, every order of registering and finding (the cache included), every history of calls and seconds, every period',
  'Tests register one or two services and never ask for statistics; wrong cache use, a slot counted twice or a period out of range show only with particular names, histories and numbers.',
  ['service_pool.h', 'builtin_service_impl.cc', 'murmurhash.h'],
  [('ServicePool', 'service_pool.h'), ('MethodBoard / ServiceBoard', 'service_pool.h'), ('BuiltinServiceImpl', 'builtin_service_impl.cc')],
  'std::map, protobuf descriptors and strings are contracts. That the cache slots are written atomically (aligned pointer stores) is assumed.')

P('Z90', 'No data race, deadlock or lost wake-up in the runtime under any schedule',
  'Under every interleaving of user threads and worker threads the client and server runtimes neither deadlock nor race, and every started call eventually '
  'completes and every stop eventually returns.',
  ['schedules'], 'all interleavings of all threads',
  'Tests run a handful of schedules.', ['rpc_client_impl.cc', 'rpc_server_impl.cc', 'thread_group_impl.h', 'rpc_byte_stream.h'],
  [('locks, atomics, boost::asio strands', 'rpc_byte_stream.h')],
  na='Liveness and whole-program freedom from races over boost::asio handlers and pthread primitives is not a pre/postcondition of a function; the only '
     'deductive tool in reach for this C++ is our sequential VC generator (no C++ verifier with a concurrency logic is installed), so per-function '
     'contracts can only state the lock discipline of single functions, which is not this property.')
