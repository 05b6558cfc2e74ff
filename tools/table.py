prop('P01', 'Decoding never reads outside its input',
     'Request, datum and value decoding given N bytes reads only those N bytes, for any N (also 0) and any content. Truncated or contradictory '
     'input makes the decoder report failure instead of reading further.',
     ['inputs'], 'Every byte sequence of every length up to 2^32-1, for requests, data and each value type.',
     'The tests decode only what the library itself has encoded.',
     ['Request.cpp', 'Datum.cpp', 'Value.cpp', 'values/ValueStr.cpp', 'values/ValueArr.cpp', 'values/ValueUndefined.cpp'],
     [('bounds checks of Deserialize()/DeserializeInternal()', 'Request.cpp Request::Deserialize, Datum.cpp Datum::Deserialize, Value.cpp Value::Deserialize, values/*.cpp')],
     note='Every read of the input on every path of every decoder is proved inside the length passed, with symbolic length and contents. ' + LIB)
prop('P02', 'Decoders tell the truth about success',
     'A decoder that reports success (a nonzero number of used bytes, or true) has decoded every part the input announces and has used no more bytes '
     'than it was given; when any part failed to decode it reports failure (zero, or false).',
     ['inputs'], 'Every byte sequence, in particular with failing nested parts.', 'The tests hold no malformed input.',
     ['Request.cpp', 'Datum.cpp', 'Value.cpp', 'values/ValueArr.cpp'],
     [('return values of Deserialize()', 'Request.cpp, Datum.cpp, Value.cpp, values/*.cpp')],
     note='Every path of every decoder with the results of the nested decoders left open; contents are symbolic. ' + LIB)
prop('P03', 'Decoding allocates no more than the input justifies',
     'While N bytes are decoded, no single allocation is larger than a constant multiple of N plus a constant, whatever lengths and counts the bytes announce.',
     ['inputs'], 'Every byte sequence with any announced length or count.', 'The tests hold no hostile lengths.',
     ['Datum.cpp', 'Value.cpp', 'values/ValueStr.cpp', 'values/ValueArr.cpp'],
     [('announced lengths are compared with the bytes left before allocating', 'values/ValueArr.cpp, values/ValueStr.cpp, Datum.cpp')],
     note='The size of every allocation on every path of every decoder is bounded by a linear function of the symbolic length. ' + LIB)
prop('P04', 'Encoders write exactly GetSize() bytes',
     'Serialize() of requests, data and values returns a fresh buffer of exactly GetSize() bytes, writes every one of them and never writes past its end.',
     ['inputs', 'programs'], 'Every content of requests, data and values built by any sequence of calls.',
     'The tests encode a few small values; an overrun of a heap block stays unnoticed.',
     ['Request.cpp', 'Datum.cpp', 'Value.cpp', 'values/ValueStr.cpp', 'values/ValueArr.cpp'],
     [('Serialize()/GetSize() pairs', 'Request.cpp, Datum.cpp, Value.cpp, values/*.cpp')],
     note='Every write of every encoder is proved inside the block, and the written ranges are proved to cover it, for symbolic contents; nested values are taken by their contract, which is itself checked for every class. ' + LIB)
prop('P05', 'What is encoded decodes to the same content',
     'For every request, datum and value, decoding its encoding yields the same names, ids, types and contents: encoder and decoder agree on the position, '
     'width and byte order (little endian) of every field.',
     ['inputs'], 'Every content that fits the wire format (names up to 65535 bytes, encodings below 4 GiB).',
     'The tests round-trip a few small values on one byte order.',
     ['Request.cpp', 'Datum.cpp', 'Value.cpp', 'values'],
     [('field layout of encoder and decoder', 'Request.cpp, Datum.cpp, Value.cpp, values/*.cpp')],
     note="The buffer that the encoder leaves on every path is decoded by the decoder's code, both with symbolic contents; nested parts by their contract, which is itself checked for every class. " + LIB)
prop('P06', 'Every type tag creates the value class that reports it',
     'The value factory returns, for every known type tag, a value which reports that very tag, and an undefined value which keeps the tag for every unknown one; the size and interpretation of the '
     'contents match the tag.',
     ['inputs'], 'All 256 type tags.', 'The tests use a handful of the types.',
     ['values/CreateValue.hpp', 'ValueType.hpp', 'values'],
     [('Values::CreateValue()', 'values/CreateValue.hpp'), ('GetType()', 'values/*.cpp')],
     note='All paths of the factory, split by tag, for all 256 tags. ' + LIB)
prop('P07', 'Copies are deep and independent',
     'Copying a request, datum or value (copy operations, Set with copying, assignment) yields the same content and shares no memory with the source, and the previous '
     'content is released; copying from itself or from one of its own parts is safe.',
     ['programs', 'histories'], 'Every sequence of copies, moves and sets, with any aliasing of source and destination.',
     'The tests copy each kind once and never alias.',
     ['Request.cpp', 'Request.hpp', 'Datum.cpp', 'Datum.hpp', 'Value.hpp', 'values'],
     [('CopyFrom(), operator=, SetValue()', 'Request.cpp, Datum.cpp, values/*.cpp')],
     note='Every path of every copying function with source and destination equal, different or nested; contents are symbolic. ' + LIB)
prop('P08', 'Every heap object of the codec is released exactly once',
     'Each object and buffer that requests, data and values allocate is released exactly once, after its last use, on every path including failed decodes; '
     'nothing is used after its release.',
     ['inputs', 'programs'], 'Every input and every sequence of calls on requests, data and values.',
     'The tests run without a leak or memory checker and never take the failure paths.',
     ['Request.cpp', 'Datum.cpp', 'Value.cpp', 'values'],
     [('ownership of arguments, values and strings', 'Request.cpp, Datum.cpp, values/*.cpp')],
     note='Every path of every function of requests, data and values; the state between calls is the join over all sequences of calls. ' + LIB)
prop('P09', 'Received requests are limited and framed by their length',
     'A connection accepts a request only if its announced length is more than four (something follows the length) and at most the limit set with SetMaxRequestSize(); otherwise it closes the connection '
     'and allocates nothing for it. The announced length is evaluated only when all of its four bytes have arrived, in however many pieces.',
     ['inputs', 'schedules'], 'Every byte stream of the peer in every fragmentation.',
     'The tests talk to a well-behaved peer over a socket pair that never fragments the length.',
     ['Connection.cpp'],
     [('length phase of Receive()', 'Connection.cpp Connection::Receive')],
     note='All paths of the event loop of the connection thread, with every result of recv(). ' + LIB)
prop('P10', 'Received bytes are put in order and decoded when complete',
     'Every received byte is stored directly behind the bytes received before, inside the buffer allocated for the request, and the request is decoded exactly once, '
     'from all of its bytes and only when all have arrived. The next request starts with the following byte.',
     ['inputs', 'schedules'], 'Every fragmentation of the stream by the network, every block size, changed at any time.',
     'The tests see hardly any partial receive.',
     ['Connection.cpp'],
     [('body phase of Receive()', 'Connection.cpp Connection::Receive')],
     note='All paths of the event loop, with every number of bytes that recv() may report. ' + LIB)
prop('P11', 'Queued requests are sent completely, in order and once',
     'The connection sends the requests in the order in which they were queued, each with all bytes of its encoding exactly once and contiguously, however few bytes the '
     'socket accepts at a time; each is released when it has been encoded, and its buffer when all of it is sent. Sending to a closed peer does not raise a signal.',
     ['schedules', 'inputs'], 'Every pattern of partial sends, every block size, changed at any time, every interleaving with Push().',
     'The tests send small requests that the socket accepts at once.',
     ['Connection.cpp'],
     [('Send() and PopSendQueue()', 'Connection.cpp Connection::Send, Connection::PopSendQueue')],
     note='All paths of the event loop, with every number of bytes that send() may report. ' + LIB)
prop('P12', 'Every decoded request has exactly one receiver',
     'A request that was received goes to the handler set for its name, or else to the default handler, or else to the queue of Pull() (in order, waking a waiting Pull()), '
     'and to nothing else. Keep-alive requests and requests that fail to decode are deleted and never seen by handlers or Pull().',
     ['inputs', 'schedules'], 'Every received request and every change of the handlers meanwhile.',
     'The tests use one handler configuration each.',
     ['Connection.cpp'],
     [('Receive() and PassThroughHandlers()', 'Connection.cpp Connection::Receive, Connection::PassThroughHandlers')],
     note='All paths of the event loop of the connection thread; the handlers are opaque calls. ' + LIB)
prop('P13', 'Keep-alive timers are maintained',
     'Every successful receive restarts the not-alive timer with its interval, and every successful send and every expiry of the still-alive timer restarts the latter; its '
     'expiry queues a keep-alive request, and expiry of the not-alive timer closes the connection. Setters store at least one second and restart their timer. Both timers run from the start of the '
     'connection.',
     ['schedules'], 'Every sequence of socket and timer events, every interval.',
     'The tests finish long before the intervals of minutes expire.',
     ['Connection.cpp', 'Utils.cpp'],
     [('Receive(), Send(), ConnThreadFunc()', 'Connection.cpp'), ('SetOurSaInterval(), SetTheirNaIntervalLimit()', 'Connection.cpp')],
     note='All paths of the event loop and of the setters. ' + LIB)
prop('P14', 'Push() queues a request exactly once or refuses it',
     'Push() puts the request (or, if asked, a copy of it) to the end of the send queue exactly once and wakes the background thread, if and only if the connection is '
     'connected and not disconnecting at that moment; otherwise it queues nothing and deletes a request it was given to own. A request of the caller that is only copied is '
     'never deleted or queued.',
     ['schedules', 'histories'], 'Every interleaving of Push() with Disconnect(), other Push() calls and the end of the background thread.',
     'The tests push from one thread while nothing else happens.',
     ['Connection.cpp'],
     [('Connection::Push()', 'Connection.cpp Connection::Push')],
     note='Every path of both Push() overloads; the state of the connection is checked to be protected from every other function and thread at the moment of queueing. ' + SCHED + LIB)
prop('P15', 'Request ids are unique and of the parity of their side',
     'The ids which a connection assigns are handed out one by one in steps of two: even on the accepting side and odd on the connecting side, so that two requests in flight on a '
     'connection never have the same assigned id, also when several threads push. Push() leaves the id alone when asked to keep it.',
     ['schedules'], 'Every interleaving of Push() calls; both sides; reconnects.',
     'The tests push from one thread and check few ids.',
     ['Connection.cpp', 'Client.cpp'],
     [('free request id', 'Connection.cpp Connection::Push, Connection::InitializeByFD, Connection::SetEvenRequestIdsPart')],
     note='Every path of Push(), the accepting constructor and the connecting thread. ' + SCHED + LIB)
prop('P16', 'Disconnect() does what was asked, also on an idle connection',
     'A forced Disconnect() makes the background thread stop at once; a graceful one lets it send everything queued before, accept no further request and then stop, also '
     'when the connection is idle; on a connection that is not connected it does nothing. It waits for the end exactly when asked, holding no lock that the background thread needs.',
     ['schedules', 'histories'], 'Every interleaving of Disconnect() with Push(), other Disconnect() calls and the background thread.',
     'The tests disconnect once, at a quiet moment.',
     ['Connection.cpp'],
     [('Connection::Disconnect()', 'Connection.cpp'), ('end of the event loop', 'Connection.cpp ConnThreadFunc, Send')],
     note='Every path of Disconnect() and of the event loop. ' + SCHED + LIB)
prop('P17', 'A stopping connection cleans up completely and in order',
     'When the background thread ends it refuses new requests, wakes a waiting Pull(), waits until nobody holds a reference, then closes each of its descriptors exactly once, '
     'deletes its buffers and the unsent requests, and marks the connection as not connected. Only after all of that does it announce the stop, exactly once; received requests stay available.',
     ['schedules', 'histories'], 'Every state in which the loop can end.',
     'The tests reach one or two of these states and cannot see descriptors or memory.',
     ['Connection.cpp'],
     [('end of ConnThreadFunc()', 'Connection.cpp ConnThreadFunc')],
     note='All paths from the event loop to the end of the thread. ' + LIB)
prop('P18', 'References keep a connection alive',
     'Every SafeConnection holds exactly one reference from its construction to its destruction, also across copies and moves. While a reference exists the connection is neither torn '
     'down nor destroyed; when the last one goes, a waiting teardown is always woken.',
     ['schedules', 'histories'], 'Every interleaving of reference holders with stop and destruction.',
     'The tests take references only while nothing stops.',
     ['Connection.cpp', 'SafeConnection.hpp', 'Server.cpp'],
     [('reference counter', 'Connection.cpp IncreaseRefs, DecreaseRefs, WaitForNoRefs'), ('SafeConnection', 'SafeConnection.hpp')],
     note='Every path of the counter functions and of the special members of SafeConnection. ' + SCHED + LIB)
prop('P19', 'Descriptors are valid when used and closed exactly once',
     'Connections, clients and servers use a descriptor only while they have it open, close each one exactly once, and lose none, on every path including failed system calls.',
     ['histories', 'fault_sequences', 'schedules'], 'Every failure of every system call, every sequence of connects, stops and restarts.',
     'The tests have no failing system calls and do not count descriptors.',
     ['Connection.cpp', 'Client.cpp', 'Server.cpp', 'Utils.cpp'],
     [('socket, eventfd and timerfd members', 'Connection.cpp, Client.cpp, Server.cpp')],
     note='Every path of every function and thread. ' + LIB)
prop('P20', 'No deadlock and no lock leak',
     'Every function releases each mutex it takes, on every path; mutexes are always taken in the same order by all threads; user handlers are called without any mutex of the connection '
     'held, and no thread waits for an event while it holds a mutex that is needed to raise it.',
     ['schedules'], 'Every interleaving of the public functions, the handlers and the background threads.',
     'A deadlock needs a rare interleaving.',
     ['Connection.cpp', 'Client.cpp', 'Server.cpp', 'SafeConnection.hpp'],
     [('mutex members', 'Connection.hpp, Client.hpp, Server.hpp')],
     technique='lock-order, lock-balance and blocking-call analysis over abstractly interpreted LLVM IR',
     note='Every lock, unlock, wait and callback on every path of every function and thread. ' + LIB)
prop('P21', 'Shared queues, maps and handlers are accessed under their mutex',
     'Every container, string and handler that more than one thread can reach, and every counter that is read and written back, is accessed only while holding a mutex common to all the accesses, '
     'or while no other thread can reach it.',
     ['schedules'], 'Every interleaving of the public functions, the handlers and the background threads.',
     'A data race shows up in rare interleavings only.',
     ['Connection.cpp', 'Client.cpp', 'Server.cpp'],
     [('mutex_sq, mutex_rq, mutex_h, mutex_fri, mutex_ra, mutex_server', 'Connection.hpp, Server.hpp')],
     technique='lock-set analysis over abstractly interpreted LLVM IR',
     note='Every access on every path of every function and thread. ' + LIB)
prop('P22', 'A server owns its connections and stops completely',
     'A server gives every accepted connection an id of its own and its handlers before any handler sees it, deletes every stopped connection after its disconnected handler, and lets '
     'GetConnection() return only connections that still exist. It accepts connections only while it has fewer than the maximum. When it is stopped it closes the listening socket, disconnects and deletes every connection, and then announces the stop exactly once.',
     ['schedules', 'histories'], 'Every interleaving of accepting, stopping connections, GetConnection() and stop requests.',
     'The tests use one or two clients at quiet moments.',
     ['Server.cpp'],
     [('ServerThreadFunc(), GetConnection(), Stop()', 'Server.cpp')],
     note='All paths of the server thread and its public functions. ' + SCHED + LIB)
prop('P23', 'A failed start leaves nothing behind',
     'When connecting, binding or listening fails at any step, the function reports failure, closes every descriptor it opened, starts no thread and leaves the object usable for another '
     'attempt; it reports success only when every step succeeded.',
     ['fault_sequences'], 'A failure of every single system call of every start and connect function.',
     'The tests provoke hardly any failing system call.',
     ['Client.cpp', 'Server.cpp'],
     [('ConnectTcp(), ConnectUnix(), ConnectThreadFunc()', 'Client.cpp'), ('StartTcp(), StartUnix()', 'Server.cpp')],
     note='Every path of the connect and start functions, each system call may fail. ' + LIB)
prop('P24', 'Waits honour their timeout',
     'Pull() and the wait functions with timeout zero never block, with a positive timeout t wait for at most t seconds, and with a negative one wait until the event; '
     'a signal does not end an infinite wait early.',
     ['inputs', 'schedules', 'fault_sequences'], 'Every timeout value; signals at any time.',
     'The tests use two or three timeouts and no signals.',
     ['Utils.cpp', 'Connection.cpp', 'Client.cpp', 'Server.cpp'],
     [('Utils::SelectRead()', 'Utils.cpp'), ('Pull(), WaitForStop(), WaitForConnect()', 'Connection.cpp, Client.cpp, Server.cpp')],
     note='Every path of every function that waits; the timeout is a symbol. ' + LIB)
prop('P29', 'What was stored is what is read',
     'A number, string, byte sequence, name or id stored by a constructor or a set function is returned unchanged by the getters and conversions of that object until it is replaced. '
     'Push() appends one copy to an array; Set() replaces exactly the element at an existing index and refuses any other without an effect; Get() returns the element at the index '
     'or null behind the end; GetCount(), New() and Clear() agree with the number of elements. Setting an argument of a request under a new name adds exactly one '
     'argument with that name and value; under a used name the number of arguments stays.',
     ['inputs', 'histories'], 'Every number, string (also with zero bytes), name, index and history of an object.',
     'The tests store a few small values.',
     ['values/*.cpp', 'Datum.cpp', 'Request.cpp'],
     [('Set(), Get(), constructors, conversions', 'values/*.cpp'), ('Push(), New(), GetCount()', 'values/ValueArr.cpp'), ('SetName(), SetValue(), SetId(), Set()', 'Datum.cpp, Request.cpp')],
     note='Every state an object can reach and every argument; contents are uninterpreted, so a content counts as kept only if it is copied as a whole. ' + LIB)
prop('P30', 'Addresses, ports and settings are the ones asked for',
     'A server listens on exactly the address, port or path it was started with and its getters tell them; a client connects to exactly the one it was given. GetConnection() returns a '
     'connection with the given id or tag whenever there is one, and never another. A limit, block size or handler that was set is what its getter returns and what is used (a request size limit '
     'below 10 counts as 10, a block size of 0 as 1). A stopping server removes its own socket file and no other file.',
     ['inputs', 'histories'], 'Every address, port, path, id, tag and limit.',
     'The tests use a few ports, one path, and ask for a single connection.',
     ['Server.cpp', 'Server.hpp', 'Client.cpp', 'Connection.cpp'],
     [('StartTcp(), StartUnix(), GetConnection()', 'Server.cpp'), ('ConnectTcp(), ConnectUnix() and their threads', 'Client.cpp'), ('Set and Get functions', 'Connection.cpp, Server.cpp')],
     note='All paths of the start, connect, lookup and accessor functions; the arguments are symbols. Which interval is stored is decided in P13. Equality of names is uninterpreted. ' + LIB)
prop('P25', 'Requests arrive at a live peer eventually',
     'A request queued on a connection that stays up is eventually received by the peer.',
     ['schedules'], 'Every fair schedule.', 'Tests see a few schedules.', ['Connection.cpp'], [('event loop', 'Connection.cpp ConnThreadFunc')],
     na='Liveness over the scheduler, the kernel and the network: no static argument over this source bounds it. The safety part (thread woken, output awaited, all bytes sent) is in P11, P14, P16.')
prop('P26', 'Intervals and timeouts pass in real time',
     'Keep-alive requests and timeouts happen at the configured wall-clock moments.',
     ['schedules'], 'Every interval.', 'Tests are too short.', ['Utils.cpp'], [('timerfd and poll', 'Utils.cpp')],
     na='Quantifies over the clock and the scheduler of the kernel; only the values handed to timerfd_settime() and poll() are visible in the source (P13, P24).')
prop('P27', 'Deeply nested input does not exhaust the stack',
     'Decoding, copying and deleting arrays nested to any depth that the size limit admits does not overflow the stack.',
     ['inputs'], 'Every nesting depth.', 'The tests nest twice.', ['values/ValueArr.cpp'], [('recursion of Deserialize()', 'values/ValueArr.cpp')],
     na='Depends on the stack size at run time and on the configured maximal request size; the recursion is unbounded by design and no static bound below the limit exists in the source.')
prop('P28', 'A connection ends exactly when there is a reason',
     'A connection stays up until a forced Disconnect() was requested, a graceful one is complete, the socket was closed by the peer or failed, an unacceptable length was announced, or '
     'the other side was silent for longer than the limit; and then it always ends. A signal or a wake-up for another reason neither ends it nor makes it act on events that did not happen.',
     ['schedules', 'fault_sequences', 'inputs'], 'Every sequence of reported events, failed system calls and signals.',
     'The tests reach few of the combinations of events and no interrupted system call.',
     ['Connection.cpp'], [('event loop', 'Connection.cpp ConnThreadFunc, Receive, Send')],
     note='Every path of one round of the event loop of the connection thread, from a state that covers every state at its start. ' + LIB)
