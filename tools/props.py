def P(id, title, statement, over, quant, why, files, mechanism, note="", na="", observe=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe or []},
            "note": note or "Bounded: every value within the bounds recorded in the evidence file is covered; nothing is claimed outside them. Trusted: clang's lowering, the engine, z3, the modelled C++ runtime (containers are libstdc++'s own code); counterexamples are replayed on a native build before they are reported.",
            "na": na}
PROPERTIES = [
 P("C01", "URL encoding is reversible and yields only URL-safe characters",
   "Percent-encoding any byte string gives a string made only of unreserved characters and well-formed %XX escapes of two upper-case hexadecimal digits. Decoding the encoded string gives the original bytes back.",
   ["inputs"], "every byte string of up to 4 bytes (every byte value at every position); texts of 37 to 260 bytes with arbitrary bytes at their ends and in the middle",
   "The tests encode one or two sample strings; whether any of the 256 byte values, alone or next to another, is escaped wrongly is not sampled.",
   ["src/Http.cpp"], [("url_encode", "src/Http.cpp"), ("url_decode", "src/Http.cpp")]),
 P("C02", "URL decoding is total and decodes every valid escape",
   "Decoding any byte string terminates without failure or out-of-bounds access: every valid escape (a percent sign and two hexadecimal digits of either case) becomes the byte it denotes, and every other character, including a percent sign which doesn't start a valid escape, is kept as it is.",
   ["inputs"], "every byte string of up to 6 bytes; texts of 30 bytes with 3 arbitrary bytes around them",
   "The tests decode well-formed upper-case escapes only; incomplete, lower-case and invalid escapes in every position are not tried.",
   ["src/Http.cpp"], [("url_decode", "src/Http.cpp")]),
 P("C03", "Base64 encoding follows RFC 4648",
   "Encoding any byte string gives exactly the RFC 4648 Base64 text of it, with padding, for every length and content, without reading outside of the input.",
   ["inputs"], "every byte string of up to 9 bytes, 48 to 68 bytes and 255 to 259 bytes",
   "The tests compare a few fixed strings; the remainder cases and all byte values are not covered.",
   ["src/Base64.cpp"], [("Base64::encode", "src/Base64.cpp")]),
 P("C04", "SHA-1 digests follow FIPS 180-4",
   "The digest of a message is the 20 byte SHA-1 digest defined by FIPS 180-4, for every content and around every padding and block boundary.",
   ["inputs"], "every content of every message of 0 to 130 bytes (up to three blocks), and of 256 and 999 bytes",
   "The tests check a few known vectors; the lengths where the padding spills into another block and carries between blocks are not all sampled.",
   ["src/Sha1.cpp"], [("Sha1::update, Sha1::final, transform", "src/Sha1.cpp")]),
 P("C05", "WebSocket handshakes agree exactly when RFC 6455 says so",
   "A server's WebSocket answers a proper upgrade request with 101 and the Sec-WebSocket-Accept value RFC 6455 derives from the client's key, however the request is cut up, and doesn't upgrade requests which lack a part of the handshake (HTTP/1.1, Host, Upgrade, Connection, version 13, a key); after a failed handshake the socket is disconnected. A client's WebSocket sends a proper request with a key of 16 bytes in Base64, and connects only if the answer is a 101 which agrees to the upgrade, with the accept value of its own key and no extension or protocol it hasn't asked for; otherwise the socket ends up disconnected. Frames which arrive right behind a server's answer are not lost.",
   ["inputs", "schedules", "fault_sequences"], "server: every 24 character key, the RFC's example cut in two at every place, requests with any one part left out or replaced; client: correct and wrong (any value in any one character) accept keys, other statuses, failing exchange, a frame right behind the answer",
   "The tests have no WebSocket at all; an accept key which isn't checked, or a half checked request, is invisible without a hostile peer.",
   ["include/frnetlib/WebSocket.h", "src/Sha1.cpp", "src/Base64.cpp", "src/HttpRequest.cpp", "src/HttpResponse.cpp"], [("connect, set_descriptor", "include/frnetlib/WebSocket.h"), ("Sha1Digest, Base64::encode of the key", "src/Sha1.cpp")]),
 P("C06", "WebSocket frames keep RFC 6455's format and survive the round trip",
   "A WebFrame with any payload, opcode and FIN flag is sent as exactly the frame RFC 6455 defines (shortest length form, big-endian length, masked by clients and only by them), unchanged by sending, and the receiver gets the same payload, opcode and FIN flag, consuming exactly one frame, however the transport cuts up or stalls reading and writing.",
   ["inputs", "schedules"], "every payload of 0 to 3 bytes and sizes around 125/126, 32768 and 65535/65536 (ends symbolic), each of the 16 opcodes, FIN and mask; one stall while sending, one stall and one cut while receiving",
   "There are no tests of WebFrame; length form boundaries, masks and partial transfers multiply.",
   ["src/WebFrame.cpp", "include/frnetlib/WebFrame.h"], [("WebFrame::send, WebFrame::receive", "src/WebFrame.cpp")]),
 P("C07", "Receiving a WebSocket frame survives any peer and any transport",
   "Whatever bytes a peer sends and however the connection cuts them up, stalls or fails, receiving a frame ends with a frame only if a complete, valid one arrived (masked if and only if it comes from a client); payloads above the receive limit are rejected without being read; a status which invites trying again is only returned if nothing has been consumed; nothing is read or written out of bounds.",
   ["inputs", "schedules", "fault_sequences"], "every byte string of up to 10 (13 in one piece) bytes with a receive limit of 12; cuts, stalls and one failure at any call",
   "A hostile peer's lengths and a connection's stalls can't be enumerated by examples.",
   ["src/WebFrame.cpp", "src/Socket.cpp"], [("WebFrame::receive", "src/WebFrame.cpp"), ("receive_all", "src/Socket.cpp")]),
 P("C08", "Scalars in a Packet survive bit for bit, big-endian on the wire",
   "Every value of every integer, floating point and bool type added to a Packet takes exactly the size of its type on the wire, in big-endian order behind a big-endian length, and is extracted as the same bits by the receiver and by the sender, with its neighbours intact. A cleared packet can be used again.",
   ["inputs"], "every value of bool, 8 to 64 bit integers of both signs, float and double",
   "Tests add a few values; NaN payloads, extremes and byte order of each type can't all be sampled.",
   ["include/frnetlib/Packet.h", "include/frnetlib/NetworkEncoding.h"], [("operator<<, operator>>", "include/frnetlib/Packet.h")]),
 P("C09", "Strings, containers and objects in a Packet survive the round trip",
   "Strings, C strings, vectors (also of bool and nested), maps, pairs, ranges, raw data and Packetable objects added to a Packet and sent to another are extracted equal to what was added, in order, replacing whatever the destination held before, with nothing left over.",
   ["inputs"], "every contents of containers of up to 3 elements and strings of up to 3 bytes, alone and nested; strings of 11 to 300 bytes; vectors and maps of 127 to 1000 elements with arbitrary ones at their ends",
   "Tests round trip one example of some containers; empty ones, embedded zeros, reused destinations and nesting are mostly not tried.",
   ["include/frnetlib/Packet.h", "include/frnetlib/Packetable.h"], [("operator<<, operator>>, add_range, add_raw", "include/frnetlib/Packet.h")]),
 P("C10", "Extracting from an arbitrary Packet yields what its bytes say, or throws",
   "Extracting any supported type from a Packet whose contents are chosen by the peer yields exactly the value its bytes denote if all of it is there, and throws std::out_of_range otherwise: nothing outside of the packet is read, no memory is allocated which the packet's size doesn't justify, and the packet stays usable.",
   ["inputs"], "every contents of up to 10 bytes, every kind of extraction (std::string_view in C++17 too)",
   "Truncated and lying length fields of every type and position are too many to sample.",
   ["include/frnetlib/Packet.h"], [("operator>>, extract_raw, assert_bytes_remaining", "include/frnetlib/Packet.h")]),
 P("C11", "A Packet's read cursor never leaves the packet",
   "After any sequence of setting and moving the read cursor (with any position or offset) and reading, the cursor lies inside of the packet where the calls put it, a read succeeds if and only if enough bytes are left, and gives the bytes at the cursor.",
   ["inputs", "histories"], "packets of up to 5 bytes, any three operations with any 64 bit arguments, reads which fail included",
   "Wrap-around needs extreme arguments in combination with a position.",
   ["include/frnetlib/Packet.h"], [("set_cursor, seek_cursor, extract_raw, assert_bytes_remaining", "include/frnetlib/Packet.h")]),
 P("C12", "Packets arrive one by one, whole and in order, or not at all",
   "Packets sent over a socket arrive as exactly the packets which were sent, one per receive, however the stream is cut up and stalled; a receiving packet's earlier contents are dropped; a packet above the receive limit is rejected; a connection which breaks off in the middle never yields a packet or a status which invites trying again.",
   ["inputs", "schedules", "fault_sequences"], "two packets of up to 2 bytes with any contents, two cuts, two stalls, one failure or end of the stream at any byte, any limit; packets of up to 70000 bytes in two pieces",
   "Loopback tests deliver small packets in one piece.",
   ["include/frnetlib/Packet.h", "src/Socket.cpp"], [("Packet::send, Packet::receive", "include/frnetlib/Packet.h"), ("receive_all", "src/Socket.cpp")]),
 P("C13", "receive_all delivers exactly the bytes which arrived",
   "Socket::receive_all succeeds only with all of the bytes asked for, in order, consuming no more; it returns WouldBlock (or Timeout) only if nothing was consumed, reports a disconnect if data was lost, and never writes outside of the buffer.",
   ["inputs", "schedules", "fault_sequences"], "every size up to 6 and every contents, and 5000 and 65536 bytes; three cuts, two stalls, one failure at any call; any size below 2^47 with two reads of any length",
   "Partial reads, stalls and failures in every order can't be provoked with a real socket.",
   ["src/Socket.cpp"], [("receive_all", "src/Socket.cpp")]),
 P("C14", "TCP transfers pass on every byte once, whatever the system calls return",
   "TcpSocket::send_raw counts exactly the bytes the kernel has taken, so that continuing after WouldBlock or Timeout sends every byte once and in order; receive_raw returns exactly the bytes the kernel delivered, or zero bytes with the status which fits the cause (would block, timeout, end of stream, error); interrupted calls are retried; the buffer's bounds are kept and no broken connection raises a signal.",
   ["inputs", "schedules", "fault_sequences"], "buffers of up to 4 bytes and of 65537; any two partial transfers, one interruption and two failures (of every kind) of send() and recv(), blocking and non-blocking",
   "A loopback connection practically never transfers in part, is interrupted or fails.",
   ["src/TcpSocket.cpp"], [("send_raw, receive_raw", "src/TcpSocket.cpp")]),
 P("C15", "TcpSocket connections are real, and never leak or double close",
   "Through any sequence of connecting, taking over descriptors, disconnecting and destroying, with any system call failing: connect succeeds only with an established connection to the host, port and IP version asked for within the timeout asked for; a failed attempt leaves the socket disconnected; a socket owns at most one descriptor, every other is closed exactly once, and no system call is made on one which isn't open.",
   ["fault_sequences", "histories"], "two steps, two looked up addresses, up to two failures of any system call, any timeout and any descriptor number; four steps with one address and one failure",
   "The failures of socket, connect, poll, getsockopt and fcntl can't be injected by tests.",
   ["src/TcpSocket.cpp", "src/Socket.cpp", "include/frnetlib/NetworkEncoding.h"], [("connect, set_descriptor, close_socket", "src/TcpSocket.cpp"), ("set_unix_socket_blocking", "include/frnetlib/NetworkEncoding.h")]),
 P("C16", "TcpListener never leaks, loses or misreports a connection",
   "Through any sequence of listening, accepting into fresh and used sockets, shutting down and destroying, with any system call failing: a listener which reports success listens on the port and IP version asked for, one which failed isn't connected; an accepted socket owns the new connection, knows its peer's address and its blocking mode; sockets of another kind are refused without losing a connection; every descriptor is closed exactly once.",
   ["fault_sequences", "histories"], "three steps, two local addresses, peers over IPv4 and IPv6, up to two failures of any system call",
   "Failing system calls and accepting into used sockets aren't tested.",
   ["src/TcpListener.cpp", "src/TcpSocket.cpp", "include/frnetlib/Listener.h"], [("listen, accept, close_socket", "src/TcpListener.cpp")]),
 P("C17", "How a HTTP request is cut into segments makes no difference",
   "Feeding a request to HttpRequest::parse in any segmentation gives the same status, method, version, URI, headers, variables and body as feeding it in one piece; data beyond the declared length never becomes part of the message.",
   ["inputs", "schedules"], "three templates (GET and POST with bodies, bare LF and CRLF) with one or two arbitrary bytes at any place and one cut anywhere, or unchanged with three cuts, with and without excess data",
   "A test feeds a few fixed splits; terminators, lengths and limits which straddle a cut depend on its position.",
   ["src/HttpRequest.cpp", "src/Http.cpp"], [("HttpRequest::parse", "src/HttpRequest.cpp")]),
 P("C18", "Parsing a HTTP request survives any bytes and keeps its limits",
   "Whatever bytes arrive in whatever segments, HttpRequest::parse returns Success, NotEnoughData, ParseError, HttpHeaderTooBig or HttpBodyTooBig without throwing or touching memory out of bounds. A header above the maximum is always rejected and one within it never; no message is complete without the end of its header; no more than the body limit is ever kept.",
   ["inputs", "schedules"], "any 6 bytes, known beginnings with any 8 bytes, complete requests with any 2 bytes changed and cut anywhere (also truncated anywhere with small limits), oversized content lengths",
   "The hostile inputs around terminators, limits and lengths are too many to sample.",
   ["src/HttpRequest.cpp", "src/Http.cpp"], [("HttpRequest::parse, parse_header, parse_header_uri", "src/HttpRequest.cpp"), ("parse_argument_list, parse_header_line", "src/Http.cpp")]),
 P("C19", "A well-formed HTTP request is taken apart into what it says",
   "A request with any known method, URI, version, GET parameters, headers (whose values may be empty, have tabs and bytes beyond ASCII in them and whitespace around them), POST variables and body, with CRLF or LF line ends, is accepted and gives exactly these (and none which it doesn't contain); parameters without a value don't disturb the others; a request whose method isn't exactly a known one is rejected.",
   ["inputs"], "every URI, parameter, header and variable of up to 2 or 3 characters each, up to two of each kind (or 100 fixed ones as well, or each of 301 characters), methods of up to 7 characters, bodies of up to 3 bytes",
   "Tests parse a handful of fixed requests.",
   ["src/HttpRequest.cpp", "src/Http.cpp"], [("parse_header, parse_header_type, parse_header_uri, parse_post_body", "src/HttpRequest.cpp"), ("parse_argument_list, parse_header_line, split_string", "src/Http.cpp")]),
 P("C20", "A constructed HTTP request means what it was made of",
   "HttpRequest::construct gives a request which HttpRequest::parse accepts and takes apart into the same method, version, URI, host, GET parameters, headers, POST variables or body; it declares its length exactly once and correctly, so that it isn't complete before its last byte.",
   ["inputs"], "every URI, host, parameter, header and variable of up to 3 characters, up to two of each kind (or 100 fixed ones as well, or each of 301 characters), bodies of up to 3 bytes",
   "Tests compare a few constructed texts; combinations of variables, headers and bodies aren't tried.",
   ["src/HttpRequest.cpp", "src/Http.cpp"], [("HttpRequest::construct", "src/HttpRequest.cpp")]),
 P("C21", "Parsing a HTTP response survives any bytes and keeps its limits",
   "Whatever bytes arrive in whatever segments, HttpResponse::parse returns Success, NotEnoughData, ParseError, HttpHeaderTooBig or HttpBodyTooBig without throwing or touching memory out of bounds, also for any chunk size. A header above the maximum is always rejected and one within it never; no more than the body limit is ever kept.",
   ["inputs", "schedules"], "any 6 bytes, known beginnings with any 8 bytes, complete responses (plain and chunked) with any 2 bytes changed and cut anywhere, any chunk size of up to 5 characters and huge ones, oversized content lengths",
   "The hostile inputs around terminators, limits, lengths and chunk sizes are too many to sample.",
   ["src/HttpResponse.cpp", "src/Http.cpp"], [("HttpResponse::parse, parse_header", "src/HttpResponse.cpp")]),
 P("C22", "How a HTTP response is cut into segments makes no difference",
   "Feeding a response to HttpResponse::parse in any segmentation gives the same outcome as feeding it in one piece, with a content length as well as chunked; data beyond the end of the message never becomes part of it.",
   ["inputs", "schedules"], "three templates (content length, bare LF, chunked) with one or two arbitrary bytes at any place and one cut anywhere, or unchanged with three cuts, with and without excess data",
   "A test feeds a few fixed splits; terminators, chunk sizes and limits which straddle a cut depend on its position.",
   ["src/HttpResponse.cpp", "src/Http.cpp"], [("HttpResponse::parse", "src/HttpResponse.cpp")]),
 P("C23", "A chunked HTTP body is what its chunks contain",
   "A chunked response's body is the concatenation of its chunks, for any contents and sizes, hexadecimal digits of either case, leading zeros, chunk extensions and spellings of the header, however it is cut up; the message is complete exactly with its last chunk and the trailing headers behind it (which change nothing).",
   ["inputs", "schedules"], "up to two chunks of any contents of up to 2 bytes (one of 1 to 18 or up to 65536 bytes; five of one byte), one or two cuts anywhere, with and without excess data, up to two trailing headers",
   "Tests parse one or two fixed chunked responses.",
   ["src/HttpResponse.cpp", "src/Http.cpp"], [("HttpResponse::parse", "src/HttpResponse.cpp"), ("parse_header_line, string_to_transfer_encoding", "src/Http.cpp")]),
 P("C24", "A constructed HTTP response means what it was made of",
   "HttpResponse::construct gives a response which HttpResponse::parse accepts and takes apart into the same status, version, headers and body; it isn't complete before its last byte, and what follows it doesn't become part of it.",
   ["inputs"], "every status of the enumeration, up to two headers of up to 2 characters (or 302), 100 further headers, bodies of up to 2 bytes",
   "Tests compare a few constructed texts.",
   ["src/HttpResponse.cpp", "src/Http.cpp"], [("HttpResponse::construct", "src/HttpResponse.cpp")]),
 P("C25", "HTTP headers and variables are found by their name in any case",
   "header, get and post (and their _exists counterparts) of a request or response behave as maps whose names are compared without regard to case: a name exists exactly if it has been set or asked for by reference, its value is the one last set, and no operation disturbs another name or another kind.",
   ["inputs", "histories"], "any three operations on names of up to 2 arbitrary bytes, two on names of 71 bytes",
   "Tests look up one or two names; sequences and arbitrary bytes (also above 127) aren't tried.",
   ["src/Http.cpp"], [("header, get, post, header_exists, get_exists, post_exists", "src/Http.cpp")]),
 P("C26", "HTTP messages cross a socket whole, or fail for good",
   "A message sent through a socket goes out exactly once, however often the transport stalls, and the receiver ends with the message which was sent, however it is cut up and stalled; if a transfer fails the status of the socket is passed on, and a message lost half way is never reported as received or as one which can be received again.",
   ["inputs", "schedules", "fault_sequences"], "requests and responses with any parameter and header character and bodies of up to 2 bytes or of thousands; two stalls and one failure while sending; one cut, one stall, one failure or end of the stream at any byte while receiving",
   "Loopback tests transfer small messages in one piece.",
   ["src/Http.cpp", "src/HttpRequest.cpp", "src/HttpResponse.cpp", "src/Socket.cpp"], [("Http::send, Http::receive", "src/Http.cpp")]),
 P("C27", "A URL is taken apart into its components, and back together",
   "Parsing scheme://host:port/path?query#fragment, with any part which may be left out left out, gives exactly these components, also if characters which separate other parts occur in them, and the same if the object was used before. Any text is survived, and parsing what get_url puts together gives the same URL again.",
   ["inputs"], "every component of up to 3 characters (or of 71 with an arbitrary one) in every combination, seven schemes in any case; any text of up to 6 characters, alone and within an URL",
   "Tests parse a dozen usual URLs; separators inside of other components aren't tried.",
   ["src/URL.cpp", "include/frnetlib/URL.h"], [("URL::parse", "src/URL.cpp"), ("get_url, get_uri", "include/frnetlib/URL.h")]),
 P("C28", "URL schemes, their names and ports agree",
   "Every scheme has a name which is recognised in any case, by string_to_scheme and in an URL, anything else is Unknown; an URL without a port gets the one which belongs to its scheme; scheme_to_string and string_to_scheme are inverse, and values which aren't a scheme are rejected.",
   ["inputs"], "every text of up to 7 bytes and every 32 bit value",
   "Tests look at https only.",
   ["src/URL.cpp", "include/frnetlib/URL.h"], [("scheme_string_map, string_to_scheme, scheme_to_string, parse", "src/URL.cpp")]),
 P("C29", "A SocketSelector returns exactly the sockets which are ready",
   "Through any sequence of adding, removing, waiting, disconnecting and reconnecting, with any system call failing: wait returns every added socket the kernel reports and nothing else, once, with the data it was added with; sockets which are disconnected or already added are refused; a socket is kept alive while added and released when removed, also if it was disconnected in between; nothing leaks.",
   ["fault_sequences", "histories"], "two sockets, four steps, one failure of any system call, any readiness with any events, any timeout; descriptors which are used again; 250 sockets ready at once",
   "There are no tests of SocketSelector.",
   ["src/SocketSelector.cpp", "include/frnetlib/SocketSelector.h"], [("add, remove, wait", "src/SocketSelector.cpp")]),
 P("C30", "TLS transfers pass on every byte once, whatever the TLS library returns",
   "SSLSocket::send_raw and receive_raw pass every byte on once and in order when continued after WouldBlock or Timeout, report exactly the bytes transferred, repeat a stalled write as the TLS library demands, say WouldBlock only for non-blocking sockets, and keep the buffer's bounds.",
   ["inputs", "schedules", "fault_sequences"], "buffers of up to 4 bytes and of 20000, records of up to 16 KiB; two partial transfers, two stalls and one failure of mbedtls_ssl_write and mbedtls_ssl_read",
   "There are no tests of SSLSocket; stalls in the middle of a record can't be provoked.",
   ["src/SSLSocket.cpp"], [("send_raw, receive_raw", "src/SSLSocket.cpp")]),
 P("C31", "SSLSocket connects only to a verified peer, and never leaks",
   "With any call failing, SSLSocket::connect succeeds only after a completed handshake over a new connection to the host, port and IP version asked for within the timeout asked for, with a peer whose certificate is trusted and issued to the host unless verification was switched off; otherwise the socket ends up disconnected. Every descriptor and TLS context is released exactly once.",
   ["fault_sequences", "histories"], "two steps, up to two failures of any system or TLS library call, one stall in the handshake",
   "There are no tests of SSLSocket; untrusted peers and failing calls can't be injected.",
   ["src/SSLSocket.cpp", "src/TcpSocket.cpp", "include/frnetlib/SSLContext.h"], [("connect, close_socket", "src/SSLSocket.cpp")]),
 P("C32", "SSLListener never leaks, loses or misreports a connection",
   "Through any sequence of listening, accepting into fresh and used sockets, shutting down and destroying, with any call failing: a listener is made with the certificate and key given or not at all; one which reports success listens on the port and IP version asked for; an accepted socket owns the new connection and a completed session over it, and knows its peer's address; sockets of another kind are refused; every descriptor and TLS context has exactly one owner and is released exactly once.",
   ["fault_sequences", "histories"], "three steps, peers over IPv4 and IPv6, up to two failures of any system or TLS library call, one stall in the handshake",
   "There are no tests of SSLListener.",
   ["src/SSLListener.cpp", "src/SSLSocket.cpp", "include/frnetlib/Listener.h"], [("listen, accept, close_socket", "src/SSLListener.cpp")]),
 P("C33", "Enumerations and their names agree",
   "Every socket status has the text which describes it and anything else is Unknown; the names of request types are recognised exactly, also as the beginning of a request, and what could become one is Partial; transfer encodings are recognised in any case; no value, valid or not, is answered with memory out of bounds.",
   ["inputs"], "every 32 bit value, every text of up to 7 (encodings: 9) bytes",
   "Tests convert a few values.",
   ["src/Socket.cpp", "include/frnetlib/Http.h"], [("status_to_string", "src/Socket.cpp"), ("request_type_to_string, string_to_request_type, string_to_transfer_encoding", "include/frnetlib/Http.h")]),
 P("C34", "A file's MIME type depends on its extension only",
   "get_mimetype gives the same type for an extension, an extension with a dot and any file name which ends with it, the usual type for common extensions, and application/octet-stream for what can't be an extension; it never fails.",
   ["inputs"], "every extension of up to 2 bytes behind every name of up to 2 bytes; 26 common extensions behind every name of up to 2 bytes and all 685 known ones behind any character",
   "Tests look up one extension of several hundred.",
   ["src/Http.cpp"], [("get_mimetype", "src/Http.cpp")]),
 P("C35", "Conversion to network byte order is big-endian and reversible",
   "htonf, htond, fr_htonll and their counterparts give the most significant byte first and are inverse, bit for bit, for every value (NaNs included).",
   ["inputs"], "every 32 and 64 bit value", "Tests convert a few values, none of them a NaN.",
   ["include/frnetlib/NetworkEncoding.h"], [("htonf, ntohf, htond, ntohd, fr_htonll, fr_ntohll", "include/frnetlib/NetworkEncoding.h")]),
 P("C36", "A socket's blocking mode is its descriptor's, always",
   "After any sequence of changing the blocking mode, connecting, accepting and taking over descriptors, with a failing system call, get_blocking of a TcpSocket or SSLSocket says what was set last and the descriptor is in that mode; a blocking socket reports Timeout and a non-blocking one WouldBlock when nothing can be transferred, without transferring anything.",
   ["fault_sequences", "histories"], "four steps, one failure of any system call, TcpSocket and SSLSocket",
   "The mode of the descriptor isn't looked at by any test, and failures aren't injected.",
   ["src/TcpSocket.cpp", "src/SSLSocket.cpp", "include/frnetlib/NetworkEncoding.h"], [("set_blocking, set_descriptor", "src/TcpSocket.cpp"), ("set_blocking", "src/SSLSocket.cpp"), ("set_unix_socket_blocking", "include/frnetlib/NetworkEncoding.h")]),
 P("C37", "Timeouts apply to every connection a socket has",
   "The receive and send timeouts set last on a TcpSocket or SSLSocket are the ones of its descriptor, whether they were set before or after connecting, accepting or taking over a descriptor.",
   ["histories"], "four steps with any timeouts, TcpSocket and SSLSocket",
   "No test looks at timeouts.",
   ["src/TcpSocket.cpp", "src/SSLSocket.cpp", "src/Socket.cpp"], [("reconfigure_socket, set_receive_timeout, set_send_timeout", "src/TcpSocket.cpp")]),
 P("C38", "A WebSocket says goodbye once, and always closes its connection",
   "Through any sequence of connecting or accepting, failing, disconnecting and closing, a WebSocket which disconnects sends exactly one close frame of the right kind (masked if and only if it is a client) if it is connected, and the connection is closed afterwards, whatever fails.",
   ["fault_sequences", "histories"], "three steps, client and server, a failure at any call",
   "There are no tests of WebSocket.",
   ["include/frnetlib/WebSocket.h", "src/WebFrame.cpp"], [("disconnect, close_socket", "include/frnetlib/WebSocket.h")]),
 P("C39", "Concurrent use of separate sockets and messages is free of data races",
   "Two threads which each use objects of their own (sockets, listeners, selectors, WebSockets, messages, packets, URLs, encodings; a TLS context may be shared) never access the same memory without synchronisation, one of them writing, and each gets exactly what it would have got alone.",
   ["schedules", "inputs"], "all ordered pairs of 18 operations (which cover each class, with any 2 bytes of data), two threads; every pair of conflicting accesses which no synchronisation orders is found, whatever the schedule, as long as the schedule doesn't change which synchronisation happens: two orders of it are followed",
   "Races need particular interleavings, and a run with one hardly ever shows it; there are no tests with threads at all.",
   ["src/WebFrame.cpp", "src/Http.cpp", "src/URL.cpp", "src/Socket.cpp", "src/SocketSelector.cpp"], [("current_mask_key", "src/WebFrame.cpp"), ("known_mimetypes", "src/Http.cpp"), ("scheme_string_map", "src/URL.cpp"), ("base64_table", "src/Base64.cpp"), ("wait", "src/SocketSelector.cpp")]),
 P("C40", "A well-formed HTTP response is taken apart into what it says",
   "A response with any status code, with or without a reason phrase, any version, headers (whose values may be empty, have tabs and bytes beyond ASCII in them and whitespace around them) and body, with CRLF or LF line ends, with or without a content length, is accepted and gives exactly these (and no header which it doesn't contain); data beyond the declared length is dropped.",
   ["inputs"], "every three digit status code (1xx to 5xx), HTTP/0.0 to HTTP/9.9, reason phrases of up to 4 characters, up to two headers of up to 2 characters (or 302) each, 100 further headers, bodies of up to 3 bytes",
   "Tests parse a few fixed responses.",
   ["src/HttpResponse.cpp", "src/Http.cpp"], [("HttpResponse::parse, parse_header", "src/HttpResponse.cpp"), ("parse_header_line", "src/Http.cpp")]),
 P("C41", "A TLS context is seeded and knows the certificates it was given",
   "An SSLContext whose random number generator can't be seeded throws std::runtime_error and keeps nothing; certificates in PEM (with or without a terminating null byte) and DER form, from memory or a file, are all passed to the TLS library in the form it demands and added to the ones loaded before; loading succeeds if and only if the library accepts every one of them. Destruction releases everything once.",
   ["inputs", "fault_sequences", "histories"], "two loads of any kind, PEM texts with any 3 characters before, within and behind the certificate, DER and other data of up to 4 bytes, one failure (or partial failure) of any call",
   "There are no tests of SSLContext, and the TLS library's failures can't be injected.",
   ["include/frnetlib/SSLContext.h"], [("SSLContext, load_ca_certs_from_memory, load_ca_certs_from_file", "include/frnetlib/SSLContext.h")]),
 P("C42", "A failure is explained by what the failing call said",
   "The text Socket::status_to_string gives right after connect, send_raw, receive_raw, listen or accept of the TCP and TLS classes failed is the one of the error which made it fail: the address lookup's, the failed system call's or the TLS library's, not one left over from earlier, or from the cleaning up in between.",
   ["inputs", "fault_sequences"], "up to two addresses, up to two failures of any calls with any of their errors, blocking and non-blocking sockets, TcpSocket, SSLSocket, TcpListener and SSLListener",
   "No test looks at the text of an error, or makes a system call fail.",
   ["include/frnetlib/Socket.h", "src/TcpListener.cpp", "src/SSLSocket.cpp"], [("status_to_string", "include/frnetlib/Socket.h"), ("listen", "src/TcpListener.cpp"), ("connect, send_raw, receive_raw", "src/SSLSocket.cpp")]),
 P("C43", "A disconnected socket fails, and touches nobody else's descriptor",
   "Whatever is asked of a TcpSocket, SSLSocket, TcpListener or SSLListener which isn't connected (never was, failed to connect, or was closed) doesn't succeed in transferring or accepting anything, and neither uses nor closes nor reconfigures a descriptor which has since been given to somebody else; the socket can still be connected and used afterwards.",
   ["histories", "fault_sequences"], "every way of being disconnected, then any two of thirteen operations, with every free descriptor number reused by others",
   "Descriptors are reused by chance; tests use disconnected sockets for one or two calls.",
   ["src/TcpSocket.cpp", "src/SSLSocket.cpp", "src/TcpListener.cpp", "src/Socket.cpp"], [("disconnect, send_raw, receive_raw, set_blocking", "src/TcpSocket.cpp"), ("disconnect, close_socket", "src/SSLSocket.cpp"), ("close_socket, accept", "src/TcpListener.cpp")]),
 P("C44", "The fields of an HTTP message are what was last put in them",
   "URI, body, type, status, version and headers of a HttpRequest or HttpResponse are independent: each is what was set last (a URI with a leading slash added if it lacks one; setting an empty one changes nothing), starting out as /, empty, Unknown, Ok, HTTP/1.1 and none, through any sequence of setting, constructing (which changes nothing), copying, moving, assigning and swapping.",
   ["inputs", "histories"], "any three operations with any values of up to 2 bytes (302 in a second run of two operations)",
   "Tests set one field of one message.",
   ["src/Http.cpp", "include/frnetlib/Http.h"], [("set_uri, set_body, set_type, set_status, set_version", "src/Http.cpp"), ("Http", "include/frnetlib/Http.h")]),
 P("C45", "The components of a URL object are what was set, and decide its equality",
   "Scheme, host, port, path, query and fragment of a URL are independent: each is what was set or parsed last; get_uri is path, ?query and #fragment, get_url that with scheme://host:port in front (if there is a host), what is empty being left out; two URLs are equal exactly if all six are.",
   ["inputs", "histories"], "any four settings (the last two with any values of up to 2 bytes; 71 bytes in a second run), on empty and parsed URLs, copies and assignments",
   "Tests compare a few URLs which are equal, or differ in most components.",
   ["include/frnetlib/URL.h"], [("set_*, get_uri, get_url, operator==", "include/frnetlib/URL.h")]),
 P("C46", "The library can be used while global objects are being initialised",
   "Whatever the library does, it does in a constructor of a global object, before main() and before the library's own globals have been initialised, like it does later.",
   ["inputs", "histories"], "18 operations (which cover each class, with any 2 bytes of data), the program's globals being initialised before any of the library's (as with a static library)",
   "Which globals are initialised first depends on how a program is linked; tests run in main().",
   ["src/URL.cpp", "src/Http.cpp", "src/WebFrame.cpp", "src/Socket.cpp"], [("scheme_string_map", "src/URL.cpp"), ("known_mimetypes", "src/Http.cpp"), ("current_mask_key", "src/WebFrame.cpp")]),
 P("C47", "An HTTP message is as long as it declares, or it is rejected",
   "The body of a request or response is exactly as long as its content length says; a content length which isn't a number of bytes, two which differ, a chunk size which isn't hexadecimal digits followed by nothing but extensions, and a chunk whose data isn't followed by a line end give ParseError, never a guess or a message which is cut differently from what other parties see.",
   ["inputs", "schedules"], "content lengths of up to 3 arbitrary characters (2 behind 18 or more digits), two of up to 2, chunk size lines of up to 2 arbitrary characters behind five beginnings, any two bytes behind a chunk, bodies of up to 3 bytes, in one piece or two",
   "Tests parse well-formed lengths only; what a library takes a malformed one for shows only if it is tried (request smuggling works with these).",
   ["src/Http.cpp", "src/HttpRequest.cpp", "src/HttpResponse.cpp"], [("parse_header_line, parse_content_length", "src/Http.cpp"), ("HttpRequest::parse", "src/HttpRequest.cpp"), ("HttpResponse::parse", "src/HttpResponse.cpp")]),
 P("C48", "Shutting a socket down ends its transfers and keeps its descriptor",
   "After shutdown() of a connected TcpSocket or SSLSocket nothing is sent over it any more, and receiving gives what has already arrived and then Disconnected, without waiting; after shutdown() of a listener accept fails until it listens again. Both keep their descriptor (which others can therefore not be given) until they're disconnected or connected again, and are as good as new then; other sockets aren't affected.",
   ["histories"], "any four of nine operations on an accepted or connected, blocking or non-blocking socket and a listener, any 3 bytes having arrived, with close() failing",
   "Tests shut a socket down once, at the end; half a shutdown, or a descriptor which is closed too early, goes unnoticed without another thread waiting.",
   ["src/Socket.cpp", "src/TcpListener.cpp", "src/SSLListener.cpp", "src/SSLSocket.cpp", "src/TcpSocket.cpp"], [("shutdown", "src/Socket.cpp"), ("shutdown, close_socket", "src/TcpListener.cpp"), ("shutdown, close_socket", "src/SSLListener.cpp")]),
]
