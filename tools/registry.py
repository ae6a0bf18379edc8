#!/usr/bin/env python3
"""The properties and how each is decided; writes properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, q, tests, files, mech, technique=None, note=None, na=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': tests,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = state
    PROPS.append((d, technique, note, na))


HTTP, WS, MSG, WL, WF, JS = ('include/http/HTTPServer.hpp', 'include/http/WebSocket.hpp', 'include/weblink/Messages.hpp', 'include/weblink/WebLink.hpp',
                             'include/WebFront.hpp', 'include/JsFunction.hpp')
ENC, MIME, FS, NFS, IFS = 'include/http/Encodings.hpp', 'include/http/MimeType.hpp', 'include/system/FileSystem.hpp', 'include/system/NativeFS.hpp', 'include/system/IndexFS.hpp'
BFS, RFS, JFS = 'include/system/BabelFS.hpp', 'include/system/ReactFS.hpp', 'include/system/JasmineFS.hpp'
NET, HEX, LOG = 'include/networking/BasicNetworking.hpp', 'include/tooling/HexDump.hpp', 'include/tooling/Logger.hpp'
AI = 'abstract interpretation of the type-checked program (path-partitioned; linear inequalities, finite sets, symbolic contents; loop fixpoints)'

prop('C01', 'A request can only ever open files below the document root',
     'For every request target, after percent-decoding, the server opens either nothing or a file whose path is relative, stays below the document root and contains no parent-directory step; a target that is empty, does not start with a slash, or contains two consecutive dots after decoding is answered 400 without touching any file system. The local file provider always joins the requested path to its configured document root.',
     ['inputs', 'configurations'], 'every request target (all byte strings), every method, every file provider',
     'The tests open a handful of well-formed names; traversal is a property of every target and every spelling of it.',
     [HTTP, ENC, NFS], [('target validation and decoding before the providers are asked', HTTP + ' RequestHandler::handleRequest'), ('join to the document root', NFS + ' NativeFS::open')],
     AI + ' with path terms as the content domain',
     'Decides, for every path through the request handler and the native provider, that the opened path is a term rooted in the document root and guarded by the traversal test on the same decoded text.')
prop('C02', 'Connections share no mutable state',
     'Nothing a connection receives or sends is stored in an object shared with another connection: no code reachable from the server, the protocol layers, the codec, the file providers or the bridge writes an object with static storage duration or freezes one from the first caller\'s data. The process-wide logging state is the only exception.',
     ['schedules', 'histories', 'inputs'], 'every interleaving of any number of connections, requests and messages',
     'Each test uses one connection at a time, so a shared buffer is never overwritten between its filling and its use.',
     [HTTP, WS, MSG, WL, WF], [('buffers and parser state are members of the connection', HTTP + ' Request, Response, Connection')],
     'effect analysis: whole-program call graph and read/write classification of every use of static storage',
     'Structural: every use of every static object in the closed call graph is classified; nothing is executed.')
prop('C03', 'The HTTP request parser accepts exactly the request grammar, however it is cut',
     'For every byte sequence, cut into reads in every possible way, the request parser accepts, rejects or waits for more exactly as the documented request grammar says (request line, header lines with continuation lines, empty line), and for an accepted request the method, target, version and the list of header names and values are exactly those of the text. The result never depends on how the bytes were split across reads.',
     ['inputs', 'histories'], 'all byte strings and all splits into chunks',
     'The tests feed a few complete requests in one or two chunks.',
     [HTTP], [('character-driven state machine', HTTP + ' Request::parseSomeData')],
     'abstract interpretation of the parser, one abstract input byte at a time, in simulation against a reference transducer (product fixpoint over parser states)',
     'The product of the abstract parser states and the reference transducer is explored to a fixpoint, so strings of any length are covered.')
prop('C04', 'Every HTTP response is framed exactly: status line, headers, blank line, body',
     'Every response the server produces carries the status it decided on with its standard reason phrase, a Content-Length equal to the number of body bytes sent, and the content type of the requested file; the bytes put on the wire are exactly the status line, each header as name, colon, space, value, CRLF in order, one empty line, and the body. The body of a successful GET is exactly the bytes the file provider delivered, in order. A GET or HEAD of a file the provider does not have is answered 404, any other method (of an acceptable target) 501.',
     ['inputs', 'configurations'], 'every request, every file content and size, every response',
     'Tests compare two fixed responses; lengths and order for arbitrary bodies, names and headers are not sampled.',
     [HTTP, MIME], [('response construction', HTTP + ' RequestHandler::handleRequest, Response::getStatusResponse'), ('serialisation', HTTP + ' Response::toBuffers')],
     AI, 'Response fields and the serialised buffer list are compared as symbolic contents with the specified framing on every path; files of up to three reads and responses of up to three headers.')
prop('C05', 'Protocol upgrades happen only for genuine WebSocket handshakes',
     'The server answers 101 only to a GET request with an acceptable target of which some Connection header mentions "upgrade", some Upgrade header mentions "websocket" (letter case ignored, also in the header names) and which carries a Sec-WebSocket-Key, and then with the headers Upgrade: websocket, Connection: Upgrade and the Sec-WebSocket-Accept value RFC 6455 derives from that very key (the first one, if repeated), and without a body; every such request is answered 101.',
     ['inputs', 'histories'], 'every request (all methods, header names, values and their order)',
     'The tests send one upgrade request with fixed header spelling.',
     [HTTP, WS], [('upgrade decision', HTTP + ' RequestHandler::handleRequest, Request::isUpgradeRequest'), ('accept key', WS + ' getHashedSecKey')],
     AI, 'Requests of up to four headers (five in thorough mode) in enumerated arrangements with arbitrary values, and with arbitrary names; the percent-decoder is opaque here (C27), the SHA-1 and Base64 parts are terms (C28, C29).')
prop('C06', 'Compressed assets only go to clients that accept their encoding',
     'When the file found for a GET is stored compressed, the response carries its Content-Encoding and compressed bytes only if some Accept-Encoding header of the request mentions that very encoding (letter case ignored); otherwise the answer is 506 and none of the file is sent. Uncompressed files are served without a Content-Encoding header.',
     ['inputs', 'configurations'], 'every request header list, every file provider and encoding',
     'One test per asset with a fixed Accept-Encoding value.',
     [HTTP, FS], [('content negotiation', HTTP + ' RequestHandler::handleRequest')],
     AI, 'Decided on every path of the request handler for requests of up to four headers in enumerated arrangements, arbitrary values, and file contents of up to three reads.')
prop('C07', 'Each HTTP connection answers once and is always released',
     'On an HTTP connection at most one read or write is pending at any time; a complete or malformed request gets exactly one answer, an incomplete one makes the server read further, and after the answer the connection is shut down or handed over, never read again; it is handed over exactly when the answer was 101 and was written without error. Every connection that ends (answered, failed, or handed to the WebSocket layer) is removed from the server\'s set of live connections, except when the operation was aborted by the server itself.',
     ['schedules', 'histories', 'fault_sequences'], 'every sequence of completions of asynchronous operations with any error code and byte count',
     'The mock network of the tests completes each operation successfully and immediately.',
     [HTTP], [('asynchronous read/write completion handlers', HTTP + ' Connection::read, Connection::write'), ('live set', HTTP + ' Connections')],
     'typestate analysis: completion handlers are interpreted abstractly from every reachable pending-operation state with arbitrary results',
     'The event loop is abstracted as an arbitrary choice of completion results; the pending-handler state graph is explored to closure.')
prop('C08', 'A WebSocket reads one at a time, stops when closed, and reports it once',
     'On a WebSocket at most one read is pending at any time; while it is open every successful read is followed by the next, and once closed (by the peer, by an error or by the application) no further read is started and no message is delivered. Each complete text or binary frame is delivered to its handler exactly once and in order, and a close or read error is reported to the close handler exactly once.',
     ['schedules', 'histories', 'fault_sequences'], 'every sequence of read and write completions, received frames and calls to start, stop and write',
     'The tests drive one or two frames through a mock socket that never fails.',
     [WS], [('asynchronous read loop', WS + ' WebSocket::read'), ('open/closed state', WS + ' WebSocket::start, stop')],
     'typestate analysis of the WebSocket object over abstract completions',
     'The object is driven by an arbitrary sequence of completions and calls, states compared up to an abstract fingerprint; the frame decoder is summarised (C10 is about it).')
prop('C09', 'Memory handed to an asynchronous operation outlives it',
     'Every buffer given to an asynchronous read or write stays allocated and unchanged until that operation completes: it lies in the connection or WebSocket object that started the operation, in storage that the completion handler itself owns, or in static storage, never in a local variable or temporary of the function that started it, and the bytes of a write are not touched before it completes. The HTTP completion handlers keep their connection alive.',
     ['schedules', 'histories'], 'every interleaving of asynchronous completions',
     'The mock network copies the data at once, so a dangling buffer is never observed.',
     [HTTP, WS], [('self-owning handlers', HTTP + ' Connection::read, write'), ('owned copy of the frame', WS + ' WebSocket::writeData')],
     'lifetime (points-to/escape) analysis of the buffers reaching asynchronous calls, on the abstract heap', 'Object lifetimes are tracked in the abstract heap: each buffer\'s owner is identified at the asynchronous call.')
prop('C10', 'The frame decoder is memory safe and returns exactly the announced payload',
     'For every sequence of received byte chunks, the WebSocket frame decoder never reads outside the chunk it was given nor writes outside its own buffers, and it reports a frame complete exactly when all the announced payload bytes have arrived. The decoded payload then has exactly the announced length and each byte is the received byte combined with the mask byte of its position, independent of chunking, and the bytes following the frame are left for the next one.',
     ['inputs', 'histories'], 'every byte stream and every split into chunks, every announced length including the largest',
     'Tests decode four fixed frames in two or three splits.',
     [WS], [('incremental decoder', WS + ' FrameDecoder::parse')],
     AI, 'Bounds obligations on every access plus a per-byte provenance argument for the payload.')
prop('C11', 'Frame headers are written and read with the same RFC 6455 layout',
     'For every payload size the frame header writer chooses the 7, 16 or 64 bit form prescribed by RFC 6455 and stores the size in network byte order, and the header reader recovers exactly the same final flag, opcode, mask flag, masking key, header size and payload size from those bytes; a header is reported complete exactly when all its bytes are there.',
     ['inputs'], 'all 2^64 sizes, all header byte values, all opcodes',
     'The tests check a few sizes.',
     [WS], [('header accessors', WS + ' Header')],
     'bit-provenance abstract interpretation of the header accessors', 'Every result bit is traced to the header bit it comes from; sizes are split at the form boundaries.')
prop('C12', 'Decoding a received message never reads outside it',
     'Whatever bytes a client sends, decoding the message, its function name and its parameters only reads bytes of that message; every size announced inside the message is checked against what is left before it is used, and a message that is too short or announces too much is refused with an exception that carries no stray data.',
     ['inputs'], 'all byte strings of all lengths, all parameter types',
     'Tests decode messages which the library itself encoded.',
     [MSG, WL], [('bounded decoding', MSG + ' FunctionCall::decodeParameter, MessageBase::castFromRawData')],
     AI, 'Every access is an obligation: index below the bound known on that path.')
prop('C13', 'Parameters survive the trip: decoder, encoder and browser client agree',
     'Every value of a supported parameter type that is encoded (booleans, numbers, strings of every length, tuples) is decoded again to the same value, consuming exactly the bytes that were produced; the type codes, command codes, length prefixes and endianness agree with those of the JavaScript client embedded in the server. A received value of another kind than the declared parameter (boolean, number, text, tuple of that size) is refused, never converted silently, except that a boolean parameter accepts a number for its truth value; a number is accepted by an integer parameter only if that can hold its integral part; an "undefined" gives the default value.',
     ['inputs', 'programs'], 'all values of all supported types, all orders of parameters',
     'Tests round-trip a few literals.',
     [MSG, IFS], [('type-directed encoder and decoder', MSG + ' FunctionCall::encodeParameter, decodeParameter'), ('embedded client', IFS + ' WebFrontJs')],
     AI + '; syntax-tree analysis of the embedded client', 'The encoder\'s symbolic output is fed to the abstract decoder for every type; the client\'s tables are extracted from its parsed source.')
prop('C14', 'Outgoing messages are one well-formed frame with consistent counts',
     'Every message sent to a client (handshake answer, text command, function call, function return) is one final WebSocket frame whose announced length equals the number of bytes that follow, starting with the command byte of that message; the parameter count and data size announced in a call equal the parameters actually appended, in order, starting with the function name.',
     ['inputs', 'programs'], 'all function names, parameter lists and texts',
     'Tests check two calls.',
     [MSG, WS, JS, WL, WF], [('frame construction', WS + ' Frame'), ('call construction', JS + ' JsFunction::operator()')],
     AI, 'The byte sequence handed to the network is computed symbolically and compared with the format.')
prop('C15', 'Sizes written on the wire are never truncated',
     'Whenever a length or count is stored in a 1, 2 or 4 byte field of an outgoing message, the stored value equals the true one for every input; a string or parameter list that does not fit is refused with an exception before anything is sent.',
     ['inputs'], 'all strings of all lengths, all parameter counts',
     'Tests use short strings.',
     [MSG, JS, WL], [('length checks', MSG + ' FunctionCall::encodeParameter, TextCommand')],
     AI, 'Each narrowing conversion on the encoding paths is an obligation: the value fits on that path.')
prop('C16', 'No client input can raise an exception out of the event loop',
     'No request bytes, WebSocket frame or message a client may send, in any order, makes an exception escape a network completion handler or terminate the process; a bad request is answered 400, a bad message is dropped or answered with an error, and the server keeps serving. The application\'s own functions are taken to raise exceptions derived from std::exception only, which are caught; running out of memory and what the application\'s handler of a started UI raises are outside this property.',
     ['inputs', 'histories'], 'every request and message content',
     'Tests send well-formed requests and messages.',
     [HTTP, WL, MSG, WF], [('exception handlers', HTTP + ' Connection::read; ' + WL + ' WebLink constructor')],
     'interprocedural exception analysis over the call graph (throw sites, catch types, standard-library throw summaries) refined by abstract interpretation', 'Each escaping exception is reported with its call chain. Out-of-memory conditions and exceptions thrown by application callbacks registered for UI start are excluded.')
prop('C17', 'Log format strings always match their arguments',
     'Every logging call in the library passes a format string that is valid and whose replacement fields match the number and types of its arguments, so that no logging call can throw or drop text whatever values are logged.',
     ['programs', 'inputs'], 'every logging call site and every value logged',
     'Log calls on error paths are not executed by the tests.',
     [LOG, HTTP, WS, WL], [('formatting front ends', LOG)],
     'custom lint over the resolved program: each call of a logging front end, its format string and the types of its arguments', 'Format strings are parsed and every replacement field is checked against the argument type.')
prop('C18', 'A log message appears exactly when its level is enabled, with its level\'s label',
     'For every configured log level, a message logged at some level is delivered to the sinks if and only if that level is enabled, exactly once per registered sink, and carries the label of its level; hexadecimal dumps follow the same gating. Disabling logging delivers nothing.',
     ['configurations', 'histories'], 'every level setting and every front end',
     'Tests check a couple of level settings and front ends.',
     [LOG], [('level flags and front ends', LOG)],
     AI, 'The level setter and each front end are interpreted for all level values; deliveries are counted.')
prop('C19', 'Embedded assets are complete, intact and served under their names',
     'Every embedded asset declares a size that its stored words cover exactly, and its bytes decompress with the declared encoding to a complete document; each asset is served under its own file name and no other name serves an asset. A combined file provider tries its parts in order and returns the first match.',
     ['inputs', 'configurations'], 'every embedded asset and every requested name',
     'Tests read the beginning of some assets.',
     [IFS, BFS, RFS, JFS, FS], [('static data tables', IFS), ('provider lookup', FS + ' Multi::open')],
     'constant evaluation of the asset tables from the type-checked source and abstract interpretation of the providers', 'The constants are read from the syntax tree and decompressed; the lookups are interpreted with an arbitrary name.')
prop('C20', 'Reading a file in pieces delivers each byte exactly once, in order, then stops',
     'For every file and every sequence of read buffer sizes, successive reads of an embedded file deliver its bytes exactly once and in order, never more than the buffer holds nor more than the file has, never read outside its stored data, and return zero exactly at the end; reading a native file returns the number of bytes actually read.',
     ['inputs', 'histories'], 'every file size, every sequence of buffer sizes',
     'Tests use one buffer size per file.',
     [FS], [('chunked reader', FS + ' File::read')],
     AI, 'An inductive argument over one read from an arbitrary reader state, with bounds obligations on each access.')
prop('C21', 'Name tables are right: methods, status reasons, content types',
     'Every HTTP method name maps to its own method and back, and every other text maps to the undefined method; each status code has its standard reason phrase; each known file extension maps to its registered media type with and without a leading dot, every other extension to text/plain.',
     ['inputs'], 'all method texts, all status codes, all extensions',
     'Tests check a few entries of each table.',
     [HTTP, MIME], [('tables', HTTP + ' Request, Response; ' + MIME)],
     'abstract evaluation of the table functions over symbolic text and every enumerator', 'All entries and the complement are evaluated abstractly.')
prop('C22', 'The library never changes the host or reaches beyond its socket',
     'Serving clients never creates, modifies or deletes files, starts or signals processes, changes the environment, or opens network connections of its own: files are only opened for reading, and the only outward effects are on the accepted sockets, the log sinks and the standard streams.',
     ['inputs', 'programs'], 'every code path of the library',
     'Absence of an effect cannot be sampled.',
     [HTTP, WS, MSG, WL, WF, FS, NFS], [('read-only file access', NFS)],
     'effect analysis: denylist of effectful standard and system calls over the closed call graph', 'Structural.')
prop('C23', 'Network buffer views cover exactly the memory they are made from',
     'Every helper that makes a network buffer from an array, string, view, vector or pointer and size yields a view starting at that object\'s storage and covering exactly its bytes, or exactly the requested count, never more; a view of constant data is never writable, and advancing a buffer never moves past its end.',
     ['inputs', 'programs'], 'all container kinds and sizes',
     'Tests build a few buffers.',
     [NET], [('Buffer overload set', NET + ' BasicNetworking::Buffer')],
     AI, 'Every instantiated overload is interpreted with a container of symbolic size.')
prop('C24', 'Registered C++ functions stay callable and get their arguments in order',
     'A C++ function registered under a name is called once for each call message with that name, for the whole life of the server, with the decoded parameters in their declared order; the callable is kept by the server and never refers to a registration-time temporary. A call of an unknown function is answered with an error return and calls nothing.',
     ['histories', 'programs', 'inputs'], 'every registration and call sequence, every signature',
     'Tests do not exercise the bridge registration at all.',
     [WF, WL], [('function registry', WF + ' BasicWF::cppFunction, onEvent')],
     AI, 'Registration and dispatch are interpreted; captured references to locals are lifetime violations. A message whose parameters do not fit the signature may be refused instead, calling nothing.')
prop('C25', 'Log sinks never outlive what they use',
     'A log sink registered by a client link is removed no later than the destruction of that link, is registered at most once per link, and removing a sink only removes that sink; identifiers of live sinks are distinct.',
     ['histories', 'schedules'], 'every sequence of handshakes, sink registrations and link destructions',
     'Tests register and remove one sink.',
     [LOG, WL], [('sink registry', LOG + ' Sinks'), ('link life cycle', WL + ' WebLink')],
     AI, 'Typestate of the registration handle over the link\'s handlers and destructor.')
prop('C26', 'Links are identified uniquely and announced on handshake',
     'Every upgraded connection gets a link with its own identifier, different from those of all live links; the application is told of a link exactly when its handshake message has arrived, after the acknowledgement was sent, with that identifier. Sending through an identifier reaches that link or raises an error.',
     ['histories', 'schedules'], 'every order of upgrades, handshakes and calls',
     'No test links two clients.',
     [WF, WL], [('identifier allocation', WF + ' BasicWF'), ('handshake', WL + ' WebLink')],
     AI, 'Interpreted for an arbitrary map of live links.')
prop('C27', 'Percent-encoding and decoding are exact inverses on every byte',
     'Encoding a text leaves letters, digits and the four unreserved marks as they are and turns every other byte into a percent sign and its two upper-case hexadecimal digits; decoding turns each well-formed escape into its byte, each plus into a space, and leaves every other byte, including malformed escapes, untouched. Decoding an encoded text gives the text back.',
     ['inputs'], 'all byte strings',
     'Tests decode a few samples.',
     [ENC], [('URI codec', ENC + ' uri::encode, uri::decode')],
     'abstract interpretation of one loop iteration for every byte class (transducer extraction)', 'The loop is summarised as a finite transducer that is compared with the reference.')
prop('C28', 'Base64 output is the standard encoding for every input length',
     'For every byte sequence, base64 encoding produces four characters per started group of three bytes, each character being the standard alphabet letter of the right six bits of the input, padded with one or two equal signs exactly when one or two bytes are missing; it never reads outside its input nor writes outside its output.',
     ['inputs'], 'all byte sequences of all lengths',
     'Tests encode a few strings.',
     [ENC], [('base64 encoder', ENC + ' base64::encode')],
     'bit-provenance abstract interpretation', 'Each output character is traced to six input bits and an alphabet table checked entry by entry.')
prop('C29', 'The SHA-1 digest follows FIPS 180 for every message length',
     'For every message below 2^29 bytes, the padding (one bit, zeros, 64-bit length), the message schedule, the round functions with their constants and rotations, and the final additions are those of SHA-1, applied to every 64-byte block in order.',
     ['inputs'], 'all messages',
     'Tests hash a few strings.',
     [ENC], [('SHA-1', ENC + ' crypto::sha1')],
     'value numbering of the abstractly interpreted compression function against the specification', 'The compression function is interpreted with symbolic words and compared term by term.')
prop('C30', 'Hexadecimal dumps show every byte once and never read outside the data',
     'For every data size, a hexadecimal dump reads only the bytes it was given, shows each of them exactly once and in order with its two hexadecimal digits and its printable character or a dot, sixteen per line.',
     ['inputs'], 'all data sizes and contents',
     'Tests dump one or two buffers.',
     [HEX], [('dumper', HEX)],
     AI, 'Bounds obligations for all sizes.')
prop('C31', 'The logged JavaScript and injected scripts reach the browser unchanged',
     'The text of a log line or injected script sent to a client arrives as sent: the command carries the right operation code, the big-endian byte length and exactly the bytes of the text, truncated only when it exceeds the largest length (log lines) or refused (scripts).',
     ['inputs'], 'all texts',
     'Tests send short texts.',
     [MSG, WL, WF], [('text commands', MSG + ' TextCommand')],
     AI, 'The produced bytes are compared symbolically.')
prop('C32', 'Forwarding log lines to a client cannot feed back',
     'Forwarding a log line to a linked client (encoding it, starting the write, and the completion of that write) never logs a line itself, except to report once that the link failed. Logging a line therefore always terminates, at every log level and with any number of linked clients.',
     ['inputs', 'histories'], 'all log lines, levels and outcomes of the write',
     'Tests never link a client while the debug level is on.',
     [LOG, WL, WS], [('client sink', WL + ' WebLink::onMessage'), ('write completion', WS + ' onWriteComplete')],
     AI, 'Effect analysis (logging events) of every path of the sink and of the completion of its write; asynchronous writes complete on the event loop, never inside the starting call.')


def main():
    checks, na = [], []
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for d, tech, note, reason in PROPS:
            fh.write(json.dumps(d) + '\n')
            built = os.path.exists(os.path.join(V, 'analysis', 'checks', d['id'].lower() + '.py')) and d['id'] not in HOLD
            if built and not reason:
                c = f'python3 /verif/analysis/check.py {d["id"]} '
                checks.append({'property': d['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'technique': 'static analysis: ' + tech,
                               'level': 'other', 'level_note': note})
            else:
                na.append({'property': d['id'], 'reason': reason or 'the analysis of this property is not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/analysis/check.py --setup', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'claimed,', len(na), 'not')


HOLD = set()
if __name__ == '__main__':
    main()
