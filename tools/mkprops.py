import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
REQ='puck/src/request/mod.rs'; CORE='puck/src/core/mod.rs'; RT='puck/src/core/router/mod.rs'; MU='puck/src/core/router/match_url.rs'
BODY='puck/src/body/mod.rs'; RES='puck/src/response/mod.rs'; ENC='puck/src/response/encoder.rs'
FR='puck/src/ws/frame.rs'; MSG='puck/src/ws/message.rs'; WS='puck/src/ws/websocket.rs'; UP='puck/src/ws/upgrade.rs'; SEND='puck/src/ws/send.rs'
DIFF='puck_liveview/src/dom/element/diff/mod.rs'; SER='puck_liveview/src/dom/element/diff/changeset/instruction_serializer.rs'; JS='puck_liveview/client/index.js'
COMP='puck_liveview/src/component/mod.rs'; HTML='puck_liveview/src/html/mod.rs'

p('C01','A parsed request is exactly the request that was sent',
 "For every well-formed HTTP/1.1 request head that carries a Host header and at most 20 header lines, parsing yields the method that was sent, the URL made of the Host and the request target (path and query kept; an absolute http or https target is used as it is), and every header with its exact name and value. Where one header name is sent several times the last value is the one reported, and Host and Content-Length are recognised in any letter case, so the same bytes always parse to the same request.",
 ['inputs'],'every well-formed head: methods, origin-form and absolute targets, 1..20 header lines in any order, case and value',
 'the two parse tests feed two fixed header lists and only check that parsed headers were among those sent; method, URL, repeated names and the 20-header limit are never looked at',
 [REQ],[('head scan and httparse call','Request::parse'),('method mapping','Method::new_from_str'),('URL assembly','Request::parse, Host lookup')],
 ['Request::method/url/headers after Request::parse','handler arguments of a served request'])
p('C02','Parsing does not depend on how bytes arrive',
 "Whatever a byte stream contains, parsing it as a request or as a response gives the same outcome - the same parsed message with the same body, 'empty', or the same kind of error - however the transport splits those bytes into reads. The head ends at the first empty line and at no other place, and every byte after it belongs to the body.",
 ['inputs','schedules'],'every byte stream and every way to cut it into reads, from one byte at a time to everything at once, heads and bodies longer than the internal buffers included',
 'tests parse from an in-memory cursor that returns everything in one read',
 [REQ,RES,BODY],[('line-wise head accumulation','Request::parse, Response::parse'),('reader handed over to the body','Body::from_reader')],
 ['result of Request::parse / Response::parse over a reader with scripted chunk sizes','served requests sent in pieces over TCP'])
p('C03','A body is exactly the declared bytes',
 "Reading a body yields, in order and without loss or repetition, exactly the bytes that follow the head up to the declared Content-Length, whatever sizes the reader asks for, and never a byte beyond it even if the peer keeps sending. With no declared length the body is everything up to the end of the stream; if the stream ends early the body is exactly what did arrive, and a declared length that is larger than the data never makes reading fail or crash.",
 ['inputs','histories'],'every content, declared length (absent, shorter, equal, longer, huge), chunking of the source and sequence of read sizes, for requests, responses and bodies built from a reader',
 'no test reads a body at all',
 [BODY,REQ,RES],[('length-limited read','impl Read for Body'),('Content-Length lookup','Request::parse, Response::parse')],
 ['Body read / into_bytes / into_string'],[dict(name='bytes_read',meaning='bytes already handed to the reader',where='Body')])
p('C04','Bad requests are answered with 400 and never reach a handler',
 "A request whose head is malformed, has no Host, has more than 20 header lines, has a header value that is not UTF-8, or stops before its blank line is never turned into a request and never reaches a route matcher, a handler or the per-request function. Parsing reports it as an error (or as 'empty' when the stream ended before the blank line) without crashing, and a running server, in each of its serving modes, answers the connection with exactly one 400 response and closes it.",
 ['inputs','fault_sequences'],'every defect of a head (bad method, target, version, header name or value, missing Host, 21+ headers, truncation at every byte) in every serving mode',
 'no test parses a malformed request or runs a server',
 [REQ,CORE,RT],[('parse errors','RequestParseError'),('400 reply','Core::serve_router, Core::for_each, Router::run')],
 ['Request::parse result','bytes received by the client; log of matcher and handler calls'])
p('C05','The first matching route handles each request, exactly once',
 "For every router and every well-formed request, the handler that runs is the one of the first route, in the order the routes were added, whose matcher accepts the request; it runs exactly once, with that request, its body and the server's state, and no other handler runs. When no matcher accepts, no handler runs; when a server applies one function to every request, that function runs exactly once per well-formed request.",
 ['configurations','inputs'],'every list of routes with overlapping matchers and every request, in every serving mode',
 'no test builds a router',
 [RT,CORE],[('ordered scan','Router::respond'),('routes carried to the connection process as integers','Router::as_ints / from_ints')],
 ['log written by matchers and handlers, response bytes'])
p('C06','A URL pattern matches exactly the paths it describes',
 "A pattern matches a URL if and only if the URL's path has exactly as many segments as the pattern and each segment fits: a fixed segment equals it exactly, 'anything' fits every segment including the empty one, and 'any integer' fits a segment that is an optionally signed decimal 32-bit integer and no segment that is not an integer. Scheme, host, query and fragment play no part, and a URL without a hierarchical path never matches.",
 ['inputs','configurations'],'every pattern (any length, any mix of segment kinds) and every URL',
 'one pattern is tried on two URLs',
 [MU],[('segment-wise comparison','Match::does_match')],['Match::does_match'])
p('C07','Connections are independent of each other',
 "A connection that stalls, sends garbage, disconnects or whose handler crashes never delays, changes or prevents the response on any other connection, and the server keeps accepting. Every client receives the response to its own request only, whatever the interleaving of connects, partial sends, disconnects and crashes.",
 ['schedules','fault_sequences','crash_points'],'every interleaving of the steps of several connections with stalls, aborts and handler crashes at every point',
 'no test opens a connection',
 [CORE,RT],[('one process per connection','Process::spawn in Core::serve_router, Core::for_each, Router::run')],
 ['bytes each client receives, server still accepting'])
p('C08','A response goes on the wire as exactly one well-formed message',
 "Every response is written as one HTTP/1.1 message: a status line with its status and reason, each of its headers exactly once with its exact value, an empty line, then exactly the bytes of its body; a served connection is closed after it. Text containing line breaks in a header or reason never adds header lines or a second message: such a response is refused with an error instead.",
 ['inputs'],'every status, reason, set of headers and body (any size, any source), on any writer including one that accepts only part of each write',
 'no test encodes a response',
 [ENC,CORE,'puck/src/lib.rs','puck/src/response/builder.rs'],[('encoding','Encoder::write_tcp_stream'),('sending','Stream::respond, write_response')],
 ['bytes produced by the encoder, bytes received by a client up to end of stream'])
p('C09','A written request parses back to the same request',
 "For every request built with a Host header and at most 20 headers of valid text, writing it and parsing what was written gives back a request with the same method, the same path and query, the same headers and the same body bytes. Writing emits one request line, each header once, an empty line and then the body.",
 ['inputs'],'every method (GET, POST, HEAD and others), URL, header set and body',
 'the two regression tests use GET, the root path and no query, and only compare header membership',
 [REQ,'puck/src/request/builder.rs'],[('serialisation','Request::write, Method::write'),('parsing','Request::parse')],
 ['bytes written; Request after parse'])
p('C10','A written response parses back to the same response',
 "For every response with a three-digit status, at most 20 headers of valid text and a Content-Length matching its body, parsing the bytes it is written as gives back the same status, reason, headers and body, and the body ends at Content-Length even when more bytes follow on the stream. A stream that ends before the blank line is reported as 'empty', and text that is not a response as an error, never as a response.",
 ['inputs'],'every status, reason, header set (up to 20), body, trailing bytes and truncation',
 'no test parses a response',
 [RES,ENC],[('parsing','Response::parse'),('Content-Length lookup','Response::parse')],['Response after parse'])
p('C11','Builders and body replacement keep the last value set',
 "After any sequence of builder calls, the request or response built has exactly the headers that were set (the last value for a repeated name), the last method, status, reason and body given, and the documented defaults otherwise (status 200, empty reason, empty body; a request without method is refused). Replacing or taking a body returns the previous body with its content intact, installs the new one, changes only the Content-Type header, and a taken body leaves an empty one behind.",
 ['histories'],'every sequence of builder, replace and take calls',
 'builders are only used to set up two parse tests',
 ['puck/src/request/builder.rs','puck/src/response/builder.rs',REQ,RES,BODY],[('setters','RequestBuilder, ResponseBuilder'),('swap','replace_body, take_body')],
 ['headers(), status(), reason(), body content of the built message'])
p('C12','WebSocket upgrade happens exactly when the client asked for it',
 "A connection is upgraded if and only if the request carries Upgrade: websocket, a Connection header that lists the token upgrade, and a Sec-WebSocket-Key, all recognised in any letter case of the header names and of the first two values. An accepted upgrade answers with exactly one 101 response whose accept token is the RFC 6455 digest of that key; a refused one answers with exactly one 400 response and the application gets no WebSocket.",
 ['inputs'],'every combination of presence, absence, letter case and value of the three headers among other headers; every key',
 'one fixed key is hashed; the decision and the responses are never exercised',
 [UP,CORE],[('decision','should_upgrade'),('handshake','perform_upgrade, Stream::upgrade')],['bytes the client receives; result of Stream::upgrade'])
p('C13','Every frame is decoded exactly, however it arrives',
 "For every frame a client may send (any opcode, flags, mask key and payload length, in 7-bit, 16-bit or 64-bit length form) decoding yields its flags, its opcode and its unmasked payload, however its bytes are split across reads, and consumes exactly that frame's bytes: what follows stays available for the next frame. A frame whose payload is not masked, or that is cut off by the end of the stream, is an error, and a huge declared length never crashes the decoder.",
 ['inputs','schedules'],'every frame and sequence of frames, every segmentation, every truncation point',
 'two two-byte frames are decoded from a cursor',
 [FR],[('frame parser','Frame::parse')],['Frame fields; what remains in the reader'])
p('C14','Client messages are delivered once, whole and in order',
 "The application receives exactly the messages the client sent, in order, each exactly once with its type and full payload, however they are fragmented into frames and whatever control frames are interleaved between the fragments, and however the frames are packed into or split across network packets. Text is delivered only if the whole message is valid UTF-8.",
 ['inputs','schedules','histories'],'every sequence of messages, every fragmentation including empty fragments, every interleaving of pings and pongs, every packing into segments',
 'no test decodes a message or more than one frame per stream',
 [MSG,FR,WS],[('reassembly','Message::next'),('delivery','impl Iterator for WebSocket')],['items returned by the WebSocket iterator / Message::next'])
p('C15','Each ping is answered by exactly one matching pong',
 "Every ping the application reads from a connection is answered with exactly one unmasked pong carrying the same payload, pongs leave in the order of their pings, and the ping itself is also delivered to the application. Nothing else makes the connection send a pong, and a pong, text or binary message from the client is never answered automatically.",
 ['histories','inputs'],'every history of received messages and application sends',
 'no test runs a WebSocket',
 [WS,SEND],[('auto-pong','impl Iterator for WebSocket')],['frames received by the client, items delivered'])
p('C16','Closing is answered once and nothing follows',
 "When the client sends a close frame (before, between or inside messages) the connection answers with exactly one close frame, reports itself closed to the application on that and every later read, and delivers no message that comes after it. Closing from the application sends exactly one close frame if the connection was open and none if the closing handshake had already been answered.",
 ['histories'],'every history of messages, sends, reads and closes from both sides',
 'no test closes a WebSocket',
 [WS,MSG],[('state machine','WebSocket::next, WebSocket::close')],['frames received by the client, items returned by the iterator'],[dict(name='state',meaning='Open or Closed',where='WebSocket')])
p('C17','Protocol violations surface as errors, never as messages',
 "A reserved opcode, a set reserved bit, an unmasked payload, a continuation with nothing to continue, a new data message inside an unfinished one, a fragmented or longer-than-125-byte control frame and text that is not UTF-8 are each reported to the application as a protocol error. The offending data is never delivered as a message nor answered with a pong, the process does not crash, and after the error the connection delivers no further message and reports itself closed.",
 ['inputs','histories'],'every violation at every position of an otherwise valid history',
 'no test sends an invalid frame',
 [MSG,FR,WS],[('checks','Message::next, Frame::parse'),('failing the connection','impl Iterator for WebSocket')],['items returned by the iterator, frames received by the client'])
p('C18','Every message sent becomes one minimal, correct frame',
 "Each message the application sends reaches the client as exactly one final, unmasked frame with the message's type and exact payload, in the order sent, with the payload length in the shortest of the three RFC 6455 forms, for every payload size. Sending never disturbs what is being received on the same connection.",
 ['inputs','histories'],'every type, payload content and size (all length-form boundaries) and every order of sends',
 'no test sends a message',
 [FR,SEND,WS],[('header encoding','Frame::format, Frame::format_length'),('write','send_frame')],['bytes received by the client'])
p('C19','Losing the client ends a WebSocket cleanly',
 "If the client disconnects without a closing handshake, at any byte of any frame, the application's reads report an error after the messages that arrived in full and from then on report the connection closed. Nothing that was cut off is delivered as a message, reading never blocks or crashes, not even when a pong or close reply can no longer be written.",
 ['crash_points','histories'],'a disconnect (orderly or reset) after every byte of every history, also with pings or a close still to be answered',
 'no test disconnects a client',
 [WS,FR,MSG,SEND],[('error mapping','DecodeMessageError, NextMessageError'),('replies','send_close_frame, auto-pong')],['items returned by the iterator after the disconnect'])
p('C20','The first changeset paints exactly the rendered tree',
 "For every element tree a component renders first, the changeset sent when the client connects, applied in order by the shipped browser client to an empty page, produces exactly that tree: names, ids, attributes, text, child order and listeners. Exactly one changeset is sent for it.",
 ['inputs'],'every element tree with distinct ids (any shape, attribute, text and listener content)',
 'the liveview tests compare against the test-only apply function on a handful of trees, never with the browser client',
 [DIFF,SER,JS,COMP],[('creation instructions','Element::diff(None)'),('wire form','InstructionSerializer'),('client interpreter','client/index.js')],['JSON sent on the socket; DOM built by client/index.js'])
p('C21','After every update the browser shows exactly the latest render',
 "For every history of renders of unkeyed trees numbered by the id generator, after the client has applied the changesets received so far in order its document equals the component's latest render: names, ids, attributes, text, child order, and the listeners that fire. An update that changes nothing visible sends a changeset that changes nothing.",
 ['histories'],'every sequence of rendered trees: nodes added, removed, renamed, moved, text and attributes set, changed and removed, listeners changed, ids shifted',
 'a few fixed before/after pairs are compared through the test-only apply function; several of them are ignored as broken',
 [DIFF,SER,JS,COMP],[('diff','Element::diff'),('wire form','InstructionSerializer'),('client interpreter','client/index.js')],['DOM built by client/index.js after each changeset'],[dict(name='old_dom',meaning='tree the client is believed to show',where='main_loop')])
p('C22','A browser event triggers exactly the listener it names',
 "A client event naming a listener of the latest render runs exactly that listener's callback once, with the event's value for an input event, feeds the result to the component once and sends exactly one changeset. An event that names no current listener, lacks the value an input needs, or is not a valid event message runs nothing and sends nothing, and the session goes on.",
 ['inputs','histories'],'every history of valid, stale, unknown and malformed client messages interleaved with renders that change the listeners',
 'no test drives a component',
 [COMP,'puck_liveview/src/client/mod.rs','puck_liveview/src/dom/listener.rs'],[('dispatch','main_loop')],['component inputs logged by the component, changesets received'])
p('C23','A component processes its inputs in order and stops with its client',
 "Messages sent to a component's process handle and browser events are each processed exactly once, those of one sender in the order sent, each followed by one changeset reflecting it. When the client closes the connection or disappears the component is dropped exactly once, processes nothing further, and its session stops consuming processor time.",
 ['schedules','histories','crash_points'],'every interleaving of handle messages, browser events, close and disconnect',
 'no test starts a component',
 [COMP],[('process structure','component::manage, main_loop')],['component log, changesets received, processor time of the server after clients left'])
p('C24','Rendered nodes become elements with unique ids in document order',
 "Turning any tree of nodes into elements yields one element per node with that node's tag, attributes, text, listeners and children in order, and ids that are consecutive and unique in document order starting from the generator's next value. One generator never hands out the same id twice.",
 ['inputs'],'every tree of supported nodes and every starting id',
 'four fixed trees are compared with snapshots',
 [HTML,'puck_liveview/src/html/id.rs'],[('conversion','WrappedBodyNode::into_element'),('numbering','IdGen')],['Element returned'])
p('C25','The list example never loses, reorders or invents items',
 "With any number of concurrent clients, each successful submission is added exactly once and a read for n items returns exactly the last n items (all of them if there are fewer) in one order that is consistent with the real-time order of all submissions and reads.",
 ['schedules','histories'],'every interleaving of concurrent submissions and reads',
 'the example has no tests',
 ['examples/list/src/main.rs',CORE,RT],[('single owner process','AbstractProcess for List')],['HTTP responses of the running example'])
p('C26','The chat example delivers each message once to every registered user',
 "Users registered at the same time always have different ids; a message sent by a registered user appears exactly once, attributed to its sender, for every user registered at that moment and for nobody else, messages of one sender in the order sent. A user whose connection ends is removed and its id may then be reused.",
 ['schedules','histories'],'every interleaving of registrations, messages and disconnects of several users',
 'the example has no tests and is not even built in CI here',
 ['examples/chat/src/main.rs',COMP],[('coordinator process','ProcessRequest<CoordinatorInput> for ChatServerState'),('id recycling','UserIdCreator')],['documents shown by the connected clients'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
