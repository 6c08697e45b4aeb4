#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})

MSGS = ["messages/%s.go" % m for m in "abort authenticate call cancel challenge error event goodbye hello interrupt invocation publish published register registered result subscribe subscribed unregister unregistered unsubscribe unsubscribed welcome yield".split()]
SER = ["serializers/json.go", "serializers/cbor.go", "serializers/msgpack.go", "serializers/helpers.go"]

p("C01", "Every message survives serialization unchanged",
  "For every WAMP message type and each of the JSON, CBOR and MessagePack serializers, deserializing a serialized message yields a message of the same type whose every field equals the original's, up to the number types the format can express. This includes messages built with nil option, detail or extra maps, and messages with keyword arguments but no positional ones.",
  ["inputs", "configurations"], "all 24 message types x all 3 serializers x all field values (unicode strings, nested containers, ids up to 2^53, absent/empty/present args and kwargs)",
  "The in-repo serializer test round-trips one ABORT with empty args; the interop tests compare one fixed instance per message type and need an external tool.",
  MSGS + SER, [("Marshal/Parse pair of each message", "messages/*.go"), ("type switch that picks the message to parse", "serializers/helpers.go ToMessage")],
  observe=["serializers.*Serializer.Serialize", "serializers.*Serializer.Deserialize", "message accessors"])

p("C02", "Messages use the WAMP array layout on the wire",
  "A serialized message is an array of its WAMP type code followed by its fields in the order the WAMP specification gives, with trailing args and kwargs present only when set, so that an independent decoder reads the right fields. Conversely an array of that layout, with any optional trailing items left out, is accepted and each field is exposed under the right accessor.",
  ["inputs", "configurations"], "all message types x serializers x field values, compared with a table of the specified layouts written independently of the code",
  "A round trip through the same code cannot see fields swapped on both sides; the tests that compare with another implementation need an external tool and use one instance per type.",
  MSGS + ["messages/validator.go"] + SER, [("Marshal order", "messages/*.go"), ("validation spec index table", "messages/*.go *ValidationSpec")],
  observe=["bytes produced by Serialize", "accessors after Deserialize/Parse"])

p("C03", "Malformed wire input is rejected and never crashes the process",
  "Deserializing any byte string, or feeding it to an acceptor, joiner or client session, either returns a message or an error, and never panics, hangs or exhausts memory out of proportion to the input. An array whose type code is unknown, whose length is outside the specified range, which has an element of the wrong kind or which is followed by further bytes is always refused.",
  ["inputs"], "all byte strings (structured mutations of valid messages, random bytes, hostile length prefixes) and all arrays over mixed element kinds, for the 3 serializers and the payload codecs",
  "Validator tests give one wrong-typed value per validator; no test gives a deserializer an empty array, a truncated message or hostile bytes.",
  SER + ["serializers/payload.go", "messages/validator.go", "session.go", "acceptor.go", "joiner.go"] , [("length and kind checks", "messages/validator.go ValidateMessage"), ("type dispatch", "serializers/helpers.go ToMessage")],
  observe=["Deserialize", "Acceptor.Receive", "Joiner.Receive", "Session.Receive"])

p("C04", "Numbers keep their value whatever encoding they arrive in",
  "Converting a decoded number to an id, an int or a float yields the same (toward-zero truncated) value for every integer width and float type, or is refused; it never yields a different number. Consequently a message whose ids are encoded with any legal integer width of CBOR or MessagePack, or as a JSON number, is read with exactly those ids, and a negative id is refused.",
  ["inputs"], "all Go numeric types and values including boundaries, NaN and infinities; all wire integer widths for all id positions of all message types",
  "The conversion tests use one small positive value for some of the types; no test decodes a non-minimal integer encoding or a negative id.",
  ["util/util.go", "messages/validator.go", "serializers/cbor.go", "serializers/msgpack.go", "serializers/json.go"], [("numeric type switches", "util/util.go AsInt, AsUInt64, AsFloat64")],
  observe=["util.AsInt", "util.AsUInt64", "util.AsFloat64", "id accessors after Deserialize"])

p("C05", "Application payloads survive payload encoding unchanged",
  "For each payload serializer id (none, JSON, MessagePack, CBOR), decoding an encoded (args, kwargs) pair yields equal args and kwargs, including when either or both are empty (a JSON payload carries byte strings as base64 text; with no serializer a single absent argument is an empty payload). Unknown serializer ids, payloads of the wrong shape or with further bytes behind them and arguments a serializer cannot carry give an error rather than a panic or altered data.",
  ["inputs", "configurations"], "all (args, kwargs) over nested values x all serializer ids; arbitrary byte strings for decoding",
  "There is no test of the payload codecs.",
  ["serializers/payload.go", "serializers/cbor.go"], [("prepareForEncode/decode", "serializers/payload.go"), ("EncodeCBOR/DecodeCBOR", "serializers/cbor.go")],
  observe=["serializers.SerializePayload", "serializers.DeserializePayload", "*EncodePayload/*DecodePayload", "EncodeCBOR/DecodeCBOR"])

p("C06", "Raw-socket handshakes and frame headers round-trip exactly",
  "A raw-socket handshake encodes to the 4 octets the WAMP specification gives and decodes back to the same serializer and maximum size, and a frame header to 4 octets that decode back to the same kind and length, for every value in range. Sizes that are not a power of two between 512 and 16 MiB, and byte strings that are not a well-formed handshake or header, are refused with an error and never crash.",
  ["inputs"], "all serializers x all integers as size; all lengths 0..2^24-1 x message kinds; all byte strings as received data",
  "The transports package has no tests at all.",
  ["transports/rawsocket.go"], [("bit packing of size and serializer", "transports/rawsocket.go SendHandshake/ReceiveHandshake"), ("24-bit length", "transports/rawsocket.go IntToBytes/BytesToInt")],
  observe=["transports.SendHandshake", "transports.ReceiveHandshake", "transports.SendMessageHeader", "transports.ReceiveMessageHeader"])

p("C07", "A handshake with valid credentials joins, and both sides agree",
  "For every authentication method and serializer, a client presenting credentials the server's authenticator accepts ends the handshake with the server sending WELCOME and the client joined. The WELCOME, the client and the server then report the same session id, realm, authid, authrole and auth method, namely those requested by the client and granted by the authenticator.",
  ["inputs", "configurations"], "all methods (anonymous, ticket, WAMP-CRA plain and salted, cryptosign) x serializers x realms, authids, roles, secrets, salts, iteration counts, key lengths, key pairs, auth extras",
  "Tests use one fixed identity, never a salted secret, and check only that some session details exist, not that both ends agree on them.",
  ["acceptor.go", "joiner.go", "types.go", "auth/authenticator.go", "auth/ticket.go", "auth/wampcra.go", "auth/cryptosign.go", "auth/anonymous.go", "messages/hello.go", "messages/welcome.go"],
  [("acceptor state machine", "acceptor.go ReceiveMessage/sendWelcome"), ("joiner state machine", "joiner.go ReceiveMessage")],
  observe=["Acceptor.Receive", "Joiner.Receive", "SessionDetails()"])

p("C08", "No session without a valid proof for this very challenge",
  "The server sends WELCOME only if its authenticator accepted the request and, for challenge-based methods, the client proved knowledge of that user's secret or private key over the challenge issued in this handshake. A wrong or altered ticket, secret, key or signature, a signature made for another challenge or another handshake, or an authenticator refusal is always answered without a session being established.",
  ["inputs", "histories"], "all methods x all wrong credentials, bit-level mutations of a valid proof, replays of proofs captured from other handshakes, and refusing authenticators",
  "Tests try one wrong ticket, one wrong secret and one wrong key; none replays a proof or mutates one.",
  ["acceptor.go", "auth/wampcra.go", "auth/cryptosign.go", "auth/ticket.go"],
  [("signature verification", "auth/wampcra.go VerifyWAMPCRASignature, auth/cryptosign.go VerifyCryptoSignSignature"), ("challenge binding", "acceptor.go ReceiveMessage AUTHENTICATE")],
  state=[("challenge", "the challenge issued in this handshake", "acceptor.go Acceptor")],
  observe=["Acceptor.Receive result", "Acceptor.SessionDetails"])

p("C09", "Handshake messages are accepted only in protocol order",
  "Whatever messages a peer sends in whatever order, the server side welcomes at most once, only as the answer to an acceptable HELLO or AUTHENTICATE in the matching state, and accepts nothing after WELCOME or ABORT; the client side answers at most one CHALLENGE, joins only on a WELCOME that follows its HELLO, and not after an ABORT. Session details exist exactly from the moment the handshake has succeeded.",
  ["histories", "inputs"], "all sequences of handshake and non-handshake messages (valid, invalid, repeated, out of order) delivered to either side",
  "Tests only walk the straight success path and single failures; no sequence with a repeated, reordered or post-failure message is tried.",
  ["acceptor.go", "joiner.go"], [("acceptor state", "acceptor.go"), ("joiner state", "joiner.go")],
  state=[("state", "where in the handshake each side is", "acceptor.go, joiner.go")],
  observe=["Acceptor.ReceiveMessage", "Joiner.ReceiveMessage", "SessionDetails()"])

p("C10", "The auth method used is the client's first choice the server enables",
  "The method used for a handshake is the first of the client's proposed methods that the server has enabled, or anonymous when the client proposes none and the server has anonymous enabled. In every other case the handshake is aborted; a method the server has not enabled is never used and its authenticator is never consulted for it.",
  ["inputs", "configurations"], "all lists of proposed methods x all sets of enabled methods",
  "Three fixed pairs of lists are tested, none with an empty proposal against a server without anonymous.",
  ["auth/helpers.go", "acceptor.go"], [("method selection", "auth/helpers.go SelectAuthMethod")],
  observe=["auth.SelectAuthMethod", "method in CHALLENGE/WELCOME", "requests seen by the ServerAuthenticator"])

p("C11", "Challenge signatures verify exactly when genuine",
  "WAMP-CRA and cryptosign signatures computed here equal those of independent implementations of HMAC-SHA256, PBKDF2 and Ed25519, and verification accepts a signature if and only if it was made over that message with that key. Keys, salts, challenges and signatures of any content or length give a result or an error, never a panic, and generated challenges and key pairs are well formed, random in all their bits and never repeat.",
  ["inputs"], "all secrets, salts, iteration counts, key lengths, challenges, key pairs; mutated signatures, messages and keys; malformed keys and signatures",
  "Tests sign and verify one fixed challenge with one fixed key, derive one key and check only its length, and mutate nothing.",
  ["auth/wampcra.go", "auth/cryptosign.go"], [("HMAC/PBKDF2", "auth/wampcra.go"), ("Ed25519 signed message", "auth/cryptosign.go")],
  observe=["auth.Sign*/Verify*/Derive*/Generate*", "ClientAuthenticator.Authenticate"])

p("C12", "A client session accepts exactly the replies it is waiting for",
  "A client session accepts a reply, error, event or invocation if and only if it answers a request of that kind it sent and that is still unanswered, or belongs to a subscription or registration it currently holds, or continues an invocation it has not answered yet. Each request is completed at most once (a call also by any number of progressive results before the final one); every unsolicited, duplicate or mismatched message is refused and changes nothing.",
  ["histories"], "all interleavings of sent requests and received messages over shared small id spaces, with duplicates, wrong ids, wrong kinds and errors",
  "Tests walk one register/call/unregister and one subscribe/event/unsubscribe path; no duplicate, unsolicited, ERROR or progressive message is received.",
  ["session.go", "internal/map.go"], [("per-kind pending request tables", "session.go")],
  state=[("callRequests etc.", "requests sent and not yet answered, per kind", "session.go Session"), ("subscriptions, registrations", "what the session currently holds", "session.go Session")],
  observe=["Session.SendMessage", "Session.ReceiveMessage", "Session.Receive"])

p("C13", "An event reaches exactly the subscribers of the matching subscription",
  "A publication is delivered exactly once to every session that currently holds a matching subscription (same topic for exact, a prefix of it for prefix, a matching pattern for wildcard), and to nobody else; the publisher itself is left out unless it asked with exclude_me=false. The event carries the subscription id those subscribers were given.",
  ["histories", "inputs"], "all sequences of session joins/leaves, subscribes, unsubscribes and publishes over overlapping topics and the three match policies, with any number of subscribers",
  "Tests publish to one subscriber on one topic per match policy, and never after anybody unsubscribed or left.",
  ["broker.go", "types.go"], [("topic, prefix-tree and wildcard lookup", "broker.go ReceivePublish"), ("subscriber sets", "broker.go ReceiveMessage")],
  state=[("subscriptionsByTopic/prefixTree/wcSubscriptionsByTopic", "indexes from topic to subscription", "broker.go Broker"), ("Subscribers", "sessions that get the event", "types.go Subscription")],
  observe=["Broker.ReceivePublish", "Broker.HasSubscription"])

p("C14", "Publications keep their content, id and acknowledgement",
  "An event carries the publisher's args and kwargs unchanged and a publication id never given to another publication of that broker. The publisher receives PUBLISHED, with its own request id and that same publication id, if and only if it asked for acknowledgement, whether or not anybody is subscribed.",
  ["histories", "inputs"], "all publish sequences over payloads, acknowledge option values (true, false, absent, non-boolean), and subscriber populations including none",
  "Tests check the acknowledgement's type and recipient, never its ids or the event's payload, and only two publications in a row.",
  ["broker.go", "messages/event.go", "messages/published.go"], [("ack and event construction", "broker.go ReceivePublish")],
  observe=["Publication.Event", "Publication.Ack"])

p("C15", "Leaving or unsubscribing affects only the one who leaves",
  "After a session unsubscribes or leaves the broker it receives no further event for that subscription (or at all), and every other session keeps receiving exactly what it did before, under any match policy. A subscription exists until its last subscriber is gone and is then fully forgotten, so a later subscription on the same topic behaves like a first one.",
  ["histories"], "all interleavings of subscribe/unsubscribe/leave/rejoin of several sessions sharing exact, prefix and wildcard subscriptions",
  "Only one test unsubscribes, with a single subscriber and no publish afterwards; no test removes a session that holds a subscription.",
  ["broker.go"], [("RemoveSession and UNSUBSCRIBE cleanup", "broker.go")],
  state=[("Subscribers and the three topic indexes", "must agree with what each session holds", "broker.go Broker")],
  observe=["Broker.ReceivePublish", "Broker.HasSubscription", "Broker.ReceiveMessage"])

p("C16", "A call reaches a live callee of the best matching registration",
  "A call is turned into one INVOCATION, carrying the call's args, kwargs and that registration's id, for a session that currently holds a matching registration: the exact one if there is one, else the longest matching prefix, else a matching wildcard. If no session holds a matching registration the caller gets the no_such_procedure error for that call.",
  ["histories", "inputs"], "all sequences of register/unregister/join/leave/call over overlapping procedure URIs and match policies",
  "Tests call one registration per match policy and never after any registration or session has gone, nor with overlapping patterns.",
  ["dealer.go"], [("procedure, prefix-tree and wildcard lookup", "dealer.go ReceiveMessage CALL")],
  state=[("registrationsByProcedure/prefixTree/wcRegistrationsByProcedure", "indexes from procedure to registration", "dealer.go Dealer")],
  observe=["Dealer.ReceiveMessage(CALL)", "Dealer.HasProcedure"])

p("C17", "Shared registrations honour their invocation policy",
  "Among the sessions currently sharing a registration, calls go to the earliest-registered one under 'first', the latest-registered under 'last', each exactly once per round under 'roundrobin', and to every one with a fair share under 'random'. A procedure registered as 'single' (or without a policy), or with a different policy or match than requested, cannot be joined: the second callee gets procedure_already_exists and is never invoked.",
  ["histories"], "all histories of several callees joining and leaving registrations of each policy, with calls in between",
  "Tests use exactly two callees that register once and never leave.",
  ["dealer.go"], [("callee selection", "dealer.go ReceiveMessage CALL"), ("join rules", "dealer.go ReceiveMessage REGISTER")],
  state=[("callees, nextCallee", "ordered callees and the round-robin position", "dealer.go Registration")],
  observe=["recipient of INVOCATION", "reply to REGISTER"])

p("C18", "Each call is answered once, to its caller, by its callee",
  "A callee's YIELD or ERROR is forwarded to exactly the session that made the call, with that call's own request id and the callee's payload unchanged, and the call is then finished: any further answer is refused. Only if the caller asked for progressive results when it made the call do progressive yields produce progressive results before the final one; answers to unknown invocations, or from a session not involved in the invocation, are refused.",
  ["histories"], "all interleavings of concurrent calls from several callers (with colliding request ids) to several callees, and of their yields, errors, duplicates and forgeries",
  "Tests have one call in flight, yield it once and never send an ERROR, a duplicate, or an answer from an uninvolved session.",
  ["dealer.go"], [("pending call table", "dealer.go ReceiveMessage YIELD/ERROR")],
  state=[("pendingCalls", "invocations awaiting an answer", "dealer.go Dealer"), ("invocationIDbyCall", "the invocation of each call", "dealer.go Dealer")],
  observe=["Dealer.ReceiveMessage(YIELD|ERROR)"])

p("C19", "Progressive calls stay one invocation at one callee",
  "All CALL messages of one progressive call (same caller and request id, up to and including the first one not marked progressive) become INVOCATIONs with the same invocation id and registration id sent to the same callee, each marked progressive exactly when its CALL was. Once answered or completed, the request id starts a new invocation if it is used again.",
  ["histories"], "all interleavings of progressive calls of several callers over shared registrations of any policy, with answers and other calls in between",
  "One test sends ten progressive chunks to a single callee and does not compare the final chunk's invocation id.",
  ["dealer.go"], [("invocation id reuse", "dealer.go ReceiveMessage CALL")],
  state=[("invocationIDbyCall", "the invocation a continued call belongs to", "dealer.go Dealer")],
  observe=["INVOCATION request id, recipient and details"])

p("C20", "Unregistering or leaving withdraws a callee completely and only it",
  "Once a session has unregistered a procedure or left, no call made after that is routed to it for that procedure (a progressive call it is serving goes on while it is there), the other callees of a shared registration keep being called, and once the last callee is gone the procedure is unknown and can be registered afresh with any options. Unregistering something the session does not hold is refused and changes nothing.",
  ["histories"], "all interleavings of register/unregister/leave/rejoin/call for exclusive and shared registrations under the three match policies",
  "The only unregister test has a single callee with a single exact registration, and no session with registrations is ever removed.",
  ["dealer.go"], [("UNREGISTER and RemoveSession cleanup", "dealer.go")],
  state=[("Registrants, callees, indexes", "must agree with what each session holds", "dealer.go Dealer")],
  observe=["Dealer.ReceiveMessage", "Dealer.HasProcedure", "Dealer.RemoveSession"])

p("C21", "Opaque payloads pass through the dealer byte for byte",
  "When a call or its result carries an opaque binary payload and the receiving session's serializer handles such payloads, the dealer forwards the identical bytes with the same payload serializer id. Otherwise it forwards the payload's args and kwargs; in no case is a payload lost, altered or attached to the wrong call.",
  ["inputs", "configurations"], "all payload bytes and serializer ids x static/non-static serializers on caller and callee sides, for calls and yields including progressive ones",
  "No test uses a binary payload or a static serializer.",
  ["dealer.go", "messages/call.go", "messages/invocation.go", "messages/yield.go", "messages/result.go"], [("binary/plain choice", "dealer.go CALL and YIELD"), ("New*Binary constructors", "messages/*.go")],
  observe=["Invocation/Result PayloadIsBinary, Payload, PayloadSerializer, Args, KwArgs"])

p("C22", "Identities are disclosed exactly when disclosure is on, and truthfully",
  "While caller (or publisher) disclosure is enabled every invocation (or event) states the true session id, authid and authrole of the caller (or publisher) and the actual procedure or topic; while it is disabled none of these appears. Disclosure never changes who receives what.",
  ["histories", "configurations"], "all sequences of toggling disclosure, calls and publishes by sessions with distinct identities, over exact and pattern matches",
  "Tests toggle it once with one identity shared by both sessions, so a mix-up of identities would not show.",
  ["broker.go", "dealer.go"], [("details construction", "broker.go ReceivePublish, dealer.go CALL")],
  observe=["Event.Details", "Invocation.Details"])

p("C23", "Ids are valid, unique and unpredictable across runs",
  "Sequential ids run 1, 2, 3, ... without a gap or repeat up to 2^53 and then start again at 1, also under concurrent use; ids a router hands out for live subscriptions, registrations, invocations and publications never collide. Session ids generated at random lie in 1..2^53, do not repeat, and differ from one process run to the next.",
  ["histories", "schedules", "inputs"], "all generator states including the wrap-around, all interleavings of concurrent use, all router histories, and independent process runs",
  "Tests draw nine sequential and two random ids in one process; the wrap-around, concurrency and repeated runs are never exercised.",
  ["idgen.go", "broker.go", "dealer.go"], [("NextID", "idgen.go"), ("GenerateID seeding", "idgen.go init")],
  state=[("id", "last id handed out", "idgen.go SessionScopeIDGenerator")],
  observe=["SessionScopeIDGenerator.NextID", "GenerateID", "ids in REGISTERED/SUBSCRIBED/INVOCATION/PUBLISHED/EVENT/WELCOME"])

p("C24", "Concurrent use behaves like some sequential order",
  "Broker, dealer, client session, concurrent map and id generator may be used from many goroutines at once: there is no data race and no deadlock, and the outcome of every set of overlapping operations equals that of executing them one at a time in some order consistent with real time.",
  ["schedules", "histories"], "all interleavings of small sets of concurrent operations on shared sessions, topics, procedures and requests",
  "All tests are single-threaded; only a benchmark (not run) uses the dealer concurrently and it checks nothing about the outcome.",
  ["broker.go", "dealer.go", "idgen.go", "session.go", "internal/map.go"], [("mutex around every operation", "broker.go, dealer.go, idgen.go"), ("sync.Map wrapper", "internal/map.go")],
  observe=["results of concurrent operations", "race detector"])

p("C25", "Clients and router built from these parts always understand each other",
  "In a system assembled from this library's joiner, acceptor, session, broker, dealer and serializers (each client with its own serializer), every message one part emits in a legal conversation is accepted by the part it is addressed to. Every call made to a cooperating callee returns that callee's result to the caller with the payload intact across serializers, and every publication reaches the subscribed clients.",
  ["histories", "configurations"], "all legal conversations of several clients using mixed serializers over one router: join, register, call (incl. progressive), yield, error, publish, subscribe, unsubscribe, unregister, leave",
  "Each part is tested alone with hand-written messages for the other side; no test connects sessions to a broker or dealer.",
  ["acceptor.go", "joiner.go", "session.go", "broker.go", "dealer.go", "serializers/json.go", "serializers/cbor.go", "serializers/msgpack.go"], [("all of the protocol state machines together", "module root")],
  observe=["Session.Receive on each client", "bytes exchanged"])

p("C26", "Refused requests and foreign sessions leave the router untouched",
  "Whatever messages arrive in whatever order, including from sessions that are unknown or have left, the broker and dealer never crash and never address a message to a session that is not attached. A request that is refused (with a protocol error or a returned error) leaves all registrations, subscriptions and pending calls as they were, and adding a session twice or removing an unknown one is refused.",
  ["histories", "inputs"], "all sequences of arbitrary messages (all types, arbitrary ids and options) from attached, unknown and departed sessions",
  "Tests send one invalid id per request kind to an otherwise idle router and do not look at the state afterwards.",
  ["broker.go", "dealer.go"], [("existence checks at the head of each branch", "broker.go, dealer.go")],
  observe=["Broker/Dealer.ReceiveMessage, ReceivePublish, AddSession, RemoveSession"])

p("C27", "Timestamps denote the instant and offset they were made from",
  "The ISO 8601 text produced for a time, in any time zone, parses back to the same second and the same offset from UTC. Session creation times are such texts of the moment of creation.",
  ["inputs"], "all instants of years 0-9999 x all whole-minute zone offsets, positive, negative and zero",
  "Three instants with whole-hour offsets are tested.",
  ["auth/iso8601.go", "types.go"], [("offset formatting", "auth/iso8601.go ISO8601")],
  observe=["auth.ISO8601", "auth.NowISO8601", "SessionDetails.CreatedAt"])

p("C28", "What each side announces reaches the other and is true",
  "The realm, authid, method, auth extras and roles a client is built with are exactly what its HELLO carries and what the router's authenticator is asked with; the roles in WELCOME, the extra of AUTHENTICATE and the reason, arguments and kwargs of ABORT (wamp.error.authentication_failed with the authenticator's own words for a refusal) are exactly what the other side's session details or error report, and a WAMP-CRA challenge names the authid and role granted. Both sides announce the roles they play, and every feature a role announces works between two sides that announce it.",
  ["inputs", "histories"], "all client and router roles, auth extras and refusals x serializers x methods; every announced feature",
  "The handshake tests compare a few fixed fields; no test reads what the other side learns, nor whether an announced feature is implemented.",
  ["acceptor.go", "joiner.go", "types.go", "messages/hello.go", "messages/welcome.go", "messages/abort.go", "dealer.go", "broker.go", "session.go"],
  [("HELLO/WELCOME/ABORT construction and parsing", "joiner.go, acceptor.go"), ("ClientRoles, RouterRoles", "types.go, acceptor.go, joiner.go")],
  observe=["requests given to the authenticator", "SessionDetails of both sides", "error of the client"])

p("C29", "What is over is released",
  "Once sessions have left, registrations and subscriptions are withdrawn, calls and requests are answered or refused and handshakes are done, the memory that broker, dealer, session, acceptor, joiner and serializers hold is what it was before. However many such cycles a process lives through, its memory stays bounded.",
  ["histories"], "all kinds of complete cycles (join-leave, register-call-answer-unregister, subscribe-publish-unsubscribe, refused requests, progressive calls, payload codecs), repeated",
  "No test looks at what is kept after an operation ended, or repeats a cycle.",
  ["broker.go", "dealer.go", "session.go", "acceptor.go", "joiner.go", "internal/map.go"],
  [("bookkeeping maps of pending and finished work", "broker.go, dealer.go, session.go")],
  observe=["live heap after many cycles"])

p("C30", "What the application hands in or is given is never changed behind its back",
  "Messages, maps, lists and byte strings that are handed to serializers, constructors, sessions, authenticators, acceptor, joiner, broker or dealer are left as they are, down to Go types and the spare room of slices. What these hand out does not change afterwards, so that either can be kept, shared or used again.",
  ["inputs", "histories"], "all messages, arguments and histories, with nested lists, maps and byte strings, spare capacity and reuse",
  "Tests build every value anew, never look at it after use, and never hand in one value twice.",
  ["messages", "serializers", "session.go", "broker.go", "dealer.go", "acceptor.go", "joiner.go", "auth"],
  [("option and detail maps passed by reference", "messages/*.go, dealer.go, broker.go"), ("byte normalisation", "serializers/*.go")],
  observe=["deep, typed comparison of every value before and after use"])

p("C31", "Handshakes and codecs at work at the same time do not disturb each other",
  "Any number of handshakes, message and payload encodings, signatures, key derivations and raw-socket frames may be under way at once in one process, sharing serializers and authenticators, the same user or different ones. Each of them has the result it would have alone, and there is no data race.",
  ["schedules", "inputs"], "all sets of handshakes and codec operations x all interleavings",
  "All tests are single-threaded, and a buffer or cache shared between connections is invisible in them.",
  ["acceptor.go", "joiner.go", "serializers/json.go", "serializers/cbor.go", "serializers/msgpack.go", "serializers/helpers.go", "auth", "messages", "transports"],
  [("no package-level mutable state", "serializers, auth, messages, transports"), ("authenticator values shared by connections", "auth")],
  observe=["results of concurrent operations", "race detector"])

p("C32", "Values and conversions say exactly what they were made from",
  "Session details, authentication requests and responses (with their lifetime), client authenticators and messages with and without opaque payloads report through every accessor exactly what they were constructed with. A message object that is parsed again states the array it last accepted and nothing of an earlier one, and an array that it refuses changes nothing of it. The conversions to booleans, texts and lists of texts give the value for exactly the values of that type and report all others.",
  ["inputs", "histories"], "all constructor arguments, all sequences of arrays parsed into one message object, all values of all Go types",
  "Tests construct one value per type with literal arguments, mostly without optional parts, and never parse twice into one object.",
  ["types.go", "auth", "messages", "util/util.go"],
  [("accessors of constructed values", "types.go, auth/*.go, messages/*.go"), ("Parse assigns every field at once", "messages/*.go"), ("type conversions", "util/util.go")],
  observe=["accessors of SessionDetails, Request, Response, ClientAuthenticator, BinaryPayload", "Message.Parse", "util conversions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
