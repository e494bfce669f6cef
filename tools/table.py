"""The property list: the single source of properties.jsonl, MANIFEST.json and the per-property table of DESIGN.md."""

M = "wampproto/messages/"
MSGS = [M + f for f in ("util.py", "validation_spec.py", "hello.py", "welcome.py", "abort.py", "error.py", "call.py", "invocation.py",
                        "result.py", "yield_.py", "publish.py", "event.py")]
SER = "wampproto/serializers/"
SES = ["wampproto/session.py"]
DEA = ["wampproto/dealer.py"]
BRO = ["wampproto/broker.py"]
ACC = ["wampproto/acceptor.py"]
JOI = ["wampproto/joiner.py"]
RAW = ["wampproto/transports/rawsocket.py"]
AUTH = "wampproto/auth/"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)],
# technique, how (DESIGN), note (MANIFEST level_note)
P = []


def p(*a):
    P.append(a)


ABS = ("path-summarising abstract interpretation of the source: {}; every path from an arbitrary abstract pre-state is checked")

p("W01", "Encoding puts every field at its specified position",
  "For every message type and all well-typed field values, encoding a message yields a list that starts with that type's numeric code "
  "followed by exactly the fields of the WAMP layout, each in its own position and unchanged. Positional arguments and keyword "
  "arguments come last, an empty list stands in for missing arguments when keyword arguments are present, and both are left out when "
  "neither is present.",
  ["inputs"], "all 24 message types, all well-typed field values, all combinations of present and absent optional fields",
  "Tests encode a handful of hand-picked messages per type; a swapped or dropped field under a combination of optionals they do not "
  "use stays unseen.",
  MSGS, [("marshal of each message class", M + "*.py")],
  ABS.format("marshal of every message class on symbolic fields, compared with a table of the WAMP layouts"),
  "Layout table (own oracle, from the WAMP spec) against the list returned on each path of marshal with symbolic fields.",
  "Every path of every encoder is covered; trusts the layout table and the models of Python built-ins.")

p("W02", "Decoding exposes each element where it belongs; encode/decode agree",
  "When a received message is accepted, each field of the decoded message is exactly the element the WAMP layout assigns to it, and "
  "absent optional elements read as absent. Encoding any message with well-typed fields and decoding the result is accepted and gives "
  "back every field.",
  ["inputs"], "all messages a codec can produce, for all 24 types; all well-typed field values",
  "Tests compare a few fixed examples; they cannot cover every optional-field combination and value.",
  MSGS, [("parse of each message class", M + "*.py"), ("validate_message", M + "util.py")],
  ABS.format("parse composed with marshal on symbolic fields, field reads compared term by term"),
  "Decoder run on an arbitrary list; on accepting paths every accessor is compared with the wire element; then decode(encode(m)) is "
  "evaluated symbolically.",
  "Holds for all values the models describe; dictionaries and lists inside elements are compared by identity or structure.")

p("W03", "A decoder accepts only well-typed elements",
  "A received message is accepted only if every element, and every HELLO or WELCOME detail the library knows, has its required type, "
  "every id lies in 1..2^53, and a HELLO or WELCOME carries a non-empty dictionary of defined WAMP roles. Anything else is rejected.",
  ["inputs"], "every list a codec can produce, for every message type",
  "Tests try one or two invalid values per field; the claim quantifies over every value and every combination of optional elements.",
  MSGS, [("validators", M + "util.py"), ("validation specs", M + "validation_spec.py")],
  ABS.format("necessary conditions of acceptance of each decoder"),
  "On each accepting path the path condition must entail each element's type and range.",
  "Sound for the modelled types; bool is treated as a subtype of int as Python does.")

p("W04", "A well-formed message is never rejected",
  "A list with the right code, an allowed length, the right element types, ids in 1..2^53 and defined roles is always decoded, never "
  "rejected.",
  ["inputs"], "all well-formed lists of all 24 message types",
  "Tests decode one minimal and one maximal form per type; boundary ids and mixed optional elements are not covered.",
  MSGS, [("validate_message", M + "util.py")],
  ABS.format("satisfiability of each rejecting path with the well-formedness condition"),
  "Each rejecting path of each decoder is intersected with the well-formedness predicate; the intersection must be empty.",
  "Complete for the modelled value domain.")

p("W05", "A decoder enforces message code and element count",
  "A decoder accepts a list only if its first element is the code of that message type and its number of elements lies in the range "
  "the layout allows; a list that is too short, too long or of another type is rejected.",
  ["inputs"], "every list of every length, for every message type",
  "Tests check one short list per type; too-long lists and each boundary are not.",
  MSGS, [("sanity_check", M + "util.py")],
  ABS.format("length interval and first element entailed on each accepting path"),
  "Accepting paths' length interval must lie in the table's range and the code must be fixed.",
  "Exact for all lengths.")

p("W06", "Message codes dispatch to the right message type",
  "A received list is decoded as the message type whose code is its first element, each of the 24 message types is reachable, and any "
  "other first element is rejected.",
  ["inputs"], "every possible first element",
  "Tests cover the codes one by one but not the absence of extra accepted codes or of a wrong class for a code on some path.",
  [SER + "serializer.py"], [("to_message", SER + "serializer.py")],
  ABS.format("the dispatcher's decision on an arbitrary first element"),
  "Dispatcher evaluated on an arbitrary list; result class and code must match the table; residual paths must raise.",
  "Exact for all first elements.")

p("W07", "Malformed input raises only ValueError or TypeError",
  "Decoding any value a codec can produce, however malformed, either returns a message or raises ValueError or TypeError (or their "
  "subclasses); no other exception escapes.",
  ["inputs"], "every value a JSON, CBOR or MessagePack decoder can return, including empty lists, nested and non-list values",
  "Tests use a few malformed lists; index, key and attribute errors on other shapes are not sampled.",
  MSGS + [SER + "serializer.py"], [("to_message", SER + "serializer.py"), ("validate_message", M + "util.py")],
  ABS.format("exception effects of the decoders on an arbitrary value"),
  "Exception-effect analysis: the set of exceptions on all paths of dispatcher and decoders for an arbitrary value.",
  "Covers every modelled built-in failure; memory exhaustion and recursion limits are excluded.")

p("W08", "Encoding is pure and repeatable",
  "Encoding a message changes neither the message nor any value the application put in it, and encoding it twice gives equal results.",
  ["inputs", "histories"], "all message types, all field values, repeated encodings",
  "Tests encode each message once and do not compare the inputs afterwards.",
  MSGS, [("marshal", M + "*.py")],
  ABS.format("write effects of marshal on everything reachable from the message"),
  "Effect analysis: no write to objects existing before the call; the second result must equal the first.",
  "Exact for the modelled heap.")

p("W09", "Accessors return what the constructor was given",
  "Every plain data carrier of the public interface returns through each accessor exactly the value given for it at construction, and a "
  "message hands out exactly what its fields hold. A message built without a payload has no payload and does not claim a binary one.",
  ["inputs"], "all field carriers, authentication requests and responses, session details, publications and recipients; all values",
  "Tests read few accessors; a wrong or recursive accessor is not noticed until used.",
  MSGS + [AUTH + "auth.py", "wampproto/types.py"], [("properties of the carriers", M + "*.py")],
  ABS.format("each accessor evaluated on an object built from symbolic arguments"),
  "Every carrier is constructed symbolically and each accessor compared with the argument of that name.",
  "Exact.")

p("W11", "A payload serializer is announced next to the given options",
  "A CALL, YIELD, INVOCATION or RESULT built with a payload serializer is encoded with that serializer under x_payload_serializer in its "
  "options or details, and with every other entry and element as given.",
  ["inputs"], "the four message types with a payload, every serializer id, all options and details",
  "Tests do not encode messages in payload mode with options of their own.",
  MSGS, [("options/details in payload mode", M + "*.py")],
  ABS.format("lookup of the announced serializer and of an arbitrary other key in the encoded dictionary"),
  "Entries compared for x_payload_serializer and for a symbolic other key.",
  "The payload itself is not part of the encoding and not claimed.")

p("W12", "The standalone checks accept exactly well-formed values",
  "The standalone checks of a realm, URI, procedure, details dictionary and session id return a well-formed value unchanged (a text, a dictionary "
  "with text keys, an id in 1..2^53) and refuse every other value with their own error. The shape check of a message passes exactly lists of the "
  "expected code whose length lies in the given range and raises ValueError otherwise.",
  ["inputs"], "every value of every type, every bound",
  "Tests call them with a few literal values and leave the id range and the shape check out.",
  [M + "util.py"], [("validate_*_or_raise, sanity_check", M + "util.py")],
  ABS.format("every path of each check, per class of argument"),
  "Each check is run on a symbolic argument of each class and its outcome compared.",
  "Details are analysed with arbitrary text-keyed dictionaries and with two entries of which any may be malformed.")

p("S01", "Each serializer encodes and decodes with the same codec",
  "Each of the JSON, CBOR and MessagePack serializers turns a message into its codec's encoding of exactly the message's list form, and "
  "turns received data back by decoding all of it with the same codec and dispatching the result, changing nothing in between. None of "
  "them reports itself as a static (schema-compiled) codec.",
  ["inputs", "configurations"], "three serializers, every message, every received datum",
  "Round-trip tests over one serializer pair cannot see a lossy option or a pre/post-processing step on untested values.",
  [SER + "json.py", SER + "cbor.py", SER + "msgpack.py"], [("serialize/deserialize", SER + "*.py")],
  ABS.format("serializers evaluated on a symbolic message / datum; result term must be codec.dumps(list form) / dispatch(codec.loads(data))"),
  "Term-level comparison of serialize/deserialize with the codec call on the exact list form.",
  "The codecs themselves (json, cbor2, msgpack) are trusted to be inverse on the values they support.")

p("S02", "The payload codec is selected by its id, and only by it",
  "A payload is encoded and decoded with the codec named by the serializer id (1 JSON, 2 MessagePack, 3 CBOR; 0 passes one byte string "
  "through unchanged), encoding and decoding agree for each id, and any other id is rejected with ValueError in both directions.",
  ["inputs"], "every serializer id, every args/kwargs pair, every payload",
  "Tests use the four ids with fixed values; unknown ids and combinations of absent and present arguments are sampled only.",
  [SER + "payload.py"], [("serialize_payload/deserialize_payload", SER + "payload.py")],
  ABS.format("payload functions evaluated on a symbolic id"),
  "Id case split; codec term compared per id; composition decode(encode) evaluated under the codec-inverse axiom.",
  "Codecs trusted to be inverse.")

p("S03", "Payload structure is checked and preserved",
  "Encoding args and kwargs as a payload yields a list of at most two elements from which decoding returns the same args and kwargs; "
  "an empty payload decodes to no arguments. A payload that is not a list, has more than two elements, or whose first is not a list or "
  "second not a dictionary is rejected with TypeError or ValueError.",
  ["inputs"], "every args/kwargs pair, every decoded payload value",
  "Tests cover a few shapes; the accepted set is not determined by samples.",
  [SER + "payload.py"], [("decode/prepare_for_encode", SER + "payload.py")],
  ABS.format("accepting and rejecting paths of the payload decoder for an arbitrary decoded value"),
  "Acceptance condition of the decoder compared with the specified shape, both directions.",
  "Codecs trusted.")

p("C01", "A reply is accepted exactly when its request is outstanding",
  "A client session accepts a reply (or an ERROR) to a request exactly when it has sent a request of that kind with that id that has "
  "not been answered yet, and rejects it otherwise with ValueError. A fresh session has nothing outstanding.",
  ["histories", "inputs"], "every history of sent and received messages, every id",
  "Tests exercise request-reply pairs in isolation; acceptance after arbitrary histories is not sampled.",
  SES, [("request maps", "wampproto/session.py:WAMPSession")],
  ABS.format("session methods on an arbitrary session state, with observations instead of field names"),
  "Inductive typestate over an arbitrary state: acceptance is observed before/after each operation with universally quantified ids.",
  "Inductive over histories: one step from an arbitrary state; no bound.")

p("C02", "A request is consumed by its final reply, exactly once",
  "The final reply or ERROR to a request ends it: a second one is rejected and other outstanding requests stay outstanding. A "
  "progressive RESULT leaves its call outstanding, and a rejected message changes nothing.",
  ["histories", "inputs"], "every history, every id, every reply kind",
  "Tests send one reply per request; repeated replies, replies interleaved across requests and progressive results are rarely sampled.",
  SES, [("receive_message", "wampproto/session.py")],
  ABS.format("effect of each receive on the outstanding-request observations"),
  "Post-state observation for an arbitrary other id and the consumed id.",
  "Inductive; no bound.")

p("C03", "INVOCATION and EVENT only for active registrations/subscriptions",
  "A session accepts an INVOCATION (EVENT) exactly when the registration (subscription) it names was confirmed to it and not ended "
  "since. A confirmation activates exactly the id it carries and an accepted UNREGISTERED or UNSUBSCRIBED deactivates exactly the one "
  "its request named.",
  ["histories", "inputs"], "every history of registering, subscribing, unregistering and unsubscribing, every id",
  "Tests cover one registration at a time.",
  SES, [("receive_message", "wampproto/session.py")],
  ABS.format("acceptance and effects over registration/subscription observations"),
  "As C01/C02 over the active sets, with simultaneous outstanding unregister/unsubscribe requests.",
  "Inductive; no bound.")

p("C04", "YIELD only for an outstanding invocation, finally once",
  "A session sends a YIELD exactly when the invocation it answers was received and not finally answered; a progressive YIELD keeps the "
  "invocation outstanding, and the final YIELD or an ERROR for it ends it.",
  ["histories", "inputs"], "every history, every invocation id",
  "Tests send single yields.",
  SES, [("send_message", "wampproto/session.py")],
  ABS.format("acceptance and effects over the invocation observation"),
  "As C01/C02 over outstanding invocations.",
  "Inductive; no bound.")

p("C05", "PUBLISHED is accepted only for acknowledged publications",
  "A session accepts PUBLISHED exactly when it has sent a PUBLISH with that id that asked for acknowledgement and was not answered yet; "
  "a PUBLISH that did not ask leaves nothing outstanding.",
  ["histories", "inputs"], "every history, every publish option value",
  "Tests cover acknowledge true and absent for one publication.",
  SES, [("send_message", "wampproto/session.py")],
  ABS.format("acceptance and effects over the publish observation for every option value"),
  "As C01 with the acknowledge option unconstrained.",
  "Inductive; no bound.")

p("C06", "Request kinds are independent of each other",
  "A message of one request kind never affects the outstanding state of another kind, even when the ids are equal.",
  ["histories", "inputs"], "every pair of kinds, every id, every history",
  "Tests use distinct ids per kind or one kind per test.",
  SES, [("per-kind maps", "wampproto/session.py")],
  ABS.format("non-interference between observations of different kinds"),
  "Every operation against every observation of the other kinds, ids allowed to be equal.",
  "Inductive; no bound.")

p("C07", "Only messages of the right direction are sent or accepted",
  "A client session sends only message types a client may send and accepts only types a router may send; others are rejected with "
  "ValueError without sending anything and without changing the session. An accepted received message is handed out unchanged and a "
  "sent one is serialised exactly once.",
  ["inputs", "histories"], "all message types in both directions, from every session state",
  "Tests check one wrong type.",
  SES, [("send_message/receive_message", "wampproto/session.py")],
  ABS.format("acceptance per message class and direction"),
  "All 24 classes in both directions from an arbitrary state.",
  "Exact.")

p("C08", "What cannot be encoded or decoded leaves the session as it was",
  "If the serializer refuses a message that is to be sent, nothing was sent, and the client session is as before: no request is "
  "outstanding for it and no invocation is answered by it. Data that cannot be decoded changes nothing either.",
  ["fault_sequences", "histories", "inputs"], "a serializer failure in every send and receive, from every session state",
  "Tests never make the serializer fail; an argument JSON cannot express is enough, for instance bytes in the result of a procedure.",
  SES, [("send_message", "wampproto/session.py"), ("receive", "wampproto/session.py")],
  ABS.format("exceptional outcomes of the serializer at its call sites"),
  "Every exceptional outcome of the serializer's calls must leave each of the nine observations of the session unchanged.",
  "Exact for one step from an arbitrary state, hence for every history.")

p("D01", "A procedure has at most one registration",
  "Registering a procedure that is registered is answered with the procedure-already-exists error and changes nothing; registering a "
  "free one is confirmed to the requester, under its request id, with a registration id no other registration has.",
  ["histories", "inputs"], "every router history, every session and procedure",
  "Tests register one or two procedures.",
  DEA, [("receive_message", "wampproto/dealer.py")],
  ABS.format("REGISTER on an arbitrary population of sessions, registrations and calls"),
  "Register in an arbitrary population, with the procedure registered by the same, another or nobody.",
  "Population is arbitrary and unbounded; registration id freshness assumes the id generator does not wrap (I01).")

p("D02", "A CALL reaches exactly the current registrant",
  "At any time a CALL to a registered procedure produces one INVOCATION, sent to the session that registered it and naming its "
  "registration, and a CALL to a procedure nobody has registered is answered to the caller with the no-such-procedure error under its "
  "request id.",
  ["histories", "inputs"], "every router history of joins, leaves, registrations, calls, yields and errors",
  "Tests call right after registering; routing after arbitrary interleavings is not sampled.",
  DEA, [("receive_message", "wampproto/dealer.py")],
  ABS.format("routing observation preserved by every operation, from an arbitrary population"),
  "Route observation before/after every operation over an arbitrary population with named entities.",
  "Inductive; population unbounded.")

p("D03", "An answer goes to its caller, and only from its callee",
  "The YIELD or ERROR of an invocation is delivered to the session that made the call, under the request id the call had, no matter "
  "what happened in between. The same answer from any session other than the one that was invoked, or for an invocation that is not "
  "pending, is rejected.",
  ["histories", "inputs"], "every interleaving of calls, answers, joins and leaves; every answering session",
  "Tests use one caller and one callee; equal request ids of different callers and foreign callees are not sampled.",
  DEA, [("pending calls", "wampproto/dealer.py:Dealer.pending_calls")],
  ABS.format("pending-call observation preserved by every operation, from an arbitrary population"),
  "Pending-call observation (who gets what under which id) before/after every operation and for any answering session.",
  "Inductive; population unbounded.")

p("D04", "The final answer ends the call",
  "After the final YIELD or ERROR of an invocation any further answer to it is rejected, and the caller can reuse the request id for "
  "a new call that gets an invocation id of its own. A progressive YIELD to a caller that asked for progress keeps the call pending.",
  ["histories", "inputs"], "every history; every callee answer",
  "Tests send one answer per call.",
  DEA, [("receive_message", "wampproto/dealer.py")],
  ABS.format("effects of YIELD/ERROR on the pending-call observation"),
  "Pending observation after final and progressive answers.",
  "Inductive; population unbounded.")

p("D05", "Leaving removes everything of a session and nothing else",
  "After UNREGISTER or removal of a session its registrations (and pending calls) are gone from every answer the dealer gives, all "
  "others are untouched, and the freed procedures can be registered again. Only the owner can unregister a registration.",
  ["histories", "inputs"], "every history, every number of registrations per session",
  "Tests remove one session with one registration; dangling entries in one of the indexes show only later.",
  DEA, [("remove_session", "wampproto/dealer.py")],
  ABS.format("observations of sessions, registrations and calls agree with one model after every operation"),
  "All observations compared with a relational model after each operation, including loops over unbounded collections.",
  "Inductive; population unbounded.")

p("D06", "Arguments and payloads pass through the dealer unchanged",
  "An INVOCATION carries exactly the call's arguments, keyword arguments or payload, a RESULT exactly the yield's, and an "
  "ERROR exactly the callee's error uri, details, arguments and keyword arguments.",
  ["inputs"], "all argument values including absent and empty ones",
  "Tests use one args/kwargs value.",
  DEA, [("receive_message", "wampproto/dealer.py")],
  ABS.format("field terms of the outgoing message equal those of the incoming one"),
  "Term comparison of each field on each path.",
  "Payload mode compares payload, serializer id and binary flag.")

p("D07", "A rejected operation changes nothing in the dealer",
  "An operation the dealer refuses raises ValueError and leaves every later answer about sessions, registrations and pending calls as if "
  "it had not been attempted.",
  ["histories", "inputs", "fault_sequences"], "every refused operation from every reachable population",
  "Tests assert the exception, not the state after it.",
  DEA, [("receive_message", "wampproto/dealer.py")],
  ABS.format("observations before and after each raising path"),
  "All observations compared across each raising path.",
  "Inductive; population unbounded.")

p("D08", "Progressive calls reuse their invocation",
  "A further CALL of a pending progressive call (same caller and request id) is forwarded to the same callee as the same invocation, "
  "naming the registration the invocation was made for, with its own arguments, and leaves the call pending exactly once.",
  ["histories", "inputs"], "every pending call, any registration changes in between, every progress flag",
  "Tests send one continuation while the registration is unchanged.",
  DEA, [("receive_message", "wampproto/dealer.py")],
  ABS.format("CALL on a population with a pending call of the same caller and id"),
  "Continuation evaluated from arbitrary populations; invocation id, recipient and pending observation compared.",
  "Inductive; population unbounded.")

p("D09", "Unknown sessions cannot register or unregister",
  "REGISTER or UNREGISTER of a session that was never added or was removed raises ValueError, as do adding a present session and "
  "removing an absent one; a session that never came or has left can be added, and a present session is served.",
  ["histories", "inputs"], "every session id, every population",
  "Tests use one unknown id.",
  DEA, [("add_session/remove_session", "wampproto/dealer.py")],
  ABS.format("acceptance of operations by session presence"),
  "Acceptance decided by the session-presence observation.",
  "Inductive; population unbounded.")

p("A10", "A WAMP-CRA challenge names the identity and session it is issued for",
  "The challenge string of every WAMP-CRA challenge is a JSON object with the authid and authrole the authenticator returned for this "
  "client, the method wampcra and the id of the session the client is then welcomed to, besides a nonce, a timestamp and a provider.",
  ["inputs", "histories"], "every HELLO, authenticator response and message sequence",
  "The tests sign whatever challenge they get and never look into it.",
  ACC + [AUTH + "wampcra.py"], [("Acceptor.receive_message", ACC[0]), ("generate_wampcra_challenge", AUTH + "wampcra.py")],
  "typestate fixpoint of the router handshake; the challenge term is taken apart and compared",
  "In every abstract handshake state that issues a WAMP-CRA challenge the challenge term must be json.dumps of an object with those members.",
  "A JSON text that is not built with json.dumps is reported as not decided.")

p("B01", "A publication reaches exactly the current subscribers, once each",
  "At any time a publication to a topic is delivered exactly once to each session currently subscribed to it and to no other session, "
  "as an EVENT naming their subscription and carrying the publication's arguments unchanged.",
  ["histories", "inputs"], "every history of subscribing, unsubscribing, joins and leaves; every number of subscribers",
  "Tests use one or two subscribers and one topic.",
  BRO, [("receive_publish", "wampproto/broker.py")],
  ABS.format("delivery observation preserved by every operation, from an arbitrary population"),
  "Recipient set as a term over an arbitrary population; compared with the model's subscribers for any session.",
  "Inductive; population unbounded.")

p("B02", "PUBLISHED is sent exactly on request and names the publication",
  "The publisher gets an acknowledgement exactly when its publication asked for one, under its own request id and with the same "
  "publication id that the events carry; each publication gets a new id.",
  ["inputs", "histories"], "every option value, with and without subscribers",
  "Tests cover acknowledge on one topic with a subscriber.",
  BRO, [("receive_publish", "wampproto/broker.py")],
  ABS.format("acknowledgement term per option value"),
  "Ack presence equivalent to option; ids compared as terms.",
  "Inductive; population unbounded.")

p("B03", "Leaving removes a session's subscriptions everywhere",
  "After UNSUBSCRIBE or removal of a session it gets no further events and its subscription is gone from every answer of the broker, "
  "other subscribers are untouched, and the last one to leave frees the topic. Only a subscriber can end its own subscription.",
  ["histories", "inputs"], "every history, every number of topics and subscribers",
  "Tests remove one session from one topic.",
  BRO, [("remove_session", "wampproto/broker.py")],
  ABS.format("observations of sessions and subscriptions agree with one model after every operation"),
  "All observations compared with a relational model after each operation, including loops over unbounded collections.",
  "Inductive; population unbounded.")

p("B04", "Subscribing twice is the same as subscribing once",
  "Subscribing again to the same topic is answered with the same subscription id, all subscribers of a topic share one subscription id, "
  "events still arrive once, and one UNSUBSCRIBE ends the subscription.",
  ["histories", "inputs"], "every population, any number of subscribers",
  "Tests subscribe once per session.",
  BRO, [("receive_message", "wampproto/broker.py")],
  ABS.format("SUBSCRIBE on a population where the topic is subscribed already"),
  "Double subscribe compared with single subscribe on every observation.",
  "Inductive; population unbounded.")

p("B05", "Unknown sessions are refused and refusals change nothing",
  "A session that is not present cannot subscribe, unsubscribe or publish, a subscription can only be left by its subscriber, and other "
  "message types are refused. Every refusal raises ValueError and leaves all later answers unchanged.",
  ["histories", "inputs", "fault_sequences"], "every population, every refused operation",
  "Tests assert the exception for one unknown id and never look at the state after it.",
  BRO, [("receive_message", "wampproto/broker.py")],
  ABS.format("observations before and after each raising path"),
  "All observations compared across each raising path.",
  "Inductive; population unbounded.")

p("A01", "WELCOME only after successful authentication",
  "When an authenticator is configured, the router side sends WELCOME only if in this handshake the client proved itself by the method "
  "it asked for: the authenticator accepted an anonymous or ticket request, or accepted the identity and the answer to the issued "
  "challenge verified against the secret or public key for that identity. Without an authenticator only an anonymous identity is granted.",
  ["histories", "inputs"], "every message sequence sent by the client, every authenticator outcome",
  "Tests run the happy path of each method and one wrong signature.",
  ACC + [AUTH + "wampcra.py", AUTH + "cryptosign.py"], [("receive_message", "wampproto/acceptor.py")],
  "typestate analysis by abstract interpretation: fixpoint of handshake states over all client messages and authenticator outcomes",
  "Exploration of the abstract handshake states reachable from the constructor; each WELCOME path must carry the proof events.",
  "Covers all message sequences (fixpoint over abstract states); authenticator is an open symbol; HMAC/Ed25519 trusted.")

p("A02", "A failed authentication ends the handshake with ABORT",
  "If the authenticator refuses the client or its answer does not verify, the router side answers ABORT with the authentication-failed "
  "reason, reports itself aborted and never sends WELCOME afterwards. It never reports itself aborted otherwise, unless the client "
  "sent ABORT.",
  ["histories", "inputs", "fault_sequences"], "every message sequence, every authenticator failure",
  "Tests check the ABORT for single failures, not what follows.",
  ACC, [("is_aborted", "wampproto/acceptor.py")],
  "typestate analysis by abstract interpretation over all reachable handshake states",
  "As A01; after any ABORT every continuation must be refused.",
  "As A01.")

p("A03", "The router handshake accepts messages only in order",
  "The router side accepts HELLO only first and AUTHENTICATE only right after a challenge it sent, and a client that follows this order "
  "with valid credentials is welcomed by each of the four methods. After WELCOME or ABORT nothing more is accepted, except the client's "
  "ABORT before WELCOME; other messages are refused with ValueError without effect.",
  ["histories", "inputs"], "every message type in every reachable handshake state",
  "Tests send the expected order and one or two violations.",
  ACC, [("receive_message", "wampproto/acceptor.py")],
  "typestate analysis by abstract interpretation over all reachable handshake states",
  "Acceptance table per abstract state and message class.",
  "As A01.")

p("A04", "Session details match the WELCOME and the authenticated identity",
  "After WELCOME the session details carry the WELCOME's session id, authid and authrole and the realm of the client's HELLO; with an "
  "authenticator the identity is the one it returned for this client, and the WELCOME names the method that was used and the "
  "configured roles. Before WELCOME no details are available.",
  ["histories", "inputs"], "every handshake, all identities and realms",
  "Tests compare a few fixed values.",
  ACC, [("get_session_details", "wampproto/acceptor.py")],
  "dataflow of the authenticator's response and HELLO into WELCOME and session details (abstract interpretation)",
  "Term equality between WELCOME fields, details, HELLO fields and authenticator response.",
  "As A01.")

p("A05", "Challenges are fresh and answers are bound to them",
  "Every WAMP-CRA or cryptosign challenge the router side issues contains at least 128 bits drawn from a cryptographically secure source for that handshake, "
  "and an answer is verified against exactly the challenge that was issued.",
  ["inputs", "histories"], "every handshake; every client answer",
  "Tests cannot see the source of randomness nor replay across handshakes.",
  ACC + [AUTH + "wampcra.py", AUTH + "cryptosign.py"],
  [("generate_*_challenge", AUTH + "*.py"), ("verify_*_signature", AUTH + "*.py")],
  "dataflow (taint) from the randomness source into the challenge and from the issued challenge into the verification",
  "The challenge term must contain a fresh secrets value of ≥16 bytes; the verified message must be the issued challenge.",
  "The secrets module is trusted to be a CSPRNG.")

p("A06", "The final flag marks exactly the end of the handshake",
  "When processing received bytes, the router side reports the handshake finished exactly when it sends WELCOME or ABORT or received "
  "the client's ABORT, and otherwise returns the serialised answer with the flag unset.",
  ["inputs", "histories"], "every received message in every state",
  "Tests check two flags.",
  ACC, [("receive", "wampproto/acceptor.py")],
  "abstract interpretation of receive against receive_message on every reachable handshake state",
  "receive(data) compared with receive_message(deserialize(data)).",
  "As A01.")

p("A07", "Secrets never flow into messages",
  "No message either side sends contains the secret, password or private key used for authentication: they only enter a MAC, key "
  "derivation, signature or verification. Only a ticket is sent, as the answer to the ticket challenge, because that is its purpose.",
  ["inputs", "histories"], "all outgoing messages in every handshake",
  "Tests look at fixed messages, not at information flow.",
  ACC + JOI + [AUTH + "wampcra.py", AUTH + "cryptosign.py"], [("authenticate", AUTH + "*.py")],
  "information-flow (taint) analysis: symbols of secrets may occur in outgoing messages only below a MAC, signature or derivation",
  "Occurrence check of secret symbols in outgoing message terms.",
  "Explicit flows; timing is out of scope except the comparison itself (X01).")

p("A09", "A salted secret's derivation parameters reach the client",
  "When the authenticator answers a WAMP-CRA request with a salted response, the CHALLENGE carries exactly that response's salt, "
  "iterations and key length besides the challenge string. When the response is not salted, the CHALLENGE carries no salt.",
  ["inputs", "histories"], "all WAMP-CRA challenges of all handshakes, whatever the authenticator answers",
  "No test uses a salted response with the acceptor.",
  ACC + [AUTH + "auth.py"], [("receive_message", ACC[0])],
  "typestate exploration of the acceptor; per-challenge comparison of the extra dictionary with the authenticator's response",
  "Every WAMP-CRA CHALLENGE path is split by whether the response is a salted one; the extra's entries are compared with its "
  "attributes.", "")

p("A11", "The authenticator is asked once, about exactly what the client sent",
  "The router side asks its authenticator at most once per HELLO (for ticket: per answer to its challenge) and for no other message. The "
  "request is of the class of the method the client asked for and carries the realm, authid and extra data of its HELLO, and the public "
  "key or ticket it presented.",
  ["inputs", "histories"], "all message sequences, all HELLO contents, every outcome of the authenticator",
  "The tests' authenticators look at the authid only and count no calls.",
  ACC + [AUTH + "auth.py"], [("receive_message", ACC[0]), ("requests", AUTH + "auth.py")],
  "typestate exploration of the acceptor; every authenticator call on every path is taken apart",
  "Number, class and attribute terms of the requests on each path of each abstract handshake state.", "Covers all message sequences.")

p("J01", "The client joins only after WELCOME and in order",
  "After sending HELLO the client side accepts WELCOME or one CHALLENGE, and after answering the challenge WELCOME; in any other state "
  "these, and all other messages but ABORT in any state, are refused with ValueError without effect. Session details are available exactly after an accepted WELCOME and carry its "
  "session id, authid and authrole and the realm the client asked for.",
  ["histories", "inputs"], "every router message in every reachable client state",
  "Tests run the expected order and single violations.",
  JOI, [("receive_message", "wampproto/joiner.py")],
  "typestate analysis by abstract interpretation over all reachable client handshake states",
  "Fixpoint over abstract client states; acceptance table and details terms.",
  "Covers all message sequences.")

p("J02", "A challenge is answered once, with the configured authenticator",
  "Only a CHALLENGE makes the client side send an AUTHENTICATE, at most one per HELLO, and it is exactly what the configured "
  "authenticator produced for that challenge. The HELLO carries the configured realm, the authenticator's identity, method and extra "
  "data, and the given or default roles.",
  ["histories", "inputs"], "every message sequence, every authenticator, all roles",
  "Tests check one authenticator per run.",
  JOI, [("send_hello/receive", "wampproto/joiner.py")],
  "typestate and dataflow by abstract interpretation over all reachable client handshake states",
  "Events of the authenticator and result terms on each path.",
  "Covers all message sequences.")

p("J03", "ABORT ends the join with the router's reason",
  "An ABORT from the router raises an application error carrying its reason, arguments and keyword arguments, and no later message can "
  "make the client joined.",
  ["histories", "inputs"], "every client state, every ABORT content, every later message",
  "Tests check one ABORT.",
  JOI, [("receive_message", "wampproto/joiner.py")],
  "typestate analysis by abstract interpretation over all reachable client handshake states",
  "After any ABORT every continuation must be refused; exception fields compared as terms.",
  "Covers all message sequences; a new explicit HELLO starts a new attempt.")

p("X01", "WAMP-CRA signatures are HMAC-SHA256, compared in constant time",
  "A WAMP-CRA signature is the base64 of the HMAC-SHA256 of the challenge under the key, and verification succeeds exactly when the "
  "presented signature decodes to that whole digest, using a constant-time comparison. Malformed base64 verifies as false.",
  ["inputs"], "every signature, challenge and key",
  "Tests check one good and one bad signature; a truncated or short-circuit comparison passes them.",
  [AUTH + "wampcra.py"], [("sign/verify_wampcra_signature", AUTH + "wampcra.py")],
  "abstract interpretation of sign and verify to terms; comparison sink check",
  "Result terms compared with the specification terms; the comparison must be the constant-time primitive on whole digests.",
  "hmac, hashlib and base64 trusted.")

p("X02", "Cryptosign verification accepts only valid signatures",
  "Cryptosign verification succeeds only if the Ed25519 library verified the presented signature under the given public key and, when a "
  "challenge is given, the signed message equals that challenge; a bad signature verifies as false. Signing produces the signature of "
  "the challenge followed by the challenge.",
  ["inputs"], "every signature, key and challenge",
  "Tests check one good and one bad signature.",
  [AUTH + "cryptosign.py"], [("sign/verify_cryptosign_signature", AUTH + "cryptosign.py")],
  "abstract interpretation of sign and verify to terms; domination of True results by the library verification",
  "Every True path must be dominated by a successful library verification of the presented bytes.",
  "PyNaCl trusted.")

p("X03", "Salted WAMP-CRA keys are derived with PBKDF2 as challenged",
  "With a salted challenge the client signs with the base64 of the PBKDF2-HMAC-SHA256 of its secret under exactly the challenge's salt, "
  "iterations and key length, zero iterations or key length are refused, and without a salt it signs with the secret itself.",
  ["inputs"], "every challenge content and secret",
  "Tests use one salt and parameter set.",
  [AUTH + "wampcra.py"], [("derive_cra_key", AUTH + "wampcra.py")],
  "abstract interpretation of the client authenticator to terms",
  "Derived-key term compared with the specification; refused parameters checked.",
  "hashlib trusted.")

p("X04", "Cryptosign key pairs and the announced public key belong together",
  "A generated cryptosign key pair consists of the hexadecimal texts of a private key drawn from a secure source and of the public key that "
  "belongs to it. The cryptosign client announces the public key that belongs to its private key, unless its extra data names one, which "
  "is announced as it is.",
  ["inputs", "configurations"], "every private key and extra data",
  "Tests announce the key of one fixed private key; no test relates a generated public key to its private key.",
  [AUTH + "cryptosign.py"], [("generate_cryptosign_keypair", AUTH + "cryptosign.py"), ("CryptoSignAuthenticator", AUTH + "cryptosign.py")],
  "abstract interpretation to terms over the Ed25519 key operations, compared with the specified derivation",
  "The result terms must be hex(pub(sk(k))) and hex(k) for one freshly drawn k; the announced key must be hex(pub(sk(unhex(key)))).",
  "PyNaCl trusted: the verify key of a signing key is its public key.")

p("H01", "Handling a message does not change it",
  "The client session, dealer, broker, acceptor, joiner and client authenticators leave every message they are given, and every value in "
  "it, as it was, whether they accept or refuse it. Role dictionaries and extra data the application configured stay as they were too.",
  ["inputs", "histories"], "all message types with arbitrary contents, from arbitrary states",
  "Tests look at the answers, never at the message afterwards; in one process the same message object goes to several recipients.",
  ["wampproto/session.py", "wampproto/dealer.py", "wampproto/broker.py", "wampproto/acceptor.py", "wampproto/joiner.py"],
  [("receive_message", "wampproto/dealer.py"), ("send_message", "wampproto/session.py")],
  "effect analysis: accessor terms of the message before and after every operation on every path",
  "Each accessor of the message must give the same term after every outcome of every operation.",
  "Arbitrary populations of dealer and broker; all abstract handshake states.")

p("H02", "Answers that were handed out do not change afterwards",
  "What the dealer, broker or acceptor returned (a message, its recipients, a publication) keeps its contents whatever is handled "
  "next: later joins, departures, subscriptions, calls and results never reach into an answer that still waits to be sent.",
  ["histories", "inputs"], "every answer followed by every further operation, from arbitrary populations",
  "Tests read an answer at once and throw it away; a router queues answers while it handles further messages.",
  ["wampproto/dealer.py", "wampproto/broker.py", "wampproto/acceptor.py"],
  [("receive_message", "wampproto/dealer.py"), ("receive_publish", "wampproto/broker.py")],
  "ownership (aliasing) analysis: the answer's term before and after every further operation on every path",
  "The structural term of each answer, live views followed to the container they look into, must be the same after every outcome of "
  "every further operation.",
  "One further operation after each answer; quick: one dealer pre-state, thorough: all of them.")

p("I01", "Ids lie in range and are handed out in sequence",
  "Session ids are drawn from 1..2^53. A session-scope id generator starts at 1, hands out consecutive ids, never leaves 1..2^53, and "
  "restarts at 1 after 2^53; generators are independent of each other.",
  ["histories", "inputs"], "every number of draws from every generator state",
  "Tests draw a few ids and one wrap.",
  ["wampproto/idgen.py"], [("next", "wampproto/idgen.py")],
  "interval abstract interpretation with an inductive invariant on the counter",
  "Invariant inferred from constructor and preserved by next; results compared as terms.",
  "Inductive; no bound.")

p("R01", "Rawsocket handshakes round-trip",
  "For every protocol 0..15 and every message size that is a power of two between 2^9 and 2^24, encoding a handshake yields four bytes "
  "(magic, size exponent and protocol, two zero bytes) from which decoding recovers the same protocol and size.",
  ["inputs"], "all 16 protocols, all 16 sizes",
  "Tests check a few combinations.",
  RAW, [("send_handshake/receive_handshake", "wampproto/transports/rawsocket.py")],
  "abstract interpretation with bit-field terms over protocol and size",
  "Composition decode(encode) over the case split of sizes with a symbolic protocol.",
  "Exact.")

p("R02", "Malformed rawsocket handshakes are rejected",
  "A received handshake is accepted only if it is exactly four bytes, starts with the magic byte and ends in two zero bytes; everything "
  "else raises ValueError, and an accepted one yields the protocol from the low and the size from the high half of the second byte.",
  ["inputs"], "every byte string",
  "Tests check a few malformed ones.",
  RAW, [("receive_handshake", "wampproto/transports/rawsocket.py")],
  ABS.format("acceptance conditions of the handshake decoder on an arbitrary byte string"),
  "Accepting paths must entail the conditions; rejecting paths must contradict them.",
  "Exact.")

p("R03", "Rawsocket frame headers round-trip and reject oversize lengths",
  "For every message kind 0..255 and every length from 0 to 2^24-1 a frame header is the kind followed by the length as three "
  "big-endian bytes, and decoding recovers both; other lengths are refused with ValueError instead of being truncated.",
  ["inputs"], "all kinds and all lengths",
  "Tests check a few lengths.",
  RAW, [("MessageHeader", "wampproto/transports/rawsocket.py")],
  "abstract interpretation with bit-field terms over kind and length",
  "Byte terms compared bit by bit with the specification; composition with the decoder.",
  "Exact.")

p("G01", "The library performs no I/O of its own",
  "No operation of the library reads or writes files, sockets or the process environment, sleeps, starts threads or processes, prints, "
  "or evaluates received data as code; its only inputs are its arguments, the configured objects, the clock and the random source.",
  ["programs", "inputs"], "every function of the package and everything it calls",
  "Tests cannot show the absence of an effect on untested paths.",
  ["wampproto/"], [("whole package", "wampproto/")],
  "effect analysis over the call graph: every external call site of the package is resolved and checked against an allow-list",
  "Import and call-site audit of the whole package against the sans-I/O allow-list.",
  "Call sites resolved through imports and types; dynamic attribute access counts as open.")

p("G02", "Instances share no mutable state",
  "What one session, dealer, broker, acceptor, joiner, authenticator, message or id generator does never changes the behaviour of another one: no "
  "operation modifies module-level or class-level objects or default argument values, and none hands out such an object for later "
  "modification by the library.",
  ["histories", "programs"], "every operation of every class, any number of instances",
  "Tests use fresh instances and rarely two side by side.",
  ["wampproto/"], [("module-level constants and default arguments", "wampproto/")],
  "ownership/effect analysis: writes to objects reachable from module, class or default-argument roots",
  "Every write effect of every analysed operation must target an object owned by the instance or created in the call.",
  "Applications that mutate objects the library hands out are outside the claim.")

p("V01", "Session details are equal exactly when all their attributes are",
  "The session details a client or router is handed keep the session id, realm, authid and authrole they were created with. Two of them "
  "compare equal exactly when all four attributes are equal, unequal otherwise, and comparing them with anything else is defined and "
  "says they are not equal.",
  ["inputs"], "all attribute values, all 16 combinations of equal and different attributes",
  "Tests compare a few literal objects; a comparison that skips or mixes up one attribute passes them.",
  ["wampproto/types.py"], [("SessionDetails", "wampproto/types.py")],
  ABS.format("==, != and attribute reads on symbolic details"),
  "In each of the 16 worlds of equal and different attributes the comparison must return the same constant on every path.",
  "Equality of the attribute values themselves is Python's.")

p("V02", "Application errors carry and show their reason and arguments",
  "An application error keeps the reason and keyword arguments it was raised with and can be built and shown whether its arguments are "
  "absent, empty or filled. Its text consists of the reason followed by every positional argument and every keyword argument with its "
  "name, in order, and nothing else of the caller's data.",
  ["inputs"], "absent, empty and filled arguments and keyword arguments; all values",
  "Tests raise a few literal errors; absent or empty combinations and the order of arguments go unseen.",
  ["wampproto/exception.py"], [("ApplicationError", "wampproto/exception.py")],
  ABS.format("construction, attribute reads and str() of the error"),
  "For absent, empty, one and several arguments the text term must contain each symbolic piece once and in order; for arguments of unknown "
  "number it must begin with the reason and depend on them.",
  "Separators are not prescribed.")

p("V04", "ERROR messages show their uri and arguments",
  "The text of an ERROR message can be built whether its arguments are absent, empty or filled, and consists of the error uri followed by every "
  "positional argument and every keyword argument with its name, in order, and nothing else of the message.",
  ["inputs"], "absent, empty and filled arguments and keyword arguments; all values",
  "No test shows an ERROR without arguments or with several of both.",
  [M + "error.py"], [("Error.__str__", M + "error.py")],
  ABS.format("construction, attribute reads and str() of the message"),
  "As for V02, on ERROR messages.",
  "Separators are not prescribed.")

p("V03", "Published constants have their protocol values",
  "The error URIs, authentication method names, serializer ids, id range and rawsocket constants the package publishes have the values the WAMP "
  "specification and its peers use.",
  ["configurations"], "every published constant",
  "Tests compare the constants with themselves, so a changed value moves both sides.",
  ["wampproto/uris.py", RAW[0], "wampproto/serializers/", ACC[0], "wampproto/idgen.py"],
  [("uris", "wampproto/uris.py"), ("constants", RAW[0])],
  "constant evaluation of module and class bodies against a protocol table",
  "Each name is looked up in the abstractly executed module or class and compared with the table.",
  "A constant that is gone or not constant is reported as undecided, not as violated.")

NA = {}


def na(pid, title, stmt, over, text, why, files, mech, reason):
    P.append((pid, title, stmt, over, text, why, files, mech, None, None, None))
    NA[pid] = reason


na("S04", "Third-party codecs reproduce every value",
   "For every value an application may put into a message, the JSON, CBOR and MessagePack codecs return an equal value after encoding "
   "and decoding, or refuse to encode it.",
   ["inputs"], "every value the codecs support", "Tests round-trip a few values.",
   [SER + "json.py", SER + "cbor.py", SER + "msgpack.py"], [("codec calls", SER + "*.py")],
   "The values are produced inside compiled third-party codecs outside this repository; a static argument over /repo's source can "
   "show which codec is called on what (S01-S03), not what its native code returns for every value.")

na("D10", "Every call is eventually answered",
   "Every CALL the router accepts is eventually answered with a RESULT or an ERROR, also when the callee leaves or never answers.",
   ["histories", "schedules"], "every history and every callee", "Tests let the callee answer at once.",
   DEA, [("remove_session", "wampproto/dealer.py")],
   "A liveness claim about callees and about the application that embeds the dealer: when a callee leaves, the interface has no way to "
   "hand out the answers to its callers, so whether they get one is decided outside the code that could be analysed.")

na("A08", "Authentication cannot be forged",
   "No client that does not know the secret, ticket or private key of an identity is welcomed under that identity.",
   ["inputs", "histories"], "every adversary", "Tests use fixed keys.",
   ACC, [("verification", AUTH + "*.py")],
   "Rests on computational assumptions about HMAC, Ed25519 and the random source and on the application's authenticator; the part that "
   "source analysis can decide is A01-A05 and X01-X03.")

na("I02", "Concurrently live sessions have distinct ids",
   "Two sessions that are alive at the same time never have the same session id.",
   ["histories", "configurations"], "every set of live sessions", "Tests create a few sessions.",
   ["wampproto/idgen.py"], [("generate_session_id", "wampproto/idgen.py")],
   "Session ids are drawn at random, so the claim only holds with a probability; that the router refuses to add a second live session "
   "with the same id is decided under D09 and B05.")

na("G03", "Instances may be used from several threads",
   "Concurrent use of one session, dealer or broker from several threads behaves like some sequential order of the operations.",
   ["schedules"], "every thread interleaving", "Tests are single-threaded.",
   ["wampproto/"], [("no locks anywhere", "wampproto/")],
   "The library has no synchronisation and does not promise thread safety; callers serialise. There is nothing in the source whose "
   "lock discipline could be analysed, and the claim does not hold.")

na("W10", "Decoding uses bounded time and memory",
   "Decoding a message of n bytes takes time and memory linear in n and never exhausts the stack.",
   ["inputs"], "every input", "Tests use small inputs.",
   [SER + "serializer.py"], [("deserialize", SER + "*.py")],
   "The cost is dominated by third-party codecs written in C whose recursion and allocation are outside the analysed source.")

na("G04", "Interoperates with every other WAMP implementation",
   "Every conforming WAMP peer can complete handshakes, calls and publications with this library.",
   ["configurations", "histories"], "every conforming peer", "Interoperability tests need the other implementation.",
   ["wampproto/"], [("whole package", "wampproto/")],
   "A statement about programs that are not part of this repository; the layout tables of W01-W06 are the part that can be decided here.")
