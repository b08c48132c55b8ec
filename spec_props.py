# -*- python -*-  (exec'd by spec.py)
NOCOMPILE = ("The repository's own tests for this component need a library that is not available here and run a handful of hand-written vectors; ")

# ---------------------------------------------------------------- STUN codec
prop("S01", "STUN parsing is total, memory-safe, deterministic and counted once",
 "Parsing any byte string as a STUN message terminates with a message or an error, reads only bytes of the given buffer and leaves them unchanged, and repeating it gives the same answer. Each attempt is counted exactly once: an accepted datagram raises the success count by one and nothing else, a rejected one raises the error count by one together with one counter naming its cause.",
 ["inputs"], "every byte string, in particular every truncation, every lying length field and every attribute layout",
 NOCOMPILE + "memory safety on hostile datagrams is a claim about all byte strings, and the tests feed about two dozen.",
 ["src/stun/stun_message.cpp", "src/stun/stun_attribute.cpp", "src/stun/stun_parse_stat.hpp", "src/util/util_binary_view.hpp"],
 [("bounds-checked reads through a view", "src/stun/stun_message.cpp RawAttr::parse"), ("per-cause counters", "src/stun/stun_message.cpp Message::parse")],
 ["stun::Message::parse result", "stun::ParseStat"])

prop("S02", "The parser accepts exactly the well-formed STUN messages and decodes them",
 "A datagram is accepted exactly when it has a 20-byte header whose two top bits are zero, a length field that is a multiple of four and equals the bytes that follow, the magic cookie (or, for requests only, its absence, meaning a classic 16-byte transaction id), attributes that all fit, known attributes with well-formed contents (fixed-size ones at least as long as their value), and a fingerprint, if any, that is last and correct. An accepted message yields precisely the class, method, transaction id and attribute values its bytes encode: the first attribute of each known type, every unknown attribute in order with its raw bytes (padding bits ignored), and nothing after a message-integrity attribute except a fingerprint.",
 ["inputs"], "every sequence of attributes (type, length, contents, padding), header and truncation up to the bound",
 NOCOMPILE + "they never combine duplicated, reordered, truncated or misplaced attributes.",
 ["src/stun/stun_message.cpp", "src/stun/stun_attribute.cpp", "src/stun/stun_attribute_set.hpp"],
 [("header validation and attribute walk", "src/stun/stun_message.cpp Message::parse / parse_attrs"), ("attribute decoders", "src/stun/stun_attribute.cpp"), ("first attribute of a type wins", "src/stun/stun_attribute_set.hpp AttributeSet::emplace")],
 ["stun::Message::parse result and its accessors"])

prop("S03", "Built STUN messages are well-formed and parse back to the same message",
 "Serialising any message (any class, method, 12-byte transaction id - or, for requests, a 16-byte one not starting with the cookie - and attribute contents within their wire ranges) gives a datagram that an independent decoder and the library's own parser both accept and that decodes to the same class, method, transaction id and attribute values. The datagram's length field is right, every attribute is padded to four bytes with zeros, message-integrity comes after all other attributes except the fingerprint and the fingerprint comes last.",
 ["inputs"], "every subset of attribute kinds times a small domain of contents and lengths, with and without integrity and fingerprint",
 NOCOMPILE + "each attribute kind is built once or never, so byte-order, shift and padding mistakes for other values are invisible.",
 ["src/stun/stun_attribute_set.cpp", "src/stun/stun_attribute.cpp", "src/stun/stun_header.cpp"],
 [("gather-list serialisation with padding", "src/stun/stun_attribute_set.cpp AttributeSet::build"), ("header serialisation", "src/stun/stun_header.cpp Header::build"), ("attribute encoders", "src/stun/stun_attribute.cpp *::build")],
 ["stun::Message::build output"])

prop("S04", "The STUN fingerprint detects corruption of a message",
 "A message built with a fingerprint carries the CRC-32 of everything before it, combined with the constant of the standard, and is accepted; a datagram whose fingerprint differs from that value is rejected. In particular changing any single bit, or any run of up to 32 consecutive bits, of a fingerprinted message leads to rejection or to a message no longer claiming a fingerprint.",
 ["inputs", "fault_sequences"], "every single-bit and short-burst corruption at every position of a family of messages; every message length for the checksum",
 NOCOMPILE + "one valid and one corrupted vector cannot show that each table entry and each covered byte matters.",
 ["src/stun/details/stun_fingerprint.cpp", "src/stun/stun_message.cpp", "src/stun/stun_attribute_set.cpp"],
 [("table-driven CRC-32 over a view or a gather list", "src/stun/details/stun_fingerprint.cpp"), ("fingerprint check", "src/stun/stun_message.cpp Message::parse")],
 ["stun::Message::parse result", "stun::Message::build output"])

prop("S05", "STUN message integrity is valid exactly for the right key and bytes",
 "Checking message integrity reports 'valid' exactly when the message carries an integrity attribute equal to the HMAC-SHA1, under the given password, of the message up to that attribute with the header length adjusted as the standard prescribes; it reports 'invalid' otherwise and 'absent' when there is none. Hence a message built with a password validates under that password, under no other tried password, and no longer validates when any protected bit or the digest itself is changed, while bytes after the attribute (fingerprint) do not matter.",
 ["inputs", "fault_sequences"], "every message of a family, every single-bit corruption, a set of passwords of all lengths around the hash block size, integrity attribute in every position and multiplicity",
 NOCOMPILE + "forgery resistance is a claim about all corruptions and keys; the tests try one of each.",
 ["src/stun/stun_message.cpp", "src/stun/stun_attribute_set.cpp", "src/crypto/crypto_hmac.hpp", "src/stun/stun_password.cpp"],
 [("digest over prefix with adjusted length", "src/stun/stun_message.cpp Message::is_valid"), ("signing when building", "src/stun/stun_attribute_set.cpp AttributeSet::build")],
 ["stun::Message::is_valid", "stun::Message::build output"])

prop("S06", "XOR-mapped addresses encode and decode exactly",
 "For every IPv4 or IPv6 address, port and transaction id, the XOR-mapped form is the one the standard defines (address XOR magic cookie and, for IPv6, transaction id; port XOR the cookie's upper half), and decoding it with the same transaction id gives back the original address and port. Equality of encoded addresses coincides with equality of the encoded bytes.",
 ["inputs"], "every bit position of address, port and transaction id, all ports, both families",
 NOCOMPILE + "the RFC vectors use a single transaction id and two addresses, so a wrong byte or word of the mask can go unnoticed.",
 ["src/stun/stun_address.cpp", "src/stun/stun_address.hpp", "src/stun/stun_attribute.cpp"],
 [("XOR with cookie and transaction id", "src/stun/stun_address.cpp XoredAddress")],
 ["XoredAddress::from_address / to_address", "XorMappedAddressAttribute build / parse"])

prop("S07", "STUN message types split into class and method and join back without loss",
 "For every 14-bit message type, the class is the two class bits and the method the twelve remaining bits in order; joining the decoded class and method gives back the same message type. Distinct types never decode to the same class and method, the class bits never leak into the method nor the method bits into the class, and the named class and binding-method values encode as the standard says.",
 ["inputs"], "all 16384 message types (and for the class, all 65536 values of the header field), and all pairs of class and method",
 "The tests check a handful of message types; the interleaved bit layout can only be settled by looking at all values.",
 ["src/stun/stun_class.hpp", "src/stun/stun_method.hpp", "src/stun/stun_method.cpp", "src/stun/details/stun_method_registry.hpp"],
 [("bit shuffling", "src/stun/stun_class.hpp Class::from_msg_type / to_msg_type"), ("bit shuffling", "src/stun/stun_method.hpp Method::from_msg_type / to_msg_type")],
 ["stun::Class", "stun::Method"])

prop("S08", "STUN attribute types, registries and constants follow the standard",
 "Every 16-bit attribute type keeps its value, equals another exactly when the values are equal, hashes equally when equal, and is comprehension-required exactly in 0x0000-0x7FFF. The registered attribute numbers, address families, method number, magic cookie, header sizes, transaction-id sizes and fingerprint constant have the values the STUN and ICE standards assign.",
 ["inputs"], "all 65536 attribute type values, all registry constants",
 "No test walks the whole type space or compares the registries with the standard; a changed constant still interoperates with itself.",
 ["src/stun/stun_attribute_type.hpp", "src/stun/details/stun_attr_registry.hpp", "src/stun/details/stun_constants.hpp", "src/stun/details/stun_method_registry.hpp"],
 [("range test", "src/stun/stun_attribute_type.hpp AttributeType::is_comprehension_required"), ("registries", "src/stun/details")],
 ["stun::AttributeType", "constants"])

# ---------------------------------------------------------------- STUN client
CLI = ["src/stun/stun_client_udp.cpp", "src/stun/stun_client_udp.hpp"]
prop("C01", "Every STUN client transaction ends exactly once",
 "Whatever responses arrive (none, valid, invalid, duplicated, late, reordered, for several transactions) and however irregularly the client is polled, each created transaction produces exactly one final outcome, success or failure, provided polling continues past its deadline. After that outcome no further effect concerning the transaction is ever produced, late responses to it are reported as belonging to no transaction, and other transactions are unaffected.",
 ["histories", "schedules"], "every interleaving, up to a depth, of creation, polling at any offset, and arrival of any kind of response for two concurrent transactions",
 NOCOMPILE + "they follow one response per transaction and poll at the ideal moment; duplicates arriving before the outcome is collected are never tried.",
 CLI, [("pending-effect queue and cleanup on collection", "src/stun/stun_client_udp.cpp ClientUDP::next"), ("transaction lookup", "src/stun/stun_client_udp.cpp ClientUDP::find_transaction")],
 ["ClientUDP::next effects", "ClientUDP::response return value"], [("transactions, timeline, queued effects", "pending work of the client")])
prop("C02", "Unanswered STUN requests are retransmitted on the standard schedule",
 "An unanswered request polled on time is sent at creation and then after intervals that start at the retransmission timeout and double each time, capped by the configured maximum interval if any, until the configured number of requests has been sent; the wait after the last request is the configured multiple of the initial timeout (also capped), after which the transaction fails with a timeout. With default settings that is 0, 500, 1500, 3500, 7500, 15500 and 31500 ms with failure at 39500 ms; polling late delays the remaining steps but never skips, adds or reorders any.",
 ["schedules", "configurations"], "every combination of settings in a small domain, on-time polling and every pattern of late, early and repeated polling, several concurrent transactions",
 NOCOMPILE + "one default schedule is tested; caps, other counts and late polling are not.",
 CLI + ["src/stun/stun_client_udp_settings.hpp"], [("retransmission algorithm", "src/stun/stun_client_udp.cpp RetransmitAlgo"), ("timeline", "src/stun/stun_client_udp.cpp ClientUDP::next")],
 ["times of SendData and TransactionFailed effects"])
prop("C03", "The STUN client always tells the caller when to come back",
 "When the client has nothing to do now it says how long to sleep or that it is idle; the sleep is positive and never extends past the next due retransmission or timeout of a live transaction, and idle is reported only when no transaction is live. Following the advice literally therefore drives every transaction to its end within a bounded number of polls, and polling earlier than advised changes nothing.",
 ["schedules", "histories"], "every history of creations, responses and polls up to a depth, comparing advised sleep with the earliest due time",
 NOCOMPILE + "liveness over all histories is beyond the sampled scripts.",
 CLI, [("earliest timeline entry decides the sleep", "src/stun/stun_client_udp.cpp ClientUDP::next")], ["Sleep and Idle effects"])
prop("C04", "STUN responses only affect the transaction they authentically answer",
 "A datagram changes the state of a transaction only if it is a well-formed success or error response of the Binding method carrying that live transaction's id and, when the request was authenticated, a valid message-integrity under the same key (the only exception being an unsigned alternate-server error when the settings allow it). Any other datagram - malformed, unknown id, another method, request or indication, unsigned or wrongly signed - leaves outcomes and timing of all transactions as if it had never arrived, and is reported to the caller as an error where the response is malformed, unknown or not authentic.",
 ["histories", "inputs"], "every kind of forged or mismatching datagram at every point of every bounded history, with and without authentication and with the alternate-server exception on or off",
 NOCOMPILE + "non-interference is a relation between histories with and without the datagram, which no single test compares.",
 CLI, [("lookup by transaction id", "src/stun/stun_client_udp.cpp find_transaction"), ("integrity check", "src/stun/stun_client_udp.cpp check_response_auth")], ["ClientUDP::response return value", "subsequent effects"])
prop("C05", "Each STUN response yields the outcome the standard prescribes",
 "A success response yields success with the XOR-mapped address, or failing that the mapped address, decoded exactly, or fails if neither is present; unknown comprehension-required attributes fail the transaction and are listed in order. An error response yields: failure if it has no error code; the alternate server for 300 with such an attribute and failure if it is missing; the reported unknown attributes for 420 when present; otherwise the error code itself for 3xx, 4xx and unretried 5xx; other codes change nothing.",
 ["inputs", "histories"], "every response class times every subset of relevant attributes times every error code 0-799, in every stage of a transaction",
 NOCOMPILE + "about ten of the several thousand combinations are tested.",
 CLI, [("response classification", "src/stun/stun_client_udp.cpp handle_success_response / handle_error_response")], ["TransactionOk / TransactionFailed effects"])
prop("C06", "The client adapts its timeout per network path, by Karn's rule",
 "The initial timeout of a new request is the configured value for a path without history; after responses to requests that were not retransmitted it is the smoothed round-trip time plus four times its variation (gains 1/8 and 1/4), and after a response to a retransmitted request it is the last interval used, until a clean measurement replaces it. Round-trip time is reported only for transactions without retransmission, paths never influence each other, and history not refreshed for longer than the configured duration is forgotten when the client next records any measurement.",
 ["histories", "configurations"], "every sequence, up to a depth, of clean and retransmitted exchanges with a small set of delays on two or three paths with idle gaps around the history duration",
 NOCOMPILE + "only short single-path scripts are tested; interleaved paths and expiry boundaries are not.",
 ["src/stun/details/stun_client_udp_rto.cpp", "src/stun/details/stun_client_udp_rto.hpp"] + CLI, [("per-path estimator with expiry list", "src/stun/details/stun_client_udp_rto.cpp ClientUDPRtoCalculator")], ["TransactionOk round trip", "retransmission times of later transactions"])
prop("C07", "Server errors (5xx) are retried as configured and then reported",
 "Without a configured server-error delay a 5xx response fails the transaction at once with that code. With one, each of up to the configured maximum number of 5xx responses re-sends the request that long after the response, each extending the number of requests by one, and the next 5xx response fails the transaction with its code; the usual backoff and timeout apply to what follows.",
 ["histories", "configurations"], "every placement of 5xx responses among retransmissions up to a depth, for several delays and limits",
 NOCOMPILE + "one placement is tested, with polling that hides when the retry happens.",
 CLI, [("5xx rescheduling", "src/stun/stun_client_udp.cpp RetransmitAlgo::process_5xx")], ["times of SendData effects", "TransactionFailed effect"])
prop("C08", "Client requests carry what was asked and are resent byte for byte",
 "The datagram of a request is a binding request with a fresh transaction id different from every live one, the attributes asked for, the user name and a valid integrity attribute when authenticated, and a valid fingerprint when enabled. Every retransmission is byte-for-byte the same datagram, and the bytes handed out stay readable and unchanged until the transaction's final outcome has been delivered.",
 ["histories", "inputs"], "every request content in a small domain, every history of polls and responses up to a depth, random sources that collide",
 NOCOMPILE + "tests look at one request's bytes and never compare retransmissions or hold a view across other operations.",
 CLI, [("request construction", "src/stun/stun_client_udp.cpp do_create"), ("unique id generation", "src/stun/stun_client_udp.hpp ClientUDP::create")], ["SendData message view"])
prop("C09", "Client and server together survive loss, duplication and reordering",
 "With the library's client talking to the library's server over a network that may lose, duplicate, delay, reorder and (with fingerprints) damage datagrams, every transaction ends: with success and the client's own public address and port if some request reaches the server and some response comes back in time, and with a timeout otherwise. No authenticated exchange succeeds with the wrong password, and none ends in an error the network alone caused.",
 ["schedules", "fault_sequences"], "every bounded sequence of deliver, drop, duplicate, delay and damage decisions for each datagram, one or two concurrent transactions, authenticated or not",
 NOCOMPILE + "client and server are never run against each other by the tests.",
 CLI + ["src/stun/stun_server_stateless.cpp"], [("request/response exchange", "src/stun/stun_client_udp.cpp, src/stun/stun_server_stateless.cpp")], ["client effects", "server responses"])

# ---------------------------------------------------------------- STUN server
SRV = ["src/stun/stun_server_stateless.cpp", "src/stun/stun_server_stateless.hpp"]
prop("C10", "The client's memory stays bounded: finished requests leave nothing",
 "However often any pattern of creating requests, answering or not answering them, waiting and polling is repeated, the memory a client holds after it has become idle does not keep growing: finished transactions of every outcome, their timers and the timing history of paths not used for longer than the history duration are given back, and a client always becomes idle again. Destroying a client gives back everything, whatever it was doing.",
 ["histories"], "every script of calls up to a depth, repeated many times with a counting allocator",
 NOCOMPILE + "no test measures memory, and leaks only show after long use.",
 CLI, [("cleanup of finished transactions", "src/stun/stun_client_udp.cpp ClientUDP::cleanup"), ("expiry of path history", "src/stun/details/stun_client_udp_rto.cpp clear_outdated")], ["number of live heap blocks allocated inside the client"])
prop("V01", "The STUN server decides each datagram by the standard's table",
 "A datagram that is not a valid STUN message or not a request gets no answer. A request gets 420 listing its unknown comprehension-required attributes in order if it has any; else 400 if it has exactly one of user name and integrity; else 401 if the user is unknown or the integrity is wrong under the user's password; else, if it is a binding request, success, and no answer for other methods.",
 ["inputs"], "every class, method, subset of attributes, known/unknown user, right/wrong password, classic or current transaction id",
 NOCOMPILE + "a handful of rows of the table are tested.",
 SRV, [("decision chain", "src/stun/stun_server_stateless.cpp process_request")], ["server::Stateless::process result"])
prop("V02", "STUN server answers are correct for their sender and independent of history",
 "A success answer carries the request's method and transaction id and exactly the sender's address and port, XOR-mapped for current clients and plain for classic ones, a fingerprint when enabled and the client is current, and is signed with the user's key when the request was authenticated; an error answer echoes method and transaction id. The answer is a function of sender, datagram, settings and registered users only: whatever was processed before does not change it, and the serialised answer is always accepted by a client that sent the request.",
 ["inputs", "histories"], "every request kind times several senders of both families, every ordered pair of requests (second answer must equal the fresh one)",
 NOCOMPILE + "statelessness relates histories, which no test compares.",
 SRV, [("response construction", "src/stun/stun_server_stateless.cpp")], ["server::Stateless::process result", "serialised response"])

# ---------------------------------------------------------------- RTP
RTP = ["src/rtp/rtp_packet.cpp", "src/rtp/rtp_header.hpp", "src/rtp/details/rtp_header_details.hpp"]
prop("R01", "RTP packets are accepted exactly when well-formed, and decoded exactly",
 "A datagram is accepted as RTP exactly when it has at least 12 bytes, version 2, room for its contributing sources and header extension, a payload type with a known clock, and padding (if flagged) whose count is at least one and fits the payload. Marker, payload type, sequence number, timestamp, source, contributing sources in order, and extension profile and data are then exactly those the bytes encode.",
 ["inputs"], "every first and second byte, every contributing-source count, extension length, padding count and truncation",
 NOCOMPILE + "the tests use a dozen packets; the interplay of counts, extension and padding needs all combinations.",
 RTP, [("packet parser", "src/rtp/rtp_packet.cpp Packet::parse")], ["rtp::Packet::parse result"])
prop("R02", "RTP header, extension, payload and padding tile the datagram safely",
 "Parsing any byte string as RTP terminates, reads only within it, and on success the reported extension and payload ranges lie inside the datagram, do not overlap, and together with header and padding account for every byte exactly once. Each attempt raises exactly one of the success and error counts by one, and an error raises exactly one cause counter.",
 ["inputs"], "every header shape, extension length, padding value and truncation",
 NOCOMPILE + "range safety on hostile input is a claim about all inputs.",
 RTP, [("interval computation", "src/rtp/rtp_packet.cpp Packet::parse")], ["rtp::Packet ranges", "rtp::ParseStat"])
prop("R03", "RTP header value types and constants are lossless and correct",
 "Sequence numbers, source identifiers, timestamps, clock rates and marker bits keep exactly the value they were made from over their full range, two source identifiers are equal exactly when their values are, and payload types exist exactly for 0-127. The masks, shifts and offsets used to take an RTP header apart are those of the standard: version, padding, extension, source count, marker and payload type partition the first two bytes, and sequence, timestamp and source follow at bytes 2, 4 and 8.",
 ["inputs"], "all 16-bit values, all bit patterns of weight up to two and edge values for 32-bit ones, all header constants",
 "The only RTP test that builds here is empty; nothing checks these types over their range.",
 ["src/rtp/rtp_sequence.hpp", "src/rtp/rtp_ssrc.hpp", "src/rtp/rtp_timestamp.hpp", "src/rtp/rtp_clock_rate.hpp", "src/rtp/rtp_marker.hpp", "src/rtp/rtp_payload_type.hpp", "src/rtp/rtp_payload_map.hpp", "src/rtp/details/rtp_header_details.hpp"],
 [("value wrappers", "src/rtp/rtp_*.hpp"), ("layout constants", "src/rtp/details/rtp_header_details.hpp")], ["accessors"])

# ---------------------------------------------------------------- crypto
prop("K01", "HMAC-SHA1 and SHA1 agree with the standard for all lengths and splits",
 "The keyed digest equals the HMAC-SHA1 of the standard for every key length (shorter than, equal to and longer than the hash block) and every message length, no matter into how many pieces the message is cut, including empty ones. The plain digests equal SHA-1 and MD5 of the concatenated pieces, and the result depends on nothing but key and message. When the cryptographic library reports that a step failed, an error is returned, never a digest.",
 ["inputs"], "all key lengths 0-200, message lengths 0-200, all splits of short messages into up to four pieces",
 NOCOMPILE + "they use the RFC vectors, whole messages only.",
 ["src/crypto/crypto_hmac.hpp", "src/crypto/crypto_hash.hpp", "src/crypto/openssl/openssl_hash.cpp"],
 [("inner/outer padded keys", "src/crypto/crypto_hmac.hpp PadKey"), ("scatter hashing", "src/crypto/openssl/openssl_hash.cpp")], ["crypto::hmac::digest", "crypto::openssl::sha1"])
prop("K02", "Password-derived keys identify the password",
 "The key derived from a short-term password is the one HMAC-SHA1 prescribes for the password's bytes, so that messages signed with it verify with any conforming implementation, for every password length including beyond the hash block. Keys of two passwords compare equal exactly when HMAC cannot tell the passwords apart, copying a key changes nothing, and a failing hash function is reported as an error, not a wrong key.",
 ["inputs", "fault_sequences"], "all password lengths 0-200 with contents differing in any one position, hash failure at each call",
 NOCOMPILE + "one short password is used; long passwords take a different path.",
 ["src/stun/stun_password.cpp", "src/stun/stun_password.hpp", "src/crypto/crypto_hmac.hpp"],
 [("key derivation", "src/stun/stun_password.cpp Password::short_term")], ["Password ipad/opad", "digests"])

# ---------------------------------------------------------------- net
prop("N01", "IP address text and bytes convert exactly both ways",
 "A text is accepted as an IP address exactly when the whole of it is an IPv4 dotted quad or an IPv6 address in standard notation, and yields the bytes it denotes; byte strings are accepted exactly at length 4 or 16. Printing any address and reading it back gives the same address, and different addresses print differently and compare unequal.",
 ["inputs"], "every text over a small alphabet up to a length, every truncation/extension of valid texts, embedded terminators, all bit patterns of weight up to two",
 NOCOMPILE + "a dozen strings are tried.",
 ["src/net/ip/ip_address.cpp", "src/net/ip/ip_address.hpp", "src/net/ip/details/ip_address_tpl.hpp"],
 [("inet_pton / inet_ntop adapters", "src/net/ip/ip_address.cpp")], ["ip::Address::from_string / to_string / view"])
prop("N02", "Domain names are accepted exactly by their grammar",
 "A text is accepted as a domain name exactly when it consists of dot-separated labels of letters, digits, underscores and inner hyphens, each starting and ending with a non-hyphen, with an optional trailing dot; the accepted name is the text itself. Prefix parsing consumes the longest such prefix and hands back exactly the rest, never reading outside the text.",
 ["inputs"], "every string up to length 7 over one representative of each character class, plus all 256 characters in each position of short names",
 NOCOMPILE + "around ten names are tried.",
 ["src/net/net_fqdn.cpp", "src/net/net_fqdn.hpp"], [("label and subdomain scanner", "src/net/net_fqdn.cpp")], ["Fqdn::from_string / parse / to_string"])
prop("N03", "Port numbers are read from text exactly",
 "A text is accepted as a port exactly when it is one to five decimal digits denoting at most 65535, and then has that value; every 16-bit number is kept exactly. Everything else, including empty text, signs, spaces, non-digits and larger numbers, is rejected.",
 ["inputs"], "all decimal texts up to six digits, all strings up to length 5 over a small alphabet of digits and non-digits",
 NOCOMPILE + "a handful of texts are tried.",
 ["src/net/net_port.cpp", "src/net/net_port.hpp"], [("digit scanner", "src/net/net_port.cpp Port::from_string")], ["net::Port"])
prop("N04", "Endpoints and paths keep their parts, and equal keys hash equally",
 "An endpoint reports exactly the protocol, address and port it was made of. Two paths are equal exactly when both addresses are, and equal addresses, paths and transaction ids always hash equally whatever the alignment or storage of their bytes, so that lookups keyed by them find exactly the entry stored.",
 ["inputs", "histories"], "all pairs from a set of addresses of both families differing in single bits; all insert/lookup/erase sequences on keyed tables up to a depth",
 NOCOMPILE + "hash consistency is a relation over all pairs of keys.",
 ["src/net/net_endpoint.hpp", "src/net/net_path.hpp", "src/net/net_path_hash.hpp", "src/net/ip/ip_address_hash.cpp", "src/util/util_hash_murmur.cpp", "src/stun/stun_transaction_id_hash.hpp"],
 [("murmur hash over views", "src/util/util_hash_murmur.cpp"), ("path hash", "src/net/net_path_hash.hpp")], ["operator==, hash functors, unordered containers"])

# ---------------------------------------------------------------- ICE
ICE = ["src/ice/candidate"]
prop("I01", "ICE candidate lines are accepted exactly by their grammar and decoded",
 "A candidate attribute line is accepted exactly when it has the attribute prefix and, space-separated, a valid foundation, component, transport, priority, address, port, the type keyword with a known type, an optional related address and port, and extension name/value pairs; the result holds exactly those values with extensions in order. A line that is grammatical but uses an unknown transport, type or unsupported address form is reported as unsupported rather than as an error, everything else is an error (a line that is malformed as well as unsupported may be reported either way, but is never accepted), and no input makes the parser crash or read outside the line.",
 ["inputs"], "every token sequence up to the full grammar length with each token drawn from valid and invalid representatives, every truncation of valid lines",
 NOCOMPILE + "about thirty lines are tried; combinations of missing, duplicated and misplaced tokens are not.",
 ["src/ice/candidate/ice_candidate_sdp.cpp", "src/ice/candidate/ice_candidate_sdp.hpp"], [("token-stream parser", "src/ice/candidate/ice_candidate_sdp.cpp parse_sdp_attr")], ["parse_sdp_attr result"])
prop("I02", "ICE candidate fields accept exactly their value sets",
 "Foundations are 1-32 characters from letters, digits, plus and slash; component numbers are 1-256, in up to three digits; priorities are positive 32-bit numbers in 1-10 decimal digits; addresses are IP addresses or domain names; transport and type names are matched without regard to letter case against the known names, and each named value prints as its name. An accepted value is kept exactly and compares equal exactly to the same value; anything else is rejected.",
 ["inputs"], "all strings up to a length over a small alphabet, all numeric boundaries, all 256 characters in each position, all case variants of each keyword",
 NOCOMPILE + "a few strings per field are tried.",
 ICE, [("field parsers", "src/ice/candidate/*.cpp")], ["from_string / from_unsigned / to_string"])
prop("I03", "ICE candidate priority follows the standard's formula",
 "For every type preference 0-126, local preference 0-65535 and component preference in range the priority is 2^24 times the first plus 2^8 times the second plus the third, preferences outside their ranges are rejected, and the recommended type and component preferences are those of the standard. Hence candidates order by type, then local preference, then component, without overflow.",
 ["inputs"], "all boundary and single-bit values of the three preferences, all component numbers, all types; thorough: all 127 x 65536 type and local preferences",
 NOCOMPILE + "a few values are tried; overflow or ordering mistakes need the extremes.",
 ["src/ice/candidate/ice_candidate_preference.cpp", "src/ice/candidate/ice_candidate_priority.cpp"], [("priority formula", "src/ice/candidate/ice_candidate_preference.cpp Preference::to_priority")], ["Preference::to_priority", "recommended_for"])

# ---------------------------------------------------------------- util / clock
prop("U01", "The intrusive list behaves as a list under all operation sequences",
 "Under any sequence of pushing at either end, re-pushing or moving elements between lists, popping, clearing, removing, destroying, moving or assigning elements, and moving, assigning or destroying lists, the list contains exactly the elements a plain sequence would contain, in the same order, and reports emptiness, front and back accordingly. A moved or assigned element takes the place of the element it is made from. An element is in at most one list per link, destroying or removing it unlinks it, and no operation touches freed memory.",
 ["histories"], "every operation sequence up to a depth on a few elements and two lists, checked against a plain list",
 NOCOMPILE + "pointer structures fail on particular short sequences (re-push of the last element, removal of a neighbour, move of a linked element) that hand-written tests sample sparsely.",
 ["src/util/util_intrusive_list.hpp"], [("link splicing", "src/util/util_intrusive_list.hpp")], ["list contents, front/back, membership"])
prop("U02", "Token streams hand out tokens in order, once, and never beyond the end",
 "Reading a token stream by any mixture of optional, required, expected-literal and transforming reads returns the tokens in order, each once, and after the last one every required read fails while every optional read returns nothing. A failed literal or transformation still consumes its token, reports the failure and does not disturb the tokens that follow, and copying the token list into the stream isolates it from the caller's list. A copy of a stream continues independently from the position of the original.",
 ["histories", "inputs"], "every sequence of reads up to a depth on every token list up to a length",
 NOCOMPILE + "a few read sequences are tried.",
 ["src/util/util_token_stream.cpp", "src/util/util_token_stream.hpp"], [("position in a constant list", "src/util/util_token_stream.cpp")], ["optional / required / required_bind"])
prop("U03", "Timepoints form a consistent circular timeline in microseconds",
 "Advancing a timepoint by a duration in microseconds, milliseconds, seconds or longer units and subtracting the original gives back exactly that duration in microseconds, and advances compose additively, including across wrap-around of the counter, backwards steps and differences of less than half the counter's range. 'After' and 'before' are each other's mirror image, are both false for equal timepoints, agree with the sign of the difference, and are never both true (for points less than half the range apart); advancing from a duration moves by the whole microseconds in it (towards zero) and leaves exactly the remainder.",
 ["inputs"], "every pair of start point and duration from a grid of powers of two, wrap and half-range neighbourhoods and unit boundaries, and all sequences of two or three advances",
 "The seventeen tests sample small offsets near zero; wrap-around, half-range and remainder laws must hold for every value.",
 ["src/clock/clock_timepoint.hpp"], [("modular 64-bit arithmetic", "src/clock/clock_timepoint.hpp")], ["advance, advance_from, operator-, is_after, is_before, =="])
prop("U04", "Clock conversion neither loses nor invents time",
 "Converting readings of any monotonic clock, whose tick divides a microsecond or is a multiple of one, to timepoints yields a sequence that never goes backwards and whose total advance after any number of readings equals the source clock's total advance rounded down to microseconds, so that rounding never accumulates. The first reading and the steady-clock helper follow the same rule.",
 ["histories"], "every sequence of clock steps up to a length from a set around the microsecond boundary, for clocks with nanosecond, third-of-microsecond-like, microsecond, millisecond and second ticks",
 "No test exercises the converter; drift only shows over sequences of readings with fractional remainders.",
 ["src/clock/clock_std.hpp", "src/clock/clock_timepoint.hpp"], [("carried remainder", "src/clock/clock_std.hpp ChronoClockConverter::now")], ["ChronoClockConverter::now"])
prop("U05", "Error codes are stable, distinct and self-describing",
 "For every error enumeration of the library, each enumerator converts to an error code with that numeric value in its component's own category, zero meaning success, so codes of different components never compare equal unless both numbers and components agree. Every non-zero enumerator has a specific non-empty message different from those of the other enumerators of its component and from the fallback, and any unknown number gets the fallback message without failure. Codes of the cryptographic back end carry that library's own number and text.",
 ["inputs"], "every enumerator and every integer in -300..300 (thorough: 20 bits around zero and the 32-bit extremes) for each category, all pairs of categories, repeated and interleaved calls",
 "Tests compare a few codes and never look at messages or at categories against each other.",
 ["src/rtp/rtp_error.cpp", "src/net/net_error.cpp", "src/ice/candidate/ice_candidate_error.cpp", "src/stun/stun_error.cpp", "src/crypto/openssl/openssl_error.cpp", "src/util/util_error_code.cpp"],
 [("error categories", "src/**/**_error.cpp")], ["std::error_code value, category, message"])
prop("U06", "Dynamic hashes and value wrappers behave as the values they wrap",
 "A run-time selected hash object returns for every key what its selected algorithm returns, copies of it agree with it, objects for different algorithms stay independent, and the algorithm instance is created once and shared. Tagged values and typed flags hold exactly the value they were given, copy and move like it, and compare equal exactly when their values do; counters start at zero and count every increment; overload sets dispatch to the handler of the actual alternative; handles order and hash by their number.",
 ["inputs", "histories"], "all operation sequences up to a depth on two algorithms and several hash objects, wrappers over small value domains, all pairs",
 "These helpers have no tests of their own in the tests that build here.",
 ["src/util/util_hash_dynamic.hpp", "src/util/util_tagged_type.hpp", "src/util/util_typed_bool.hpp", "src/util/util_variant_overloaded.hpp", "src/stat/stat_counter.hpp", "src/stun/stun_parse_stat.hpp", "src/stun/stun_client_udp_handle.hpp", "src/precis/precis_opaque_string.hpp", "src/precis/precis_opaque_string_hash.hpp"],
 [("type-erased hash", "src/util/util_hash_dynamic.hpp"), ("wrappers", "src/util")], ["operator(), value, count"])
prop("U07", "Instances are isolated: results do not depend on other instances",
 "Two clients, two servers, two parsers or two of any component used in one program in any interleaving behave exactly as each would alone: no result, effect, statistic or timing of one depends on what was done with the other. The same holds when independent instances are driven from different threads.",
 ["histories", "schedules"], "every interleaving of two short scripts on two instances, compared with the solo runs",
 NOCOMPILE + "hidden shared state (static buffers, caches, singletons) only shows when two instances are interleaved.",
 ["src/stun", "src/rtp", "src/util/util_hash_dynamic.hpp", "src/crypto/openssl/openssl_hash.cpp"], [("no mutable globals other than constant singletons", "src")], ["outputs of interleaved and solo runs"])
prop("U08", "Character classes and case-insensitive comparison are exactly ASCII",
 "Letters are exactly A-Z and a-z, digits exactly 0-9, and ICE characters exactly these plus '+' and '/', for all 256 character values. Case-insensitive comparison holds exactly for texts of equal length that agree character by character up to ASCII letter case, is reflexive and symmetric, never treats a non-letter as equal to a different character, and handles texts with embedded zero bytes.",
 ["inputs"], "all 256 characters, all 65536 character pairs, all strings up to length 3 over a boundary alphabet against each other",
 "No test that builds here covers these functions; boundary characters such as '@', '[', '`', '{' and bytes above 127 are where mistakes hide.",
 ["src/abnf/abnf.hpp", "src/ice/ice_abnf.hpp"], [("character predicates", "src/abnf/abnf.hpp"), ("lower-casing comparison", "src/abnf/abnf.hpp eq_string")], ["is_ALPHA, is_DIGIT, eq_string, is_ice_char"])
prop("U09", "Splitting, joining and flattening preserve content and order",
 "Splitting a text at its first separator gives the parts before and after it or nothing if there is none; splitting at all separators gives the pieces in order, an empty text giving no pieces and a trailing separator no extra piece. Joining puts the separator between consecutive elements only, prefix removal fails exactly when asked for more than there is, and flattening concatenates in order; all pieces refer to the original text.",
 ["inputs"], "every string up to length 8 over a two-letter-plus-separator alphabet, every nested vector shape up to a bound",
 NOCOMPILE + "a few strings are tried.",
 ["src/util/util_string_view.hpp", "src/util/util_flat.hpp"], [("string_view splitting", "src/util/util_string_view.hpp")], ["split, split_all, join, remove_prefix, flat_vec"])

prop("U10", "Traffic leaves no memory behind, on good and on failing paths",
 "Parsing, answering, building, hashing or matching any input, well-formed or not, succeeding or failing at any point including failures of the cryptographic library, leaves no memory allocated and no digest context open once the results are dropped, so that a server or parser can run for ever. The same holds for the objects and functions of the Node bindings.",
 ["inputs", "histories", "faults"], "every cut and changed byte of representative inputs, every sequence of datagrams up to a length, every failing library call, repeated with a counting allocator",
 NOCOMPILE + "no test measures memory; error paths are rarely taken.",
 ["src", "node"], [("ownership of digest contexts", "src/crypto/openssl/openssl_hash.cpp MessageDigest")], ["number of live heap blocks and digest contexts allocated inside the library"])
# ---------------------------------------------------------------- Node.js bindings
NONODE = "The bindings have no tests at all, and the library they are written against is not available here; "
prop("B01", "The Node message parser returns exactly what the bytes say",
 "Parsing a buffer through the Node binding gives an object for exactly the datagrams the library accepts whose method is Binding, and an error for every other buffer and for every argument that is not a buffer. The object holds the class, method and transaction id of the header, the classic (RFC 3489) flag, and precisely the described attributes (username, software, XOR-mapped address and port with the address decoded, priority, ICE tie-breakers as 64-bit integers, use-candidate, error code and phrase) that the message carries, each with the value its bytes encode, and leaves out the absent ones. The caller's buffer is neither modified nor referred to afterwards.",
 ["inputs"], "every subset and every sequence of attributes up to the bound, every bit of every value, every class and method, every kind of argument",
 NONODE + "that no field is swapped, truncated or invented is a claim about all messages.",
 ["node/node_stun/node_stun_message.cpp", "node/node_stun/node_stun_header.cpp"],
 [("attribute description", "node/node_stun/node_stun_message.cpp stun_attributes"), ("header description", "node/node_stun/node_stun_header.cpp header")], ["message_parse result"])
prop("B02", "The Node STUN server answers by the standard's table and never throws on data",
 "For every buffer received and every sender with a valid address and a port from 0 to 65535, processing it through the Node server object gives, without error, either {result 'respond', data} with the well-formed answer that the decision table of V01 and the contents of V02 prescribe, or {result 'ignore'} with the description of the message when it is a Binding message that needs no answer and without one otherwise. Users added before count, users of other server objects do not. An argument of the wrong kind, an address that is no IP address, a port outside 0 to 65535 or a foreign receiver gives an error and changes nothing; buffers may be overwritten by the caller afterwards, and results handed out never change.",
 ["inputs", "histories"], "every class, method, user, signature and unknown attribute combination, every port number, every sender bit, every kind of argument, every bounded order of users, datagrams and bad calls",
 NONODE + "an exception on one rare datagram takes a server down, which only an exhaustive sweep excludes.",
 ["node/node_stun/node_stun_server_stateless.cpp", "node/node_stun/node_stun_message.cpp", "src/stun/stun_server_stateless.cpp"],
 [("argument extraction and result objects", "node/node_stun/node_stun_server_stateless.cpp process_message"), ("user registration", "node/node_stun/node_stun_server_stateless.cpp add_user")], ["process and addUser results"])
prop("B03", "The Node STUN client gives exactly the effects of the library's client",
 "A history of create, response and next calls on the Node client object gives, call by call, the effects the library's own client gives at the same times: sends with identical contents apart from the random id, outcomes with the address, port, response description, round-trip time in microseconds when known and reason text of that outcome, idle, and sleeps rounded up to whole milliseconds. Every send and outcome names the handle that create returned for that transaction, and handles of live transactions differ. Requests carry the user name and signature of the given authentication, and a fingerprint unless the settings switch it off. Arguments of the wrong kind, bad addresses and foreign receivers give an error and leave no transaction behind. Buffers are copied in both directions. Transaction ids are unique, all of their bits vary, and they differ between runs of the program.",
 ["histories", "inputs"], "every script of operations on several transactions up to the bound, every answer kind at every moment, every error code, every kind of argument; two clients interleaved",
 NONODE + "equality of two state machines is a claim about all histories.",
 ["node/node_stun/node_stun_client_udp.cpp", "node/node_stun/node_stun_client_udp_effects.cpp", "node/node_stun/node_stun_client_udp_auth.cpp", "node/node_stun/node_stun_client_udp_settings.cpp"],
 [("effects become objects", "node/node_stun/node_stun_client_udp_effects.cpp"), ("requests from objects", "node/node_stun/node_stun_client_udp.cpp request_from_craftnapi")], ["create, next and response results"])
prop("B04", "The Node ICE candidate parser returns exactly what the line says",
 "Parsing a candidate attribute through the Node binding gives, for a supported line, {result, error: null} where result holds host, port, type, transport, foundation, component, related address and port when present, and all extensions in order, exactly as written; for a well-formed line of an unsupported kind {result: null, error: a non-empty text}; and an error for a malformed line or an argument that is not a text.",
 ["inputs"], "every token sequence and every field representative up to the bounds of I01, every kind of argument",
 NONODE + "that no field is swapped or lost is a claim about all lines.",
 ["node/node_ice/node_ice_candidate.cpp", "src/ice/candidate/ice_candidate_sdp.cpp"], [("candidate description", "node/node_ice/node_ice_candidate.cpp ice_candidate_to_object")], ["ice_candidate_parse result"])
prop("B05", "The Node hash functions give the standard digests or report the failure",
 "The SHA-1 and MD5 functions of the Node bindings return, for any pieces of any lengths including empty ones, the standard digest of their concatenation; when the cryptographic library reports that any step failed they return an error, never a digest, and the next call works again.",
 ["inputs", "fault_sequences"], "every length up to the bound, every split of a family of lengths, every failing call of the cryptographic library",
 NONODE + "no test makes the cryptographic library fail.",
 ["node/openssl/node_openssl_hash.cpp", "node/openssl/node_openssl_error.cpp"], [("init, update and finalise with error checks", "node/openssl/node_openssl_hash.cpp MessageDigest")], ["node_openssl::sha1, md5"])

# ================================================================ checks
prop("U11", "Work stays in proportion to the input: no datagram or history is slow",
     "The work one call does grows at most in proportion to the size of its input (logarithmic factors aside): parsing, checking, building, serving or answering a datagram of any form up to the 65535-byte limit; reading a candidate line, name, address or port of any form and length; parsing an RTP packet; hashing, signing or checksumming data in any number of pieces; also through the Node bindings. And the work of one client, server or list operation does not grow with the number of transactions (live or past), paths, users or elements (logarithmic factors aside, averaged over the operations). So no datagram and no history of calls can keep the library busy out of all proportion.",
     ["inputs", "histories"], "every family of datagrams (class x cookie x repeated or long attribute x tail), texts with any repeated piece at any place, histories of any length",
     "Tests use inputs of a few dozen bytes and a handful of transactions, where quadratic work is invisible.",
     ["src/stun/stun_message.cpp", "src/stun/stun_attribute_set.cpp", "src/stun/stun_client_udp.cpp", "src/stun/details/stun_client_udp_rto.cpp", "src/stun/stun_server_stateless.cpp", "src/ice/candidate/ice_candidate_sdp.cpp", "src/net/net_fqdn.cpp", "src/util/util_intrusive_list.hpp", "src/crypto/openssl/openssl_hash.cpp"],
     [("parse_attrs folds the raw attributes into a list", "src/stun/stun_message.cpp"), ("timeline queue and handle maps", "src/stun/stun_client_udp.cpp"), ("O(1) list operations", "src/util/util_intrusive_list.hpp")])
prop("U12", "Results do not depend on the program around the library",
     "What parsing, printing, comparing, hashing, signing, checking, building, serving and client processing return depends only on the arguments and the objects involved: it is the same whatever the C or C++ locale (letter case, number format), whatever errno holds, whatever errors the program has left pending in the crypto library, whatever unused memory and the stack contain and wherever memory lies. When the crypto library fails, the error reported is the one of that failure, not one left from before. And the calls leave the program as it was: locale, rounding mode, signal handling and open files are unchanged, and nothing is written to standard output or error.",
     ["inputs", "environments", "histories"], "every combination of environments, every operation, changed at any point of any history",
     "Tests run in the C locale, in a fresh process with clean memory and no pending errors.",
     ["src/abnf/abnf.hpp", "src/net/ip/ip_address.cpp", "src/crypto/openssl/openssl_hash.cpp", "src/crypto/openssl/openssl_error.cpp", "src/stun/stun_message.cpp", "src/stun/stun_client_udp.cpp", "src/stun/stun_server_stateless.cpp", "src/ice/candidate/ice_candidate_sdp.cpp", "src/ice/candidate/ice_candidate_component_id.cpp", "src/rtp/rtp_packet.cpp", "src/util/util_token_stream.cpp", "node/node_stun/node_stun_message.cpp"],
     [("eq_string compares ASCII letters", "src/abnf/abnf.hpp"), ("ERR_clear_error before each digest call", "src/crypto/openssl/openssl_hash.cpp"), ("errno is read only after a failed call", "src/net/ip/ip_address.cpp")])

check("U03", ["clock", "repeat"], "All pairs of about 400 start points and 390 durations (powers of two, wrap and half-range neighbourhoods, unit boundaries) for ten duration types, all compositions of two advances (three in the thorough run) from every start, order on 12x12 offsets; differences of exactly half the range excluded, as the order is undefined there.")
check("U04", ["clock", "clock_tsan"], "All sequences of 5 (thorough 7) readings with 7 step sizes around the microsecond for 7 clocks and 8 first readings; two converters interleaved; steady-clock helper bracketed by direct readings in two threads. Clocks whose tick neither divides nor is a multiple of a microsecond are outside the property.")
check("U05", ["errors", "repeat"], "All nine categories; every enumerator, all numbers in -300..300 (thorough: 20 bits) and all 32-bit single-bit neighbourhoods; all pairs of categories with all numbers below 24.")
check("S07", ["types", "repeat"], "All 65536 header values for the class, all 16384 message types for the method, all 4 x 4096 class/method pairs, equality of all pairs of methods.")
check("S08", ["types", "repeat"], "All 65536 attribute types, each compared with the 500 types sharing a byte and about 70 others; a table of all types; every registered constant.")
check("R03", ["types", "repeat"], "All 16-bit values; for 32-bit values all words of weight at most two, their complements and edges (about 1000) and all pairs of them; all 256 payload types and pairs; all payload maps over four types; every layout constant.")
check("U06", "types", "All operation sequences of length 5 (thorough 6) on three dynamic hash objects and two algorithms; all pairs from small value domains for the wrappers; all counter operation sequences of length 9 (thorough 12) and runs of 2^25 (2^32-1) increments.")
check("U12", ["ambient", "node_ambient"], "All 576 combinations of 4 locales (C, Turkish Latin-5, German UTF-8, a C++ locale with its own facets), 4 values of errno, 3 depths of pending crypto errors, 4 memory fillings and 3 placements for every operation of 21 small programs and every pure call; every sequence of 6 (thorough 8) operations with one of 4 environments each; every character at every position of 6 texts in every locale; every failing crypto call with 5 numbers of pending errors.")
check("U08", ["types", "ambient"], "All 256 characters and all 65536 pairs in four contexts; all pairs of strings up to length 2 (thorough 3) over an 18-letter boundary alphabet; single differences at every position of texts up to length 64.")
check("S01", ["stun", "repeat"], "All message types with right and wrong cookies; all sizes 0..72 x length fields 0..80 plus 16-bit extremes; all sequences of up to 3 (thorough 4) of 48 attribute forms (valid, invalid, lying lengths); every type with every real and claimed length; every byte value at every position, every truncation, every near pair of bit flips of full messages. The cause counter is only judged when the reference also rejects the datagram.")
check("S02", ["stun", "repeat"], "Same datagrams as S01; attributes longer than their fixed-size value are accepted, as the library's own tests require for some.")
check("S03", ["stun", "repeat"], "All 4096 subsets of attribute kinds x 4 classes and classic requests x fingerprint x 3 integrity settings x 2 (thorough 3) contents; all 4096 methods x 4 classes; all ports, all error codes 0..799, all string lengths to 255 (and some to 765), all 65536 unknown types. 16-byte transaction ids only for requests.")
check("S04", ["stun", "repeat"], "CRC of all two-byte inputs and lengths to 1275 in all splits; all single-bit and all bursts of 2..10 bits, six patterns per length for 11..32 bits, at all positions of 6 (thorough 7) messages.")
check("S05", ["stun", "repeat"], "Password lengths 0..149 (thorough 299) against each other and against all one-character changes; all single-bit changes of five messages; all sequences of up to 4 (thorough 5) of 11 attribute forms; hash function failing at each call.")
check("S06", ["stun", "repeat"], "All byte values at all positions of address and id, all pairs of bits of IPv6 address and id, all 65536 ports x both families x 3 ids. With a 16-byte id only the round trip is required (the standard defines no encoding).")
check("C01", ["client", "scale"], "All scripts of 4 (thorough 6) steps (8 responses, 2 kinds of poll, 5 waits) on one transaction x 4 settings and start times around the clock's wrap; 6 (7) steps on two transactions; all scripts of 6 (7) steps on three transactions compared with each transaction's solo run.")
check("C02", ["client", "scale"], "Eight request counts x 4 multipliers x 4 initial timeouts x 8 caps (from the initial timeout up), every pattern of late polls with 4 (thorough 6) amounts (at most two late polls above 4 requests); two and three overlapping requests; start times around the wrap. Intervals run from the moment of the poll that sent the previous request.")
check("C03", ["client", "scale"], "All plans of up to 4 (thorough 5) events on two transactions x 9 settings, polled as advised and with early polls at 1 to 3 (9) points inside every sleep; ten overlapping requests. Waking up earlier than necessary is allowed.")
check("C04", "client", "14 shapes of datagram x 11 kinds of response x 4 keys x 6 points in time x 2 targets x 4 settings, compared with the run without it; every single-bit change of signed responses.")
check("C05", ["client", "scale"], "All combinations of address attributes, 24 error codes, alternate server, reported and unknown attributes, order, signature, pre-parsing and retransmission; every number for the classes 3 to 5.")
check("C06", ["client", "scale"], "All histories of 3 (thorough 4) steps (3 round-trip times, 3 kinds of retransmitted exchange, time-out, pauses around the history limit) on three paths x 3 settings, then every path probed; timeouts compared within 12 us of the exact real-valued formula; every bit of the path's addresses.")
check("C07", ["client", "scale"], "Every placement of up to 4 (thorough 5) server errors in the schedule x 3 request counts x 6 delays x 4 limits x cap. A server error while a delayed resend is pending restarts the delay.")
check("C08", ["client", "scale"], "All 64 subsets of attributes x fingerprint x 3 keys x 4 endings, every handed-out view re-read at every step under AddressSanitizer; all weak random sources repeating two ids; all 96 random bits.")
check("K01", ["crypto", "repeat"], "All message lengths to 599 (thorough 2049) x 4 fillings, splits into up to five pieces with empty ones, key lengths 0..139 (259) x 15 (all 260) message lengths, all splits of messages to 6 (8) bytes, every single-bit change of key and message, hash failing at each call; references written from RFC 2104, FIPS 180 and RFC 1321.")
check("K02", ["crypto", "repeat"], "All password lengths to 199 (thorough 599) x 4 fillings; for lengths to 71 (139): every single-bit change, every truncation, zero extensions to 70 bytes, the hashed password; hash failing at each call; four keys made in every order.")
check("N01", ["net", "repeat"], "All texts to length 5 (thorough 6) over 12 characters including NUL, to 11 (13) over digit, colon and dot; all quads of 27 octet spellings; IPv6 texts of 1-10 groups with every placement of two compressions and 20 special groups; every cut and every one-character change of seven valid texts; printing of all two-bit patterns, all patterns of zero groups, all byte values; all pairs of 17 special prefixes with 14^4 last words for printing.")
check("N02", ["net", "repeat"], "All texts to length 6 (thorough 7) over 9 characters (the longest over 6), to 10 (13) over letter, hyphen, dot; every character in every position of seven names; labels and names to 300 characters. Labels may begin with a digit and contain underscores, a trailing dot is part of the name, lengths are not limited, as the code documents or its tests show.")
check("N03", ["net", "repeat"], "All 1.1 million digit texts to length 6 (thorough 7), all texts to length 5 (6) over 14 characters, every character in every position, all 65536 numbers.")
check("N04", ["net", "repeat"], "All pairs of 166 addresses (every single-bit neighbour) in four path shapes; hashing of 0..40 bytes at 16 offsets; all sequences of 5 (thorough 7) operations on four keys for three keyed tables; every bit of transaction ids and of the random source.")
check("C10", "memory", "All scripts of 4 (thorough 5) of 12 operations x 3 settings, each repeated twelve times with the timers run out in between; live heap blocks compared after 4, 8 and 12 repetitions; all scripts of 4 (5) of 9 operations with the client destroyed in between.")
check("V01", "server", "4 classes x 7 methods x classic or not x 8 users x 9 signatures x 7 sets of unknown attributes x 4 orders x fingerprint x settings; all 4096 methods x 4 classes; all 65536 attribute types; every bit and truncation of signed requests; all sequences of up to 4 (thorough 5) of 10 attributes; hash failing at each call. Adding a user twice is outside the property.")
check("V02", "server", "The same requests; every bit of address, port and id of the sender, all ports, all methods in errors; all triples (thorough: quadruples) of 20 datagrams, each answer compared with a fresh server's; users added in every order.")
check("R01", ["rtp", "repeat"], "All 256 first bytes x 16 sizes around the header x 13 extension lengths x 13 padding counts; all 65536 first byte pairs; 300 payload sizes x 256 padding counts; 70 (thorough 600) extension lengths x 300 (600) sizes; the largest extensions; every size to 1599; every pair of flipped bits and every byte value of full packets; all 4-letter contents of up to 7 (8) bytes after the fixed header; all pairs of payload type and map. A padding count of zero is malformed, as the count includes itself.")
check("R02", ["rtp", "repeat"], "The same packets, in exact-size buffers under AddressSanitizer; all sequences of 5 (thorough 6) of 8 packets on one set of counters.")

check("I01", ["ice", "repeat"], "Every pair (thorough: triple) of the 16 tokens of a full line replaced by 2-11 representatives, lines of 6-16 tokens; all choices of present, valid or invalid for all required fields; all token sequences to length 6 (thorough 7) over 9 tokens and all tails to length 5 (6) over 10; all double drops, repetitions, exchanges; every cut and every byte at every position of two lines; 0-119 extension tokens. Keywords in other letter case, repeated or misplaced raddr/rport, empty extension names, trailing spaces and component 0 are not judged (only memory safety).")
check("I02", ["ice", "repeat"], "All texts to length 4 (thorough 6) over 13 characters for all six fields, all decimal texts to five digits, priorities around all powers of 2 and 10 with leading zeros, every byte at every position of 12 texts, all case spellings of all keywords, foundations of 0-69 characters with every byte everywhere, all numbers' single-bit neighbours. Component 0 read from text is not judged (the library's own test accepts it).")
check("I03", ["ice", "repeat"], "All 127 type preferences (and 3 beyond) x 100 local preferences x all 258 component preferences; all 65536 local preferences x 15 (thorough all 127) types x 4 components; all types and components of the recommendation. The all-zero combination, which has no valid priority, is an error.")

check("U01", "util", "All sequences of 3 (thorough 4) of about 50 operations from every filling of two lists with up to three elements, over one and over two link members, then drained in three ways; all sequences of 6 (8) pushes, pops and removals on one list; lists of up to 199 elements.")
check("U02", ["util", "repeat"], "All sequences of 5 (thorough 6) reads of 10 kinds (including copying, replacing and moving the stream) on all token lists of up to 3 (4) tokens over three texts, from a copied and overwritten or a moved list; lists of up to 299 tokens.")
check("U09", ["util", "repeat"], "All texts to length 8 (thorough 10) over two letters, separator and NUL; all pairs of characters as text and separator; all lists of up to 5 (6) pieces with four separators; all nested shapes of up to 5 (7) vectors with up to 3 elements.")

check("C09", ["network", "scale"], "All schedules of up to 8 (thorough 11) network events (deliver any datagram in flight, duplicate, damage at three places, wait, poll on time or late; everything never delivered is lost) for one exchange with 3 and 7 requests, 7 (9) for two concurrent and 9 (11) for two successive ones; no, right, wrong password and unknown user; both address families; eager and lazy polling; up to 4 datagrams in flight.")

check("U07", ["isolation", "isolation_tsan", "node_isolation"], "Seven kinds of program (client, server, codec, RTP, ICE, crypto and hashes, the rest) in three variants: all interleavings of all pairs at 4-5 (thorough 6-7) operations each, created together or at first use; every script nested in every other at every point; all triples of kinds at 2 (3) operations each; all pairs in two threads of a fresh process under ThreadSanitizer, whose happens-before analysis covers the schedules that keep each thread's path.")

check("U10", "memory", "All sequences of 3 (thorough 4) of 13 datagrams to a server and to the Node server, repeated; every cut and changed byte of 13 datagrams, of five texts, RTP packets of every header shape and cut, seven hash operations with each of the first eight library calls failing, 1152 Node client scripts repeated; live heap blocks and digest contexts counted.")
check("B01", ["node", "node_isolation"], "All 512 subsets of 9 attribute forms in two fillings x 4 classes and classic x fingerprint, all sequences of 3 (thorough 4) of 25 forms, every bit of every value and of id, address and port, all ports and error codes, all methods, every changed byte and truncation, 15 kinds of argument. Bindings are compiled against a stand-in for the Node-API wrapper; the exclusive-or address of classic messages is not judged.")
check("B02", ["node", "node_isolation"], "4 classes x 4 methods x classic x 8 users x 9 signatures x 7 unknown sets x 2 (thorough 4) orders x fingerprint; all methods; every bit and truncation of signed requests; every sender bit; 67000 port numbers in and out of range; 15 kinds of value for each argument; all sequences of 4 (5) of 13 operations on two servers.")
check("B03", ["node_client", "node_isolation"], "All scripts of 5 (thorough 6) of 12 operations on up to three transactions, 13 answers x 3 keys x 10 moments x 5 paths x 3 settings, 1200 (4000) round-trip times x 2 scales, all error codes 0-799 x 4 phrases, 15 kinds of value for each argument, two clients interleaved to 6 (7) operations, 400 (4000) ids and three separate runs of the program. The steady clock is the explorer's.")
check("B04", ["node_ice", "node_isolation"], "Every pair (thorough: triple) of tokens of a full line replaced, all choices of required fields, all token sequences to length 5 (6) after the type, address kinds x types x optional fields, every component and port, every cut and every character at every position; 15 kinds of argument.")
check("B05", ["node", "node_isolation"], "All lengths to 599 (thorough 2049), splits of 12 lengths into up to four pieces, every one of the first ten library calls failing for 0-4 pieces with and without an entry in the library's error queue.")
check("U11", "work", "Basic blocks, bytes copied, compared, hashed and blocks allocated are counted (compiler instrumentation, no clock) for every family of datagrams (4 classes x cookie x 29 repeated or long attributes x 4 tails x 2 heads), pumped texts, packets, pieces, lists, and client and server histories at doubling sizes up to the 64 KB limit or 8192 (thorough 65536) elements; every point must stay within four times the straight line through the small sizes.")
