#!/usr/bin/env python3
# Source of properties.jsonl (run by hand after editing: python3 tools/gen_properties.py)
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Both ends of a completed handshake agree",
  "When a client and a server joined by a faithful byte stream both report a completed TLS handshake, they report the same cipher suite, application protocol, PSK use and early-data use, compute identical exported keying material for every label, context and length, and each can read what the other writes. Exported keying material differs between different labels, different contexts and different connections.",
  ["configurations", "inputs", "schedules"],
  "every pair of client/server configurations (suites, groups, schemes, certificates, PSKs, PSK modes, ALPN, early data, cookies, client auth, tickets), every exporter label/context/length, every chunking of the stream",
  "Existing tests complete a dozen fixed configuration pairs over one in-memory pipe and compare a handful of fields; the guarantee is over all combinations.",
  ["conn.go", "client-state-machine.go", "server-state-machine.go", "state-machine.go", "negotiation.go"],
  [("transcript-bound key schedule", "client-state-machine.go/server-state-machine.go"), ("ComputeExporter", "conn.go"), ("ConnectionState", "conn.go")],
  ["Conn.ConnectionState", "Conn.ComputeExporter", "Conn.Read/Write"])

p("C02", "Negotiation outcome is the one the two configurations determine",
  "For every pair of client and server configurations, whether the handshake completes, and if it does which cipher suite, key-exchange group, PSK/DHE mode, application protocol, certificate and early-data outcome is chosen, is what the documented selection rules determine (client preference order restricted to what the server supports; PSK only under a mode the client offered; certificate matching the requested name and a scheme its key can use). Incompatible configurations make the handshake fail on both sides instead of completing with something neither allowed.",
  ["configurations", "inputs"],
  "all combinations of offered/supported lists for suites, groups, schemes, ALPN, PSK modes, PSKs and certificates, including disjoint, reordered and duplicate entries",
  "negotiation_test samples a few lists per function and conn_test a few compatible pairs; the product space and the failing combinations are not reached.",
  ["negotiation.go", "server-state-machine.go", "client-state-machine.go", "conn.go"],
  [("VersionNegotiation/DHNegotiation/PSKNegotiation/PSKModeNegotiation/CipherSuiteNegotiation/ALPNNegotiation/CertificateSelection/EarlyDataNegotiation", "negotiation.go")],
  ["Conn.Handshake result", "Conn.ConnectionState", "exported negotiation functions"])

p("C03", "Application data arrives exactly once, in order and unmodified",
  "On a connected TLS connection, for any sequence of writes of any sizes in both directions, interleaved with reads of any buffer sizes, key updates by either side (requesting or not) and session tickets, and any splitting of the transport stream, the bytes read by each side are exactly the bytes written by the other, in order, with no loss, duplication or alteration. A write that reports success has sent all of its bytes; after a write that failed part of the stream is lost, so later writes fail as well.",
  ["inputs", "histories", "schedules"],
  "all write/read/key-update sequences, sizes from 0 to several records, transport chunkings",
  "Tests exchange one or two short messages and one key update; record-size boundaries, multi-record writes and update sequences are not explored.",
  ["conn.go", "record-layer.go", "frame-reader.go", "state-machine.go"],
  [("Write fragmentation and Read buffering", "conn.go"), ("key update and rekey", "state-machine.go"), ("frame reassembly", "frame-reader.go")],
  ["Conn.Read", "Conn.Write", "Conn.SendKeyUpdate"])

p("C04", "A network attacker cannot alter or forge what endpoints accept",
  "Whatever an attacker without keys does to the bytes in transit (flip, truncate, drop, duplicate, reorder, inject, replay, redirect records from another direction or connection), no endpoint ever delivers application bytes the peer did not send at that position: what is read is always a prefix of what was written. If both endpoints complete the handshake despite the interference, they still agree on all parameters and exported secrets; altered handshake messages never lead to two completed ends with different views.",
  ["fault_sequences", "inputs", "histories"],
  "all byte- and record-level manipulations at every point of the handshake and of the application stream, in all handshake modes",
  "Tests flip one byte in one record of a direct record-layer call; no test manipulates a live connection.",
  ["record-layer.go", "conn.go", "handshake-layer.go", "client-state-machine.go", "server-state-machine.go"],
  [("AEAD with implicit sequence numbers and header as additional data", "record-layer.go"), ("Finished over the transcript", "client-state-machine.go/server-state-machine.go")],
  ["Conn.Read", "Conn.Handshake", "Conn.ConnectionState", "Conn.ComputeExporter"])

p("C05", "A client only completes with an authenticated server",
  "A client whose configuration enables verification completes a handshake only if the server either proved possession of the private key of a certificate that chains to a trusted root, is valid at the configured time, is issued for the requested name and is accepted by the application's verification callback, or proved knowledge of a pre-shared key that this client offered in this handshake. The reported peer certificates and verified chains are those of that server.",
  ["inputs", "fault_sequences", "configurations"],
  "all certificate chains (wrong name, expired, untrusted, wrong key usage, missing intermediate, empty list), all CertificateVerify contents (wrong key, wrong transcript, wrong scheme, wrong context), all ServerHello extension combinations a malicious server can send",
  "Tests cover one valid self-signed chain, one unknown root and one callback rejection; a malicious server that speaks the protocol correctly otherwise is not tested at all.",
  ["client-state-machine.go", "crypto.go", "handshake-messages.go", "conn.go"],
  [("certificate chain and signature verification", "client-state-machine.go WAIT_CV"), ("PSK selection", "client-state-machine.go WAIT_SH"), ("verify", "crypto.go")],
  ["Conn.Handshake", "Conn.ConnectionState().PeerCertificates/VerifiedChains"])

p("C06", "A server never attributes to a client a certificate it did not prove",
  "When a server asks for client authentication, it completes the handshake only if the client sent no certificate at all, or sent a certificate chain together with a valid signature over this handshake by its leaf key and the application's verification callback (if any) accepted exactly the certificates the client sent. The peer certificates reported after completion are exactly that chain, or none if the client sent none.",
  ["inputs", "fault_sequences", "configurations"],
  "all client Certificate/CertificateVerify/Finished contents and orders: valid, stolen certificate with wrong key, signature over another transcript, omitted or reordered messages, empty list, callback accept/reject",
  "Tests run the honest client with one certificate, with none, and one callback rejection.",
  ["server-state-machine.go", "handshake-messages.go", "crypto.go", "client-state-machine.go"],
  [("WAIT_CERT / WAIT_CV states", "server-state-machine.go"), ("CertificateVerify", "handshake-messages.go")],
  ["Conn.Handshake", "Conn.ConnectionState().PeerCertificates"])

p("C07", "Only a legal handshake message sequence reaches the connected state",
  "An endpoint reports a completed handshake only if the peer's handshake messages arrived in an order TLS 1.3 allows for the negotiated mode, each under the right protection, with nothing omitted, repeated or added and with a Finished message that authenticates the whole transcript. Every deviation by a peer that otherwise holds the correct keys (skipped, reordered, duplicated or foreign message, wrong or stale Finished, message under the wrong keys, a key change inside a partially received message, more than one retry request) ends in an error, never in a connection.",
  ["fault_sequences", "histories", "inputs"],
  "all mutations of the message sequence of both flights in certificate, client-auth, PSK, 0-RTT and retry modes, sent by a peer holding correct keys",
  "state-machine_test walks the legal sequences; deviations under correct encryption need an independent peer that the repository does not have.",
  ["client-state-machine.go", "server-state-machine.go", "state-machine.go", "conn.go", "handshake-layer.go"],
  [("typed handshake states", "client-state-machine.go/server-state-machine.go"), ("Finished verification", "client-state-machine.go/server-state-machine.go")],
  ["Conn.Handshake", "Conn.GetHsState"])

p("C08", "No peer input can crash or wedge an endpoint",
  "For every sequence of bytes or datagrams a peer sends at any stage of a TLS or DTLS connection, in the clear or correctly encrypted, before, during or after the handshake, the endpoint's calls return: they never panic, and never spin without consuming input once the transport has ended. Malformed input is answered with an error.",
  ["inputs", "fault_sequences", "histories"],
  "all byte strings, all mutations of valid handshake messages, extensions, records, alerts, acks and tickets, at every protocol stage and under every key epoch, in TLS and DTLS, blocking and non-blocking",
  "fuzz_test feeds a few fixed corpora to message parsers; nothing explores protocol stages, encrypted content or DTLS.",
  ["conn.go", "handshake-layer.go", "record-layer.go", "dtls.go", "client-state-machine.go", "server-state-machine.go", "extensions.go", "handshake-messages.go", "crypto.go", "syntax/decode.go"],
  [("length checks in record, handshake and extension parsing", "record-layer.go/handshake-layer.go/extensions.go"), ("syntax decoder", "syntax/decode.go")],
  ["Conn.Handshake", "Conn.Read"])

p("C09", "Everything is encrypted once keys exist and no nonce is ever reused",
  "After keys for a direction are established an endpoint sends nothing in that direction outside AEAD-protected records, everything after the hello messages is protected, and every record it sends carries the prescribed version number and, once protected, decrypts under the keys the protocol prescribes for that stage with the next sequence number. Over the whole life of a connection (early data, handshake, application data, key updates, tickets, alerts, DTLS retransmissions) no key and nonce pair protects two different plaintexts, and application plaintext and secrets never appear on the wire.",
  ["histories", "configurations", "inputs"],
  "all histories of writes, key updates, tickets, alerts and early data in all modes, in TLS and DTLS",
  "Tests check that peers understand each other, which says nothing about nonce reuse or about key stages.",
  ["record-layer.go", "conn.go", "client-state-machine.go", "server-state-machine.go", "state-machine.go", "handshake-layer.go"],
  [("per-epoch cipher state and sequence counter", "record-layer.go"), ("rekey actions", "client-state-machine.go/server-state-machine.go")],
  ["bytes on the transport", "Config.RecordLayer"])

p("C10", "Handshake messages and extensions encode and decode faithfully",
  "Every handshake message and extension value the library can encode decodes back to an equal value consuming exactly its encoding, the encoding is the one the TLS 1.3 specification prescribes, and every byte string that decodes successfully is consistent with re-encoding. Truncated, over-long, length-inconsistent or otherwise malformed encodings are rejected with an error, and decoding never reads beyond the given data nor modifies it.",
  ["inputs"],
  "all message and extension bodies with all field values and lengths up to the format limits, and all byte strings as input to each decoder",
  "Tests round-trip one sample of each message and reject a few hand-made malformations.",
  ["handshake-messages.go", "extensions.go", "handshake-layer.go", "syntax/encode.go", "syntax/decode.go"],
  [("Marshal/Unmarshal of each body", "handshake-messages.go, extensions.go")],
  ["Marshal", "Unmarshal", "ExtensionList.Add/Parse/Find", "HandshakeMessage.ToBody"])

p("C11", "The presentation-language codec obeys its type description",
  "For every Go type built from the supported kinds and tags (fixed and variable-length vectors with size limits, QUIC-style variable integers, optionals, selected and omitted fields, nested structs), marshalling a legal value yields the TLS presentation-language encoding, unmarshalling that yields an equal value and the exact number of bytes consumed even with trailing data, and values or inputs outside the declared limits are rejected. Marshal and Unmarshal return errors and never panic for these types whatever the input bytes.",
  ["inputs", "programs"],
  "all types in the supported grammar, all values of them, all byte strings as input",
  "Tests enumerate a fixed table of types with one value each.",
  ["syntax/encode.go", "syntax/decode.go", "syntax/tags.go"],
  [("reflect-based encoders and decoders", "syntax/encode.go, syntax/decode.go"), ("tag parsing", "syntax/tags.go")],
  ["syntax.Marshal", "syntax.Unmarshal"])

p("C12", "The record layer transports records faithfully within its limits",
  "Records written by a record layer, with any content type, any legal length and any padding, in the clear or under any negotiated cipher, and across rekeying in lockstep, are read back by a record layer with the same keys with identical type and content and in order, however the transport splits or merges them; each is encoded as the record format prescribes. Plaintext up to 2^14 bytes is always transported; records whose declared length, plaintext length, type or authentication is outside the limits are rejected and never delivered.",
  ["inputs", "histories", "fault_sequences"],
  "all record sequences, lengths 0..2^14 and beyond, paddings, ciphers, rekeying points, stream chunkings, and corruptions of the encoded stream",
  "Tests use one short plaintext with one padding length and a few error cases.",
  ["record-layer.go", "frame-reader.go"],
  [("encrypt/decrypt", "record-layer.go"), ("frame reader", "frame-reader.go")],
  ["NewRecordLayerTLS/NewRecordLayerDTLS", "WriteRecord/ReadRecord/PeekRecordType"])

p("C13", "DTLS handshake messages are reassembled correctly from any fragmentation",
  "However a peer splits its DTLS handshake messages into fragments and in whatever order, with whatever duplication and overlap these arrive, the endpoint processes exactly the original messages, in message order and once each. Inconsistent or out-of-range fragments never cause a crash and never lead to a message being processed whose bytes were not sent.",
  ["inputs", "schedules", "fault_sequences"],
  "all fragmentations, permutations, duplications and overlaps of all flights in both directions, and malformed fragment headers",
  "handshake-layer_test tries a handful of two- and three-fragment orders of a single message.",
  ["handshake-layer.go", "dtls.go", "conn.go"],
  [("fragment queue and message assembly", "handshake-layer.go")],
  ["Conn.Handshake over a datagram transport"])

p("C14", "DTLS handshakes complete despite loss, duplication and reordering",
  "Between two DTLS endpoints over a network that loses, duplicates and reorders datagrams but eventually delivers retransmissions, the handshake completes on both sides with agreed parameters once timers are run, application data can then flow, and application datagrams delivered are ones the peer sent. Endpoints retransmit only while something is unacknowledged, and the reported timeout always names a pending timer until then.",
  ["schedules", "fault_sequences", "configurations"],
  "all loss/duplication/reordering patterns of bounded length for all flights, all handshake modes, with simulated time",
  "conn_test drops one chosen message at a time with fixed order and real timers.",
  ["dtls.go", "timer.go", "handshake-layer.go", "conn.go", "record-layer.go"],
  [("retransmission and ack timers", "dtls.go, timer.go"), ("flight tracking", "dtls.go")],
  ["Conn.Handshake", "Conn.GetDTLSTimeout", "Conn.Read/Write"])

p("C15", "Session tickets resume exactly the session they came from",
  "After a handshake in which the server issued a ticket, a later handshake between the same configurations within the ticket's age tolerance resumes: both sides report PSK use, agree on a suite with the ticket's hash and on fresh secrets, and no certificate is exchanged; both sides store the same key, suite and protocol, with the expiry the ticket's lifetime gives. A ticket is honoured only by a server that stored it, with a correct binder, for a plausible ticket age, and never across a different server name on the client; otherwise the handshake falls back to a full one or fails, never completing with disagreement.",
  ["histories", "inputs", "configurations"],
  "all chains of connections with tickets, elapsed times, wrong/expired/unknown tickets, changed configurations and server names",
  "Tests resume once immediately after the first connection.",
  ["state-machine.go", "negotiation.go", "client-state-machine.go", "conn.go"],
  [("NewSessionTicket issue and storage", "state-machine.go"), ("PSKNegotiation with ticket age and binder", "negotiation.go")],
  ["Conn.ConnectionState", "PreSharedKeyCache Put/Get"])

p("C16", "Early data is delivered only when accepted, and then exactly",
  "Data a client writes before the handshake completes reaches the server's reader exactly, in order and before any later data, if and only if both sides report early data as used, which requires a valid PSK offered with early data and a server that allows it; otherwise none of the early bytes is ever delivered and the handshake still completes. Bytes written after completion always follow, unaffected by the outcome.",
  ["configurations", "inputs", "histories"],
  "all combinations of client/server early-data settings, PSK validity, early write sizes and timing, server read timing, blocking and non-blocking",
  "Tests send one short early message in the accepted and in one rejected configuration.",
  ["client-state-machine.go", "server-state-machine.go", "conn.go", "negotiation.go"],
  [("WAIT_EOED / READ_PAST_EARLY_DATA states", "server-state-machine.go"), ("early-data writability and reading", "conn.go")],
  ["Conn.Write before completion", "Conn.Read", "ConnectionState().UsingEarlyData"])

p("C17", "A server that requires a cookie completes only for clients echoing its own",
  "With cookies required, the server completes a handshake only with a client that echoed, unmodified, a cookie this server issued for that client's first hello, and the application's cookie handler, if any, validated its part; stateless servers sharing the cookie protector accept each other's cookies. Honest clients complete after exactly one retry in every mode, both sides then agree as usual, and a missing, altered, foreign or transplanted cookie never leads to a completed handshake.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all cookie manipulations, handler decisions and values, PSK/certificate modes, stateless continuation on a fresh connection, TLS and DTLS",
  "Tests use one cookie, one wrong-cookie rejection by the handler and one stateless run.",
  ["server-state-machine.go", "client-state-machine.go", "cookie-protector.go", "conn.go"],
  [("cookie generation and validation", "server-state-machine.go"), ("retry handling", "client-state-machine.go")],
  ["Conn.Handshake", "CookieHandler callbacks"])

p("C18", "The default cookie protector is an authenticated encryption",
  "A token made by a protector decodes with it to exactly the data put in, whatever the data; any other byte string (a modification, truncation, extension or splice of tokens, or a token of another protector) is rejected with an error. Tokens do not reveal the data and two tokens for the same data differ.",
  ["inputs", "histories"],
  "all data strings, all modifications of tokens, all pairs of protectors",
  "The test round-trips two tokens and flips one bit.",
  ["cookie-protector.go"],
  [("HKDF-derived AES-GCM per token", "cookie-protector.go")],
  ["NewDefaultCookieProtector", "NewToken", "DecodeToken"])

p("C19", "Keys and secrets follow the TLS 1.3 key schedule",
  "For every negotiated mode and transcript the handshake, application and early traffic keys, Finished values, PSK binders, resumption secrets, exporter values and updated traffic keys an endpoint uses are those an independent implementation of the TLS 1.3 key schedule derives from the same inputs, and the public key-derivation functions equal their RFC 5869 and RFC 8446 definitions for all inputs.",
  ["inputs", "configurations", "histories"],
  "all transcripts, modes (certificate, PSK, PSK-DHE, 0-RTT, retry, client auth), suites, groups, numbers of key updates, derivation inputs",
  "crypto_test checks a few vectors; all connection tests pit the code against itself, so a wrong but symmetric derivation passes.",
  ["crypto.go", "client-state-machine.go", "server-state-machine.go", "state-machine.go", "conn.go"],
  [("HkdfExtract/HkdfExpandLabel/deriveSecret", "crypto.go"), ("secret derivation in the states", "client-state-machine.go/server-state-machine.go")],
  ["records on the wire, decrypted by an independent peer", "Conn.ComputeExporter", "exported Hkdf functions"])

p("C20", "It interoperates with an independent TLS 1.3 implementation",
  "Against a different standards-conforming TLS 1.3 implementation, as client and as server, for every mutually supported choice of suite, group, certificate type and ALPN, the handshake completes, both sides report the same parameters, and data of any size flows both ways, including key updates initiated by the other side.",
  ["configurations", "inputs"],
  "all mutually supported parameter combinations in both roles, data sizes and chunkings",
  "There is no interoperability test in the repository's test suite; mint only talks to itself.",
  ["client-state-machine.go", "server-state-machine.go", "record-layer.go", "extensions.go", "handshake-messages.go"],
  [("wire formats and key schedule", "whole package")],
  ["Conn.Handshake/Read/Write against crypto/tls"])

p("C21", "Key agreement yields the standard secret and rejects invalid shares",
  "For every supported group and every valid peer share, the secret contributed to the handshake is the one the group's standard defines (fixed length, leading zeros kept), and both sides obtain the same one; every key share an endpoint sends is a valid one, fresh per handshake. Peer shares of the wrong length, not on the curve, or outside the valid range or order of the group are never used for a completed handshake and never cause a crash.",
  ["inputs", "fault_sequences"],
  "all groups, all valid shares including those whose secret has leading zero bytes, all invalid shares",
  "crypto_test runs one random agreement per group and wrong-length shares.",
  ["crypto.go", "ffdhe.go", "negotiation.go", "client-state-machine.go", "extensions.go"],
  [("newKeyShare/keyAgreement", "crypto.go"), ("DHNegotiation", "negotiation.go")],
  ["DHNegotiation", "handshake against an independent peer"])

p("C22", "Handshake signatures verify exactly for the key, scheme and transcript",
  "A signature made for a transcript with a usable key and scheme verifies with that key, scheme and transcript and with an independent implementation of the standard format, and fails for any other key, scheme, transcript or altered signature. A certificate is only ever selected together with a scheme its key can actually sign with, and one is selected whenever such a pair exists for the requested name.",
  ["inputs", "configurations"],
  "all schemes, key types and sizes, transcripts, signature alterations, certificate lists, scheme lists and names",
  "Tests sign and verify one sample per scheme; selection is tested with two certificates.",
  ["crypto.go", "handshake-messages.go", "negotiation.go"],
  [("sign/verify", "crypto.go"), ("CertificateSelection/schemeValidForKey", "negotiation.go, crypto.go")],
  ["CertificateVerifyBody.Sign/Verify", "CertificateSelection"])

p("C23", "The outcome does not depend on how transport and caller interleave",
  "For a given pair of configurations the handshake outcome and all data delivered are the same in blocking and in non-blocking mode, for every splitting and coalescing of the byte stream and every order in which the two sides are driven. In non-blocking mode a call that cannot progress reports would-block, changes nothing, and a later call continues where it left off.",
  ["schedules", "inputs", "configurations"],
  "all stream chunkings down to single bytes, all interleavings of client and server calls, blocking or non-blocking on each side, all handshake modes",
  "Non-blocking tests step both sides alternately over whole writes in a few modes.",
  ["conn.go", "handshake-layer.go", "record-layer.go", "frame-reader.go"],
  [("would-block propagation", "handshake-layer.go, record-layer.go, conn.go"), ("frame reader buffering", "frame-reader.go")],
  ["Conn.Handshake", "Conn.Read", "Conn.Write"])

p("C24", "Connections sharing a configuration do not affect each other",
  "A cloned configuration behaves like the original in every setting, and using a configuration for a connection does not change what later or concurrent connections using it negotiate, apart from the documented default filling and the PSK cache. Sequences of connections through one shared configuration give the same outcomes as with separately built equal configurations.",
  ["configurations", "histories", "schedules"],
  "all field settings, all sequences of connections (including retried and failed ones) sharing a configuration",
  "The clone test sets a subset of the fields once; no test reuses a configuration after a retry.",
  ["conn.go", "tls.go", "client-state-machine.go"],
  [("Config.Clone/Init", "conn.go"), ("retry narrowing", "client-state-machine.go")],
  ["Config.Clone", "Conn.ConnectionState", "Conn.Handshake"])

p("C25", "Alerts and connection end are reported faithfully",
  "When a peer sends an alert or closes, the reader first receives all data sent before it, then end-of-stream for a close notification or an error naming the peer's alert for a fatal one, and data after it is never delivered. Every alert an endpoint sends is a well-formed two-byte level and description under the current protection, after which a fatally failed endpoint closes the transport.",
  ["inputs", "histories", "fault_sequences"],
  "all alert levels and descriptions, valid and malformed, at every point of handshake and connection; all local failures that produce an alert",
  "Only the text of alert values is tested.",
  ["conn.go", "handshake-layer.go", "alert.go"],
  [("alert processing and sending", "conn.go, handshake-layer.go")],
  ["Conn.Read", "Conn.Handshake", "bytes on the transport"])

p("C26", "No data is accepted or released before the handshake allows it",
  "Until the handshake completes, Write fails without sending anything except on a client that has begun offering early data, Read returns no data except accepted early data on a server, exporters and key updates fail, and the connection state shows nothing negotiated. A handshake that has failed stays failed: the error is repeated and data never flows.",
  ["histories", "schedules", "configurations"],
  "all API call sequences at every step of successful and failing handshakes, both roles, all modes",
  "Tests call Read or Write early in one or two fixed states.",
  ["conn.go"],
  [("connected-state checks in Read/Write/SendKeyUpdate/ComputeExporter", "conn.go")],
  ["Conn.Read", "Conn.Write", "Conn.SendKeyUpdate", "Conn.ComputeExporter", "Conn.ConnectionState"])

p("C27", "Concurrent use of a connection is safe",
  "On a connected blocking connection one goroutine may read while another writes and key updates happen from either side, with no data race, no deadlock and no corruption: both streams arrive intact. Different connections used concurrently, sharing a configuration, do not interfere.",
  ["schedules", "histories"],
  "all interleavings of concurrent reads, writes and key updates in both directions, and of concurrent handshakes sharing a configuration",
  "No existing test uses a connection from two goroutines after the handshake; the race detector is not part of the test run.",
  ["conn.go", "record-layer.go", "state-machine.go"],
  [("record-layer locks", "conn.go, record-layer.go"), ("config mutex", "conn.go")],
  ["Conn.Read", "Conn.Write", "Conn.SendKeyUpdate"])

p("C28", "A server uses a pre-shared key only when the client proved knowledge of it",
  "A server reports PSK use only if the client's hello carried, for the selected identity, a binder computed with that very key over this hello (and over the retry exchange if there was one), offered a PSK mode, and the key is in the server's cache and suits the chosen cipher suite. Any change to the binder, to bytes of the hello, to the identity, or a resumption age outside the tolerance means the key is not used.",
  ["inputs", "fault_sequences", "configurations"],
  "all hellos with any number of identities, right and wrong binders, altered bytes, ages, session identifiers, extension orders, in retry and non-retry flows",
  "negotiation_test checks one right and one wrong binder.",
  ["negotiation.go", "server-state-machine.go", "handshake-messages.go"],
  [("PSKNegotiation", "negotiation.go"), ("truncated hello", "handshake-messages.go")],
  ["Conn.Handshake against an independent client", "PSKNegotiation"])

p("C29", "Application extensions are exchanged intact",
  "With an application extension handler configured, the handler's extensions for each handshake message reach the peer's handler byte for byte in the message they were added to, the handshake otherwise behaves identically, and an error from a handler aborts the handshake. Extensions the peer does not understand are ignored.",
  ["inputs", "configurations"],
  "all extension types not otherwise used, all contents and lengths, all message types that carry them, handlers that fail at any call",
  "One test exchanges one extension.",
  ["client-state-machine.go", "server-state-machine.go", "state-machine.go", "extensions.go"],
  [("ExtensionHandler Send/Receive calls", "client-state-machine.go, server-state-machine.go")],
  ["AppExtensionHandler callbacks", "Conn.Handshake"])

p("C30", "Dial and Listen give authenticated, working connections or errors",
  "Dialing a listening endpoint returns a connection on which the handshake has completed for the dialed or configured name, or an error with the transport closed; timeouts are honoured, a caller's configuration is not modified, and unusable configurations are refused up front. Accepting returns the handshaken connection, with a nil error only on success. Deadlines set on a connection apply to reading and writing as named: reading can go on after one, writing cannot.",
  ["configurations", "fault_sequences"],
  "all dialers, configurations and peer behaviours (silent, closing, garbage, slow) on loopback",
  "tls_test dials one server and one silent peer.",
  ["tls.go", "conn.go"],
  [("DialWithDialer, Listener.Accept", "tls.go")],
  ["Dial/DialWithDialer", "Listen/NewListener/Accept"])

p("C31", "Timers fire once, in order, after their deadline unless cancelled",
  "For every history of starting, cancelling and checking timers, including timers started or cancelled from within callbacks and callbacks that fail, each timer's callback runs exactly once at the first check after its deadline unless it was cancelled before, never early, earlier deadlines first, and the reported next timeout and pending timers are those not yet run or cancelled.",
  ["histories", "schedules"],
  "all histories of start/cancel/check with any delays and callback behaviours",
  "No timer unit test exists; DTLS tests use at most two timers.",
  ["timer.go", "dtls.go"],
  [("sorted timer list", "timer.go")],
  ["timer set operations", "Conn.GetDTLSTimeout"],
  "an overlay file exporting the timer set to the harness")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
