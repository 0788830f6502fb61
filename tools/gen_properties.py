#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the statements is here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Handshake with any honest server completes with matching keys",
 "Connecting to any server that follows TLS 1.2 with ECDHE-RSA-CHACHA20-POLY1305-SHA256 on P-256 succeeds, whatever its random, session id, certificate chain, signature and key share are, and however its messages are cut into records and transport reads. Afterwards both sides hold the same secrets: the server accepts the client's Finished, and data written by either side arrives at the other intact. This holds for any client randomness, including shared secrets with leading zero bytes.",
 ["inputs", "schedules"], "All server randoms, session ids (0..32), extension blocks, chains (0 .. 2^24 bytes), signatures, key shares, client randomness, record fragmentations and transport chunkings.",
 "No test performs a handshake: the existing tests are one canned message at a time, with fixed keys.",
 ["src/client.rs", "src/cipher/ecdhe.rs", "src/cipher/prf.rs", "src/tls.rs", "src/handshake.rs", "src/crypto/p256.rs"],
 [("handshake sequence and key schedule", "src/client.rs"), ("key agreement", "src/cipher/ecdhe.rs"), ("message reassembly", "src/handshake.rs")],
 ["TlsClient::new / from_tcp result", "bytes on the transport as a reference server and OpenSSL see them"])

prop("C02", "A handshake altered in transit never completes",
 "If anything in the handshake messages that the client and an honest server exchange, up to and including the server's Finished, is changed, removed, added, duplicated or reordered in transit, in either direction, connecting returns an error. (Servers are not authenticated: this is about an attacker who has not taken the server's place in the key agreement.) No application data is sent on such a connection.",
 ["inputs", "fault_sequences"], "Every single-byte change at every position of every handshake message in both directions, and structured edits (insertion, deletion, duplication, reordering of messages, substituted fields).",
 "It quantifies over all alterations of a whole conversation; no test holds a conversation.",
 ["src/client.rs", "src/handshake.rs", "src/util.rs"],
 [("transcript hash over every handshake message, compared with the server's Finished", "src/client.rs"), ("constant-time comparison", "src/util.rs")],
 ["TlsClient::new result under a man in the middle"])

prop("C03", "The handshake accepts exactly the prescribed message sequence",
 "Connecting succeeds only if the server sent ServerHello, Certificate, ServerKeyExchange, ServerHelloDone, ChangeCipherSpec and a correct protected Finished, each exactly once and in this order, with nothing of any kind in between. Any missing, repeated, unexpected or out-of-order message or record, any incorrect Finished, a Finished that is not protected, and a ChangeCipherSpec that arrives early or inside another message make it fail. The client's own messages follow the prescribed order as well: it sends its key exchange, ChangeCipherSpec and Finished only after the server's first flight is complete.",
 ["histories", "inputs"], "All sequences of server messages and records of every type (omissions, repetitions, insertions, swaps, early ChangeCipherSpec or Finished, every bit of Finished), for every way of cutting them into records.",
 "Only single messages are parsed in tests; order, omission and repetition are histories.",
 ["src/client.rs", "src/tls.rs", "src/handshake.rs"],
 [("expect! macro in the handshake", "src/client.rs"), ("ChangeCipherSpec only on a message boundary", "src/tls.rs")],
 ["TlsClient::new result", "order of the client's records"])

prop("C04", "Only offered parameters and valid curve points are accepted",
 "The client offers TLS 1.2, one cipher suite, null compression, curve secp256r1 with uncompressed points and RSA with SHA-256, and fails if the server answers with any other protocol version, suite, compression, curve, curve type or signature algorithm. It accepts the server's key share only if it is an uncompressed encoding of a point on the curve with both coordinates below the field prime. Whatever is refused is refused before the client sends its own key share.",
 ["inputs"], "All versions, suites, compressions, curve types and ids, signature/hash pairs; all key share encodings: every prefix byte, wrong lengths, off-curve points, twist and small-subgroup points, coordinates at or above the prime, infinity.",
 "Exists for every value of each field; tests never reach the checks.",
 ["src/client.rs", "src/cipher/ecdhe.rs", "src/crypto/p256.rs", "src/signature.rs", "src/cipher/mod.rs"],
 [("server hello checks", "src/client.rs"), ("curve, algorithm and point checks", "src/cipher/ecdhe.rs"), ("from_uncompressed_bytes", "src/crypto/p256.rs")],
 ["TlsClient::new result", "whether a ClientKeyExchange appears on the wire"])

prop("C05", "Data written reaches the server exactly once, in order, in valid records",
 "For any sequence of writes of any sizes, the plaintexts of the application-data records on the wire are the concatenation of the written data: nothing lost, repeated, reordered or altered, however the transport splits, delays or interrupts the writes. Every record on the wire is well formed: version 3.3, plaintext of at most 2^14 bytes, protected once the connection is established. After a flush returns, everything written before it has been handed to the transport and flushed there.",
 ["inputs", "schedules"], "All sequences of write sizes (0, 1, around 2^14 and multiples, up to many MB), all transport short-write, interrupt and buffering behaviours.",
 "One test writes one record; boundary sizes and transport behaviours are unbounded.",
 ["src/client.rs", "src/tls.rs"],
 [("fragmentation", "src/tls.rs write_data"), ("record encryption", "src/tls.rs write_record"), ("flush", "src/client.rs")],
 ["transport writes", "decryption by an independent server"])

prop("C06", "Each record uses the next sequence number; no nonce is ever used twice",
 "In each direction the first protected record has sequence number 0 and each following one exactly one more, and the AEAD nonce is the connection's IV xored with that number, for as many records as the connection lasts. The client never protects two different records under the same key and nonce, not even when a transport write failed in between. Records the server protects in this way are accepted, and none under any other number is.",
 ["histories", "fault_sequences"], "All record counts (past 2^8, 2^16, 2^32 and up to the last numbers) in both directions, all points at which a transport write can fail, all record types.",
 "Tests use a single record with sequence number 0.",
 ["src/tls.rs", "src/client.rs"],
 [("write_count/read_count and nonce construction", "src/tls.rs")],
 ["nonces passed to a recording cipher", "decryption by an independent server"],
 state=[("write_count, read_count", "next sequence number of each direction", "src/tls.rs")],
 hook="setting the two sequence numbers, to observe around 2^32 and 2^64 without writing that many records")

prop("C07", "Data read is exactly what the server sent",
 "For any sequence of valid application-data records (of 0 to 2^14 bytes) and any sequence of read calls with any buffer sizes, the bytes returned are the concatenation of the plaintexts: nothing lost, repeated, reordered or altered. This holds however the transport splits, delays or interrupts the reads. A read call never writes outside what it reports, and returns fewer bytes than asked only when the stream has ended or failed. A read that can be answered from the records that have arrived does not wait for more.",
 ["inputs", "schedules"], "All record size sequences including empty and maximal ones, all read buffer sizes including 0 and 1, all transport chunkings and interrupts.",
 "One test reads one record in one call.",
 ["src/client.rs", "src/tls.rs", "src/util.rs"],
 [("leftover buffer", "src/client.rs Read::read"), ("read_exact retry", "src/util.rs")],
 ["return values and buffers of read"])

prop("C08", "Tampered, replayed, reordered or dropped records are never delivered",
 "If an attacker changes any byte of the protected stream after the handshake, or drops, duplicates, reorders, injects, splits, merges or truncates records, or moves records between connections or directions, what the application reads is a prefix of what the server sent. The first record that does not verify ends the stream: nothing after it is delivered by any later read. The header fields type, version and length are covered as well as the payload.",
 ["inputs", "fault_sequences"], "Every byte position of records of many sizes, every edit kind at every record index, and reads continued after the failure.",
 "Quantifies over all attacker edits; no test has a tampered record.",
 ["src/tls.rs", "src/cipher/chacha20_poly1305.rs", "src/client.rs"],
 [("MAC check with additional data", "src/cipher/chacha20_poly1305.rs"), ("sticky end of stream", "src/tls.rs")],
 ["bytes delivered by read under an attacker's edits"])

prop("C09", "An alert ends the stream for good; close announces it exactly once",
 "When the server sends an alert (close_notify or any other) or any record that is not application data on an established connection, the application has been delivered everything sent before it and is delivered nothing sent after it, on any later read. Closing sends exactly one protected close_notify alert, of level warning, after all data written before, so that the server sees an orderly end of the stream and not a failure. The end of the stream is not confused with data: reads return 0 bytes from then on.",
 ["histories"], "All alert levels and descriptions, non-data records, malformed alerts, at every position of a data stream, with any number of further reads and writes.",
 "It is about what happens on every later call, for every alert; tests never receive one.",
 ["src/client.rs", "src/tls.rs", "src/alert.rs"],
 [("closed flag", "src/tls.rs read_application_data"), ("close", "src/client.rs")],
 ["read results after the end", "records on the wire after close"])

prop("C10", "No byte sequence from the network makes the client panic or hang",
 "Whatever a server or attacker sends, during the handshake or afterwards, in the clear or correctly protected under the connection's keys, every call returns success or an error: it never panics, overflows arithmetic, indexes out of bounds, exhausts the stack or loops without consuming input. The same holds for decoding any byte string as any protocol message. It holds with debug assertions on and off.",
 ["inputs"], "All byte sequences in every protocol phase: random, mutated and structure-aware, in the clear and protected.",
 "The input space is unbounded; tests use five fixed malformed records.",
 ["src/tls.rs", "src/handshake.rs", "src/tls_item.rs", "src/client.rs", "src/cipher/ecdhe.rs", "src/util.rs", "src/crypto/p256.rs"],
 [("length checks before use", "src/tls.rs, src/tls_item.rs"), ("errors for unexpected messages", "src/tls.rs")],
 ["panics, CPU time and read counts of every public entry point"])

prop("C11", "Every handshake failure is announced by exactly one fitting fatal alert",
 "If connecting fails for any reason other than a transport failure, the client sends exactly one alert, fatal, as its last record, whose description is the one TLS assigns to the failure it reports: unexpected_message, bad_record_mac, record_overflow, illegal_parameter, decode_error, decrypt_error or internal_error (close_notify in answer to an alert). The alert is protected if and only if the client had already sent its ChangeCipherSpec. If the transport fails or ends, the error says so and no alert is sent.",
 ["inputs", "fault_sequences"], "Every way a handshake can fail: each malformed, unexpected, unacceptable or wrongly protected message, at each step.",
 "Tests check single error kinds of the record reader, never what is sent to the peer.",
 ["src/client.rs", "src/alert.rs", "src/tls_result.rs", "src/tls.rs"],
 [("send_tls_alert", "src/client.rs"), ("error kind to alert mapping", "src/alert.rs")],
 ["client records after the failure", "TlsError kind"])

prop("C12", "Message encoding is exact, canonical and independent of fragmentation",
 "Every protocol message encodes to exactly the bytes TLS 1.2 prescribes, reports its encoded size correctly and decodes back to the same value. Decoding accepts only complete, canonical encodings: inconsistent lengths, truncation, trailing bytes and out-of-range values are errors, and whatever is accepted encodes back to the same bytes (cipher suites the library does not know are read as an unknown marker, which cannot be encoded). A value too long for its length field is refused, not truncated. A sequence of handshake messages yields the same messages in the same order however it is cut into records.",
 ["inputs"], "All values of every message type, all byte strings as input, all cuts of a handshake stream into records.",
 "One test parses one ClientHello.",
 ["src/tls_item.rs", "src/handshake.rs", "src/macros.rs", "src/alert.rs", "src/signature.rs", "src/util.rs"],
 [("tls_struct/tls_vec/tls_enum/tls_array/tls_option", "src/tls_item.rs"), ("HandshakeBuffer", "src/handshake.rs")],
 ["tls_write, tls_read, tls_size", "HandshakeBuffer::get_message"])

prop("C13", "SHA-256, HMAC and the TLS PRF match their standards for all inputs",
 "The hash equals FIPS 180-4 SHA-256 for messages of every length, including those of 2^29 bytes and more; HMAC equals RFC 2104 for keys and messages of every length. The key derivation function equals RFC 5246's P_SHA256 for every secret and seed. Its output does not depend on how it is cut into requests.",
 ["inputs"], "All message, key, secret, seed and output lengths; all ways of requesting the output.",
 "A few known answers do not reach padding boundaries, long lengths or request patterns.",
 ["src/crypto/sha2.rs", "src/cipher/prf.rs"],
 [("padding and length encoding", "src/crypto/sha2.rs"), ("block and key handling", "src/cipher/prf.rs")],
 ["sha256, hmac_sha256, Prf outputs against an independent implementation"])

prop("C14", "Record protection is RFC 8439 ChaCha20-Poly1305 for all inputs",
 "For every key, nonce, additional data and plaintext of every length, protection produces the ciphertext and tag of RFC 8439, and opening returns the plaintext. Opening accepts nothing else: any change to the ciphertext, tag, additional data, nonce or key, and any input shorter than a tag, is an error. The underlying stream cipher and authenticator equal RFC 8439's for every input, including message blocks and accumulator values at the limits of the field and long key streams.",
 ["inputs"], "All keys, nonces, additional data, lengths, block counters, and authenticator inputs including carry and reduction limits.",
 "Few known answers; carries and final reduction need rare values.",
 ["src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/cipher/chacha20_poly1305.rs"],
 [("block function and counter", "src/crypto/chacha20.rs"), ("field arithmetic and freeze", "src/crypto/poly1305.rs"), ("compute_mac", "src/cipher/chacha20_poly1305.rs")],
 ["outputs against an independent implementation"])

prop("C15", "P-256 arithmetic is correct for every scalar, point and field element",
 "Multiplying any point of the curve by any 256-bit scalar gives the point the group law defines, and encoding it gives its unique uncompressed form. Decoding accepts exactly the encodings of points on the curve. The field and integer operations beneath agree with arithmetic modulo the prime for all operands.",
 ["inputs"], "All scalars (including 0, 1, around powers of two, around the group order and 2^256-1), all points, all field elements including those at the limits.",
 "A handful of fixed integers is tested; scalar multiplication is not tested at all.",
 ["src/crypto/p256.rs", "src/cipher/ecdhe.rs"],
 [("int256 arithmetic", "src/crypto/p256.rs"), ("point formulas and mult_scalar", "src/crypto/p256.rs")],
 ["outputs against an independent implementation"])

prop("C16", "Every connection uses fresh secrets with full entropy from the system",
 "Each connection draws its client random and its key share anew from the system's random source, so no two connections share them, unless the source repeats; if the source fails, no connection is made and nothing is sent in place of what could not be drawn. Every bit of both depends on the randomness drawn for it: at least 256 bits of system randomness go into each. The key share's secret is independent of everything sent in the clear, and nothing secret appears on the wire.",
 ["histories", "inputs"], "All sequences of connections in one process or in several threads, all outputs of the random source.",
 "Tests never observe the random source.",
 ["src/client.rs", "src/cipher/ecdhe.rs"],
 [("rng.fill_bytes for the client random", "src/client.rs"), ("get_random_x", "src/cipher/ecdhe.rs")],
 ["system calls for randomness", "client random and key share on the wire"])

prop("C17", "Control flow and memory access do not depend on secrets",
 "Scalar multiplication, record encryption and decryption, the authenticator, key derivation and the comparison of authenticators execute the same instructions and touch the same addresses for all secret values of the same lengths: no branch, loop bound or table index depends on a secret key, scalar, plaintext or expected authenticator. Whether a record's tag or a Finished message is wrong in its first or its last byte makes no difference to what is executed. Only the final accept or reject is observable.",
 ["inputs"], "All pairs of secrets of equal length; all positions of a mismatch.",
 "Tests observe outputs, never execution.",
 ["src/crypto/p256.rs", "src/crypto/poly1305.rs", "src/crypto/chacha20.rs", "src/cipher/chacha20_poly1305.rs", "src/util.rs", "src/cipher/prf.rs"],
 [("masked selection and comparison", "src/crypto/p256.rs, src/util.rs"), ("decrypt even if the tag is wrong", "src/cipher/chacha20_poly1305.rs")],
 ["branches and addresses under a taint-tracking interpreter", "executed instruction counts"])

prop("C18", "No undefined behaviour or memory error, whatever the input",
 "No input from network or application makes the library read or write outside its buffers, use uninitialised or freed memory, leak secrets by over-reading, or execute undefined behaviour. This holds for optimised and unoptimised builds. It holds for honest traffic and for hostile traffic alike.",
 ["inputs"], "All inputs of handshake, record layer, codec and crypto.",
 "Ordinary tests run without any detector.",
 ["src/util.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/tls.rs", "src/client.rs"],
 [("slice indexing; no unchecked access", "whole crate")],
 ["Miri and AddressSanitizer reports"])

prop("C19", "Every transport failure surfaces as an error and corrupts nothing",
 "If any single read, write or flush of the transport fails or the stream ends at any point, the call in progress returns an error (a read: the data received before, then end of stream): it does not panic, hang, report success or retry forever, and interrupted calls are simply retried. What the server can decrypt is always a prefix of what was written, and what the application was given is always a prefix of what the server sent. No plaintext and no secret ever goes out in place of the data that could not be sent.",
 ["fault_sequences", "crash_points"], "Every operation index of a full session (handshake, writes, reads, flush, close) as the point of failure, with every failure kind, transient and permanent, and every byte as the end of the stream.",
 "No test has a failing transport.",
 ["src/tls.rs", "src/client.rs", "src/util.rs"],
 [("error propagation", "src/tls.rs"), ("retry of interrupted reads", "src/util.rs")],
 ["results of each call under an injected fault", "bytes on the wire"])

prop("C20", "Memory use is bounded by the data received",
 "The memory the client holds at any time is at most a fixed amount plus a constant factor times the bytes it has received for the message being assembled or asked to write; a length field alone never makes it allocate. On an established connection memory does not grow with the number of records exchanged or of calls made, failed ones included. Decoding a message of n bytes allocates memory in proportion to n.",
 ["inputs", "histories"], "All length fields and nestings in every message, streams of any number of records.",
 "Tests never measure memory.",
 ["src/util.rs", "src/tls.rs", "src/handshake.rs", "src/tls_item.rs", "src/client.rs"],
 [("bounded reads", "src/util.rs ReadExt"), ("record length limit", "src/tls.rs")],
 ["allocator peak per call"])

prop("C21", "Connections are independent of each other and usable across threads",
 "Any number of connections in one process, on any threads and in any interleaving of their calls, behave as each would alone: same data, same results, own keys and sequence numbers. An error, panic-free failure or attack on one never affects another. A connection can be moved to another thread between any two calls.",
 ["schedules", "histories"], "All interleavings of calls on several connections on one or several threads.",
 "No test has two connections.",
 ["src/client.rs", "src/tls.rs", "src/cipher/mod.rs"],
 [("no shared mutable state", "whole crate"), ("Send ciphers", "src/cipher/mod.rs")],
 ["results per connection against a run alone", "data race detector"])

prop("C22", "Work is proportional to the data",
 "The time a call takes grows in proportion to the bytes it receives or is asked to write, plus a fixed amount per handshake and per record, whatever the bytes and however they are cut into records, reads and writes. No input makes the client do work that grows faster than its length (with the square of a message, of the number of its certificates, extensions or records), and what was received or written before does not make later calls slower.",
 ["inputs", "histories"], "All messages of every length and inner structure, cut into records and transport reads of any size; connections of any age.",
 "Tests use inputs of a few bytes, on which every growth looks alike, and never measure.",
 ["src/handshake.rs", "src/tls.rs", "src/tls_item.rs", "src/client.rs", "src/util.rs", "src/crypto/sha2.rs", "src/cipher/prf.rs"],
 [("assembling of messages from records", "src/handshake.rs HandshakeBuffer"), ("transcript", "src/client.rs"), ("record buffers", "src/tls.rs")],
 ["CPU time of calls at two sizes"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
