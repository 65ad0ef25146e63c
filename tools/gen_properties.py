import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    P.append(d)
C="client-state-machine.go";S="server-state-machine.go";M="state-machine.go";N="negotiation.go";R="record-layer.go";H="handshake-layer.go";HM="handshake-messages.go";X="extensions.go";K="crypto.go";V="conn.go"
p("C01","A handshake completes only after the peer's Finished message verifies",
 "On either side and in every mode, a handshake is reported as complete only after a Finished message was received whose entire verify data equals the HMAC, under the finished key of the peer's handshake traffic secret, of the hash of every handshake message exchanged before it. If that comparison does not succeed, or its full-length data is not present, the endpoint fails the handshake with an alert and never reaches the connected state.",
 ["inputs","histories"],"every peer message sequence, every negotiated mode (certificate, PSK, client authentication, early data, retry) and both roles",
 "Tests run a handful of honest handshakes; none can enumerate the forged Finished messages or the paths that could skip the comparison.",
 [C,S,K],[("WaitFinished.Next on both sides","%s, %s"%(C,S)),("computeFinishedData",K)],obs=["Conn.Handshake result","ConnectionState"])
p("C02","A client connects only to a server that authenticated itself",
 "A client completes a handshake that does not use a pre-shared key only after (1) the server's CertificateVerify signature, in a signature scheme the client offered, verified with the public key of the leaf certificate the server sent over the transcript up to and including that certificate, (2) unless InsecureSkipVerify is set, the chain verified against the configured roots, current time and server name using the remaining certificates as intermediates, and (3) a configured VerifyPeerCertificate callback accepted the raw certificates and verified chains. The certificates and chains it reports are exactly the ones so checked.",
 ["inputs","configurations"],"every server message sequence and certificate list, every client configuration",
 "Tests present a few valid certificates and a few rejected ones; the guarantee is about every path from ServerHello to connected.",
 [C,HM,K],[("clientStateWaitCV.Next",C),("CertificateVerifyBody.Verify",HM),("verify",K)],obs=["Conn.Handshake","ConnectionState.PeerCertificates"])
p("C03","A server reports client certificates only after proof of possession",
 "A server reports peer certificates for a connection only if the client's CertificateVerify signature verified, with the public key of the leaf certificate the client sent, over the transcript up to and including that certificate, and a configured VerifyPeerCertificate callback accepted the certificates. A server that requires client authentication asks for it in every certificate-mode handshake, and a client that sends a non-empty certificate list can never complete the handshake without that verification.",
 ["inputs","configurations"],"every client message sequence when client authentication is requested",
 "The tests exercise one accepted certificate and one absent certificate; they cannot cover forged or missing CertificateVerify messages on every path.",
 [S,HM,K],[("serverStateWaitCert.Next, serverStateWaitCV.Next",S)],obs=["ConnectionState.PeerCertificates"])
p("C04","A pre-shared key is used only when offered by one side and proven by other",
 "A server uses a pre-shared key only if it found the key in its cache under the identity the client listed, the ticket's age and lifetime are acceptable for a resumption key, and the binder at the same position equals the binder computed from that key over the retry transcript and the truncated ClientHello. A client treats a handshake as pre-shared-key authenticated only if it offered a key in that ClientHello, the server selected the identity it offered, and the selected cipher suite uses the hash the key was offered with; any other selection aborts the handshake.",
 ["inputs","histories"],"every ClientHello and ServerHello, every cache content and clock value",
 "Tests offer keys both sides share; forged binders, unsolicited selections and expired tickets form an unbounded input space.",
 [N,C,S],[("PSKNegotiation",N),("clientStateWaitSH.Next",C),("serverStateStart.Next",S)],obs=["ConnectionState.UsingPSK","Conn.Handshake"])
p("C05","Every handshake message enters the transcript exactly once and in order",
 "For every path through a handshake, the transcript each endpoint hashes consists of exactly the handshake messages it has sent and received so far, each once, in the order of the protocol and in their wire encoding, with the first ClientHello replaced by its message-hash form after a retry. No message is queued for sending or accepted from the peer without entering the transcript, and nothing else enters it.",
 ["inputs","histories","configurations"],"every path through the client and server state machines",
 "Both peers run the same code in tests, so an omission made on both sides goes unnoticed, and optional flights are sampled only in a few combinations.",
 [C,S],[("handshakeHash.Write call sites",C+", "+S)],obs=["secrets","Finished values"])
p("C06","Every secret follows the TLS 1.3 key schedule, identically on both sides",
 "The early, handshake, master, traffic, exporter and resumption secrets, the PSK binder keys and finished keys of a connection are each derived with the parent secret, HKDF label and transcript hash that RFC 8446 section 7.1 prescribes for that mode, using the hash of the negotiated cipher suite. Client and server derive the same formula for every secret, in every mode, so that neither can end up connected on keys that omit the negotiated pre-shared key or (EC)DHE secret.",
 ["inputs","configurations"],"every negotiated mode and cipher suite on both sides",
 "Tests compare the two mint endpoints with each other in a few modes; a shared mistake or a mode-specific one is invisible to them.",
 [C,S,K,N],[("deriveSecret / HkdfExpandLabel / HkdfExtract call sites",C+", "+S+", "+N)],obs=["wire interoperability","exported secrets"])
p("C07","Traffic keys are installed in the right direction, epoch and moment",
 "In every mode each endpoint protects and unprotects each flight with keys derived from the traffic secret of the right sender and epoch: early data, handshake and application keys are installed at the points RFC 8446 prescribes relative to the messages around them. In particular application-data read keys are installed only when the peer's Finished has verified, and no handshake message after ServerHello is sent or accepted under no key.",
 ["inputs","configurations","histories"],"every path through the state machines and every key-change action",
 "A swapped direction or early installation that both peers share still interoperates with itself, and tests cover few combinations of early data, retry and client authentication.",
 [C,S,V],[("RekeyIn / RekeyOut actions",C+", "+S),("Conn.takeAction",V)],obs=["record epochs on the wire"])
p("C08","Handshake messages are accepted only in the order of the protocol",
 "At each point of a handshake an endpoint accepts only the message type that the TLS 1.3 state diagrams allow next for its role and negotiated mode, and answers anything else with an error; no state can be skipped, repeated or entered from elsewhere. After the handshake only KeyUpdate messages, and on clients NewSessionTicket messages, are accepted.",
 ["inputs","histories"],"every sequence of handshake messages a peer can send",
 "The set of message sequences is unbounded; tests feed the expected ones and a few wrong first messages.",
 [C,S,M],[("Next methods of all HandshakeState types",C+", "+S),("stateConnected.ProcessMessage",M)],obs=["Conn.Handshake","Conn.Read"])
p("C09","Handshake input is decoded strictly and completely",
 "Every handshake message body, extension body, cookie and acknowledgement taken from the network is used only after its decoder succeeded and consumed the whole input; a decoding error or trailing bytes makes the operation fail. Length minima and maxima declared for a vector are enforced on decoding and on encoding, a list that repeats an extension which is being parsed is rejected, and a decoder reports exactly the number of bytes it read.",
 ["inputs"],"every byte string a peer can send in a handshake message or extension",
 "Tests decode chosen malformed examples; the property is about every decode site and every length.",
 [H,HM,X,"dtls.go","syntax/decode.go","syntax/encode.go"],[("safeUnmarshal",H),("ExtensionList.Parse/Find",X),("decodeLength/encodeLength","syntax/decode.go, syntax/encode.go")],obs=["Unmarshal results"])
p("C10","No reported failure is ignored",
 "Whenever an operation inside the library reports a failure as an error or an alert, its caller looks at the report before it uses the operation's other results and before it returns, and from the failure it does not go on to return success: it propagates the failure, replaces it by another one, or tries again. Best-effort operations are excepted: sending an alert or closing on a connection that fails anyway, sending a DTLS acknowledgement, a client that answers a certificate request with an empty certificate because it has none that fits; so are encodings of data that cannot fail, which were encoded or decoded before.",
 ["inputs","fault_sequences"],"every fallible call and every failure it can report, including transport faults",
 "Provoking each of the failing calls needs faults that tests do not inject.",
 [V,C,S,H,R,K,X,HM,"dtls.go"],[("every call returning error or Alert","all packages")],obs=["returned errors and alerts"])
p("C11","No AEAD nonce is used twice under one key",
 "Within one key, every protected record uses a sequence number that is strictly greater than that of every earlier record, starting from zero at each key installation, and the nonce is the per-connection IV combined with that whole sequence number. Counting cannot wrap: the connection stops instead.",
 ["histories","inputs"],"every sequence of writes, key changes and retransmissions",
 "Repeats would show only after long or unusual histories (retransmission, re-keying, wraparound).",
 [R,H],[("cipherState.incrementSequenceNumber, computeNonce, combineSeq",R),("writeRecordWithPadding",R)],obs=["record headers and nonces"])
p("C12","Received record content is delivered only after authenticated decryption",
 "Once read keys are installed, content and content type of a record reach the handshake or application only if AEAD decryption succeeded with the current read key (for DTLS: the key of the record's epoch), that record's sequence number, and the record header as associated data. Content type is the last non-zero byte, padding is removed, and a record without one, with an oversized ciphertext or with an oversized plaintext is rejected.",
 ["inputs"],"every byte string on the transport after keys are installed",
 "An attacker's records are unbounded; tests corrupt one byte of one record.",
 [R],[("nextRecord, decrypt",R)],obs=["RecordLayer.ReadRecord"])
p("C13","Sent records are protected and bounded once keys are installed",
 "Once write keys are installed every record leaves as an application-data record whose payload is the AEAD sealing, under the current write key and with the record header as associated data, of the content followed by its true content type and padding; nothing is written in the clear. The header's length always equals the payload's and never exceeds the protocol limit.",
 ["inputs","histories"],"every content, content type, padding length and key state",
 "Only a few fragments and padding lengths are sampled.",
 [R],[("writeRecordWithPadding, encrypt",R)],obs=["bytes written to the transport"])
p("C14","Write sends exactly the caller's bytes and counts them truthfully",
 "For every buffer length, Write sends consecutive, non-overlapping pieces of the caller's buffer that together are exactly that buffer, each small enough for one record, and returns the number of bytes in the records that were written successfully together with the first error. A write of any size on a healthy connection succeeds.",
 ["inputs","fault_sequences"],"every buffer length and every point at which the transport can fail",
 "Tests write short buffers; boundary lengths and mid-write faults are not sampled.",
 [V,R],[("Conn.Write",V)],obs=["Conn.Write results","peer's Read"])
p("C15","Application data flows only in connected (or permitted early-data) state",
 "Write accepts data only when the handshake is complete, or on a client whose early-data keys are installed; Read returns data only when the handshake is complete, or on a server that allows early data, from accepted early data. Handshake, alert and acknowledgement contents are never returned as application data, and data received under one state is delivered once and in order.",
 ["histories","inputs"],"every interleaving of Read, Write and handshake steps and every record sequence",
 "Tests call Read and Write after complete handshakes only.",
 [V,S],[("Conn.Read, Conn.Write, Conn.Writable, consumeRecord",V),("serverStateWaitEOED.Next",S)],obs=["Conn.Read","Conn.Write"])
p("C16","Bytes from the peer cannot crash the process",
 "No sequence of bytes received from the network can make the library index or slice out of range, dereference nil, convert to a wrong dynamic type, make a negative-size allocation, use an unavailable hash or fail an internal assertion; malformed input always ends in an error or alert.",
 ["inputs","histories"],"every byte string received at any point of a connection",
 "The existing fuzz seed covers a few mutations; a panic hides behind one specific length or value.",
 [R,H,HM,X,C,S,V,K,N,"dtls.go","syntax/decode.go"],[("length and nil guards before every index, slice, dereference","all packet-handling code")],obs=["process survival"])
p("C17","Negotiated parameters were offered by the client and allowed by the server",
 "The protocol version, cipher suite, key-exchange group, signature scheme, PSK mode and application protocol of a connection are each in both the client's offer and the local configuration: a server never selects a parameter the client did not offer or its own configuration excludes, and a client aborts when the server selects one the client did not offer.",
 ["inputs","configurations"],"every pair of offer and configuration, and every ServerHello / EncryptedExtensions",
 "The configuration space is combinatorial; table tests sample a few rows.",
 [N,S,C],[("VersionNegotiation, DHNegotiation, CipherSuiteNegotiation, ALPNNegotiation, PSKModeNegotiation, CertificateSelection",N),("clientStateWaitSH/WaitEE.Next",C)],obs=["ConnectionState"])
p("C18","Early data is sent and accepted only under its preconditions",
 "A server accepts early data only if its configuration allows it, the client asked for it in this ClientHello, and the handshake uses the first pre-shared key the client offered, without a retry; otherwise all of it is skipped and none of it is delivered. A client reports early data as accepted only if it sent some and the server confirmed it, and sends none after a retry or without a pre-shared key.",
 ["inputs","configurations","histories"],"every ClientHello/EncryptedExtensions, configuration and retry combination",
 "Two or three configurations are tested; the combinations with retry and rejected keys are not.",
 [S,C,N],[("EarlyDataNegotiation",N),("serverStateStart.Next, WaitEOED, ReadPastEarlyData",S),("clientStateStart.Next, WaitEE",C)],obs=["ConnectionState.UsingEarlyData","Conn.Read"])
p("C19","A retry happens at most once and binds both hellos",
 "A client answers at most one HelloRetryRequest per connection, echoing its cookie and offering only the suite it named. A server continues after a cookie only if its own protector authenticated the cookie and the application accepted its part, restores the first ClientHello's hash from it, and selects the suite recorded in it; the cookie it issues contains the hash of the ClientHello it answers and the suite it selected.",
 ["inputs","histories"],"every sequence of ClientHello and HelloRetryRequest messages and every cookie value",
 "Tests retry once with an honest cookie.",
 [C,S,"cookie-protector.go"],[("clientStateWaitSH.Next",C),("serverStateStart.Next",S),("DefaultCookieProtector","cookie-protector.go")],obs=["wire messages"])
p("C20","Session tickets and the stored keys they stand for agree",
 "The pre-shared key a server stores for a ticket has the identity, nonce-derived key, age offset, lifetime, cipher suite and application protocol of the ticket it sends and of the connection it sends it on, and the client stores the same from the ticket it receives. Tickets are sent only by configured servers after the handshake completed, are accepted only by clients, and are filed under the server's name by clients and under the ticket identity by servers. The secret that tickets are made from and the parameters they are bound to stay those of the handshake for as long as the connection lasts.",
 ["inputs","histories"],"every ticket, connection mode and configuration",
 "Tests resume once between two mint endpoints sharing conventions.",
 [M,V],[("stateConnected.NewSessionTicket, ProcessMessage",M),("Conn.takeAction StorePSK",V)],obs=["PreSharedKeyCache contents","NewSessionTicket"])
p("C21","A key update advances exactly one direction by one generation",
 "Sending a KeyUpdate replaces only this endpoint's sending keys, after the message has been sent under the old keys; receiving one replaces only the receiving keys, and is answered with exactly one KeyUpdate that requests none if and only if the peer requested one. Each new generation is derived from the previous generation's secret of the same direction, and the connection remembers it.",
 ["histories","inputs"],"every sequence of key updates sent and received",
 "Tests perform a couple of updates between identical implementations.",
 [M,V],[("stateConnected.KeyUpdate, ProcessMessage",M),("Conn.SendKeyUpdate, consumeRecord",V)],obs=["traffic secrets","record keys"])
p("C22","Concurrent use of one connection is free of data races on its keys",
 "While an application reads, writes and updates the keys of one connection from different goroutines after the handshake, every use and replacement of the sending record keys, sequence number and output happens under the output lock and every use of the receiving ones under the input lock, including key updates and alerts triggered by reading. State shared between connections (configuration defaults, ticket caches) is accessed under its own lock.",
 ["schedules"],"every interleaving of concurrent Read, Write, SendKeyUpdate and Close calls, and of connections sharing a configuration",
 "Schedules cannot be enumerated by tests.",
 [V,R,M],[("Conn.in / Conn.out locks",V),("Config.mutex",V)],obs=["race freedom"])
p("C23","Connections never modify the configuration they share",
 "A connection treats its configuration as read-only after the mutex-protected defaulting step: no handshake or record event changes a field of the configuration or an element reachable from it except through the ticket cache's own interface. A clone of a configuration carries every user-settable field.",
 ["histories","configurations"],"every handshake path and every configuration field",
 "Tests use one connection per assertion, so cross-connection interference is not observed.",
 [V,C,S,"tls.go"],[("Config.Init, Config.Clone",V)],obs=["Config fields after handshakes"])
p("C24","All secrets and nonces come from the system's secure random source",
 "Every random value used by the protocol (hello randoms, private keys, tickets, ticket nonces and age offsets, cookie keys and nonces, signing randomness) is filled entirely from the cryptographic random source with its error checked, and no other randomness source is used anywhere in the library.",
 ["inputs","fault_sequences"],"every value the library draws and every failure of the source",
 "Tests cannot tell a predictable source from a random one.",
 [K,HM,C,S,"cookie-protector.go"],[("prng",K)],obs=["generated values"])
p("C25","Alerts on the wire are well formed and failures are surfaced",
 "Every alert record sent consists of exactly a level byte followed by a description byte, with a fatal level for errors, and never carries an internal-only code. A fatal handshake failure is reported to the caller as a failure, is remembered by later calls, and an alert received from the peer is never mistaken for success or for an internal condition, nor is a fatal one for the regular end of the peer's data.",
 ["inputs","fault_sequences","histories"],"every failure path and every alert a peer can send",
 "Tests check few failures and do not parse the alerts sent.",
 [V,H,"alert.go"],[("Conn.sendAlert, Conn.Handshake, consumeRecord",V),("HandshakeLayer.sendAlert, readRecord",H)],obs=["alert records","Handshake results"])
p("C26","Protocol constants and message layouts match the TLS 1.3 specification",
 "The numeric values of content types, handshake types, extension types, cipher suites, groups, signature schemes, versions and alerts, the HKDF labels and hello-retry sentinel, and the field order, widths and length bounds of every message and extension structure are those this protocol version specifies, and each type's encoder and decoder use the same layout.",
 ["inputs"],"every message and extension type and every value of their fields",
 "Both test peers share the code, so a consistent change passes.",
 ["common.go","alert.go",K,HM,X,"dtls.go"],[("tls struct tags",HM+", "+X),("constants","common.go, alert.go")],obs=["bytes on the wire"])
p("C27","Signatures and key exchanges bind the algorithm they claim",
 "A signature is created or accepted only when the scheme fits the key's type, and for ECDSA its curve, with the scheme's own hash over the whole input, never with SHA-1, and verification succeeds only if the underlying primitive did. A key-exchange secret is produced only for supported groups from a peer value of exactly the right size that is a valid element (on the curve, in range, not a degenerate result), and is the full-width shared value.",
 ["inputs"],"every scheme/key/signature combination and every peer key share",
 "Invalid points, schemes and lengths are an unbounded input space.",
 [K],[("sign, verify, keyAgreement, newKeyShare",K)],obs=["sign/verify/key agreement results"])
p("C28","DTLS reassembly delivers each message once, whole and in order",
 "Over DTLS, the handshake layer delivers handshake messages in the order of their sequence numbers, each at most once, as soon as, and only when, fragments of that same message cover its whole declared length, and every byte is the one that a fragment carried for that position. Fragments of other messages, of another type or length, of another epoch, or outside the declared length never contribute bytes; stale fragments are ignored. Messages made for sending are numbered consecutively.",
 ["inputs","schedules"],"every order, overlap, duplication and loss of fragments",
 "Reorderings are combinatorial; tests try a few.",
 [H],[("newFragmentReceived, checkMessageAvailable, noteMessageDelivered",H)],obs=["HandshakeLayer.ReadMessage"])
p("C29","DTLS retransmits exactly what the peer has not acknowledged",
 "Over DTLS a sent handshake fragment is omitted from a retransmission only if a record that carried that whole range of that message was acknowledged by the peer, each fragment sent is remembered under the number of the record that carried it, and retransmissions reuse the message's original keys and bytes under new record numbers. A flight is sent again whenever the retransmission timer expires until it is acknowledged or the peer's next flight begins. Acknowledgements name exactly the records whose handshake data was taken. Timers that expire run once, at the first check after their time, and expiry or cancellation of one timer leaves the others in place; timers are run when a handshake waits and when Read is called.",
 ["schedules","fault_sequences"],"every order of losses, acknowledgements and timer expiries",
 "Tests lose a few chosen packets.",
 [H,"dtls.go","timer.go"],[("writeFragment, fragmentAcked, processAck",H+", dtls.go"),("timerSet","timer.go")],obs=["retransmitted records"])
p("C30","Exported keying material follows the exporter definition",
 "Keying material is exported only from a connected session and equals the RFC 8446 section 7.5 exporter: derived from the connection's exporter secret with the caller's label, and then from the hash of the caller's context with the label \"exporter\" and the requested length. That secret stays the one of the handshake for as long as the connection lasts.",
 ["inputs"],"every label, context and length",
 "Tests compare the two endpoints of this implementation with each other.",
 [V],[("Conn.ComputeExporter",V)],obs=["Conn.ComputeExporter"])
p("C31","A lossy datagram handshake eventually completes",
 "If from some point on enough datagrams are delivered in both directions and timers are serviced, a DTLS handshake between honest endpoints completes.",
 ["schedules","fault_sequences"],"every finite loss pattern",
 "Liveness over unbounded schedules.",
 ["dtls.go",H],[("retransmission timers","dtls.go")])
p("C32","Application bytes arrive unchanged and in order",
 "The byte stream returned by Read calls at one end of a TLS connection is a prefix of the byte stream accepted by Write calls at the other end.",
 ["inputs","schedules"],"every sequence of writes and reads on both ends",
 "End-to-end equality over all histories.",
 [V,R],[("Conn.Read/Write","conn.go")])
p("C33","Cryptographic outputs are numerically those of the standards",
 "HKDF, finished MACs, key shares and protected records have exactly the numeric values the standards define for their inputs, so that mint interoperates with every conforming implementation.",
 ["inputs"],"every input of every primitive",
 "Only test vectors are compared.",
 [K,R],[("HkdfExpand, hkdfEncodeLabel",K)])
p("C34","Secret-dependent timing does not leak",
 "The time taken by MAC comparisons, decryption failures and binder checks does not depend on secret data.",
 ["inputs"],"every secret and attacker input","Timing is not observed by tests.",
 [C,S,N],[("bytes.Equal on MACs",C+", "+S+", "+N)])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
