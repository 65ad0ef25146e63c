FN="summaries of single functions over SSA (value-numbered terms, tables folded from the package's initialisation), compared with the specification"
CLAIMS.update({
 "C02":(HS,"Every completing client path; chain building and signature primitives are ideal. "+TRUST),
 "C03":(HS,"Every completing server path with a client certificate. "+TRUST),
 "C04":(HS,"Every completing path with a pre-shared key, on both sides. "+TRUST),
 "C17":(HS,"Every completing path of both roles; offers and choices are compared as terms. "+TRUST),
 "C18":(HS,"Every completing path of both roles; the data itself is C15's. "+TRUST),
 "C19":(HS,"Every completing path and every retry of both roles. "+TRUST),
 "C27":(FN,"All paths of the signature and key-exchange functions for every scheme and group. "+TRUST),
 "C20":(FN,"All paths that issue, receive or store a ticket. "+TRUST),
 "C21":(FN,"All paths that send or receive a KeyUpdate, with the sequence of actions taken. "+TRUST),
 "C30":(FN,"All paths of the exporter and every completing handshake path for its secret. "+TRUST),
 "C11":(FN,"All paths of record writing, with padding up to 3, and every place that touches key state. "+TRUST),
 "C12":(FN,"All paths of record reading; the search for the content type is exact for inner plaintexts of 4 bytes and its result is checked for all sizes. "+TRUST),
 "C13":(FN,"All paths of record writing, with padding up to 3, and every write to the transport. "+TRUST),
 "C14":(FN,"Conn.Write is followed exactly for buffer sizes around multiples of the record size (0 to 65541 bytes); the record layer's refusals for all sizes. "+TRUST),
 "C15":(FN,"Conn.Write as for C14; Conn.Read for up to 20000 waiting bytes and buffers up to 300; records of every type; scripted sequences of early data records; every place that changes waiting data. "+TRUST),
 "C25":(FN,"Every alert code sent, the constants possible at every call site, every kind of alert received, all paths of the handshake loop. "+TRUST),
 "C24":("census of randomness consumers over SSA, and "+FN,"Every consumer of randomness in the library; hellos on every completing path; tickets, cookies and key shares. Names of weak sources are recognised by import path. "+TRUST),
 "C26":("layout analysis of types and struct tags, abstract interpretation of encoders and decoders over SSA with a model of reflection, compared with the specification", "Every body, extension, ticket, cookie, acknowledgement and header; lists of up to 3 elements; the codec for synthetic types around every bound. One known finding: the early-data extension number in NewSessionTicket. "+TRUST),
 "C09":(HS+"; abstract interpretation of the codec and the extension list over SSA", "Every completing path of both roles; the extension list for scripted lists; the codec for synthetic types around every bound; acknowledgements and messages after the handshake. "+TRUST),
 "C22":("interprocedural lockset analysis over SSA, with object naming by access path and type-based pruning of actions", "Everything Read, Write, SendKeyUpdate and Close can reach after the handshake; maps, package variables and configurations in the whole library. Schedules are not enumerated: consistent locking is what is decided. "+TRUST),
 "C28":("exact abstract interpretation of the handshake layer over SSA (loops unrolled, bytes symbolic), on enumerated fragment sequences, against a reference model; field-write census", "Sequences of up to 3 (of 16 fragments) and 4 (of 6; thorough: 20 and 8) fragments of up to three messages of up to 3 bytes; records of every epoch. Lengths are small; bytes are symbols. "+TRUST),
 "C29":("exact abstract interpretation of queueing, fragmentation, acknowledgement and timers over SSA, on enumerated acknowledgement sets and timer schedules; driver analysis on all paths; field-write census", "Every set of acknowledged records of a flight of 6 records in two epochs, followed by every single record; every sequence of 3 (thorough 4) timer operations. "+TRUST),
 "C23":("flow-insensitive effect (alias) analysis over SSA, lockset analysis, and "+FN, "Every store, append, copy and mutating call in the library; Clone and the defaulting functions on all paths. "+TRUST),
 "C10":("path-sensitive dataflow of error and alert values over SSA, from every fallible call to the returns of its caller", "Every call in mint and mint/syntax that returns an error or an alert. A failure that is stored for others, or handed to a function that decides, counts as looked at. "+TRUST),
})
