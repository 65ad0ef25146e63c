#!/usr/bin/env python3
"""Writes known_findings.txt from the table of repaired defects."""
import subprocess
T="""2ac89b9 C25 alerts were sent with the description before the level
45bc886 C16 a short alert record made the library read past its end
eef5608 C12,C16 a protected record of nothing but padding was indexed out of range
b5fa3fd C29 expiry of one timer removed or skipped others
863b861 C14 a protected record could not carry a fragment of full size
264ceaf C16 a DTLS record layer had no valid version before it was negotiated
45ecdef C12 DTLS records of an older epoch were decrypted with another epoch's key
5e165eb C29 unprotected DTLS records were acknowledged under a wrong number
73246d9 C29 a sent DTLS fragment was remembered under the number of another record
e9cca7e C28 fragments of other messages, or outside the message, took part in reassembly
250d3fc C23 Config.Clone dropped the record layer factory
04d1dc7 C30 the exporter context was prepended to the hash of nothing instead of being hashed
d2b1b92 C22 the ticket cache shared between connections was used without a lock
00e5fc6 C22,C23 the default cookie protector was stored in the shared configuration without its lock
037076a C22 key updates, acknowledgements and alerts used the sending keys without the output lock
38c0e8b C10 a session ticket was sent although its creation failed
cc913a9 C25 an alert received from the peer was taken for an internal condition
37a301b C16 a malformed alert was answered through a nil connection
b9c423a C25 a failed handshake was neither reported nor remembered
f3ac64a C07 data that followed a key update in the same record was read under the old keys
35e4d5d C25 Listener.Accept returned connections whose handshake failed
bb41ce3 C27,C16 invalid peer values were accepted, or crashed, in key agreement
e3a10c8 C27 signature schemes were selected that do not fit the key's curve
a4475b0 C16 a cookie sent to a server without cookie protector dereferenced nil
1f0cb6a C09 trailing data in a cookie was ignored
bce0053 C05,C04,C19 the retry transcript was not the bytes that were sent
3c4a2aa C16 the suite in a cookie was used without a check that it is implemented
e27d83d C09 trailing data in a ServerHello was ignored
87da0e9 C19 a client answered a second HelloRetryRequest
886ea50 C23 a HelloRetryRequest changed the suites of the shared configuration
5d01651 C10,C06 a failed key agreement on the client was ignored and the handshake went on with a nil secret
a93cabb C04 a client accepted a pre-shared key selection that it had not offered
17cccba C17,C06 a client accepted key exchange modes that it had not offered
3c96a69 C17 a server selected pre-shared key modes that were not offered
1eebba4 C17 a server selected suites outside its configuration with a pre-shared key
7a40e16 C18 early data was accepted for another than the first pre-shared key, and after a retry
ae2b1d3 C18 a client reported early data as accepted that it never sent
2c828a8 C20,C04 resumption keys were used after their lifetime
949fd94 C16,C02 an empty certificate list from the server was indexed
c185102 C04,C26 the binder was computed over a ClientHello without its session ID
254a7be C09,C16 an absent presence flag was read past the end of input
7baa31a C06,C21 traffic secrets were updated with a wrong label
cf9b404 C17 a client accepted an application protocol that it had not offered
09d9ae8 C17,C02,C03 signature schemes were accepted that had not been offered
ff4ae83 C03,C27 a client signed its CertificateVerify with the server's context
7a1680c C18,C08 a handshake in which the server rejected early data never finished
4a7bcc3 C17 a client with a pre-shared key accepted a configured ciphersuite that its ClientHello did not offer
ac25747 C30,C16 exporting a negative number of bytes crashed, and exporting more than 255 hash lengths or with a label over 249 bytes gave keying material of another definition"""
out=["# Genuine defects found in /repo. 'finding:' lines are unrepaired ones (key = rule|construct);","# 'fixed:' lines record repairs and suppress nothing.",""]
for l in T.splitlines():
    h,ps,what=l.split(' ',2)
    full=subprocess.check_output(['git','-C','/repo','rev-parse','--short=12',h],text=True).strip()
    for p in ps.split(','):
        out.append(f"fixed: property={p} {full} {what}")
out.append("finding: property=C26 key=NUMBER|TicketEarlyDataInfoExtension=46 NewSessionTicket carries the early data limit in extension 46 (ticket_early_data_info of an earlier draft), RFC 8446 has early_data (42); the existing tests require the number 46")
open('/verif/known_findings.txt','w').write("\n".join(out)+"\n")
