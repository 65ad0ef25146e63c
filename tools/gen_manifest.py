#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
HS="interprocedural dataflow/typestate analysis of the handshake states over SSA (value-numbered message terms), summaries compared with the RFC 8446 specification"
TRUST="Trusted: Go's type checker and SSA builder, the models of standard library primitives (hash, HMAC, HKDF, AEAD, signature verification as ideal operations) and the analyser itself."
CLAIMS={
 "C01":(HS,"Every completing path of both roles is summarised (joins at merge points, loops to fixpoint) and must contain the Finished equality. "+TRUST),
 "C05":(HS,"Every transcript hash on every completing path must cover a prefix of the message sequence of that path; blocked attempts must leave state unchanged. "+TRUST),
 "C06":(HS,"Every secret on every completing path equals the RFC 8446 7.1 formula as a term; numeric output of the primitives is not checked. "+TRUST),
 "C07":(HS,"Every key change and message protection on every completing path is compared with RFC 8446. "+TRUST),
 "C08":(HS,"Message sequences of all completing paths are compared with the TLS 1.3 grammar. "+TRUST),
}
exec(open('/verif/tools/claims.py').read()) if __import__('os').path.exists('/verif/tools/claims.py') else None
NA={
 "C16":"Absence of run-time panics and of unbounded work for every input needs value-range proofs for every index, slice, conversion and allocation of the library against lengths the peer chooses; the defects found while building the other checks were repaired (known_findings.txt), the general claim is not decided.",
 "C31":"Eventual completion is a liveness property of two endpoints, a network and timers; it needs a fairness argument over unbounded schedules that no source-level static analysis in reach decides.",
 "C32":"End-to-end equality of two byte streams relates two processes through the network; the local halves (C11-C15) are decided statically, their composition over all histories is not.",
 "C33":"Numeric conformance of cryptographic outputs is a property of computed values; static analysis here treats the primitives as ideal operations (structure is decided by C06, C11-C13, C26, C27).",
 "C34":"Timing of compiled code and of the standard library's primitives is not visible in the source.",
}
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./setup.sh","checks":[],"not_applicable":[],"notes":"One analyser (/verif/analysis, Go, x/tools SSA) decides all properties; see DESIGN.md. No hooks in /repo."}
for i in ids:
    if i in CLAIMS:
        t,n=CLAIMS[i]
        m["checks"].append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet")})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
print(len(m["checks"]),"checks")
