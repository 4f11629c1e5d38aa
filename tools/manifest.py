#!/usr/bin/env python3
# Generates MANIFEST.json from the list of claimed checks.
import json,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH={
"C01":"runtime monitoring: real codecs driven with random shapes/values, model oracle on every encode/decode, frozen inputs",
"C02":"runtime monitoring: real decoders driven with hostile requests, acceptance/leak oracle per decode",
"C03":"runtime monitoring: object codecs under random fields and frozen objects, reference-model oracle",
"C04":"runtime monitoring, exhaustive over statuses: tables, constructors and wire status lines observed",
"C05":"runtime monitoring at the wire: generated clients against a recording loopback server, round-trip oracle",
"C06":"runtime monitoring with fault injection: scripted raw responses, truncations and resets against the client, settlement oracle",
"C07":"online trace monitor: middleware/handler/hook/wire events vs a predicted trace, sequential and concurrent",
"C08":"online trace monitor of router middleware and unchecked handlers vs a predicted trace",
"C09":"runtime monitoring of typed sends: wire and after-response hook vs reference model",
"C10":"runtime monitoring of hook invocations over random hook configurations vs precedence model",
"C11":"runtime monitoring of dispatch: handler/parameter log vs independent path matcher",
"C12":"span-lifecycle monitor (OpenTelemetry span processor + async-local attribution) under concurrent workloads",
"C13":"online trace monitor of middleware chains with injected faults and delays vs predicted trace",
"C14":"runtime monitoring with fault injection: wire, handler log and process error events vs outcome model",
"C15":"offline history checker over concurrent end-to-end workloads with unique tokens and injected delays",
"C16":"differential runtime monitoring: generated schema (independent JSON-schema evaluation) vs real codec decode on witness values",
"C17":"differential runtime monitoring: generated document vs behaviour of the real request codec / declared routes",
"C18":"runtime monitoring of the real command line on generated multi-file projects, document invariants oracle",
"C19":"metamorphic runtime monitoring: documents of rearranged projects and repeated/history-laden runs compared",
"C20":"runtime monitoring: unique marker comments and tag values traced from source into the document",
"C21":"differential runtime monitoring of optimize: denotational evaluator before/after, frozen inputs",
"C22":"runtime monitoring of the command line as a process under malformed projects, outcome oracle",
"C23":"runtime monitoring of the command line as a process under random options, package settings and codec files, independent model of the outcome",
}
NA={}
claimed=[c for c in sorted(TECH) if os.path.exists(f'{H}/harness/checks/{c}.js')]
for c in TECH:
    if c not in claimed: NA[c]="check not built yet"
note={}
m={"version":1,"setup_cmd":"node --version && node -e \"require('/repo/node_modules/typescript')\"",
 "checks":[{"property":c,"quick_cmd":f"node harness/run.js {c}","thorough_cmd":f"VERIF_TIER=thorough node harness/run.js {c}",
  "technique":TECH[c],"level":"exploration","level_note":note.get(c,"Oracle observes every execution of a seeded, count-bounded random workload; holds on everything explored, not a proof. Coverage counters in evidence.")} for c in claimed],
 "not_applicable":[{"property":c,"reason":r} for c,r in NA.items()],
 "notes":"Every check transpiles /repo/packages/*/src of the current working tree into a scratch directory and runs that code. No hooks in /repo are needed: all observation points are public interfaces, the wire, user callbacks or the tracing SDK."}
open(f'{H}/MANIFEST.json','w').write(json.dumps(m,indent=1)+'\n')
