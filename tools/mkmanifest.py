#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(root+'/properties.jsonl')]
TECH={
 "C05":"property-based testing: generated strategies of one party, metamorphic oracle (balances after a round trip)",
 "C09":"stateful property-based testing with adversarial account lists, refusal oracle",
 "C10":"stateful property-based testing with adversarial account lists, refusal oracle",
 "C11":"stateful property-based testing, metamorphic account substitution on captured transactions",
 "C14":"stateful property-based testing with a generated callback program as fault injector, reference model",
 "C19":"stateful property-based testing, differential: path against its single hops, and reference model",
}
PURE={"C22":"exact 256/512 bit arithmetic","C23":"exact high precision powers and exhaustive enumeration of ticks","C24":"exact wide arithmetic","C25":"exact wide arithmetic","C26":"exact wide arithmetic and laws","C27":"naive search; exhaustive over tick indices"}
checks=[]
for i in ids:
    if i in PURE:
        t="property-based testing of the library functions against "+PURE[i]
        n="Generated operands, shaped to hit rounding and overflow edges, are compared with a reference written from the definitions; failures shrink to a replay file. Exploration only: absence is not established beyond the parts stated as exhaustive in the evidence."
    else:
        t=TECH.get(i,"stateful model-based property testing of the whole program against a reference model")
        n="Generated histories of real instructions run through the program's entry point with the real token, associated token and metadata programs compiled natively; after every operation the whole chain state, balances and events are compared with an independent model. Trusts the harness' runtime to enforce Solana's rules (signers, writability, ownership, atomicity). Exploration only: absence is not established."
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":"exploration","level_note":n})
m={"version":1,"setup_cmd":"mkdir -p evidence .work","hooks":{"guard":"none","enable":"no hooks: the checks use the public instruction interface and public library functions","source_commits":[]},"checks":checks,"not_applicable":[],
"notes":"Every check rebuilds the harness crate, which has a path dependency on /repo/programs/core (about half a minute), and then runs a fixed number of cases determined by VERIF_SEED. ./check.sh replay FILE runs a recorded case again."}
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
