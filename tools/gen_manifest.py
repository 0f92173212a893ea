#!/usr/bin/env python3
import json,os,subprocess,re
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
P=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
src=open(os.path.join(root,"harness/src/props.rs")).read()
T={
"C01":"property-based testing: generated tokenizers and inputs against cover invariants and a reference tokenizer",
"C02":"property-based testing: generated lexeme lists against an independent reference tokenizer",
"C03":"property-based testing: generated spelling sets against a longest-prefix oracle",
"C04":"property-based testing: generated decorator nestings against a reference tokenizer",
"C05":"model-based testing: generated state tables and inputs against a stack-machine model",
"C06":"differential property-based testing: plain vs. state-based tokenizer",
"C07":"property-based testing: generated well- and ill-formed definitions against a validity oracle",
"C08":"property-based testing: generated grammars and inputs against a PEG reference interpreter (lexerless)",
"C09":"property-based testing: generated grammars and inputs against a PEG reference interpreter (tokenized)",
"C10":"property-based testing: generated alternations against a PEG reference interpreter",
"C11":"property-based testing: generated repetitions against a PEG reference interpreter",
"C12":"property-based and metamorphic testing: generated suffix rules against the reference interpreter and the expanded choice",
"C13":"property-based testing: generated wrapper nestings against a PEG reference interpreter",
"C14":"property-based testing: tree invariants over generated grammars and inputs",
"C15":"fault-injecting property-based testing: generated validation functions, reference interpreter",
"C16":"property-based testing: generated rejected inputs against a furthest-failure oracle",
"C17":"fuzzing: generated bytes, deep nesting and long inputs, step budgets, crash and hang isolation",
"C18":"property-based testing: generated rule graphs against a left-recursion oracle",
"C19":"metamorphic property-based testing: cached vs. uncached grammars, evaluation counters",
"C20":"metamorphic property-based testing: relaid-out token streams",
"C21":"property-based testing: generated skipped-token constructs against a reference interpreter",
"C22":"stateful property-based testing: operation histories on one parser vs. fresh parsers",
"C23":"differential property-based testing: logs on/off, two build profiles",
"C24":"property-based testing: generated texts and query orders against the definition",
"C25":"property-based testing: generated JSON documents and mutations against an independent recognizer; differential between the two parsers",
"C26":"differential property-based testing: tokenized vs. lexerless parser of one grammar",
"C27":"property-based testing: debug parses at generated offsets against the reference interpreter",
"C28":"property-based testing: structure of printed grammars of generated grammars",
"C29":"property-based testing: generated trees and queries against a pre-order walk",
"C30":"property-based testing: generated token lists and queries against list definitions",
"C32":"property-based testing: generated token lists and structural choices against a reference interpreter",
"C33":"property-based testing: one generated system built over nine families of token, node and state types against a reference interpreter",
"C34":"model-based testing: generated histories of direct production calls sharing one result cache, against a reference interpreter",
"C35":"property-based testing: what productions of generated grammars say about themselves against their matches at every position",
"C31":"differential property-based testing: two construction routes of generated grammars",
}
checks=[]
for p in P:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":"bash run.sh check %s quick"%i,"thorough_cmd":"bash run.sh check %s thorough"%i,
      "evidence_file":"evidence/%s.json"%i,"technique":T[i],"level":"exploration",
      "level_note":"No counterexample among the generated cases of the run (counts in the evidence file); not a proof. Trusts the harness: its generators, reference models and the assumptions listed in the evidence file."})
commit=subprocess.check_output(["git","-C","/repo","log","--format=%H","--grep=^hooks:"],text=True).split()
m={"version":1,"setup_cmd":"bash run.sh setup","hooks":{"guard":"cfg verif_hooks","enable":"RUSTFLAGS --cfg verif_hooks, set by harness/.cargo/config.toml when cargo runs inside /verif/harness","source_commits":commit},
 "checks":checks,"not_applicable":[],"notes":"See DESIGN.md. run.sh rebuilds the harness (with /repo as path dependency) before every check."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
