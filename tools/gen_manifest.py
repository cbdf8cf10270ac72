#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI="abstract interpretation of the SSA form, trace-partitioned, with a value-numbering domain"
T={
"C01":AI+": range and digit count of every returned key","C02":AI+": returned WIF has the value number of the specified encoding",
"C03":AI+": path conditions of true/false imply/exclude the checksum predicate","C04":AI+": success paths imply, failure paths exclude validity; result fields compared",
"C05":AI+": success paths imply, failure paths exclude validity","C06":AI+": modular linear value numbers; success/failure conditions",
"C07":AI+": network pointer/parameter flow into every result","C08":AI+": result is the value number of k*G in the group-law domain",
"C09":AI+": returned text has the value number of the SEC1 form","C10":AI+": success paths imply, failure paths exclude validity",
"C11":AI+": returned text has the value number of the P2PKH form","C12":AI+": result is the value number of P+Q in the group-law domain",
"C13":"initial-state analysis of package variables plus write-effect analysis of every operation","C14":AI+": sentence has the value number of the BIP-39 encoding (bit-level)",
"C15":AI+": success paths imply, failure paths exclude validity (bit-level)","C16":AI+": seed has the value number of the specified PBKDF2",
"C17":"constant propagation of package initialisation against the published lists","C18":"dataflow (value provenance) from crypto/rand to results, with draw counting",
"C19":"taint analysis from secrets to output, logging, error-text and package-state sinks","C20":AI+": reachability of panics and process exits",
"C21":"write-effect and alias analysis of arguments, package state and results","C22":AI+": result/error pairing on every outcome",
"C23":"effect analysis for ambient sources plus dependence of results on the arguments only","C24":"termination analysis: loop bounds, ranking and recursion on every partition",
"C25":AI+": composition of operations, value numbers of the round trip compared","C26":AI+": composition of operations, value numbers of both sides compared",
}
note="Sound for all inputs of the stated partitions as far as the models of library functions are right (listed in the evidence file and in DESIGN.md); hash functions, Base58, PBKDF2 and the curve's group operations are uninterpreted with their algebraic laws. An obligation the analysis cannot decide is printed as undecided and counted in the evidence; the current tree has none."
na={
"C27":"Timing and memory access patterns depend on math/big, the dependency's variable-time ladder and the hardware; the code is variable-time by construction (math/big throughout), so no static rule over this repository separates a good tree from a bad one.",
"C28":"Go gives no static handle on copies made by the runtime, the garbage collector and math/big; the property is false of any Go program of this kind and no rule about this source decides it.",
"C29":"The arithmetic lives in the pinned dependency github.com/aureleoules/ecdsa, outside the repository, and is about numerical results of loops over 256-bit values; C08, C12 and C26 are decided relative to it.",
}
m={"version":1,"setup_cmd":"./run.sh setup","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in na.items()],
"notes":"One analyzer (analyzer/, Go, vendored x/tools) decides every property from /repo's current source; nothing of /repo is executed. quick analyses the tree as built here; thorough repeats it for linux/amd64, linux/386 (32-bit int), windows/amd64 and darwin/arm64. /repo has no hooks, only fix: commits (KNOWN_FINDINGS.txt)."}
for i in sorted(T):
    m["checks"].append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
      "technique":T[i],"level":"other","level_note":note})
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
