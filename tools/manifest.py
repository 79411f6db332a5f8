import json
claims="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22".split()
tvnote="Every path of the listed functions (callees included) is related, by abstract interpretation of the SSA form with inferred loop relations, to a fixed reference model of the behaviour: same outside calls, results and memory for all inputs. Assumes the model states the property (argued in DESIGN.md), no overlap between distinct arguments, pure callbacks; partial correctness only."
notes={
"C09":"A flow-insensitive may-write analysis over all functions of the library: sound for every interleaving of readers under the Go memory model, as operations that write nothing shared cannot race. Trusts the listed standard-library summaries.",
"C10":"A may-alias (points-to) analysis over all exported functions: no result stays reachable from the library, no argument is kept. Trusts the listed standard-library summaries.",
}
tech={"C09":"interprocedural may-write effect analysis","C10":"interprocedural may-alias (escape) analysis","C03":"abstract interpretation: direct proof that no offered byte is zero (fallback: translation validation against a reference model)"}
na=[("C23","Minimality compares the result with all other graphs for the same keys; it is a theorem about the algorithm, not decidable from the source by the analyses in reach. C15 decides the merging rule that minimality rests on."),
("C24","The readers do not validate units, so it does not hold of the format as designed (a dictionary file is trusted, as in the C++ original); bounding every index by the runtime size of a file is out of reach of a sound static argument."),
("C25","Amortised cost depends on runtime quantities (hash distribution, block occupancy) that no static argument in reach bounds.")]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[{"property":a,"reason":b} for a,b in na]}
for c in claims:
    m["checks"].append({"property":c,"quick_cmd":f"bash check.sh {c}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {c}","evidence_file":f"evidence/{c}.json",
      "technique":tech.get(c,"abstract interpretation: translation validation against a reference model"),
      "level":"other" if c in notes else "translation_validation","level_note":notes.get(c,tvnote)})
m["notes"]="Fixed defects and known findings: known-findings.txt. No hooks are needed in /repo."
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
