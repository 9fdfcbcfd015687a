"""writes MANIFEST.json from properties.jsonl and the list of claimed properties"""
import json
TECH = "contract-based deductive verification (own VC generator on the clang AST of the real functions; z3, cvc5, Groebner back ends)"
NOTE = ("Every obligation of the listed functions is discharged for all inputs and iterations over exact reals with IEEE inf/NaN; "
        "trusted: library models (std, pugixml, HDF5), the VC generator, integers without overflow except unsigned wrap below zero. ")
CLAIMED = dict(l.rstrip("\n").split("\t", 1) if "\t" in l else (l.strip(), "") for l in open("claimed.txt") if l.strip())
NA = dict(l.rstrip("\n").split("\t", 1) for l in open("not_applicable.txt") if l.strip())
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": f"python3-vt check.py {p} quick", "thorough_cmd": f"python3-vt check.py {p} thorough",
                 "evidence_file": f"evidence/{p}.json", "technique": TECH, "level": "proof", "level_note": NOTE + CLAIMED[p]}
                for p in props if p in CLAIMED],
     "not_applicable": [{"property": p, "reason": NA.get(p, "not built yet: contracts for the functions involved are still being written")}
                        for p in props if p not in CLAIMED],
     "notes": "See DESIGN.md. Checks that cannot discharge an obligation after a change fall back to the concrete driver (bounded) and say so in the evidence."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
