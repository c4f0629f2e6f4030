#!/usr/bin/env python3
"""Generates /verif/properties.jsonl and /verif/MANIFEST.json from one table."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (id, title, statement, over, text, why, files, symbols, level_note)
NA = []         # (id, title, statement, over, text, why, files, symbols, reason)
def prop(*a): P.append(a)
def na(*a): NA.append(a)
exec(open(os.path.join(ROOT, "lib", "props.txt")).read())

def row(a):
    return dict(id=a[0], title=a[1], statement=a[2], quantifier=dict(over=a[3], text=a[4]), why_tests_cant=a[5],
                anchors=dict(files=a[6], mechanism=[dict(name=x, where=a[6][0]) for x in a[7]]))

def main():
    allp = sorted(P + NA, key=lambda a: a[0])
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for a in allp:
            assert len(a[1]) <= 80, a[1]
            f.write(json.dumps(row(a)) + "\n")
    sys.path.insert(0, os.path.join(ROOT, "lib"))
    import vf
    units = vf.load_units()
    checks = []
    for a in sorted(P, key=lambda a: a[0]):
        hs = [h for u in units for h in u["harnesses"] if a[0] in h["props"]]
        assert hs, a[0]
        proof = any(h["kind"] == "proof" for h in hs)
        onlyp = all(h["kind"] == "proof" for h in hs)
        tech = ("contracts on the real C functions, every obligation discharged by CBMC/SAT for all inputs" if onlyp else
                "contracts on the real C functions discharged by CBMC/SAT; bounded stand-ins (labelled) for the heap-shaped parts" if proof else
                "contracts and representation invariants on the real C functions checked by CBMC/SAT, bounded stand-in (not counted as proved)")
        checks.append(dict(property=a[0], quick_cmd=f"./check {a[0]}", thorough_cmd=f"VERIF_TIER=thorough ./check {a[0]}",
                           technique=tech, level="proof" if proof else "other", level_note=a[8]))
    m = dict(version=1, setup_cmd="python3 lib/vf.py --selftest", checks=checks,
             not_applicable=[dict(property=a[0], reason=a[8]) for a in sorted(NA, key=lambda a: a[0])],
             notes="No hooks: the runner compiles /repo's sources directly with goto-cc; see DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__":
    main()
