#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl and /verif/MANIFEST.json.

Run `python3 tools/gen.py` after editing.  A property is claimed when
harness/<id>.py exists; otherwise it goes to not_applicable with its reason."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, na=None, note=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=files, mech=mech, na=na, note=note))

MM = "rayflare/matrix_formalism/multiply_matrices.py"
RTF = "rayflare/ray_tracing/rt.py"
TMMF = "rayflare/transfer_matrix_method/tmm.py"
LUT = "rayflare/transfer_matrix_method/lookup_table.py"
RCW = "rayflare/rigorous_coupled_wave_analysis/rcwa.py"
ANG = "rayflare/angles.py"
IDL = "rayflare/matrix_formalism/ideal_cases.py"
PST = "rayflare/matrix_formalism/process_structure.py"
UTL = "rayflare/utilities.py"
TEX = "rayflare/textures/standard_rt_textures.py"
DTX = "rayflare/textures/define_textures.py"
DIF = "rayflare/analytic/diffraction.py"

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
            assert len(p["title"]) <= 80, p["id"]
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "harness", p["id"].lower() + ".py")) and not p["na"]:
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"],
                "technique": "symbolic execution of the real Python functions + Z3 (per-path SMT verdict), counterexamples replayed",
                "level": "model_checking",
                "level_note": (p["note"] or "") + " Bounded: floats are treated as exact reals (replay uses IEEE doubles), bounds/stubs/assumptions are listed in DESIGN.md and repeated in the evidence file.",
                "evidence_file": "evidence/%s.json" % p["id"]})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    m = {"version": 1, "setup_cmd": "./check --selftest",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the symbolic executor replaces numpy/math/random/file I/O at import boundaries at run time, inside the checking process only."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "claimed,", len(na), "not applicable")
main()
