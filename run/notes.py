"""Per property: what was encoded, within what bounds, under what assumptions (for the evidence files)."""
from props import PROPS
from checks import CHECKS

HOW = {
    "symx": "symbolic execution of the real code compiled from /repo: every field element is an expression over symbolic inputs, every "
            "obligation is an assertion over them decided for all of them (by normal form where it is a polynomial identity, by z3 otherwise)",
    "kani": "bounded model checking of the real code at full machine width with Kani (CBMC and a SAT solver)",
}
TRUSTED = ["rustc", "z3", "Kani/CBMC", "/verif/symx/engine (symbolic field, normal form, path exploration)", "/verif/symx/drv (recording driver)",
           "/verif/standins (ff, group, pasta_curves, blake2b_simd)"]
COMMON = ["the stand-ins for the crates that are not in this sandbox behave as the originals' documentation says"]


def of(prop):
    p = next(p for p in PROPS if p["id"] == prop)
    engines = sorted({e.rstrip("?") for e, _, _ in CHECKS[prop]})
    return {
        "explanation": "; ".join(HOW[e] for e in engines) + ". " + p["note"],
        "bounds": p["text"],
        "functions": [w for _, w in p["mech"]],
        "assumptions": (COMMON if "symx" in engines else []) + [p["note"]],
    }
