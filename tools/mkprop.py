"""development aid: prop(...) writes tools/props/<id>.json"""
import json
NOTE = "Proof over real arithmetic of the functions listed in the evidence, extracted from /repo on every run; float rounding, NaN and infinity are outside the proof and are only sampled by the replay harness (bounded, never counted as proved). Trusted: the extractor's rewrites, Verus/z3, the contracts of std listed as trusted_base. "
def prop(id, title, statement, text, why, mech, observe, units=None, bounded=(), assumptions=(), note="", over=("inputs",), hook=None):
    assert len(title) <= 80
    files = sorted({w for _, w in mech})
    json.dump({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": hook},
        "level_note": NOTE + note,
        "check": {"units": units or [id], "bounded": list(bounded), "assumptions": list(assumptions)}}, open("/verif/tools/props/%s.json" % id, "w"), indent=1)
