#!/usr/bin/env python3
"""The catalogue of properties; writes properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(pid, title, statement, over, text, tests, files, mech, state=(), observe=(), note="", spec=""):
    PROPS.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
                      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                      _note=note, _spec=spec))


exec(open(os.path.join(V, "tools", "catalog_entries.py")).read())


def main():
    assert len({p["id"] for p in PROPS}) == len(PROPS)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] in {n["property"] for n in NA}:
            continue
        checks.append(dict(
            property=p["id"], quick_cmd="python3 check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py " + p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="TLA+ specification checked with TLC (%s); model behaviours replayed on the real code and recorded traces "
                      "validated against the specification" % p["_spec"],
            level="model_checking",
            level_note="The laws are model-checked exhaustively on the small-scope model; every behaviour of the model and seeded larger "
                       "scenarios are executed by the real code (rebuilt from /repo/src) and every recorded event is judged by the "
                       "specification in exact arithmetic. Not a proof for all inputs. " + p["_note"]))
    m = dict(version=1, setup_cmd="python3 check.py setup",
             hooks=dict(guard="none", enable="no hooks are needed: the drivers in /verif/harness call the public interfaces of /repo/src directly",
                        source_commits=[]),
             checks=checks, not_applicable=NA,
             notes="Language: TLA+ with TLC. See DESIGN.md. Genuine defects: known_findings.json.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
