#!/usr/bin/env python3
"""The one place that holds the text of the properties and the sizes of their
checks. Run by hand after an edit; it writes properties.jsonl, checks.json and
MANIFEST.json, which are committed."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, rule, note, quick, thorough=None,
         pkg="msgs", technique="property-based testing", assumptions=None, state=None, hook=None, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, rule=rule, note=note, quick=quick, thorough=thorough or {},
                  pkg=pkg, technique=technique, assumptions=assumptions or [], state=state or [], hook=hook, extra=kw))


def q(batches, per, budget=40, chunk=None, **kw):
    return dict(batches=batches, per_batch=per, budget_s=budget, chunk=chunk or max(1, batches // 40), **kw)


exec(open(os.path.join(HERE, "tools", "properties.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    checks = {}
    for p in P:
        th = dict(batches=p["quick"]["batches"] * 40, budget_s=840)
        th["chunk"] = p["quick"]["chunk"]
        th.update(p["thorough"])
        checks[p["id"]] = dict(pkg=p["pkg"], rule=p["rule"], quick=p["quick"], thorough=th,
                               assumptions=p["assumptions"], level="exploration", **p["extra"])
    json.dump({"checks": checks}, open(os.path.join(HERE, "checks.json"), "w"), indent=1)
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{"property": p["id"], "quick_cmd": "./check.sh " + p["id"],
                    "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                    "level": "exploration", "level_note": p["note"]} for p in P],
        "not_applicable": [],
        "notes": "Every check builds its harness against /repo's working tree, draws cases with pgregory.net/rapid from VERIF_SEED, runs them in up to eight processes, and shrinks a failure to a replay file (./check.sh ID --replay FILE). No hooks are added to /repo; its only commits are fixes, listed in known_findings.json.",
    }
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

    design()


def design():
    """Fills DESIGN.md from tools/design.md."""
    src = open(os.path.join(HERE, "tools", "design.md")).read()
    out = ["## Properties and how each is decided\n"]
    for p in P:
        out.append("### %s %s\n\n%s\n\n*Over:* %s.\n\n*Decided by:* %s\n\n*Assurance:* %s Quick tier: up to %d cases or %d s on eight cores; thorough: %d s.\n\n*Why the tests cannot settle it:* %s\n" % (
            p["id"], p["title"], p["statement"], p["text"], p["rule"], p["note"],
            p["quick"]["batches"] * p["quick"]["per_batch"], p["quick"]["budget_s"], p["thorough"].get("budget_s", 840), p["why"]))
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    src = src.replace("@@PROPS@@", "\n".join(out))
    src = src.replace("@@FIXED@@", "\n".join("- " + k["what"] for k in known if k["status"] == "fixed"))
    catches = json.load(open(os.path.join(HERE, "tools", "catches.json")))
    src = src.replace("@@BUGS@@", "\n".join("- %s (%s): %s" % (b, c["property"], c["caught"] or "missed") for b, c in sorted(catches.items())))
    src = src.replace("@@OPEN@@", "\n".join("- %s: %s" % (k["property"], k["what"]) for k in known if k["status"] == "open") or "- none")
    open(os.path.join(HERE, "DESIGN.md"), "w").write(src)


main()
