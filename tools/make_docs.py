"""Writes properties.jsonl and MANIFEST.json from the entries of this file."""

import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/wulfric/"
P = []


def prop(
    id,
    title,
    statement,
    over,
    text,
    tests,
    files,
    mechanism,
    technique,
    note,
    observe=None,
    state=None,
):
    a = dict(
        files=[S + f for f in files],
        mechanism=[dict(name=n, where=S + w) for n, w in mechanism],
        hook_needed=None,
    )
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    entry = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=tests,
        anchors=a,
    )
    assert len(title) <= 80, title
    P.append((entry, technique, note))


exec(open(os.path.join(ROOT, "tools", "entries.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for e, _, _ in P:
        f.write(json.dumps(e, ensure_ascii=False) + "\n")

manifest = dict(
    version=1,
    setup_cmd="bin/setup",
    checks=[
        dict(
            property=e["id"],
            quick_cmd=f"bin/check {e['id']} quick",
            thorough_cmd=f"bin/check {e['id']} thorough",
            evidence_file=f"evidence/{e['id']}.json",
            technique=t,
            level="exploration",
            level_note=n,
        )
        for e, t, n in P
    ],
    not_applicable=NOT_APPLICABLE,
    notes=(
        "No hooks in /repo: everything the oracles need is observable at the public interface, "
        "the monitors wrap the calls at the client boundary. Known findings and repaired "
        "defects: KNOWN_FINDINGS.txt."
    ),
)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")

import jsonschema

sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for e, _, _ in P:
    jsonschema.validate(e, sch)
jsonschema.validate(manifest, json.load(open("/root/.vp/MANIFEST.schema.json")))
ids = [e["id"] for e, _, _ in P]
assert len(set(ids)) == len(ids)
for i in ids:
    assert os.path.exists(os.path.join(ROOT, "checks", i + ".py")), i
print(len(ids), "properties")
