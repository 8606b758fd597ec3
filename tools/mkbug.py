"""mk(id, property, [(file, old, new)], needs, what, demo): write /verif/seeded/<id>/ (patch against /repo's HEAD)."""
import json, os, subprocess
def mk(i, prop, edits, needs, what, demo, venv="pb5"):
    d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short"])
    try:
        for f, old, new in edits:
            p = "/repo/" + f; s = open(p).read(); assert s.count(old) == 1, (f, old, s.count(old)); open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(f'#!/bin/sh\nexec timeout 250 /opt/venv-{venv}/bin/python -B "$(dirname "$0")/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"; API = "opentelemetry-api/src/opentelemetry/"
