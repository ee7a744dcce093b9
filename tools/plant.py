"""Confirm planted bugs in scratch copies of /repo and write the valid ones to /verif/seeded.

usage: plant.py BATCH.py [-j N] [id ...]   BATCH.py defines BUGS = [dict(id, property, file,
edits=[(old, new), ...], demo, needs, breaks)].  Each one is applied to its own copy, tested,
its demonstration and the property's quick check are run against the copy."""
import importlib.util, json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

W = "/tmp/seedwork"
V = os.environ.get("PLANT_VERIF", "/verif")   # a snapshot lets the checks be edited meanwhile


def sh(cmd, cwd, t=1500, src=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", VERIF_SEED="1", VERIF_TIER="quick")
    if src:
        env["PYTHONPATH"] = src; env["MOMLEVEL_SRC"] = src
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


DEMO = """#!/bin/bash
cd /repo && PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"
"""


def one(b, check_only=False):
    d = f"{W}/{b['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    cp = d + "/copy"
    log = []
    try:
        sh(f"cp -a /repo {cp}", "/")
        p = os.path.join(cp, "src/momlevel", b["file"])
        new = open(p).read()
        for o, n in b["edits"]:
            if new.count(o) != 1:
                return f"{b['id']} EDIT COUNT {new.count(o)} {o[:60]!r}"
            new = new.replace(o, n)
        open(p, "w").write(new)
        _, diff = sh("git diff", cp)
        open(d + "/demo.py", "w").write(b["demo"])
        src = cp + "/src"
        rc0, o0 = sh(f"/opt/venv/bin/python -W ignore {d}/demo.py", "/repo")
        rc1, o1 = sh(f"/opt/venv/bin/python -W ignore {d}/demo.py", cp, src=src)
        rt, ot = sh("/opt/venv/bin/python -m pytest tests -q -p no:cacheprovider --timeout=300", cp, src=src)
        res = {}
        for c in [b["property"]] + list(b.get("also", [])):
            rc2, o2 = sh(f"/opt/venv/bin/python -W ignore {V}/check.py {c} --tier quick", V, src=src)
            res[c] = (rc2, f"VIOLATION property={c}" in o2, o2)
        good = rc0 == 0 and rc1 != 0 and rt == 0
        rc2, vio, o2 = res[b["property"]]
        caught = rc2 == 1 and vio
        line = f"{b['id']:16s} {b['property']} {'VALID' if good else f'INVALID demo0={rc0} demo1={rc1} tests={rt}'} {'caught' if caught else f'MISSED rc={rc2}'}"
        if rc0: log.append("demo0: " + o0[-500:])
        if not caught:
            log.append(o2[-900:])
        if good:
            s = f"/verif/seeded/{b['id']}"; os.makedirs(s, exist_ok=True)
            open(s + "/patch.diff", "w").write(diff); open(s + "/demo.py", "w").write(b["demo"]); open(s + "/demo.sh", "w").write(DEMO); os.chmod(s + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(s + "/meta.json", "w"), indent=1)
        return "\n".join([line] + ["      " + x for x in log])
    finally:
        shutil.rmtree(cp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    j = 3
    if "-j" in a:
        k = a.index("-j"); j = int(a[k + 1]); del a[k:k + 2]
    spec = importlib.util.spec_from_file_location("batch", a[0]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    bugs = [b for b in m.BUGS if not a[1:] or b["id"] in a[1:]]
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, bugs):
            print(r, flush=True)


main()
