#!/usr/bin/env python3
"""Confirm planted bugs: tools/seed.py SPEC.py [ids...]

SPEC.py calls bug(id, property, needs, breaks, edits, demo).  Each bug is applied in a scratch copy of /repo, the
existing tests are run there, its demonstration is run on both trees, and the check of its property on the copy.
Only confirmed bugs are written to /verif/seeded/<id>/.  Nothing here is read by a check."""
import concurrent.futures as cf, json, os, pathlib, shutil, subprocess, sys
root = pathlib.Path(__file__).resolve().parent.parent
specs = []


def bug(id, prop, needs, breaks, edits, demo):
    specs.append((id, prop, needs, breaks, edits, demo))


def sh(cmd, cwd, env=None, timeout=900):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def confirm(spec):
    id, prop, needs, breaks, edits, demo = spec
    work = pathlib.Path(f"/tmp/seedwork_{id}")
    shutil.rmtree(work, ignore_errors=True)
    sh(f"cp -a /repo {work}", "/tmp")
    try:
        for file, old, new in edits:
            p = work/file
            s = p.read_text()
            if s.count(old) != 1:
                return id, prop, f"EDIT: {file}: {s.count(old)} matches of {old!r}"
            p.write_text(s.replace(old, new))
        diff = sh("git diff", work).stdout
        env = dict(PYTHONPATH=f"{work}:/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   NUMEXPR_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", MPLBACKEND="agg", MPLCONFIGDIR="/opt/venv/mplconfig", LC_ALL="C.UTF-8",
                   HYPOTHESIS_STORAGE_DIRECTORY=f"/tmp/seedwork_{id}/.hyp")
        common = "/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=120 -n 4 "
        t1 = sh(common + "--hypothesis-profile=ci", work, env)
        t2 = sh(common + "-p gftool_doctest --doctest-modules --doctest-glob='docs/source/*.rst' -o 'doctest_optionflags=ELLIPSIS IGNORE_EXCEPTION_DETAIL DONT_ACCEPT_TRUE_FOR_1' "
                "-W ignore --ignore=gftool/tests --ignore=docs/source/conf.py --ignore=docs/source/dos_gallary.py gftool docs/source", work, env)
        base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None
        tests = (t1.stdout.strip().splitlines() or [""])[-1] + " | " + (t2.stdout.strip().splitlines() or [""])[-1]
        fails = [l for l in (t1.stdout + t2.stdout).splitlines() if l.startswith(("FAILED", "ERROR"))]
        dd = pathlib.Path(f"/tmp/seeddemo_{id}")
        shutil.rmtree(dd, ignore_errors=True); dd.mkdir()
        (dd/"demo.py").write_text(demo.strip() + "\n")
        (dd/"demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(dd/"demo.sh", 0o755)
        ok = sh(f"bash {dd}/demo.sh", "/repo", dict(PYTHONPATH="/repo"), 300)
        bad = sh(f"bash {dd}/demo.sh", work, dict(PYTHONPATH=str(work)), 300)
        chk = sh(f"/verif/check {prop} quick", "/verif", dict(VERIF_REPO=str(work), VERIF_EVIDENCE=f"/tmp/seedwork_{id}/.ev"))
        msg = f"tests[{tests}] fails={len(fails)} demo clean={ok.returncode} mutant={bad.returncode} check={chk.returncode}"
        if fails: msg += "\n   " + "\n   ".join(fails[:3])
        if ok.returncode: msg += "\n   DEMO CLEAN: " + ok.stderr[-300:]
        if chk.returncode not in (0, 1): msg += "\n   " + chk.stderr[-300:]
        v = [l for l in chk.stdout.splitlines() if l.startswith("VIOLATION")]
        msg += f"\n   violations: {v[:2]}"
        if not fails and ok.returncode == 0 and bad.returncode != 0 and " passed" in t1.stdout:
            out = root/"seeded"/id
            shutil.rmtree(out, ignore_errors=True); out.mkdir(parents=True)
            (out/"patch.diff").write_text(diff)
            shutil.copy(dd/"demo.py", out); shutil.copy(dd/"demo.sh", out)
            (out/"meta.json").write_text(json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n")
            msg = "KEPT " + msg
        else:
            msg = "REJECTED " + msg
        shutil.rmtree(dd, ignore_errors=True)
        return id, prop, msg
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
    todo = [s for s in specs if not sys.argv[2:] or s[0] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(confirm, todo):
            print(*r, flush=True)
