"""Work on planted bugs in a scratch copy.

  seed.py make <id> <property> <file> <<< {"edits": [[old, new], ...], "needs":..., "what_it_breaks":..., "demo": "..."}  (python literal on stdin)
  seed.py test <id>...        apply in a scratch copy, run demo (both ways) and the property's check
"""
import ast, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def copy():
    d = tempfile.mkdtemp(prefix="seedcopy-")
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    return d


def make(sid, prop, spec):
    d = copy()
    try:
        for path, old, new in spec["edits"]:
            p = os.path.join(d, path)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=d, capture_output=True).stdout.decode()
        assert diff
    finally:
        shutil.rmtree(d)
    out = os.path.join(HERE, "seeded", sid)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w", newline="").write(diff)
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["what_it_breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    open(os.path.join(out, "demo.py"), "w").write(
        "import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + spec["demo"].lstrip("\n"))
    open(os.path.join(out, "demo.sh"), "w").write(
        "#!/bin/sh\nexport CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(os.path.join(out, "demo.sh"), 0o755)


def test(sid):
    out = os.path.join(HERE, "seeded", sid)
    prop = json.load(open(os.path.join(out, "meta.json")))["property"]
    d = copy()
    try:
        demo = os.path.join(out, "demo.sh")
        a = subprocess.run(["sh", demo], cwd=d, capture_output=True, text=True, timeout=300)
        subprocess.run(["git", "apply", os.path.join(out, "patch.diff")], cwd=d, check=True)
        cpp = ".cpp" in open(os.path.join(out, "patch.diff")).read()
        if cpp:
            r = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=d, capture_output=True, text=True)
            if r.returncode:
                return sid, prop, "BUILD FAILS " + r.stderr[-500:]
        b = subprocess.run(["sh", demo], cwd=d, capture_output=True, text=True, timeout=300)
        t0 = time.time()
        v = os.path.join(d, ".verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
        c = subprocess.run([PY, os.path.join(v, "check.py"), prop], cwd=v, capture_output=True, text=True,
                           env={**os.environ, "PYVC_REPO": d})
        msg = f"demo clean={a.returncode} patched={b.returncode}  check={c.returncode} ({time.time()-t0:.0f}s)"
        if a.returncode != 0:
            msg += "\n DEMO CLEAN: " + (a.stdout + a.stderr)[-800:]
        if b.returncode == 0:
            msg += "\n DEMO PATCHED PASSES"
        lines = [l for l in c.stdout.splitlines() if l.strip()]
        msg += "\n    " + "\n    ".join(l[:220] for l in lines[:6]) + (c.stderr[-300:] if c.returncode not in (0, 1) else "")
        return sid, prop, msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3], ast.literal_eval(sys.stdin.read()))
    else:
        ids = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
        with ThreadPoolExecutor(3) as ex:
            for sid, prop, msg in ex.map(test, ids):
                print(sid, prop, msg, flush=True)
