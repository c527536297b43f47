"""Write /verif/seeded/<id>/ from an edit list, and confirm it in a scratch copy of /repo.
Usage: python3 tools/plant.py FILE.py...   (each FILE defines ID, PROP, EDITS, DEMO, NEEDS, BREAKS)
Development tool only; no check uses it."""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import io, logging, os, sys, types
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.path.insert(0, os.getcwd())


class _NoKernel(types.ModuleType):
    """The native extension cannot be built here: the code falls back to its Python kernels."""
    @staticmethod
    def clear_screen():
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise ModuleNotFoundError("No module named 'esat_rust'")


sys.modules["esat_rust"] = _NoKernel("esat_rust")
import warnings
warnings.simplefilter("ignore")
import numpy as np
logging.disable(logging.CRITICAL)
np.seterr(all="ignore")


def data(m=12, n=5, k=3, seed=1):
    rng = np.random.default_rng(seed)
    V = rng.gamma(2.0, 1.0, (m, k)) @ (rng.gamma(1.0, 1.0, (k, n)) + 0.05) + 0.01
    return V, V * rng.uniform(0.05, 0.3, (m, n)) + 0.05


def expect(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.stdout.flush()
        os._exit(1)


'''


def ed(path, pairs):
    b = open(path, newline="").read()
    crlf = "\r\n" in b
    s = b.replace("\r\n", "\n")
    for a, c in pairs:
        assert s.count(a) == 1, (path, s.count(a), a)
        s = s.replace(a, c)
    open(path, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def main(files):
    bad = 0
    for f in files:
        d = runpy.run_path(f)
        dst = os.path.join(HERE, "seeded", d["ID"])
        cp = "/tmp/plant-copy"
        shutil.rmtree(cp, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", cp], check=True)
        by = {}
        for path, old, new in d["EDITS"]:
            by.setdefault(path, []).append((old, new))
        for path, pairs in by.items():
            ed(os.path.join(cp, path), pairs)
        patch = subprocess.run(["git", "-C", cp, "diff", "--binary"], capture_output=True).stdout
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "wb").write(patch)
        body = d["DEMO"].strip("\n")
        ind = "\n".join("    " + x if x else x for x in body.split("\n"))
        open(os.path.join(dst, "demo.py"), "w").write(PRE + "def main():\n" + ind + "\n\n\nif __name__ == \"__main__\":\n"
                                                      "    main()\n    print(\"ok\")\n")
        open(os.path.join(dst, "demo.sh"), "w").write(
            "#!/bin/bash\n# exit 0 if the behaviour holds, nonzero if it is broken; run with cwd /repo\n"
            "export PYTHONDONTWRITEBYTECODE=1\n"
            "exec timeout 250 /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                  open(os.path.join(dst, "meta.json"), "w"), indent=1)
        r = [subprocess.run(["bash", os.path.join(dst, "demo.sh")], cwd=w, capture_output=True, text=True)
             for w in ("/repo", cp)]
        ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", os.path.join(dst, "patch.diff")])
        t = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/data tests/model/test_sa.py "
                           "tests/model/test_ls_nmf.py tests/model/test_ws_nmf.py 2>&1 | tail -3", shell=True, cwd=cp,
                           capture_output=True, text=True, env=dict(os.environ, PYTHONPATH=cp,
                                                                    PYTHONDONTWRITEBYTECODE="1"))
        ok = r[0].returncode == 0 and r[1].returncode != 0 and ap.returncode == 0 and patch
        bad += not ok
        print(d["ID"], "OK" if ok else "BAD", "demo", r[0].returncode, r[1].returncode, "|",
              r[1].stdout.strip()[-200:], "|", t.stdout.strip().splitlines()[-1:])
        if not ok:
            print(r[0].stdout[-500:], r[0].stderr[-1500:], r[1].stderr[-500:])
        if len(sys.argv) > 1 and os.environ.get("CHECK", "1") == "1":
            props = d.get("RUN", [d["PROP"]])
            for p in props:
                c = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), p, "quick"], cwd=HERE,
                                   capture_output=True, text=True, env=dict(os.environ, DST_REPO=cp, VERIF_SEED="1"))
                print("   check", p, "exit", c.returncode, [x[:200] for x in c.stdout.splitlines()
                                                           if "VIOLATION" in x or "signature" in x.lower()][:3])
        shutil.rmtree(cp, ignore_errors=True)
    return bad


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
