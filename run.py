#!/usr/bin/env python3
"""run.py C01 [--tier quick|thorough]        decide a property
   run.py --replay FILE                      replay a violation, printing the trace
   run.py --worker|--minimise|--replay-json  internal"""
import io
import json
import logging
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and \
        not os.environ.get("DST_REEXEC"):
    os.environ["DST_REEXEC"] = "1"
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def silent():
    """Everything the code under test prints goes nowhere."""
    class Sink(io.StringIO):
        def write(self, s):
            return len(s)
    sys.stdout = Sink()
    sys.stderr = Sink()
    logging.lastResort = None


def boot():
    from dst import patches
    patches.install()
    patches.import_all()


def main():
    a = sys.argv[1:]
    from dst import runner
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--worker":
        err = sys.stderr
        try:
            boot()
            silent()
            runner.worker(a[1:])
        except BaseException:
            import traceback
            traceback.print_exc(file=err)
            return 2
        return 0
    if a[0] == "--minimise":
        boot()
        silent()
        runner.minimise(a[1:])
        return 0
    if a[0] in ("--replay", "--replay-json"):
        if a[0] == "--replay" and not os.environ.get("DST_SCRATCH"):
            import shutil
            import tempfile
            d = tempfile.mkdtemp(prefix="dst-")
            try:
                return os.spawnve(os.P_WAIT, sys.executable, [sys.executable, "-B"] + sys.argv, runner.env(d))
            finally:
                shutil.rmtree(d, ignore_errors=True)
        real = sys.stdout
        boot()
        silent()
        r = runner.replay(a[1])
        if a[0] == "--replay-json":
            print(json.dumps({"hit": r["hit"], "same_digest": r["same_digest"]}), file=real)
        else:
            rep = json.load(open(a[1]))
            for ln in rep.get("events", []):
                print("  " + ln, file=real)
            print(json.dumps(rep["case"]), file=real)
            print(f"reproduced={r['hit']} identical={r['same_digest']} {r['message']}", file=real)
            if r["hit"]:
                print(f"VIOLATION property={rep['property']} replay={a[1]}", file=real)
        return 1 if r["hit"] else 0
    if a[0] == "--digests":
        boot()
        silent()
        from dst import selftest
        got = selftest.digests(a[1], int(a[2]), a[3] == "1")
        with open(a[4], "w") as f:
            json.dump(got, f)
        return 0
    if a[0] == "--selftest":
        from dst import selftest
        return selftest.main(a[1:])
    tier = None
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return runner.main(a[0], tier)


sys.exit(main())
