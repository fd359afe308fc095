#!/usr/bin/env python3
"""Development aid: run checks on textual variants of the package in a scratch copy.

mut.py [-k substring] : every entry of dev/mutants.json-like list in dev/mutants.py
Each entry: (name, file, old, new, expected) with expected = set of properties that must report, or "quiet".
"""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mutants import MUTANTS, PROPS     # noqa: E402
from benign import BENIGN              # noqa: E402
from mutants2 import MUTANTS2          # noqa: E402
from mutants3 import MUTANTS3          # noqa: E402
from mutants4 import MUTANTS4          # noqa: E402
from mutants5 import MUTANTS5          # noqa: E402
from mutants6 import MUTANTS6          # noqa: E402
from benign2 import BENIGN2            # noqa: E402


def one(m):
    name, edits, exp = m
    d = tempfile.mkdtemp(prefix="mut.")
    try:
        shutil.copytree("/repo/otpod", d + "/otpod", ignore=shutil.ignore_patterns("__pycache__"))
        for f, old, new in edits:
            p = os.path.join(d, "otpod", f)
            s = open(p).read()
            if old not in s:
                return name, "NOT APPLICABLE: %r" % old[:60], ""
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        try:
            for f, _, _ in edits:
                compile(open(os.path.join(d, "otpod", f)).read(), f, "exec")
        except SyntaxError as e:
            return name, "SYNTAX %s" % e, ""
        props = os.environ["PROP"].split(",") if "PROP" in os.environ else sorted(exp) if isinstance(exp, (set, list)) and ONLY else PROPS
        r = subprocess.run([sys.executable, os.path.join(HERE, "..", "run.py"), "--property", ",".join(props)],
                           capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"))
        hit = sorted({l.split("property=")[1].split()[0] for l in r.stdout.splitlines() if l.startswith("VIOLATION")})
        und = [l for l in r.stdout.splitlines() if l.startswith("note:")]
        det = [l for l in r.stdout.splitlines() if l.startswith("  ")]
        if r.returncode not in (0, 1):
            return name, "CRASH " + r.stderr[-300:], ""
        if exp == "quiet":
            res = "ok quiet" if not hit else "FALSE ALARM " + ",".join(hit)
        else:
            res = "caught " + ",".join(hit) if hit else "MISSED (expected %s)" % ",".join(sorted(exp))
        return name, res + (" [%d undecided]" % len(und) if und else ""), "\n".join((det + und) if (VERB or res.startswith("FALSE")) else [])
    finally:
        shutil.rmtree(d)


VERB = "-v" in sys.argv
ONLY = "-o" in sys.argv
key = sys.argv[sys.argv.index("-k") + 1] if "-k" in sys.argv else ""
ms = [m for m in MUTANTS + MUTANTS2 + MUTANTS3 + MUTANTS4 + MUTANTS5 + MUTANTS6 + BENIGN + BENIGN2 if key in m[0]]
with ThreadPoolExecutor(7) as ex:
    n = 0
    for name, res, det in ex.map(one, ms):
        print("%-44s %s" % (name, res))
        if det:
            print(det)
