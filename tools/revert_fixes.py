#!/usr/bin/env python3
"""Sanity tool: undo one fix commit at a time in a scratch copy and see whether the check of its property notices.
usage: revert_fixes.py C13=<commit>[,<commit>...] ..."""
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for arg in sys.argv[1:]:
    pid, commits = arg.split("=")
    for c in commits.split(","):
        d = tempfile.mkdtemp(prefix="rev-")
        try:
            subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}; cd {d} && git init -q . && git -C /repo diff {c} {c}^ | git apply --whitespace=nowarn -", shell=True, check=True)
            r = subprocess.run([os.path.join(V, "vc"), "check", pid], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d), capture_output=True, text=True)
            lines = r.stdout.splitlines()
            i = next((k for k, l in enumerate(lines) if l.startswith("VIOLATION")), None)
            print(pid, c, "CAUGHT " + lines[i + 1].strip()[:170] if i is not None else f"MISSED rc={r.returncode} {lines[-1][:300]}", flush=True)
        except subprocess.CalledProcessError:
            print(pid, c, "does not revert cleanly", flush=True)
        finally:
            shutil.rmtree(d)
