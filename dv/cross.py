"""Second opinion: discharged obligations are given to other solvers as well."""
import os
import subprocess
import tempfile

import z3

from . import core


class Cross:
    def __init__(self, limit, every=7):
        self.limit, self.every, self.n = limit, every, 0
        self.count = dict(asked=0, confirmed=0, no_answer=0, contradicted=0)
        core.HOOK = self.hook

    def hook(self, pc, c, what):
        self.n += 1
        if self.count["asked"] >= self.limit or (self.n % self.every and self.n > 5):
            return
        s = z3.Solver()
        s.add(*pc)
        s.add(z3.Not(c))
        text = s.to_smt2()
        if len(text) > 400000:
            return
        self.count["asked"] += 1
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + text)
        try:
            out = []
            for cmd in (["cvc5", "--tlimit=10000", f.name], ["/usr/bin/z3", "-T:10", f.name]):
                try:
                    r = subprocess.run(cmd, capture_output=True, text=True, timeout=15)
                    out.append((r.stdout.strip().splitlines() or [""])[0])
                except (subprocess.TimeoutExpired, OSError):
                    out.append("")
                if out[-1] in ("unsat", "sat"):
                    break
            if "sat" in out:
                self.count["contradicted"] += 1
            elif "unsat" in out:
                self.count["confirmed"] += 1
            else:
                self.count["no_answer"] += 1
        finally:
            os.unlink(f.name)

    def close(self):
        core.HOOK = None
        return self.count
