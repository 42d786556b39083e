"""The probe oracle: whether a place has a permission before a statement, decided by the compiler.

For every question a copy of the function is made in which one extra statement, which needs just that permission of
the place, stands before the statement. The place has the permission iff the compiler reports no error on the line of
the probe. All the copies are compiled in one run."""
from progen import Use, Place, is_copy, PRELUDE

NEED = {"R": "{{ let _q = &{}; }}", "W": "{{ let _q = &mut {}; }}", "O": "{{ let _q = {}; }}"}


class Probes:
    def __init__(self, prog):
        self.p = prog
        self.q = []  # (sid, text, perm)
        self.idx = {}

    def ask(self, sid, text, perm):
        k = (sid, text, perm)
        if k not in self.idx:
            self.idx[k] = len(self.q)
            self.q.append(k)
        return k

    def run(self, rustc, *args):
        """-> {question: True | False}; rustc(code, *args) gives the errors."""
        lines = PRELUDE.splitlines()
        at = {}
        for i, (sid, text, perm) in enumerate(self.q):
            _, pl = self.p.render_fn(lines, name=f"f_p{i}", probe=(sid, NEED[perm].format(text)))
            if pl is not None:
                at[pl] = self.q[i]
        lines.append("fn main() {}")
        errs = rustc("\n".join(lines) + "\n", *args)
        res = {k: True for k in at.values()}
        for e in errs:
            if e[1] in at:
                res[at[e[1]]] = False
        return res
