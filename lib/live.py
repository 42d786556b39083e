"""Which variables are live (read later, before being overwritten) before each statement of a generated function."""


def liveness(p):
    """-> {sid: set of uids live before the statement, "end": set()}"""
    res = {}

    def block(b, out):
        for s in reversed(b):
            out = stmt(s, out)
        return out

    def bound(s, i):
        """The variable a pattern of the statement binds in its i-th block."""
        if s.kind in ("for", "iflet") or (s.kind == "while" and s.decl):
            return {s.decl.uid}
        if s.kind == "match" and s.arms[i][1] is not None:
            return {s.arms[i][1].uid}
        return set()

    def head(s, out):
        return (out - set(s.kills)) | set(s.reads)

    jumps = []  # (live after the loop, live at its head)

    def stmt(s, out):
        if s.kind == "return":
            r = set()
        elif s.kind == "break":
            r = jumps[-1][0]
        elif s.kind == "continue":
            r = jumps[-1][1]
        elif s.kind in ("if", "match", "iflet", "block"):
            ins = [block(b, out) - bound(s, i) for i, b in enumerate(s.blocks)]
            if s.kind == "iflet" or (s.kind == "if" and len(s.blocks) < 2):
                ins.append(out)
            r = head(s, set().union(*ins))
        elif s.kind == "while":
            r = set()
            while True:
                jumps.append((out, r))
                n = head(s, out | (block(s.blocks[0], r) - bound(s, 0)))
                jumps.pop()
                if n == r:
                    break
                r = n
        elif s.kind in ("loop", "for"):
            top = set()
            while True:
                # `loop` ends with `if mk_c() { break; }`, `for` goes on to its head
                jumps.append((out, top | out if s.kind == "for" else top))
                n = block(s.blocks[0], top | out) - bound(s, 0)
                jumps.pop()
                if n == top:
                    break
                top = n
            r = head(s, top | (out if s.kind == "for" else set()))
        else:
            r = head(s, out)
        res[s.sid] = set(r)
        return r

    block(p.body, set())
    res["end"] = set()
    return res
