"""P25: the embedded blocks of a page each show their own code and answers, and do what their buttons say."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from web import *
from diagram import T, differs

ERR = [{"type": "AnalysisError", "msg": "no é <b>"}, {"type": "BuildError", "range": None}]
URLS = [None, "http://example.org:81/", "https://play.test/aqua/", "http://h/base"]


class C(WebCheck):
    pid = "P25"
    quick, thorough = 3000, 100000
    nbytes = 6144
    rule = "two or more blocks and an edit with a refresh after it, or an answer with an error next to one without"

    def perms(self, g, code):
        return g.answer(lines_of(code))

    def trace(self, g, code):
        ls = lines_of(code)
        if g.b(6) == 0 or not any(ls):
            return {"Err": g.pick(ERR)}
        res = {"type": "Success"} if g.b(2) else {"type": "Error", "value": {"type": "Other", "value": "bad"}}
        return {"Ok": {"steps": [g.step(ls) for _ in range(1 + g.b(2))], "result": res}}

    def gen(self, src):
        g = T(src)
        blocks = []
        for _ in range(1 + g.b(3)):
            code = g.code(5) if g.b(10) else ""
            if not code:
                ops, resp = g.pick([["permissions"], ["interpreter"]]), {"permissions": [], "interpreter": {"Err": ERR[0]}}
            else:
                ops = g.pick([["permissions"], ["interpreter"], ["permissions", "interpreter"], ["interpreter", "permissions"]])
                resp = {o: self.perms(g, code) if o == "permissions" else self.trace(g, code) for o in ops}
            cfg = {k: "true" for k in ("stepper", "boundaries") if g.b(3)}
            cfg.update({k: "true" for k in ("shouldFail", "horizontal", "concreteTypes") if g.b(5) == 0})
            blocks.append({"code": code, "ops": ops, "responses": None if g.b(6) == 0 else {o: resp[o] for o in ops}, "config": cfg, "ann": g.annotations(lines_of(code)) if code and g.b(2) else None,
                           "interact": g.b(3) > 0, "url": g.pick(URLS), "bugs": g.b(4) == 0})
        # what happens on the page
        now = [b["code"] for b in blocks]
        hid = [self.starts(b["code"], (b["ann"] or {}).get("hidden_lines", []) if b["responses"] is not None else []) for b in blocks]
        acts = []
        for _ in range(g.b(11)):
            i = g.b(len(blocks))
            b = blocks[i]
            k = g.b(8)
            if k == 0:
                acts.append({"do": "copy", "block": i})
            elif k == 1 and hid[i]:
                acts.append({"do": "eye", "block": i})
            elif k == 2:
                acts.append({"do": "init"})
            elif k in (3, 4, 5) and b["interact"]:
                at = g.b(u16(now[i]) + 1)
                text = now[i].encode("utf-16-le")
                line = text[:2 * at].decode("utf-16-le", "ignore").split("\n")[-1]
                rest = text[2 * at:].decode("utf-16-le", "ignore").split("\n")[0]
                n = g.b(3) if g.b(2) else 0
                n = min(n, u16(rest))
                ins = g.pick(["", "a", "\n", "é😀", "x\n  y", "let z = 1;"])
                new = (text[:2 * at] + ins.encode("utf-16-le") + text[2 * (at + n):])
                if at in hid[i] or at == 0 or any(at < h <= at + n for h in hid[i]) or not (ins or n):
                    continue
                try:
                    now[i] = new.decode("utf-16-le")
                except UnicodeDecodeError:
                    continue
                hid[i] = [h if h < at else h - n + u16(ins) for h in hid[i]]
                acts.append({"do": "edit", "block": i, "from": at, "to": at + n, "insert": ins, "code": now[i], "hid": hid[i]})
            elif k in (6, 7) and b["interact"] and any(lines_of(now[i])):
                ans = []
                for o in b["ops"]:
                    if g.b(4) == 0:
                        ans.append({"success": False, "stdout": "", "stderr": g.pick(["", "error: é", "no"])})
                    else:
                        a = self.perms(g, now[i]) if o == "permissions" else self.trace(g, now[i])
                        ans.append({"success": True, "stdout": json.dumps(a), "stderr": g.pick(["", "warning: x"]), "a": a})
                acts.append({"do": "refresh", "block": i, "answers": ans, "delays": [g.pick([0, 5, 40]) for _ in ans]})
        return {"blocks": blocks, "acts": acts, "telemetry": g.b(2) == 1}

    def starts(self, code, lines):
        return [offset(code, {"line": l - 1, "column": 0}) for l in lines]

    def judge(self, c):
        acts, server = [{"do": "snap"}], []
        do = {"copy": ".fa-copy", "eye": ".fa-eye, .fa-eye-slash", "refresh": ".fa-refresh"}
        for a in c["acts"]:
            if a["do"] in do:
                acts.append({"do": "click", "block": a["block"], "sel": do[a["do"]]})
            else:
                acts.append(a)
            if a["do"] == "refresh":
                server += [{"delay": d, "answer": {k: v for k, v in x.items() if k != "a"}} for x, d in zip(a["answers"], a["delays"])]
                acts.append({"do": "pass", "ms": 500})
            acts.append({"do": "snap"})
        bs = []
        for b in c["blocks"]:
            k = {"data-server-url": b["url"]} if b["url"] else {}
            if b["bugs"]:
                k["data-show-bug-reporter"] = "true"
            bs.append(block(b["code"], b["ops"], b["responses"], b["config"], b["ann"], b["interact"], **k))
        r = self.visit(bs, acts, server=server, telemetry=c["telemetry"])
        if r["errors"]:
            return [V("error", r["errors"][0][:1000])]
        # the page as it has to be
        said, sent, copied = [], [], []
        page = []
        for b in c["blocks"]:
            m = {"b": b, "code": b["code"], "hid": [], "eye": False, "shown": False, "fail": False, "perms": None, "marks": None, "trace": None}
            if b["responses"] is not None:
                for o in b["ops"]:
                    self.answered(m, o, b["responses"][o], b["ann"], said)
            page.append(m)
        snaps = [x for x in r["out"] if isinstance(x, list) and x and "classes" in x[0]]
        v = self.compare(c, page, snaps[0], "the page as loaded")
        if v:
            return v
        wedit = False
        for n, (a, s) in enumerate(zip(c["acts"], snaps[1:])):
            m = page[a["block"]] if "block" in a else None
            if a["do"] == "copy":
                copied.append(m["code"])
            elif a["do"] == "eye":
                m["shown"] = not m["shown"]
            elif a["do"] == "edit":
                m["code"], m["hid"] = a["code"], a["hid"]
                m["perms"] = m["marks"] = None
                m["edited"] = True
            elif a["do"] == "refresh":
                base = m["b"]["url"] or "http://127.0.0.1:8008/"
                for o, x in zip(m["b"]["ops"], a["answers"]):
                    sent.append({"url": base[:base.rindex("/") + 1] + o, "method": "POST", "type": "application/json", "code": m["code"]})
                    said.append({"type": "ServerStderr", "error": x["stderr"]})
                    if x["success"]:
                        self.answered(m, o, x["a"], None, said)
                wedit |= m.get("edited", False) and m["perms"] is not None
            v = self.compare(c, page, s, f"after {n + 1}: {a['do']} of block {a.get('block')}")
            if v:
                return v
        if r["copied"] != copied:
            return [V("copy", f"copied {r['copied']!r}\nshown was {copied!r}")]
        got = [{**{k: x[k] for k in ("url", "method", "type")}, "code": x["body"].get("code")} for x in r["sent"]]
        if got != sent:
            return [V("sent", f"sent to the server\n{json.dumps(got, ensure_ascii=False)}\nit has to be\n{json.dumps(sent, ensure_ascii=False)}")]
        key = lambda x: json.dumps(x, sort_keys=True)
        got = sorted(key(json.loads(x)) if x[:1] == "{" else x for x in r["said"])
        if got != sorted(map(key, said)):
            return [V("reported", f"reported\n{json.dumps(got, ensure_ascii=False)}\nthe answers say\n{json.dumps(sorted(map(key, said)), ensure_ascii=False)}")]
        self.count("actions", len(c["acts"]))
        mixed = any(b["responses"] and "permissions" in b["responses"] and {"Ok", "Err"} <= {k for o in b["responses"]["permissions"] for k in o} for b in c["blocks"])
        if len(c["blocks"]) > 1 and (wedit or mixed):
            self.nontrivial(self.text(c))
        return []

    def answered(self, m, o, a, ann, said):
        cfg = m["b"]["config"]
        if ann and ann["hidden_lines"]:
            m["hid"], m["eye"] = self.starts(m["b"]["code"], ann["hidden_lines"]), True
        m["fail"] |= "shouldFail" in cfg
        if o == "permissions":
            said += [x["Err"] for x in a if "Err" in x]
            m["perms"] = (a, ann)
        elif "Err" in a:
            said.append(a["Err"])
        else:
            m["trace"] = m["marks"] = a["Ok"]

    def compare(self, c, page, snap, when):
        for i, (m, s) in enumerate(zip(page, snap)):
            b = m["b"]
            no = lambda sig, what: [V(sig, f"{when}, block {i}: {what}")]
            if "aquascope" not in s["classes"] or "aquascope-embed" in s["classes"]:
                return no("classes", f"the classes are {s['classes']}")
            if s.get("code") != m["code"]:
                return no("code", f"the code shown is {s.get('code')!r}, not {m['code']!r}")
            if (s["readOnly"], s["editable"]) != (not b["interact"], b["interact"]):
                return no("editable", f"read-only {s['readOnly']}, editable {s['editable']}; the block {'can' if b['interact'] else 'cannot'} be changed")
            want = {"fa-refresh": b["interact"], "fa-copy": True, "fa-eye": m["eye"] and not m["shown"], "fa-eye-slash": m["eye"] and m["shown"]}
            have = {k: sum(k in re.split(r"[ |]", x) for x in s["buttons"]) for k in want}
            if have != {k: int(v) for k, v in want.items()}:
                return no("buttons", f"the buttons are {s['buttons']}, they have to be {want}")
            extra = s["buttons"].count("|")
            if extra != 2 * (c["telemetry"] and b["bugs"]):
                return no("reporter", f"there are {extra} buttons to report a bug or to ask; telemetry {c['telemetry']}, reporter {b['bugs']}")
            lines = sorted(m["code"].encode("utf-16-le")[:2 * h].decode("utf-16-le").count("\n") for h in m["hid"])
            if s["hidden"] != lines or s["shown"] != m["shown"]:
                return no("hidden", f"the hidden lines are {s['hidden']}, not {lines}; {'shown' if s['shown'] else 'hidden'} now, not {'shown' if m['shown'] else 'hidden'}")
            if s["fails"] != int(m["fail"]):
                return no("fails", f"{s['fails']} signs that the code does not compile")
            a, ann = m["perms"] or ([], None)
            st = [at for at, _ in stacks(m["code"], a, ann)] if on(b["config"], "boundaries") else []
            tb = [at for at, _ in tables(m["code"], a, ann)] if on(b["config"], "stepper") else []
            for kind, w in (("stack", st), ("step", tb)):
                g = [x["at"] for x in s["widgets"] if x["kind"] == kind]
                if g != w:
                    return no(kind, f"there are {kind}s at {g}, the answer says {w}")
            if m["trace"] is None:
                if s["diagram"] or any(x["kind"] == "marker" for x in s["widgets"]):
                    return no("diagram", "there is a diagram or a marker, without a trace")
            else:
                d = differs({"code": m["code"], "trace": m["trace"], "marks": [], "config": b["config"], "nomarks": m["marks"] is None}, s, "concreteTypes" in b["config"])
                if d:
                    return no(*d)
        return []


if __name__ == "__main__":
    main(C)
