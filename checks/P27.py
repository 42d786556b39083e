"""P27: the page of its own asks the server for what is chosen, about the code as it is now, and shows the answer, or what went wrong."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from drive import main
from web import *
from diagram import T, differs

CHECKS = ["showBoundaries", "showSteps", "passesBorrowChecker"]
BUTTONS = {"permissions": "#showPermissions", "interpreter": "#showInterpret"}


class C(WebCheck):
    pid = "P27"
    quick, thorough = 3000, 100000
    nbytes = 6144
    page_name = "standalone.js"
    rule = "two edits with an answer shown between them, and an answer that is not shown: an error, a failure, or no connection"

    def reply(self, g, op, code):
        """None: there is no connection."""
        k = g.b(10)
        if k == 0:
            return None
        if k == 1 or not any(lines_of(code)):
            return {"success": False, "stdout": "", "stderr": g.pick(["", "error: é", "no <b>"])}
        ls = lines_of(code)
        if op == "permissions":
            a = g.answer(ls)
        elif g.b(6) == 0:
            a = {"Err": g.pick(ERRS)}
        else:
            a = {"Ok": {"steps": [g.step(ls) for _ in range(1 + g.b(2))], "result": {"type": "Success"} if g.b(2) else {"type": "Error", "value": {"type": "Other", "value": "bad"}}}}
        return {"success": True, "stdout": json.dumps(a), "stderr": g.pick(["", "warning: é"]), "a": a}

    def gen(self, src):
        g = T(src)
        first = [{"success": False, "stdout": "", "stderr": g.pick(["", "x"])} if g.b(2) else {"success": True, "stdout": json.dumps(a), "stderr": g.pick(["", "y"]), "a": a} for a in ([], {"Err": {"type": "Unknown"}})]
        code = g.code(5)
        acts = [{"do": "edit", "from": 0, "insert": code, "code": code}]
        for _ in range(1 + g.b(9)):
            k = g.b(10)
            if k == 0:
                code = g.code(5)
                acts.append({"do": "edit", "from": 0, "insert": code, "code": code})
            elif k == 1:
                at = g.b(len(code) + 1)
                ins = g.pick(["x", "é😀", "\n", "let y = 1;\n"])
                u = u16(code[:at])
                code = code[:at] + ins + code[at:]
                acts.append({"do": "edit", "from": u, "to": u, "insert": ins, "code": code})
            elif k in (2, 3):
                acts.append({"do": "check", "which": g.pick(CHECKS), "on": g.b(2) == 1})
            elif k == 4:
                acts.append({"do": "tab", "n": g.b(2)})
            elif k == 5:
                if g.b(3):
                    code = g.code(5)
                    acts.append({"do": "edit", "from": 0, "insert": code, "code": code})
                else:
                    acts.append({"do": "close"})
            else:
                ops = ["permissions"] if k in (6, 7) else ["interpreter"] if k == 8 else ["permissions", "interpreter"] if g.b(2) else ["interpreter", "permissions"]
                acts.append({"do": "ask", "ops": ops, "answers": [self.reply(g, o, code) for o in ops], "delay": [g.b(2) for _ in ops]})
        return {"first": first, "acts": acts}

    def judge(self, c):
        wire = lambda x, d: None if x is None else {"delay": 1000 * d, "answer": {k: v for k, v in x.items() if k != "a"}}
        acts, server = [{"do": "playground"}], [wire(x, 0) for x in c["first"]]
        for a in c["acts"]:
            if a["do"] == "check":
                acts.append({"do": "check", "sel": "#" + a["which"], "on": a["on"]})
            elif a["do"] == "tab":
                acts.append({"do": "click", "sel": f'.tab[data-tab="{a["n"]}"]'})
            elif a["do"] == "close":
                acts.append({"do": "click", "sel": "#close"})
            elif a["do"] == "ask":
                acts += [{"do": "click", "sel": BUTTONS[o]} for o in a["ops"]] + [{"do": "playground"}, {"do": "pass", "ms": 1200}]
                server += [wire(x, d) for x, d in zip(a["answers"], a["delay"])]
            else:
                acts.append(a)
            acts.append({"do": "playground"})
            if a["do"] == "ask":
                acts += [{"do": "pass", "ms": 6000}, {"do": "playground"}]
        r = self.visit([], acts, server=server)
        errs = [e for e in r["errors"] if "Failed to fetch" not in e]
        if errs:
            return [V("error", errs[0][:1000])]
        snaps = [x for x in r["out"] if isinstance(x, dict)]
        m = {"code": None, "checks": {"showBoundaries": True, "showSteps": True, "passesBorrowChecker": False}, "stderr": "", "tab": "0", "cards": [False, False], "msg": "", "perms": None, "cfg": {}, "trace": None, "marks": False, "waiting": [[False, False]] * 2}
        sent = []
        ask = lambda o: sent.append({"url": "http://127.0.0.1:8008/" + o, "method": "POST", "type": "application/json", "code": m["code"],
                                     "config": {"stepper": m["checks"]["showSteps"], "boundaries": m["checks"]["showBoundaries"]} if o == "permissions" else {"shouldFail": not m["checks"]["passesBorrowChecker"]}})
        m["code"] = snaps[0]["code"]
        for o, x in zip(BUTTONS, c["first"]):
            ask(o)
            self.answered(m, o, x)
        v = self.compare(m, snaps.pop(0), "the page as loaded")
        if v:
            return v
        edits, shown, bad = 0, False, False
        for n, a in enumerate(c["acts"]):
            when = f"after {n + 1}: {a['do']}"
            if a["do"] == "edit":
                m["code"], m["perms"], m["marks"] = a["code"], None, False
                edits += bool(shown)
            elif a["do"] == "check":
                m["checks"][a["which"]] = a["on"]
            elif a["do"] == "tab":
                m["tab"] = str(a["n"])
            elif a["do"] == "close":
                m["cards"][1] = False
            elif a["do"] == "ask":
                late = []
                for o, x, d in zip(a["ops"], a["answers"], a["delay"]):
                    ask(o)
                    if d and x is not None:
                        late.append((o, x))
                    else:
                        self.answered(m, o, x)
                    shown |= bool(x and "a" in x)
                    bad |= not x or "a" not in x or "Err" in json.dumps(x["a"])
                m["waiting"] = [[any(o == k for o, _ in late)] * 2 for k in BUTTONS]
                v = self.compare(m, snaps.pop(0), when + ", at once")
                if v:
                    return v
                for o, x in late:
                    self.answered(m, o, x)
                m["waiting"] = [[False, False]] * 2
            v = self.compare(m, snaps.pop(0), when)
            if v:
                return v
            if a["do"] == "ask":
                m["cards"][0] = False
                v = self.compare(m, snaps.pop(0), when + " and six seconds")
                if v:
                    return v
        got = [{**{k: x[k] for k in ("url", "method", "type")}, "code": x["body"].get("code"), "config": x["body"].get("config")} for x in r["sent"]]
        if got != sent:
            return [V("sent", f"sent to the server\n{json.dumps(got, ensure_ascii=False)}\nit has to be\n{json.dumps(sent, ensure_ascii=False)}")]
        self.count("actions", len(c["acts"]))
        if edits > 1 and bad:
            self.nontrivial(self.text(c))
        return []

    def err(self, m, e):
        if e["type"] == "BuildError":
            m["tab"], m["cards"][0] = "1", True
        elif e["type"] == "AnalysisError":
            m["tab"], m["cards"][1], m["msg"] = "1", True, e["msg"]

    def answered(self, m, o, x):
        if x is None:
            return
        m["stderr"] = x["stderr"]
        if not x["success"]:
            return
        a = x["a"]
        if o == "permissions":
            for e in a:
                if "Err" in e:
                    self.err(m, e["Err"])
            m["perms"] = (a, {"stepper": m["checks"]["showSteps"], "boundaries": m["checks"]["showBoundaries"]})
        elif "Err" in a:
            self.err(m, a["Err"])
        else:
            m["trace"], m["marks"] = a["Ok"], True

    def compare(self, m, s, when):
        no = lambda sig, what: [V(sig, f"{when}: {what}")]
        if s.get("code") != m["code"]:
            return no("code", f"the code shown is {s.get('code')!r}, not {m['code']!r}")
        f = lambda t: " ".join(t.split())
        for k, got, want in (("stderr", f(s["stderr"]), f(m["stderr"])), ("tab", (s["tabs"], s["panes"]), ([m["tab"]], [m["tab"]])), ("cards", s["cards"], m["cards"]), ("message", f(s["msg"]), f(m["msg"])),
                             ("waiting", s["waiting"], m["waiting"]), ("boxes", s["checks"], [m["checks"][k] for k in CHECKS])):
            if got != want:
                return no(k, f"{k}: the page has {got}, it has to have {want}")
        a, cfg = m["perms"] or ([], {})
        st = [[at, x["letters"]] for at, x in stacks(m["code"], a, None)] if on(cfg, "boundaries") else []
        tb = [[at, [[r["path"], r["icon"], r["perms"]] for t in x["tables"] for r in t["rows"]]] for at, x in tables(m["code"], a, None)] if on(cfg, "stepper") else []
        g = [[w["at"], w["letters"]] for w in s["widgets"] if w["kind"] == "stack"]
        if g != st:
            return no("stacks", f"there are the stacks\n{g}\nthe answer says\n{st}")
        g = [[w["at"], [[r["path"], r["icon"], r["perms"]] for t in w["tables"] for r in t["rows"]]] for w in s["widgets"] if w["kind"] == "step"]
        if g != tb:
            return no("tables", f"there are the tables\n{g}\nthe answer says\n{tb}")
        if m["trace"] is None:
            if s["diagram"] or any(x["kind"] == "marker" for x in s["widgets"]):
                return no("diagram", "there is a diagram or a marker, without a trace")
        else:
            d = differs({"code": m["code"], "trace": m["trace"], "marks": [], "config": {}, "nomarks": not m["marks"]}, s, False)
            if d:
                return no(*d)
        return []


if __name__ == "__main__":
    main(C)
