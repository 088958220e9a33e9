#!/usr/bin/env python3
"""fizz2json.py FILE.fizz > FILE.json : FizzBee text to the syntax-tree JSON that the Go checker reads.
The repository's own parser needs the ANTLR runtime, which is not installed here; this covers the language used by
the examples and by the demonstrations under seeded/, with the structure that parser/BuildAstVisitor.py produces."""
import sys, json, re

FLOWS = {"atomic": "FLOW_ATOMIC", "serial": "FLOW_SERIAL", "parallel": "FLOW_PARALLEL", "oneof": "FLOW_ONEOF"}

def scan(s, i):
    """i at a quote: index after the string."""
    q = s[i:i+3] if s[i:i+3] in ("'''", '"""') else s[i]
    i += len(q)
    while i < len(s):
        if s[i] == "\\": i += 2; continue
        if s.startswith(q, i): return i + len(q)
        i += 1
    raise Exception("unterminated string")

def logical(text):
    """list of (indent, text without comment, raw)"""
    out = []; i = 0; n = len(text)
    while i < n:
        start = i; depth = 0; clean = []
        while i < n:
            c = text[i]
            if c in "'\"":
                j = scan(text, i); clean.append(text[i:j]); i = j; continue
            if c == "#":
                while i < n and text[i] != "\n": i += 1
                continue
            if c in "([{": depth += 1
            if c in ")]}": depth -= 1
            if c == "\\" and text[i+1:i+2] == "\n": i += 2; clean.append(" "); continue
            if c == "\n":
                if depth > 0: clean.append("\n"); i += 1; continue
                break
            clean.append(c); i += 1
        raw = text[start:i]; i += 1
        l = "".join(clean).expandtabs(4).rstrip()
        if l.strip(): out.append((len(l) - len(l.lstrip()), l.strip(), raw))
    return out

def top(s, pred):
    """positions at bracket depth 0 outside strings where pred(s, i)"""
    i = 0; d = 0
    while i < len(s):
        if s[i] in "'\"": i = scan(s, i); continue
        if d == 0 and pred(s, i): yield i
        if s[i] in "([{": d += 1
        if s[i] in ")]}": d -= 1
        i += 1

def split(s, ch):
    out = []; last = 0
    for i in top(s, lambda s, i: s[i] == ch):
        out.append(s[last:i]); last = i + 1
    out.append(s[last:])
    return out

def colon(s):
    """position of the colon that ends a header (not inside lambda)"""
    lam = 0
    for i in top(s, lambda s, i: s[i] == ":" or re.match(r"\blambda\b", s[i:]) and (i == 0 or not s[i-1].isalnum())):
        if s[i] == ":":
            if lam == 0: return i
            lam -= 1
        else: lam += 1
    return -1

E = lambda e: {"pyExpr": e}

class P:
    def __init__(self, lines): self.l = lines; self.i = 0
    def peek(self): return self.l[self.i] if self.i < len(self.l) else (-1, "", "")

    def suite(self, indent, rest, raws=None):
        """block after a colon; rest is what follows it on the line"""
        stmts = []
        if rest.strip():
            for part in split(rest, ";"):
                if part.strip(): stmts.append(self.small(part.strip()))
        else:
            ind = self.peek()[0]
            if ind <= indent: raise Exception("empty block before: " + repr(self.peek()))
            while self.peek()[0] == ind:
                stmts += self.stmt()
        stmts = [s for s in stmts if not re.match(r"('''|\"\"\")", s.get("pyStmt", {}).get("code", ""))]
        if len(stmts) == 1 and "block" in stmts[0] and "label" not in stmts[0]: return stmts[0]["block"]
        return {"stmts": stmts}

    def fair(self, words):
        m = re.match(r"fair\s*(<\s*(\w+)\s*>)?\s*(?=\w)", words)
        if not m: return None, words
        return {"level": "FAIRNESS_LEVEL_STRONG" if m.group(2) == "strong" else "FAIRNESS_LEVEL_WEAK"}, words[m.end():]

    def stmt(self):
        ind, s, raw = self.l[self.i]
        m = re.match(r"`([^`]*)`\s*", s)
        if m:
            self.i += 1 if not s[m.end():] else 0
            if s[m.end():]: self.l[self.i] = (ind, s[m.end():], raw)
            r = self.stmt(); r[0]["label"] = m.group(1); return r
        m = re.match(r"(?:(atomic|serial|parallel|oneof)\s+)?(if|while|for)\b|(fair\b.*?)?\b(any|oneof)\s+[\w,\s]+\sin\b|(atomic|serial|parallel|oneof)\s*:", s)
        if m and re.match(r"(any|oneof|fair)\b", s) or m and not m.group(4):
            self.i += 1
            c = colon(s); head, rest = s[:c], s[c+1:]
            if m.group(5): 
                b = self.suite(ind, rest); b = dict(b); b["flow"] = FLOWS[m.group(5)]
                return [{"block": b}]
            flow = FLOWS.get(m.group(1) or "")
            if m.group(2) == "if":
                cond = head[2:].strip()
                br = [{"condition": cond, "conditionExpr": E(cond), "block": self.suite(ind, rest)}]
                while self.peek()[0] == ind and re.match(r"(elif|else)\b", self.peek()[1]):
                    s = self.peek()[1]; self.i += 1; c = colon(s)
                    cond = s[4:c].strip() if s.startswith("elif") else "True"
                    br.append({"condition": cond, "conditionExpr": E(cond), "block": self.suite(ind, s[c+1:])})
                return [{"ifStmt": {"branches": br}}]
            if m.group(2) == "while":
                cond = re.sub(r"^.*?while\s*", "", head).strip()
                x = {"pyExpr": cond, "iterExpr": E(cond), "block": self.suite(ind, rest)}
                if flow: x["flow"] = flow
                return [{"whileStmt": x}]
            if m.group(2) == "for":
                h = re.sub(r"^.*?\bfor\s+", "", head, count=1)
                v, e = re.split(r"\s+in\s+", h, maxsplit=1)
                x = {"loopVars": [y.strip() for y in v.strip("()").split(",") if y.strip()], "pyExpr": e.strip(), "iterExpr": E(e.strip()), "block": self.suite(ind, rest)}
                if flow: x["flow"] = flow
                return [{"forStmt": x}]
            f, h = self.fair(head)
            h = re.sub(r"^(any|oneof)\s+", "", h)
            v, e = re.split(r"\s+in\s+", h, maxsplit=1)
            x = {"loopVars": [y.strip() for y in v.split(",") if y.strip()], "pyExpr": e.strip(), "iterExpr": E(e.strip()), "block": self.suite(ind, rest)}
            return [{"anyStmt": x}]
        if re.match(r"def\b", s):
            return [{"pyStmt": {"code": self.rawblock()}}]
        self.i += 1
        return [self.small(p.strip()) for p in split(s, ";") if p.strip()]

    def rawblock(self):
        ind, s, raw = self.l[self.i]; self.i += 1
        out = [raw]
        while self.peek()[0] > ind: out.append(self.peek()[2]); self.i += 1
        return "\n".join(x[ind:] if x[:ind].strip() == "" else x for x in "\n".join(out).split("\n"))

    def small(self, s):
        if s == "break": return {"breakStmt": {}}
        if s == "continue": return {"continueStmt": {}}
        m = re.match(r"return\b(.*)$", s, re.S)
        if m:
            e = m.group(1).strip()
            return {"returnStmt": {"pyExpr": e, "expr": E(e)} if e else {}}
        m = re.match(r"require\b(.*)$", s, re.S)
        if m: e = m.group(1).strip(); return {"requireStmt": {"condition": e, "conditionExpr": E(e)}}
        m = re.match(r"([\w.,\[\]'\" ]+?)\s*=\s*((?:fair\s*(?:<\s*\w+\s*>)?\s*)?)(any|oneof)\b(?!\s*\()(.*)$", s, re.S)
        if m:
            x = {"loopVars": [y.strip() for y in m.group(1).split(",")]}
            if m.group(2): x["fairness"] = self.fair(m.group(2) + "x")[0]
            e = m.group(4).strip(); c = colon(e); cond = None
            if c >= 0: e, cond = e[:c].strip(), e[c+1:].strip()
            else:
                for i in top(e, lambda s, i: re.match(r"\sif\s", s[i:])):
                    if not list(top(e, lambda s, j: j > i and re.match(r"\selse\s", s[j:]))): e, cond = e[:i].strip(), e[i+4:].strip(); break
            x["pyExpr"] = e; x["iterExpr"] = E(e)
            if cond: x["condition"] = cond; x["conditionExpr"] = E(cond)
            return {"anyStmt": x}
        m = re.match(r"(?:(\w+)\s*=\s*)?(?:(\w+)\s*\.\s*)?(\w+)\s*\(", s)
        if m and s.endswith(")") and m.group(3) not in ("not", "in", "and", "or", "if", "lambda"):
            ps = [i for i in top(s, lambda s, i: s[i] == "(")]
            depth = 0; end = -1; i = m.end() - 1
            while i < len(s):
                if s[i] in "'\"": i = scan(s, i); continue
                if s[i] in "([{": depth += 1
                if s[i] in ")]}":
                    depth -= 1
                    if depth == 0: end = i; break
                i += 1
            if end == len(s) - 1:
                c = {"name": m.group(3)}
                if m.group(1): c["vars"] = [m.group(1)]
                if m.group(2): c["receiver"] = m.group(2)
                a = [x.strip() for x in split(s[m.end():-1], ",") if x.strip()]
                if a: c["args"] = [{"pyExpr": x, "expr": E(x)} for x in a]
                return {"callStmt": c}
        return {"pyStmt": {"code": s}}

    def params(self, s):
        out = []
        for x in split(s, ","):
            if not x.strip(): continue
            n, _, d = x.partition("=")
            p = {"name": n.split(":")[0].strip()}
            if d: p["defaultPyExpr"] = d.strip(); p["defaultExpr"] = E(d.strip())
            out.append(p)
        return out

    def decl(self, f, deco):
        """a top level or role level item"""
        ind, s, raw = self.l[self.i]
        m = re.match(r"(?:(atomic|serial|parallel|oneof)\s+)?(fair\s*(?:<\s*\w+\s*>)?\s+)?action\s+(\w+)\s*:", s)
        if m:
            self.i += 1
            a = {"name": m.group(3)}; flow = FLOWS.get(m.group(1) or "")
            b = dict(self.suite(ind, s[m.end():])); self.flows(a, b, flow, m.group(3) == "Init")
            fr = self.fair(m.group(2) + "x")[0] if m.group(2) else {"level": "FAIRNESS_LEVEL_UNFAIR"}
            if m.group(3) == "Init": fr = {"level": "FAIRNESS_LEVEL_STRONG"}
            a["fairness"] = fr; a["block"] = b
            l = f.setdefault("actions", [])
            l.insert(0, a) if a["name"] == "Init" else l.append(a)
            return
        m = re.match(r"(?:(atomic|serial|parallel|oneof)\s+)?func\s+(\w+)\s*\(", s)
        if m:
            self.i += 1
            c = colon(s); h = s[m.end():c].rstrip()[:-1]
            a = {"name": m.group(2)}
            p = self.params(h)
            if p: a["params"] = p
            b = dict(self.suite(ind, s[c+1:])); self.flows(a, b, FLOWS.get(m.group(1) or ""), False)
            a["block"] = b
            f.setdefault("functions", []).append(a); return
        m = re.match(r"((?:(?:exists|always|eventually|transition)\s+)+)assertion\s+(\w+)\s*(\(.*?\))?\s*:", s)
        if m:
            k = self.i; code = self.rawblock(); end = self.i
            self.i = k + 1; blk = dict(self.suite(ind, s[m.end():])); assert self.i == end
            blk["flow"] = "FLOW_ATOMIC"
            inv = {"name": m.group(2), "temporalOperators": m.group(1).split(), "block": blk}
            if m.group(3): inv["params"] = self.params(m.group(3)[1:-1])
            body = "\n".join(code.split("\n")[1:])
            inv["pyCode"] = "def " + m.group(2) + "():\n" + body
            f.setdefault("invariants", []).append(inv); return
        m = re.match(r"(symmetric\s+)?role\s+(\w+)\s*:", s)
        if m:
            self.i += 1
            r = {"name": m.group(2)}
            if m.group(1): r["modifiers"] = ["symmetric"]
            d = self.peek()[0]; dc = []
            while self.peek()[0] == d: self.decl(r, dc)
            if deco: r["decorators"] = list(deco); deco.clear()
            f.setdefault("roles", []).append(r); return
        m = re.match(r"@([\w.]+)\s*(\((.*)\))?$", s, re.S)
        if m:
            self.i += 1; x = {"name": m.group(1)}
            if m.group(3):
                x["args"] = []
                for a in split(m.group(3), ","):
                    x["args"].append({"pyExpr": a.strip(), "expr": E(a.strip())})
            deco.append(x); return
        m = re.match(r"init\s*:", s)
        if m:
            code = self.rawblock().split("\n")[1:]
            ind2 = min(len(x) - len(x.lstrip()) for x in code if x.strip())
            f["states"] = {"code": "\n".join(x[ind2:] for x in code)}; return
        m = re.match(r"invariants\s*:", s)
        if m:
            self.i += 1; d = self.peek()[0]
            while self.peek()[0] == d and d > ind:
                w = self.peek()[1]; self.i += 1
                root = inv = {}
                while True:
                    k = re.match(r"(always|eventually)\b", w)
                    if not k: break
                    w = w[k.end():].strip()
                    if k.group(1) == "always" and inv.get("eventually"): inv["nested"] = {}; inv = inv["nested"]
                    inv[k.group(1)] = True
                inv["pyExpr"] = w
                f.setdefault("invariants", []).append(root)
            return
        m = re.match(r"(compose|refine)\s*:", s)
        if m:
            self.i += 1; d = self.peek()[0]; sp = []
            while self.peek()[0] == d and d > ind:
                w = self.peek()[1].rstrip(","); self.i += 1
                n, _, e = w.partition(":"); sp.append({"name": n.strip(), "expr": E(e.strip())})
            if m.group(1) == "compose": f["composition"] = {"specs": sp}
            else: f.setdefault("refinements", []).append({"specs": sp})
            return
        f.setdefault("stmts", []).extend(self.stmt())

    def flows(self, a, b, flow, init):
        if init: a["flow"] = "FLOW_ATOMIC"
        elif flow: a["flow"] = flow
        if "flow" not in a and "flow" in b: a["flow"] = b["flow"]
        elif "flow" in a and "flow" not in b: b["flow"] = a["flow"]
        elif "flow" not in a: a["flow"] = b["flow"] = "FLOW_SERIAL"

def convert(text, name="spec.fizz"):
    f = {"sourceInfo": {"fileName": name}}
    m = re.search(r"^(\s*)---[^\n]*\n([\s\S]*?)---[^\n]*\n", text, re.M)
    yaml = ""
    if m: yaml = m.group(2); text = text[m.end():]
    f["frontMatter"] = {"yaml": yaml}
    p = P(logical(text)); deco = []
    while p.i < len(p.l): p.decl(f, deco)
    return f

if __name__ == "__main__":
    json.dump(convert(open(sys.argv[1]).read(), sys.argv[1].split("/")[-1]), sys.stdout, indent=1); print()
