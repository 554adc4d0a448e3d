#!/usr/bin/env python3
"""vx: assemble /repo's current source and the sidecar contracts into one file for Verus.

The text of every function that is verified is the text in /repo, edited only at the
places listed in DESIGN.md (section "What the extraction drops and rewrites"); contracts,
loop invariants and proof text are inserted from contracts/*.vc.
"""
import json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))

def norm(s):
    """token text without spaces, except between two word characters"""
    s = re.sub(r"\s+", " ", s.strip())
    s = re.sub(r"(?<![A-Za-z0-9_']) | (?![A-Za-z0-9_'])", "", s)
    return re.sub(r",(?=[>)\]])", "", s)

# ---------------------------------------------------------------- contracts
class Contract:
    def __init__(self, key): self.key = key; self.props = []; self.req = []; self.ens = []; self.pre = ""; self.post = ""; self.postr = ""; self.loops = {}; self.after = {}; self.closures = {}; self.skip = None; self.drop = None; self.opts = {}; self.used = False; self.ghost = ""; self.dec = ""; self.attr = []; self.unwind = ""; self.subst = []; self.rename = {}; self.group = ""; self.file = ""

KW = ("props", "req", "ens", "pre", "post", "postr", "loop", "iter", "inv", "dec", "lpre", "lpost", "lens", "after", "closure", "creq", "cens", "cpre", "cret", "skip", "drop", "ret", "ghost", "attr", "subst", "fdec", "cwrap", "byref", "ctypes", "rename", "state", "cvia")

def parse_contracts(path):
    """-> (contracts by key, verbatim blocks [(cond, text)])"""
    cs, verb = {}, []
    text = open(path).read()
    blocks = re.split(r"(?m)^### ?", text)
    for b in blocks[1:]:
        head, _, body = b.partition("\n")
        head = head.strip()
        if head.startswith("verbatim"):
            body = re.sub(r"(?m)^//.*\n", "", body)
            verb.append((head[8:].strip(), body)); continue
        heads = [(head, body)]
        m = re.match(r"for (.*?): (.*)$", head)
        if m:
            # for A,B,C in x/y/z,u/v/w: key
            names, _, vals = m.group(1).partition(" in ")
            names = [n.strip() for n in names.split(",")]; heads = []
            for v in vals.split(","):
                parts = [x.replace("§", ",") for x in v.strip().split("/")]; h, bo = m.group(2), body
                for n, p in zip(names, parts): h = h.replace("$" + n, p); bo = bo.replace("$" + n, p)
                heads.append((h, bo))
        if m and m.group(2).startswith("verbatim"):
            for h, bo in heads: verb.append(("", re.sub(r"(?m)^//.*\n", "", bo)))
            continue
        for h, bo in heads:
            for k in h.split(" ;; "):
                c = Contract(norm(k)); c.file = os.path.basename(path); parse_body(c, bo)
                if c.key in cs: raise Exception("duplicate contract " + c.key)
                cs[c.key] = c
    return cs, verb

def parse_body(c, body):
    cur = None; loop = None; clo = None
    def flush(kw, txt):
        nonlocal loop, clo
        txt = txt.strip()
        if kw is None: return
        if kw == "props": c.props = txt.split()
        elif kw == "req": c.req.append(txt)
        elif kw == "ens": c.ens.append(txt)
        elif kw in ("pre", "post", "postr", "ghost"): setattr(c, kw, getattr(c, kw) + txt + "\n")
        elif kw == "fdec": c.dec = txt
        elif kw == "attr": c.attr.append(txt)
        elif kw == "loop":
            m = re.match(r"(\d+)\s*(.*)$", txt, re.S); loop = {"head": m.group(2).strip().strip("`"), "iter": None, "inv": [], "dec": None, "pre": "", "post": "", "ens": []}; c.loops[int(m.group(1))] = loop
        elif kw == "iter": loop["iter"] = txt
        elif kw == "inv": loop["inv"].append(txt)
        elif kw == "lens": loop["ens"].append(txt)
        elif kw == "dec": loop["dec"] = txt
        elif kw == "lpre": loop["pre"] += txt + "\n"
        elif kw == "lpost": loop["post"] += txt + "\n"
        elif kw == "after": m = re.match(r"(\d+)\s*(.*)$", txt, re.S); c.after[int(m.group(1))] = m.group(2)
        elif kw == "closure": clo = {"req": [], "ens": [], "pre": "", "ret": None, "post": "", "types": []}; c.closures[int(txt)] = clo
        elif kw == "creq": clo["req"].append(txt)
        elif kw == "cens": clo["ens"].append(txt)
        elif kw == "cpre": clo["pre"] += txt + "\n"
        elif kw == "cwrap": clo["post"] += txt + "\n"
        elif kw == "cret": clo["ret"] = txt
        elif kw == "cvia": clo["via"] = txt
        elif kw == "ctypes": clo["types"] = [x.strip() for x in txt.split(";")]
        elif kw == "skip": c.skip = txt or "trusted"
        elif kw == "drop": c.drop = txt or "dropped"
        elif kw == "rename": a, _, b = txt.partition("="); c.rename[a.strip()] = b.strip()
        elif kw == "subst": a, _, b = txt.partition(" => "); c.subst.append((a.strip(), b.strip()))
        elif kw == "ret": c.opts["ret"] = txt
        elif kw == "state": a, _, b = txt.partition(":"); c.opts["state"] = (a.strip(), b.strip())
        elif kw == "byref": c.opts["byref"] = True
    buf = []
    for l in body.split("\n"):
        if l.startswith("//"): continue
        m = re.match(r"(\w+)(?: (.*))?$", l)
        if m and m.group(1) in KW:
            flush(cur, "\n".join(buf)); cur = m.group(1); buf = [m.group(2) or ""]
        else: buf.append(l)
    flush(cur, "\n".join(buf))

# ---------------------------------------------------------------- source
def dump(files):
    d = os.path.join(HERE, "dump")
    exe = os.path.join(d, "target/debug/vxdump")
    r = subprocess.run([exe] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode: raise Exception("vxdump: " + r.stderr.decode()[:500])
    return json.loads(r.stdout)

def build_dump():
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(HERE, "dump"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise Exception("building vxdump failed: " + r.stdout[-1500:])

SKIPMODS = {"tests", "test"}
FEATS = set()    # cargo features whose items are extracted (set per scope)
def cfg_off(attrs):
    for a in attrs:
        t = norm(a["text"])
        if not t.startswith("#[cfg("): continue
        if re.fullmatch(r'#\[cfg\(feature="(\w+)"\)\]', t) and re.search(r'"(\w+)"', t).group(1) in FEATS: continue
        if "test" in t or "feature" in t: return True
    return False

def modules(repo, work):
    """follow `mod` declarations from lib.rs; -> ordered list of (relative path, bytes, items)"""
    files = []
    for root, _, fs in os.walk(os.path.join(repo, "src")):
        for f in fs:
            if f.endswith(".rs"): files.append(os.path.join(root, f))
    by = {os.path.relpath(d["file"], os.path.join(repo, "src")): d for d in dump(sorted(files))}
    out = []
    def walk(path, modpath):
        d = by.get(path)
        if d is None: return
        src = open(os.path.join(repo, "src", path), "rb").read()
        if "error" in d: out.append((path, src, None)); return
        out.append((path, src, d["items"]))
        base = os.path.dirname(path)
        stem = os.path.basename(path)[:-3]
        if stem not in ("lib", "mod"): base = os.path.join(base, stem)
        for it in d["items"]:
            if it["kind"] == "mod" and it["items"] is None and not cfg_off(it["attrs"]) and it["name"] not in SKIPMODS:
                for cand in (os.path.join(base, it["name"] + ".rs"), os.path.join(base, it["name"], "mod.rs")):
                    if cand in by: walk(cand, modpath + [it["name"]]); break
    walk("lib.rs", [])
    return out

def expand_macros(mods, work):
    """macro_rules with a single arm and one `$X:ident` (or `:ty`) parameter, invoked as name!(Ident);"""
    res = []
    for path, src, items in mods:
        if items is None: res.append((path, src, items)); continue
        defs = {}
        for it in items:
            if it["kind"] == "macro" and it["ident"]:
                t = src[it["inner"][0]:it["inner"][1]].decode()
                m = re.match(r"\s*\(\s*\$(\w+)\s*:\s*(?:ident|ty)\s*\)\s*=>\s*\{(.*)\}\s*;?\s*$", t, re.S)
                if m: defs[it["ident"]] = (m.group(1), m.group(2))
        exps = []
        def go(name, arg, depth):
            p, body = defs[name]
            t = re.sub(r"\$" + p + r"\b", arg, body)
            exps.append((name, arg, t))
        for it in items:
            if it["kind"] == "macro" and not it["ident"] and norm(it["path"]) in defs: go(norm(it["path"]), it["tokens"].strip(), 0)
        if exps:
            fs = []
            for k, (n, a, t) in enumerate(exps):
                # nested invocations
                for _ in range(4):
                    t2 = t
                    for dn in defs:
                        p, body = defs[dn]
                        t2 = re.sub(r"\b%s!\(\s*(\w+)\s*\)\s*;" % dn, lambda m: re.sub(r"\$" + p + r"\b", m.group(1), body), t2)
                    if t2 == t: break
                    t = t2
                fs.append(t)
            fp = os.path.join(work, path.replace("/", "_") + ".expanded.rs")
            open(fp, "w").write("\n".join(fs))
            d = dump([fp])[0]
            res.append((path, src, items))
            if "items" in d: res.append((path + " (macros expanded)", open(fp, "rb").read(), d["items"]))
        else: res.append((path, src, items))
    return res

# ---------------------------------------------------------------- closures: contract from the body
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "&": "bitand", "|": "bitor", "^": "bitxor", "==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
ASG = {"+=": "add", "-=": "sub", "*=": "mul", "/=": "div", "%=": "rem", "&=": "bitand", "|=": "bitor", "^=": "bitxor"}
INTFN = {"div_floor", "mod_floor", "div_mod_floor"}
class Unsup(Exception): pass
def auto(tree, req, obs, ctx, ex):
    """spec expression for an exec expression tree; collects requirement and determinism conditions,
    and in ex the (variable, relation) pairs of calls that are only known by their relation"""
    def rec(t): return auto(t, req, obs, ctx, ex)
    def rel(path, args):
        v = "vx_t%d" % len(ex); tup = "(" + "".join(a + ", " for a in args) + ")"
        req.append("call_requires(%s, %s)" % (path, tup)); ex.append((v, "call_ensures(%s, %s, %s)" % (path, tup, v))); return v
    k = tree[0]
    if k == "path": return tree[1].replace(" ", "")
    if k == "lit": return tree[1]
    if k == "tup": return "(" + "".join(rec(t) + ", " for t in tree[1]) + ")"
    if k == "un":
        a = rec(tree[2])
        if tree[1] == "-": req.append("rq_neg(%s)" % a); obs.append("ob_neg(%s)" % a); return "sp_neg(%s)" % a
        if tree[1] == "!": req.append("rq_not(%s)" % a); obs.append("ob_not(%s)" % a); return "sp_not(%s)" % a
        if tree[1] == "*": return "(*%s)" % a
    if k == "bin" and tree[1] in BIN:
        n = BIN[tree[1]]; a = rec(tree[2]); b = rec(tree[3])
        if n in ("eq", "ne", "lt", "le", "gt", "ge"): obs.append("ob_%s(%s, %s)" % ("eq" if n in ("eq", "ne") else "cmp", a, b)); return "sp_%s(%s, %s)" % (n, a, b)
        req.append("rq_%s(%s, %s)" % (n, a, b)); obs.append("ob_%s(%s, %s)" % (n, a, b)); return "sp_%s(%s, %s)" % (n, a, b)
    if k == "if":
        c = rec(tree[1]); r1, r2 = [], []; n = len(ex)
        a = auto(tree[2], r1, obs, ctx, ex); b = auto(tree[3], r2, obs, ctx, ex)
        if r1 or r2 or len(ex) != n: raise Unsup()
        return "(if %s { %s } else { %s })" % (c, a, b)
    if k == "call" and tree[1][0] == "path":
        f = tree[1][1].replace(" ", ""); args = [rec(t) for t in tree[2]]
        last = f.split("::")[-1]
        if f.startswith("T::") or (f.split("::")[0] in ctx["aliases"] and last in INTFN): return rel(f if f.startswith("T::") else "vx_int::%s::<T>" % last, args)
    if k == "mcall" and tree[1] in ctx["mfuns"]:
        args = [rec(tree[2])] + [rec(t) for t in tree[3]]
        return rel("T::" + tree[1], args)
    if k == "idx":
        a = rec(tree[1]); b = rec(tree[2])
        req.append("rq_index(%s, %s)" % (a, b)); return "sp_index(%s, %s)" % (a, b)
    raise Unsup()

# ---------------------------------------------------------------- assembly
class Fn:
    pass

def positional(c, names):
    """$1, $2, ... in a contract are the function's parameters (self not counted)"""
    def sub(x):
        if isinstance(x, str): return re.sub(r"\$(\d)", lambda m: names[int(m.group(1)) - 1] if int(m.group(1)) <= len(names) else m.group(0), x)
        if isinstance(x, list): return [sub(y) for y in x]
        if isinstance(x, tuple): return tuple(sub(y) for y in x)
        if isinstance(x, dict): return {k: sub(v) for k, v in x.items()}
        return x
    import copy
    d = copy.copy(c); d.__dict__ = {k: (v if k in ("key", "props", "file") else sub(v)) for k, v in c.__dict__.items()}
    return d

def top_commas(t):
    out = [""]; d = 0
    for ch in t:
        if ch in "([{": d += 1
        if ch in ")]}": d -= 1
        if ch == "," and d == 0: out.append("")
        else: out[-1] += ch
    return out

class Asm:
    def __init__(self, contracts, verb, prop, ctx):
        self.c = contracts; self.verb = verb; self.prop = prop; self.ctx = ctx
        self.lines = []; self.map = []   # per generated line: (key, label) or None
        self.fns = {}                    # key -> Fn info
        self.forced = {}                 # key -> "body" (external_body) | "drop" | "nocontract"
        self.dropped = []; self.rewrites = []
    def put(self, text, tag=None):
        for l in text.split("\n"): self.lines.append(l); self.map.append(tag)

    def fnkey(self, imp, f):
        if imp is None: return norm(f["name"])
        if imp["kind"] == "trait": return norm("trait " + imp["name"] + "::" + f["name"])
        ty = norm(imp["ty"])
        return norm("<%s as %s>::%s" % (ty, norm(imp["trait"]), f["name"])) if imp["trait"] else norm(ty + "::" + f["name"])

    def state_twin(self, src, c, f):
        """state-passing translation of a function whose closures mutate what they capture: the captured state becomes a value
        that every closure call takes and returns (a FnMut closure is a relation (state, arguments) -> (state, result)).
        -> (signature edits, body edits, closure index -> state variable, state variable or None) or a reason why not"""
        B0, B1 = f["body"]; sig, E, clo, starts = [], [], {}, []; txt = lambda sp: src[sp[0]:sp[1]].decode()
        if f["rets"]: return "a `return` in a function translated to state passing"
        st = c.opts.get("state"); s0 = src[f["span"][0]:f["sigend"]].decode(); fname = None; scan = False; names = []
        if not st:
            m = re.search(r"(\w+): (?:FnMut|Fn)\(([^()]*)\)(?: -> (\w+))?", s0)
            p = [x for x in f["inputs"] if m and not x["self"] and norm(x["ty"]) == m.group(1)]
            if not p: return "no closure parameter"
            fname = p[0]["name"]; args = m.group(2); scan = args.strip().startswith("&mut ")
            var = [x["name"] for x in f["inputs"] if not x["self"] and x is not p[0]][0] if scan else "vx_s"
            S = args.strip()[5:].split(",")[0].strip() if scan else "VxS"
            a, b = f["span"][0] + len(s0[:m.start()].encode()), f["span"][0] + len(s0[:m.end()].encode())
            sig.append((a, b, "%s: Fn(%s) -> (%s, %s)" % (m.group(1), args.strip()[5:] if scan else S + (", " + args if args.strip() else ""), S, m.group(3) or "()"), None))
            i = s0.index("<"); g = f["span"][0] + len(s0[:i + 1].encode())
            if not scan: sig.append((g, g, "VxS, ", None)); e = f["paren"][1] - 1; sig.append((e, e, ("" if txt(f["paren"]).rstrip(") \n").endswith(",") else ", ") + "vx_s: VxS", None))
        else: var, S = st; 
        stateful = lambda t: re.search(r"\b%s\b" % re.escape(fname or var), t) is not None
        strip = lambda t: re.sub(r"^[&*\s]*(mut\b)?\s*", "", t).strip()
        seen = set()
        def wrapcall(span, v): starts.append((span[0], span[0], "({ let vx_q = ", None)); E.append((span[1], span[1], "; %s = vx_q.0; vx_q.1 })" % v, None))
        for call in f["calls"]:
            if fname and norm(call["func"]) == fname:
                if scan:
                    v = strip(call["args"][0]["text"]); a = call["args"][0]["span"]; E.append((a[0], a[1], v, None))
                else: v = var; i = call["fspan"][1] + txt((call["fspan"][1], call["span"][1])).index("(") + 1; E.append((i, i, v + (", " if call["args"] else ""), None))
                wrapcall(call["span"], v)
        for call in f["mcalls"] + f["calls"]:
            nm = call["name"] if "name" in call else norm(call["func"]).split("::")[-1]
            if nm not in ("map", "for_each", "init", "scan") or (call.get("func") and norm(call["func"]) == fname): continue
            hit = [a for a in call["args"] if stateful(a["text"]) and (a["text"].startswith("|") or strip(a["text"]) == fname)]
            if not hit: continue
            a = hit[0]["span"]
            if txt(a).replace(" ", "").startswith("&mut"): E.append((a[0], a[1], "&" + fname, None))
            sp = call.get("nspan") or (call["fspan"][1] - len(nm), call["fspan"][1]); E.append((sp[0], sp[1], "vx_st_" + nm, None)); seen.add(tuple(sp))
            if scan: z = call["args"][0]["span"]; v = strip(call["args"][0]["text"]); E.append((z[0], z[1], v, None))
            else: v = var; z = call["args"][-1]["span"][1]; starts.append((z, z, ", " + v, None))
            wrapcall(call["span"], v)
        for k, C in enumerate(f["closures"]):
            if stateful(txt(C["span"])): clo[k] = (scan, C["inputs"][0]["pat"] if scan else var)
        if not st:
            E.append((B0 + 1, B0 + 1, " let mut %s = %s; " % (var, var), None))
        return sig, E, clo, (None if st else (var, S)), seen, starts

    def emit_fn(self, path, src, imp, f, twin=None, st=None):
        key = self.fnkey(imp, f)
        if twin: key = norm("twin " + key)
        if st: key = norm("st " + key)
        c = self.c.get(key)
        info = Fn(); info.key = key; info.path = path; info.line = src[:f["span"][0]].count(b"\n") + 1
        info.contract = c; info.status = "verify"; info.notes = []; info.mcalls = [m["name"] for m in f["mcalls"]]; info.calls = [norm(x["func"]) for x in f["calls"]]; info.text = src[f["span"][0]:f["span"][1]].decode()
        if key in self.fns:
            key = key + "#2"; info.key = key
        self.fns[key] = info
        forced = self.forced.get(key)
        if c:
            c.used = True
            names = [p["name"] if p.get("name") else "vx_a%d" % i for i, p in enumerate(f["inputs"]) if not p["self"]]
            c = positional(c, names)
        if (c and c.drop) or forced == "drop":
            info.status = "dropped"; info.notes.append(c.drop if c and c.drop else "not accepted by Verus"); self.dropped.append(key); return
        body = f["body"]
        edits = []   # (start, end, text, tag)
        S = f["span"][0]; 
        for a in f["attrs"]: edits.append((a["span"][0], a["span"][1], "", None))
        pre_lets = ""
        for i, p in enumerate(f["inputs"]):
            if not p["self"] and not p["simple"]:
                edits.append((p["span"][0], p["span"][1], "vx_a%d: %s" % (i, p["ty"]), None)); pre_lets += "let %s = vx_a%d; " % (p["pat"], i)
        ST = None
        if st:
            ST = self.state_twin(src, c, f)
            if isinstance(ST, str): info.status = "dropped"; info.lost = True; info.notes.append(ST); self.dropped.append(key); return
            edits += ST[0]; self.rewrites.append((key, "state-passing translation: the state a FnMut closure mutates is a value that each call takes and returns"))
        rname = (c.opts.get("ret") if c else None) or "r"
        if ST and ST[3] and f["ret"]: edits.append((f["ret"]["span"][0], f["ret"]["span"][1], "(%s: (%s, %s))" % (rname, ST[3][1], src[f["ret"]["span"][0]:f["ret"]["span"][1]].decode()), None))
        elif ST and ST[3]: e = f["sigend"]; edits.append((f["paren"][1], f["paren"][1], " -> (%s: (%s, ()))" % (rname, ST[3][1]), None))
        elif f["ret"] and c is not None and forced != "nocontract":
            edits.append((f["ret"]["span"][0], f["ret"]["span"][1], "(%s: %s)" % (rname, src[f["ret"]["span"][0]:f["ret"]["span"][1]].decode()), None))
        spec = []
        if c is not None and forced != "nocontract":
            if c.req:
                spec.append(("\nrequires", (key, "requires")))
                for k, q in enumerate(c.req): spec.append(("  " + q + ",", (key, "precondition %d: %s" % (k + 1, q))))
            if c.ens:
                spec.append(("\nensures", (key, "ensures")))
                for k, q in enumerate(c.ens): spec.append(("  " + q + ",", (key, "postcondition %d: %s" % (k + 1, q))))
            if c.dec: spec.append(("\ndecreases " + c.dec + ",", (key, "decreases")))
        trusted = False
        if body is not None:
            if c is None or forced in ("body", "nocontract"): trusted = True
            elif c.skip: trusted = True
            elif self.prop and self.prop not in c.props: trusted = True; info.other = True
        if body is None: info.status = "declaration"
        elif c is None: info.status = "uncontracted"
        elif forced: info.status = "out-of-reach"
        elif c.skip: info.status = "trusted"; info.notes.append(c.skip)
        elif trusted: info.status = "other-property"
        # signature
        cut = f["sigend"]
        sig = self.apply(src, S, cut, [e for e in edits if e[1] <= cut])
        if trusted:
            self.put("#[verifier::external_body]", None)
        elif c is not None:
            for a in c.attr: self.put(a, None)
        if f["name"] in self.ctx["rename_inherent"] and imp and imp["kind"] == "impl" and not imp["trait"]: sig = re.sub(r"\bfn %s\b" % f["name"], "fn " + self.ctx["rename_inherent"][f["name"]], sig, 1)
        if twin: sig = re.sub(r"\bfn %s\b" % f["name"], "pub fn vx_twin_" + f["name"], sig, 1); self.rewrites.append((key, "verified as an inherent function (the trait cannot state its precondition)"))
        if st: sig = re.sub(r"\bfn %s\b" % f["name"], "fn vx_st_" + f["name"], sig, 1)
        if f["name"] in self.ctx["rename"] and not twin and not st: sig = re.sub(r"\bfn %s\b" % f["name"], "fn " + self.ctx["rename"][f["name"]], sig, 1)
        if f["name"] == "sample" and re.search(r"\brng: &mut R\b", sig) and "Rng" in sig: sig = re.sub(r"\brng: &mut R\b", "rng: &R", sig); self.rewrites.append((key, "rng: &mut R -> &R (the generator as a source of arbitrary draws; closures that capture by mutable reference are outside Verus)"))
        byref = c is not None and c.opts.get("byref")
        if byref and not trusted:
            sig = re.sub(r"\bFnMut\b", "Fn", sig); self.rewrites.append((key, "F: FnMut, `&mut f` -> F: Fn, `&f` (closures that capture by mutable reference are outside Verus)"))
            names_ = [p["name"] for p in f["inputs"] if p.get("name")]
            for nm in names_:
                for m in re.finditer(rb"&mut " + nm.encode() + rb"\b", src[body[0]:body[1]]):
                    edits.append((body[0] + m.start(), body[0] + m.end(), "&" + nm, None))
        self.put(sig, (key, "signature"))
        for t, tag in spec:
            for l in t.split("\n"):
                if l.strip(): self.put(l, tag)
        if body is None: self.put(";", None); return
        if trusted:
            if f["ret"] and "impl " in src[f["ret"]["span"][0]:f["ret"]["span"][1]].decode(): self.put(src[body[0]:body[1]].decode(), None)
            else: self.put("{ unimplemented!() }", None)
            return
        # body edits
        B0, B1 = body
        E = [e for e in edits if e[0] >= B0]
        if ST: E += ST[1]
        self.stclo = ST[2] if ST else {}
        def ins(pos, text, tag=None): E.append((pos, pos, text, tag))
        ins(B0 + 1, "\n" + pre_lets + "\n" + (c.pre or "") + "\n", (key, "proof text at the start"))
        loops_ok = True
        for k, L in enumerate(f["loops"]):
            lc = c.loops.get(k)
            if lc is None:
                if not c.opts.get("nol"): info.notes.append("loop %d has no invariant" % k); info.lost = True
                continue
            if lc["head"] and norm(lc["head"]) != norm((L.get("pattext", "") + " in " if L["kind"] == "for" else "") + L["text"]):
                info.notes.append("loop %d is `%s`, the invariant was written for `%s`" % (k, L["text"], lc["head"])); info.lost = True
            if lc["iter"] and L["kind"] == "for": ins(L["expr"][0], lc["iter"] + ": ")
            t = []
            if lc["inv"]:
                t.append(("\n invariant\n", (key, "invariant")))
                for q in lc["inv"]: t.append(("  " + q + ",\n", (key, "loop %d invariant: %s" % (k, q))))
            if lc["ens"]:
                t.append(("\n ensures\n", (key, "loop ensures")))
                for q in lc["ens"]: t.append(("  " + q + ",\n", (key, "loop %d ensures: %s" % (k, q))))
            if lc["dec"]: t.append((" decreases " + lc["dec"] + "\n", (key, "loop %d decreases %s" % (k, lc["dec"]))))
            for x, tag in t: ins(L["body"][0], x, tag)
            if lc["pre"]: ins(L["body"][0] + 1, "\n" + lc["pre"], (key, "proof text in loop %d" % k))
            if lc["post"]: ins(L["body"][1] - 1, "\n" + lc["post"], (key, "proof text in loop %d" % k))
            if k in c.after: ins(L["span"][1], "\n" + c.after[k] + "\n", (key, "proof text after loop %d" % k))
        for k in c.loops:
            if k >= len(f["loops"]): info.notes.append("loop %d no longer exists" % k); info.lost = True
        for k, C in enumerate(f["closures"]): self.closure(src, key, c, k, C, ins, E, info, f)
        for k in c.closures:
            if k >= len(f["closures"]): info.notes.append("closure %d no longer exists" % k); info.lost = True
        for call in f["calls"]:
            fn = norm(call["func"])
            if fn.split("::")[0] in self.aliases | {"num_integer"} and "::" in fn:
                E.append((call["fspan"][0], call["fspan"][1], "vx_int::" + fn.split("::", 1)[1], None))
            if fn in ("ptr::read", "core::ptr::read", "read") and len(call["args"]) == 1:
                m = re.match(r"& (?:mut )?(\w+) as \* const _ as \* const (.*)$", call["args"][0]["text"])
                if m:
                    E.append((call["span"][0], call["span"][1], "vx_ptr_read::<_, %s>(&%s)" % (m.group(2), m.group(1)), (key, "precondition of the cast")))
                    self.rewrites.append((key, "ptr::read of a cast -> vx_ptr_read"))
        for m in f["mcalls"]:
            if ST and tuple(m["nspan"]) in ST[4]: continue
            if m["name"] in self.ctx["rename_inherent"]:
                E.append((m["nspan"][0], m["nspan"][1], self.ctx["rename_inherent"][m["name"]], None))
            rn = c.rename.get(m["name"]) or self.ctx["rename"].get(m["name"])
            if rn: E.append((m["nspan"][0], m["nspan"][1], rn, None))
        for m in f["macros"]:
            if m["name"] == "assert":
                E.append((m["span"][0], m["span"][0] + len("assert!"), "vx_assert", None)); self.rewrites.append((key, "assert! -> vx_assert"))
            if m["name"] == "abs_diff_eq":
                # as the macro of the approx crate expands: AbsDiff::default().epsilon(e).eq(&x, &y), i.e. A::abs_diff_eq(&x, &y, e)
                parts = [p.strip() for p in top_commas(src[m["span"][0]:m["span"][1]].decode().split("(", 1)[1].rsplit(")", 1)[0])]
                parts = [p for p in parts if p]
                q = re.match(r"epsilon\s*=\s*(?!=)(.*)$", parts[2], re.S) if len(parts) == 3 else None
                if q: E.append((m["span"][0], m["span"][1], "vx_abs_diff_eq(&(%s), &(%s), %s)" % (parts[0], parts[1], q.group(1)), None)); self.rewrites.append((key, "abs_diff_eq!(x, y, epsilon = e) -> vx_abs_diff_eq(&x, &y, e)"))
        if f["tail"] is not None and len(f["loops"]) == 1 and f["loops"][0]["span"][0] == f["tail"]["span"][0] and f["loops"][0]["kind"] == "loop":
            # the value of the loop is the value of the function
            L = f["loops"][0]
            for m in re.finditer(rb"\bbreak\b(?=\s+[^;}\s'])", src[L["body"][0]:L["body"][1]]):
                E.append((L["body"][0] + m.start(), L["body"][0] + m.end(), "return", None)); self.rewrites.append((key, "`break VALUE` of the loop the function ends with -> `return VALUE`"))
        if ST and ST[3]:
            if f["tail"] is None: info.notes.append("no tail expression"); info.lost = True
            else:
                t0, t1 = f["tail"]["span"]; rt = src[f["ret"]["span"][0]:f["ret"]["span"][1]].decode() if f["ret"] else ""
                E.insert(0, (t0, t0, "\nlet vx_v%s = " % (": " + rt if rt else ""), None)); ins(t1, ";\nlet vx_res = (%s, vx_v);\n%s\nvx_res" % (ST[3][0], c.postr), (key, "proof text at the end"))
        elif c.post or c.postr:
            if f["tail"] is None:
                if c.post: ins(B1 - 1, "\n" + c.post, (key, "proof text at the end"))
                elif c.postr: info.notes.append("no tail expression"); info.lost = True
            else:
                t0, t1 = f["tail"]["span"]
                if c.post: ins(t0, "\n" + c.post + "\n", (key, "proof text at the end"))
                if c.postr: rt = src[f["ret"]["span"][0]:f["ret"]["span"][1]].decode() if f["ret"] else ""; ins(t0, "\nlet vx_res%s = " % ("" if not rt or "impl " in rt else ": " + rt), None); ins(t1, ";\n" + c.postr + "\nvx_res", (key, "proof text at the end"))
        for a, b in c.subst:
            seg = src[B0:B1].decode(); n = seg.count(a)
            if n != 1: info.notes.append("`%s` occurs %d times" % (a, n)); info.lost = True; continue
            off = B0 + len(seg[:seg.index(a)].encode()); E.append((off, off + len(a.encode()), b, None)); self.rewrites.append((key, "`%s` -> `%s`" % (a, b)))
        if ST: E += ST[5]
        self.put_edits(src, B0, B1, E, key)

    def closure(self, src, key, c, k, C, ins, E, info, f):
        cc = c.closures.get(k)
        ins_names = []; lets = ""; blets = ""; stc = self.stclo.get(k); tail = ""
        if stc:
            tys = list(cc["types"]) if cc and cc["types"] else []
            if not tys: info.notes.append("closure %d has no state type" % k); info.lost = True; tys = ["VxS"]
            ins_names.append("vx_s0: " + tys[0]); blets += "let mut %s = vx_s0; " % stc[1]; tail = "(%s, vx_cv)" % stc[1]
            if stc[0]: C = dict(C, inputs=C["inputs"][1:])
            cc = dict(cc, types=tys[1:]) if cc else cc
        for i, p in enumerate(C["inputs"]):
            mv = False
            if cc and i < len(cc["types"]) and not p["ty"]:
                t = cc["types"][i]; mv = t.startswith("move "); p = dict(p, ty=t[5:] if mv else t)
            if mv: nm = "vx_p%d_%d" % (k, i); ins_names.append(nm + ": " + p["ty"]); blets += "let %s = %s; " % (p["pat"], nm); continue
            if p["pat"] == "_": ins_names.append("vx_p%d_%d" % (k, i) + ((": " + p["ty"]) if p["ty"] else ""))
            elif p["simple"]: ins_names.append(p["pat"] + ((": " + p["ty"]) if p["ty"] else ""))
            else:
                nm = "vx_p%d_%d" % (k, i); ins_names.append(nm + ((": " + p["ty"]) if p["ty"] else "")); lets += "let %s = %s; " % (p["pat"], nm)
        req, ens = [], []
        if cc is not None and (cc["req"] or cc["ens"] or cc["ret"]):
            req, ens = cc["req"], cc["ens"]; ret = cc["ret"] or "_"
        else:
            ret = "_"
            try:
                if C["assign"]:
                    op, l, r = C["assign"]; q, o, ex = [], [], []
                    a, b = auto(l, q, o, self.ctx, ex), auto(r, q, o, self.ctx, ex); n = ASG[op]
                    if ex: raise Unsup()
                    req = ["rq_%s_assign(%s, %s)" % (n, a, b)] + q
                    ens = [" && ".join(["ob_%s_assign(%s, %s)" % (n, a, b)] + o) + " ==> sm_fin(%s, sp_%s_assign(%s, %s))" % (a, n, a, b)]; ret = "()"
                    if C["isblock"] is False: pass
                else:
                    q, o, ex = [], [], []
                    e = auto(C["tree"], q, o, dict(self.ctx, aliases=self.aliases), ex)
                    if any("vx_t" in x for x in q) and len(ex) > 1:
                        if any(("vx_t" in x and not x.startswith("call_requires(T::")) for x in q): raise Unsup()
                        q = [x for x in q if "vx_t" not in x]
                    elif any("vx_t" in x for x in q): raise Unsup()
                    concl = (" && ".join(dict.fromkeys(o)) + " ==> " if o else "") + "sm(vx_r, %s)" % e
                    if ex and e == ex[-1][0]:
                        concl = re.sub(r"\b%s\b" % e, "vx_r", ex[-1][1]); rest = ex[:-1]
                    else: rest = ex
                    if rest:
                        concl = "exists|%s| %s && (%s)" % (", ".join(v for v, _ in rest), " && ".join("#[trigger] " + c for _, c in rest), concl)
                    req = q; ens = [concl]
            except Unsup:
                info.notes.append("closure %d has no contract" % k); info.lost = True; req, ens = [], []
        wrap = lambda e: "({ %s%s })" % (lets, e) if lets else e
        wrapp = lambda e: "({ %s%s })" % (lets.replace("let (mut ", "let ("), e) if lets else e
        head = "|" + ", ".join(ins_names) + "|"
        if req or ens or ret != "_": head += " -> (vx_r: %s)" % ret
        h = [(head, None)]
        if req: h += [(" requires\n", None)] + [("  " + wrapp(q) + ",\n", (key, "closure %d precondition: %s" % (k, q))) for q in req]
        if ens: h += [(" ensures\n", None)] + [("  " + wrapp(q) + ",\n", (key, "closure %d postcondition: %s" % (k, q))) for q in ens]
        if cc and cc.get("via"): h.insert(0, (cc["via"], None))   # a verified identity function that carries the proof about the closure
        E.append((C["head"][0], C["head"][1], h, (key, "closure")))
        b0, b1 = C["body"]
        pre = cc["pre"] if cc else ""
        if stc: ins(b0, " { " + lets + blets + pre + " let vx_cv = ", (key, "closure %d body" % k)); ins(b1, "; let vx_cr = " + tail + "; " + (cc["post"] if cc else "") + " vx_cr }", None)
        elif cc and cc["post"]:
            ins(b0, " { " + lets + blets + pre + " let vx_cr = ", (key, "closure %d body" % k)); ins(b1, "; " + cc["post"] + " vx_cr }", None)
        else:
            ins(b0, " { " + lets + blets + pre + " ", (key, "closure %d body" % k)); ins(b1, " }", None)
        if cc and cc.get("via"): ins(b1, ")")
        if lets: self.rewrites.append((key, "closure parameter pattern -> let"))

    def apply(self, src, a, b, edits):
        out = ""; pos = a
        for (s, e, t, _) in sorted(edits, key=lambda x: (x[0], x[1])):
            out += src[pos:s].decode() + t; pos = e
        return out + src[pos:b].decode()
    def put_edits(self, src, a, b, edits, key):
        """emit with per-line tags; original lines are tagged with their source line"""
        segs = []; pos = a
        order = sorted(range(len(edits)), key=lambda i: (edits[i][0], edits[i][1], i))
        def orig(s, e):
            line = src[:s].count(b"\n") + 1
            for i, l in enumerate(src[s:e].decode().split("\n")):
                if i: segs.append(("\n", None))
                segs.append((l, (key, "line %d" % (line + i))))
        for i in order:
            s, e, t, tag = edits[i]
            if s < pos and e <= pos and s != e: continue
            if s < pos: continue
            orig(pos, s)
            if isinstance(t, list):
                for x, tg in t: segs.append((x, tg or tag))
            else: segs.append((t, tag))
            pos = e
        orig(pos, b)
        cur = ""; tag = None
        for t, tg in segs:
            parts = t.split("\n")
            for i, p in enumerate(parts):
                if i: self.lines.append(cur); self.map.append(tag or (key, "body")); cur = ""; tag = None
                cur += p
                if p.strip() and tg and (tag is None or tag[1].startswith("line") or tag[1] == "body"): tag = tg
        self.lines.append(cur); self.map.append(tag or (key, "body"))

    def emit_items(self, path, src, items):
        for it in items:
            if cfg_off(it.get("attrs", [])): continue
            k = it["kind"]
            if k == "struct":
                key = "struct " + it["name"]; c = self.c.get(key)
                if c: c.used = True
                if c and c.drop: self.dropped.append(key); continue
                ed = [(a["span"][0], a["span"][1], "", None) for a in it["attrs"]]
                der = [x for a in it["attrs"] for m in [re.match(r"#\[derive\((.*)\)\]$", norm(a["text"]))] if m for x in m.group(1).split(",")]
                for fl in it["fields"]:
                    s, e = fl["span"]
                    if not src[s:e].decode().lstrip().startswith("pub"): ed.append((s, s, "pub ", None))
                # visibility of the struct itself
                txt = self.apply(src, it["span"][0], it["span"][1], ed).strip()
                if not re.match(r"\s*pub\b", txt): txt = "pub " + txt
                if c:
                    for a in c.attr: self.put(a)
                d2 = [x for x in der if x in ("Clone", "Copy")]
                if d2: self.put("#[derive(%s)]" % ", ".join(d2))
                self.put(txt, (key, "struct"))
                self.reprs = getattr(self, "reprs", {}); self.reprs[it["name"]] = any(norm(a["text"]) == "#[repr(transparent)]" for a in it["attrs"])
            elif k == "impl":
                hk = norm("impl %s" % ((norm(it["trait"]) + " for " if it["trait"] else "") + norm(it["ty"])))
                c = self.c.get(hk)
                if c: c.used = True
                if (c and c.drop) or self.forced.get(hk) == "drop" or (it["trait"] and norm(it["trait"]).split("<")[0].split("::")[-1] in self.ctx["droptraits"]):
                    self.dropped.append(hk); continue
                fs = [x for x in it["items"] if x["kind"] == "fn"]
                head = src[it["span"][0]:it["brace"][0]].decode()
                for a in it["attrs"]: head = head.replace(src[a["span"][0]:a["span"][1]].decode(), "", 1)
                self.put(head.strip() + " {", (hk, "impl header"))
                if c and c.ghost: self.put(c.ghost, (hk, "ghost members"))
                for x in it["items"]:
                    if x["kind"] == "fn":
                        self.emit_fn(path, src, it, x)
                        if not it["trait"] and norm("st " + self.fnkey(it, x)) in self.c: self.emit_fn(path, src, it, x, st=True)
                    else: self.put(re.sub(r"#\[allow.*?\]", "", src[x["span"][0]:x["span"][1]].decode(), flags=re.S), (hk, "item"))
                self.put("}")
                # a trait function whose contract needs a precondition the trait does not have: its text once more, as an inherent function of the same type
                tw = [x for x in fs if norm("twin " + self.fnkey(it, x)) in self.c]
                if tw and it["trait"]:
                    assoc = {}
                    for x in it["items"]:
                        m = re.match(r"\s*type (\w+)\s*=\s*(.*?);\s*$", re.sub(r"(?m)^\s*(///.*|#\[.*\])\n", "", src[x["span"][0]:x["span"][1]].decode() if x["kind"] != "fn" else ""), re.S)
                        if m: assoc[m.group(1)] = " ".join(m.group(2).split())
                    # the text between the generics and the type is `Trait for`
                    i = re.search(r"\bfor\b(?!\s*<)", head)
                    g = re.match(r"\s*(unsafe\s+)?impl\s*", head); d = 0; e = g.end()
                    if head[e:e + 1] == "<":
                        for e in range(e, len(head)):
                            d += {"<": 1, ">": -1}.get(head[e], 0) if head[e - 1:e + 1] != "->" else 0
                            if d == 0: break
                        e += 1
                    hd = head[:e] + " " + head[i.end():]
                    self.put(hd.strip() + " {", (hk, "impl header"))
                    a0 = len(self.lines)
                    for x in tw: self.emit_fn(path, src, it, x, twin=True)
                    for j in range(a0, len(self.lines)):
                        for nm, ty in assoc.items(): self.lines[j] = re.sub(r"\bSelf::%s\b" % nm, ty.replace("\\", "\\\\"), self.lines[j])
                    self.put("}")
            elif k == "trait":
                hk = "trait " + it["name"]; c = self.c.get(norm(hk)) or self.c.get(hk)
                if c: c.used = True
                if c and c.drop: self.dropped.append(hk); continue
                head = re.sub(r"(?m)^\s*///.*\n", "", src[it["span"][0]:it["brace"][0]].decode()).strip()
                if c and re.search(r"-> Self\b|\(self\b", c.ghost) and not re.search(r"\bSized\b|\bwhere\b", head): head += (" + Sized" if re.search(r"[^:]:[^:]", head) else ": Sized"); self.rewrites.append((hk, "`: Sized` added to the trait (its contract names Self by value)"))
                self.put(head + " {", (hk, "trait header"))
                if c and c.ghost: self.put(c.ghost, (hk, "ghost members"))
                for x in it["items"]:
                    if x["kind"] == "fn": self.emit_fn(path, src, it, x)
                    else: self.put(src[x["span"][0]:x["span"][1]].decode(), (hk, "item"))
                self.put("}")
            elif k == "fn": self.emit_fn(path, src, None, it)
            elif k == "use":
                for m in re.finditer(r"num_integer :: \{[^}]*self as (\w+)", it["text"]): self.aliases.add(m.group(1))
            elif k == "other" and re.match(r"(# \[[^\]]*\] *)*(pub )?type ", it["text"]): self.put(re.sub(r"^(# \[[^\]]*\] *)*(pub )?", "pub ", it["text"]), ("type alias", "type"))

    def assemble(self, mods, scope, prelude):
        self.lines = []; self.map = []; self.fns = {}; self.dropped = []; self.rewrites = []; self.aliases = set(); self.reprs = {}
        for c in self.c.values(): c.used = False
        self.put(prelude)
        self.put("verus! {\nbroadcast use vx_std::vx_group;")
        for _, t in self.verb: self.put(t, ("(sidecar)", "verbatim"))
        for path, src, items in mods:
            for it in items or []:
                if it["kind"] == "use":
                    for m in re.finditer(r"num_integer :: \{[^}]*self as (\w+)", it["text"]): self.aliases.add(m.group(1))
        for path, src, items in mods:
            p = path.split(" ")[0]
            if items is None:
                if p in scope: self.bad.append(path)
                continue
            if p not in scope: continue
            self.put("// ---- " + path)
            self.emit_items(path, src, items)
        # last in its module and with a prover of its own: after a failing query every later query of the same prover is slow
        self.put("#[verifier::spinoff_prover] pub proof fn vx_canary() { assert(false); } // vx canary: must be rejected")
        self.put("}")
        self.put("fn main() {}")
        return "\n".join(re.sub(r"\bcrate::(?:[a-z_]\w*::)*|\bsuper::", "", l) if t else l for l, t in zip(self.lines, self.map))

# ---------------------------------------------------------------- running Verus
def run_verus(path, timeout, rlimit=30, errs=3):
    t = time.time()
    try:
        r = subprocess.run(["verus", "--triggers-mode", "silent", "--error-format=json", "--multiple-errors", str(errs), "--rlimit", str(rlimit), "--num-threads", "8", "--output-json", path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t
    diags = []
    for l in r.stderr.decode(errors="replace").split("\n"):
        if l.startswith("{"):
            try: diags.append(json.loads(l))
            except ValueError: pass
    try: js = json.loads(r.stdout.decode())
    except ValueError: js = None
    return js, diags, time.time() - t

VERIF = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic", "possible division", "unable to prove", "decreases not satisfied", "loop must have", "could not prove", "possible bit shift", "recommendation", "Resource limit", "unreachable", "failed this", "not satisfied", "closure", "index out", "possible")

# ---------------------------------------------------------------- configuration
VEC = ["traits.rs", "vector/mod.rs", "vector/base/mod.rs", "vector/base/init.rs", "vector/base/iter.rs", "vector/ops/base.rs", "vector/ops/int.rs", "vector/ops/vcmp.rs", "vector/ops/bit.rs", "vector/ops/iter.rs", "vector/dot.rs", "vector/spec.rs", "vector/math.rs"]
MAT = ["matrix/mod.rs", "matrix/base/mod.rs", "matrix/base/init.rs", "matrix/base/convert.rs", "matrix/base/iter.rs", "matrix/ops/base.rs", "matrix/ops/int.rs", "matrix/ops/vcmp.rs", "matrix/ops/bit.rs", "matrix/ops/iter.rs", "matrix/product.rs", "matrix/transpose.rs", "matrix/square.rs", "matrix/math.rs"]
MATC = ["vector.vc", "traits.vc", "vecops.vc", "vecmath.vc", "vecspec.vc", "vecstate.vc", "matrix.vc", "matops.vc", "matprod.vc", "matstate.vc"]
CX = ["complex/complex_.rs"]
QX = CX + ["complex/quaternion.rs"]
MO = QX + ["complex/moebius.rs"]
TX = MO + ["transform/" + f + ".rs" for f in ("mod", "shift", "linear", "scale", "chain", "affine", "rotation", "moebius")]
MOC = MATC + ["field.vc", "square.vc", "complex.vc", "quaternion.vc", "moebius.vc"]
SCOPES = {
    "mo": (VEC + MAT + MO, MOC),
    "tx": (VEC + MAT + TX, MOC + ["transform.vc"]),
    "ax": (VEC + MAT + TX + ["vector/approx.rs", "matrix/approx.rs", "complex/approx.rs"], MOC + ["transform.vc", "approx.vc"]),
    "rn": (VEC + MAT + TX + ["distr.rs", "vector/distr.rs", "matrix/distr.rs", "complex/distr.rs"], MOC + ["transform.vc", "floatimpl.vc", "distr.vc"]),
    "ml": (VEC + MAT, MATC + ["ring.vc", "laws.vc"]),
    "mlp": (VEC + MAT, MATC + ["field.vc", "ring.vc", "laws.vc", "poly.vc", "pv.vc", "lawv.vc"]),
    "mol": (VEC + MAT + MO, MOC + ["ring.vc", "poly.vc", "pc.vc", "lawf.vc", "lawc.vc", "pq.vc", "lawq.vc", "pm.vc", "lawm.vc"]),
    "txl": (VEC + MAT + TX, MOC + ["transform.vc", "ring.vc", "laws.vc", "poly.vc", "lawf.vc", "pc.vc", "lawc.vc", "pq.vc", "lawq.vc", "pt.vc", "lawt.vc"]),
    "dxl": (VEC + MAT + TX, MOC + ["transform.vc", "ring.vc", "laws.vc", "poly.vc", "lawf.vc", "pc.vc", "lawc.vc", "pq.vc", "lawq.vc", "pt.vc", "lawt.vc", "pr.vc", "lawr.vc", "pd.vc", "lawd.vc"]),
    "rxl": (VEC + MAT + TX, MOC + ["transform.vc", "ring.vc", "laws.vc", "poly.vc", "lawf.vc", "pc.vc", "lawc.vc", "pq.vc", "lawq.vc", "pt.vc", "lawt.vc", "pr.vc", "lawr.vc", "pv.vc", "lawl.vc"]),
    "cxl": (VEC + MAT + CX, MATC + ["field.vc", "complex.vc", "ring.vc", "poly.vc", "pc.vc", "lawf.vc", "lawc.vc"]),
    "qxl": (VEC + MAT + QX, MATC + ["field.vc", "complex.vc", "quaternion.vc", "ring.vc", "poly.vc", "pc.vc", "lawf.vc", "lawc.vc", "pq.vc", "lawq.vc"]),
    "pl": (VEC + MAT, MATC + ["field.vc", "ring.vc", "poly.vc", "pv.vc", "pc.vc", "pq.vc"]),
    "sq": (VEC + MAT, MATC + ["field.vc", "square.vc"]),
    "sql": (VEC + MAT, MATC + ["field.vc", "square.vc", "ring.vc", "laws.vc", "poly.vc", "lawf.vc", "lawx.vc", "lawy.vc", "lawz.vc"]),
    "base": (["vector/base/mod.rs", "vector/base/init.rs", "vector/base/iter.rs"], ["vector.vc"]),
    "mat": (VEC + MAT, MATC),
    "cx": (VEC + MAT + CX, MATC + ["field.vc", "complex.vc"]),
    "qx": (VEC + MAT + QX, MATC + ["field.vc", "complex.vc", "quaternion.vc"]),
    "vec": (VEC, ["vector.vc", "traits.vc", "vecops.vc", "vecmath.vc", "vecspec.vc", "vecstate.vc"]),
}
FEATURES = {"ax": ("approx",), "rn": ("rand",)}
PROPSCOPE = {p: "mat" for p in ("C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15")}
PROPSCOPE["C13"] = "mlp"; PROPSCOPE["C18"] = "cxl"; PROPSCOPE["C19"] = "qxl"; PROPSCOPE["C12"] = PROPSCOPE["C14"] = PROPSCOPE["C15"] = "ml"; PROPSCOPE["C24"] = "ax"; PROPSCOPE["C25"] = "rn"; PROPSCOPE["C06"] = "vec"; PROPSCOPE["C23"] = "mol"; PROPSCOPE["C20"] = "txl"; PROPSCOPE["C22"] = "rxl"; PROPSCOPE["C21"] = "dxl"; PROPSCOPE["C16"] = PROPSCOPE["C17"] = "sql"
CTX = {"rename_inherent": {"sum": "vx_sum"}, "rename": {"for_each": "vx_for_each", "fold": "vx_fold", "scan": "vx_scan", "all": "vx_all", "any": "vx_any", "try_into": "vx_try_into", "cloned": "vx_cloned"}, "droptraits": {"Debug", "Display", "PartialEq", "LowerExp"}, "mfuns": {"norm_l1", "norm_l_inf", "norm_l2", "norm_l2_sqr", "is_zero"}}

def is_verif(msg):
    m = msg.lower()
    return any(x.lower() in m for x in ("not satisfied", "assertion failed", "possible arithmetic", "possible division", "unable to prove", "could not prove", "resource limit", "rlimit", "precondition not", "cannot show", "might not", "possible bit shift", "unreachable", "decreases", "timed out", "solver"))

def check(prop, repo, out, verbose=False, scope=None, only=None, rlimit=30, timeout=400, smoke=False):
    os.makedirs(out, exist_ok=True)
    sc = scope or PROPSCOPE.get(prop)
    if not sc: return None
    files, vcs = SCOPES[sc]
    cs, verb = {}, []
    for v in vcs:
        c2, v2 = parse_contracts(os.path.join(HERE, "contracts", v)); 
        for k in c2:
            if k in cs: raise Exception("duplicate contract " + k)
        cs.update(c2); verb += v2
    prelude = "".join(open(os.path.join(HERE, p)).read() for p in ("prelude_ops.rs", "prelude_std.rs", "prelude_num.rs"))
    FEATS.clear(); FEATS.update(FEATURES.get(sc, ()))
    mods = expand_macros(modules(repo, out), out)
    a = Asm(cs, verb, prop, CTX); a.bad = []
    if smoke:
        # vacuity: with a false assertion at the start of every body, every function must fail
        for k, c in cs.items(): c.pre = "assert(false); // smoke\n" + c.pre
    if only:
        for k, c in cs.items():
            if only not in k: c.skip = c.skip or "not selected"
    rep = {"prop": prop, "scope": sc, "iterations": 0, "failures": [], "undecided": [], "error": None, "verus_s": 0.0}
    gen = os.path.join(out, "gen.rs")
    for it in range(10):
        rep["iterations"] += 1
        text = a.assemble(mods, files, prelude)
        open(gen, "w").write(text)
        if a.bad: rep["error"] = "cannot parse " + ", ".join(a.bad); break
        js, diags, secs = run_verus(gen, timeout, rlimit, 0 if smoke else 3)
        rep["verus_s"] += secs
        errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
        allerr = [d for d in diags if d.get("level") == "error"]
        hard = [d for d in errs if not is_verif(d["message"])]
        if js is None and not hard:
            rep["error"] = "Verus gave no result within %d s" % timeout if not allerr else allerr[0]["message"][:300]; break
        vr = (js or {}).get("verification-results", {})
        rep["vr"] = vr
        if hard:
            changed = False
            for d in hard:
                keys = []
                for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                    ln = s["line_start"] - 1
                    if 0 <= ln < len(a.map) and a.map[ln]: keys.append(a.map[ln])
                if verbose: print("HARD:", d["message"], keys[:2], [s["line_start"] for s in d["spans"]][:3]); 
                if verbose and not keys: print(d.get("rendered"))
                if not keys: continue
                key, label = keys[0]
                cur = a.forced.get(key)
                if key in a.fns or key.startswith("impl ") or key.startswith("<"):
                    nxt = "drop" if key.startswith("impl ") else ("body" if cur is None and not (a.fns[key].status in ("trusted", "other-property", "uncontracted")) and not label.startswith("sig") else ("nocontract" if cur in (None, "body") and a.fns[key].contract is not None and a.fns[key].status != "uncontracted" else "drop"))
                    if cur == "drop": continue
                    a.forced[key] = nxt; changed = True
                    if key in a.fns: rep["undecided"].append("%s: %s" % (key, d["message"].split("\n")[0][:200]))
            if not changed:
                rep["error"] = "Verus rejects the assembled file: " + "; ".join(d["message"][:200] for d in hard[:3]); break
            continue
        # verification failures
        def canary(d): return any("// vx canary" in t["text"] for s in d["spans"] for t in s.get("text", []))
        if vr and not any(canary(d) for d in errs): rep["error"] = "the canary was accepted: the assumed contracts are inconsistent"; break
        if vr: vr["errors"] -= 1
        for d in errs:
            if canary(d): continue
            tags = []
            for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                ln = s["line_start"] - 1
                if 0 <= ln < len(a.map) and a.map[ln]: tags.append(a.map[ln])
            ks = [t[0] for t in tags if t[0] in a.fns and a.fns[t[0]].status == "verify"]
            key = ks[0] if ks else (tags[0][0] if tags else "?")
            rep["failures"].append({"key": key, "message": d["message"], "tags": tags, "rendered": d.get("rendered", "")[:1500]})
            if verbose: print(d.get("rendered", "")[:1200], "   ==>", key, tags[:3])
        break
    else:
        rep["error"] = "Verus still rejects the assembled file after 10 rounds"
    rep["fns"] = a.fns; rep["unused"] = [k for k, c in cs.items() if not c.used]
    rep["laws"] = [m for _, t in verb for m in re.findall(r"\bfn (law_\w+)", t)]
    rep["dropped"] = a.dropped; rep["rewrites"] = a.rewrites
    if verbose:
        print("error:", rep["error"]); print(rep.get("vr")); print("undecided:", rep["undecided"]); print("unused:", rep["unused"]); print("dropped:", a.dropped)
        print("uncontracted:", [k for k, f in a.fns.items() if f.status == "uncontracted"])
        print("notes:", [n for n in [(k, [x for x in f.notes if x != "not selected"]) for k, f in rep["fns"].items()] if n[1]][:40])
        print("%.1f s" % rep["verus_s"])
    return rep
