"""Symbolic execution of the extraction API, padding and entry points (crates/zkwasm compiled to wasm, run by
crates/wsym) and the questions asked about the resulting paths."""
import json, os, random, re, shutil, subprocess, tempfile, time, traceback
import aig, circom, common, corpus, prio, rref, symcirc, tv

ASCII = (1 << 128) - 1


def build():
    b = common.cargo("wsym", "wsym")
    os.environ["WX_WSYM"] = os.path.join(b, "release", "wsym")
    os.environ["WX_WASM"] = common.build_wasm()
    os.environ["ZKDRIVE_EXE"] = common.build_drive()


class Engine:
    def __init__(self):
        self.p = subprocess.Popen([os.environ["WX_WSYM"], os.environ["WX_WASM"]], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def ask(self, cfg, doms, **kw):
        self.p.stdin.write(json.dumps(dict(config=cfg, doms=["%x" % d for d in doms], **kw)) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            err = self.p.stderr.read()[-400:]
            self.__init__()
            raise common.CheckError(f"the symbolic executor stopped on {cfg}: {err}")
        return json.loads(line)


_eng = None


def engine():
    global _eng
    if _eng is None:
        _eng = Engine()
    return _eng


# ---------------------------------------------------------------- domains
def fixed(text):
    return [1 << b for b in text]


UTF8 = {2: [(0xC2, 0xDF)], 3: [(0xE1, 0xEC)], 4: [(0xF1, 0xF3)]}
CONT = rref.mask_of(0x80, 0xBF)


def multibyte(k):
    return [rref.mask_of(*UTF8[k][0])] + [CONT] * (k - 1)


def size(doms):
    n = 1
    for d in doms:
        n *= bin(d).count("1")
    return n


class Run:
    """The explored paths of one job over an AIG."""

    def __init__(self, cfg, doms, sym=False, max_paths=20000, secs=120, fns=False, **kw):
        self.cfg, self.doms = cfg, doms
        r = engine().ask(cfg, doms, sym=sym, max_paths=max_paths, secs=secs, fns=fns, **kw)
        self.r, self.paths, self.complete, self.why = r, r["paths"], r["complete"], r["why"]
        if not self.complete:
            return
        g = self.g = aig.AIG()
        self.bits, self.dom = [], []
        for i, d in enumerate(doms):
            if d & (d - 1) == 0:
                v = d.bit_length() - 1
                self.bits.append([v >> k & 1 for k in range(8)])
            else:
                b = [g.input(f"b{i}_{k}") for k in range(8)]
                self.bits.append(b)
                self.dom.append(g.byte_in(b, d))

    def names(self):
        return [f"b{i}_{k}" for i, d in enumerate(self.doms) if d & (d - 1) for k in range(8)]

    def box(self, p):
        out = []
        for i, h in enumerate(p["box"]):
            m = int(h, 16)
            if m != self.doms[i]:
                out.append(self.g.byte_in(self.bits[i], m))
        return self.g.And_n(out)

    def grouped(self):
        """[(result, literal: the input lies on a path with that result)]; result = words or ('trap', why)"""
        by = {}
        for p in self.paths:
            k = ("trap", p["trap"]) if "trap" in p else tuple(json.dumps(w) if isinstance(w, dict) else w for w in p["out"])
            by.setdefault(k, []).append(p)
        self.by = by
        out = []
        for k, ps in by.items():
            l = self.g.Or_n(self.box(p) for p in ps)
            out.append((k, l))
        return out

    def word(self, w):
        """Bits of a result word."""
        if isinstance(w, str):
            w = json.loads(w)
            bits = self.bits[w["byte"]]
            out = []
            for k in range(32):
                m = 0
                for v, x in w["table"]:
                    if x >> k & 1:
                        m |= 1 << v
                out.append(self.g.byte_in(bits, m) if m else 0)
            return out
        return [w >> k & 1 for k in range(32)]

    def members(self, paths):
        """One input per path: any byte each of its boxes allows."""
        for p in paths:
            yield bytes((int(h, 16) & -int(h, 16)).bit_length() - 1 for h in p["box"])

    def decide(self, res, bad):
        """None, or the bytes of an input with `bad`."""
        res.obligations += 1
        m = aig.solve(self.g, self.dom + [bad], res.stats, tv.TIMEOUT)
        if m is None:
            return None
        out = []
        for i, d in enumerate(self.doms):
            if d & (d - 1) == 0:
                out.append(d.bit_length() - 1)
            else:
                out.append(sum(1 << k for k in range(8) if m.get(f"b{i}_{k}")))
        return bytes(out)

    def covered(self, res, groups):
        """The paths cover the whole domain (they are disjoint by construction; counted as well)."""
        n = 0
        for p in self.paths:
            k = 1
            for h in p["box"]:
                k *= bin(int(h, 16)).count("1")
            n += k
        if n != size(self.doms):
            raise common.CheckError(f"{self.cfg}: the paths cover {n} of {size(self.doms)} inputs")
        m = self.decide(res, self.g.Or_n(l for _, l in groups) ^ 1)
        if m is not None:
            raise common.CheckError(f"{self.cfg}: no path for {m!r}")


def tally(res, run):
    i = res.info
    i["jobs"] = i.get("jobs", 0) + 1
    i["paths"] = i.get("paths", 0) + len(run.paths)
    i["steps"] = i.get("steps", 0) + run.r["steps"]
    i["decisions"] = i.get("decisions", 0) + run.r["decisions"]
    i["inputs"] = i.get("inputs", 0) + size(run.doms)
    i.setdefault("fns", set()).update(f for f in run.r["fns"])
    n = sum(1 for d in run.doms if d & (d - 1))
    i["symbolic"] = max(i.get("symbolic", 0), n)
    i["length"] = max(i.get("length", 0), len(run.doms))


# ---------------------------------------------------------------- extraction against the reference
def expected(parts, text, all_):
    s = prio.concrete([r for _, r in parts], text)
    return None if s is None else [list(s[k]) for k, (p, _) in enumerate(parts) if p or all_]


_js = None


def js():
    global _js
    if _js is None:
        path = common.build_js()
        if path is None:
            raise common.CheckError("no wasm-bindgen to replay a counterexample of the JavaScript packages with")
        _js = common.JsDrive(path)
    return _js


JS_FN = {"js_" + k: "extract" + "".join(w.capitalize() for w in k.split("_")) + "Idxes" for k in
         ("email_addr", "email_domain", "from_all", "from_addr", "to_all", "to_addr", "subject_all", "body_hash", "timestamp", "message_id")}


def js_config(cfg):
    style = cfg.get("style")
    o = {"parts": [{"isPublic": p, "regexDef": e} if style == "camel" else {"is_public": p, "regex_def": e, **({"max_size": 7} if style == "extra" else {})}
                   for p, e in cfg["parts"]]}
    if style == "extra":
        o["max_byte_size"] = 4000
    return o if cfg.get("object") else json.dumps(o)


def native(cfg, parts, text, all_):
    """The real code's answer on one text."""
    op = cfg["op"]
    if op in ("js_idxes", "js_strs"):
        r = js().ask("extractSubstrIdxes" if op == "js_idxes" else "extractSubstr", text.decode(), js_config(cfg), all_)
        return {**r, "spans" if op == "js_idxes" else "strs": r.get("value")}
    if op in JS_FN:
        r = js().ask(JS_FN[op], text.decode())
        return {**r, "spans": r.get("value")}
    if "parts" in cfg:
        return tv.drive().ask(cmd="extract", parts=parts, bytes=list(text), reveal_private=all_)
    return tv.drive().ask(cmd="extract", fn=cfg["op"], bytes=list(text))


def spans_job(res, parts, cfg, doms, prog, sels, ident, max_paths, all_=False, fns=False):
    """cfg's spans against the reference for every text of `doms`.  False if there were too many paths."""
    run = Run(cfg, doms, max_paths=max_paths, fns=fns)
    if not run.complete:
        return False
    tally(res, run)
    g = run.g
    groups = run.grouped()
    run.covered(res, groups)
    m, op, cl = prio.symbolic(g, prog, run.bits)
    n = len(doms)
    bads = []
    for k, l in groups:
        if k[0] == "trap":
            bads.append(l)
            continue
        if k[0] == 1:
            bads.append(g.And(l, m))
            continue
        w = k[1:]
        if k[0] != 0 or len(w) != 2 * len(sels):
            bads.append(l)
            continue
        ok = [m]
        for j, s in enumerate(sels):
            a, b = w[2 * j], w[2 * j + 1]
            ok.append(op[s][a] if a <= n else 0)
            ok.append(cl[s][b] if b <= n else 0)
        bads.append(g.And(l, g.And_n(ok) ^ 1))
    if g.Or_n(l for k, l in groups if k[0] == 0) != 0:
        res.info["matching"] = res.info.get("matching", 0) + 1
    x = run.decide(res, g.Or_n(bads))
    if x is not None:
        got = native(cfg, parts, x, all_)
        want = expected(parts, x, all_)
        if (got.get("spans") if got["ok"] else None) == want and not got.get("panic"):
            res.errors.append(f"{res.name}: counterexample does not replay: {x!r} {got} {want}")
        else:
            res.viol.append(("spans", ident, f"{cfg.get('op')} on {short(x)}: {brief(got)}, the leftmost match gives {want}",
                             {"parts": parts, "all": all_, "input": list(x), "got": got, "want": want}))
    return True


def short(x):
    """A text for a message: the middle of a long one left out."""
    s = repr(x)
    return s if len(s) <= 220 else f"{s[:90]} ... {s[-120:]} ({len(x)} bytes)"


def brief(got):
    if got["ok"]:
        s = str(got.get("spans") or got.get("strs"))
        return s if len(s) <= 300 else f"{s[:140]} ... {s[-140:]}"
    return (f"panic {got['panic']}" if got.get("panic") else f"error {got.get('err')}")


def strs_job(res, parts, cfg, doms, prog, sels, ident, max_paths, all_):
    """The extracted strings are the text at the reference's spans."""
    run = Run(cfg, doms, sym=True, max_paths=max_paths)
    if not run.complete:
        return False
    tally(res, run)
    g = run.g
    groups = run.grouped()
    run.covered(res, groups)
    m, op, cl = prio.symbolic(g, prog, run.bits)
    n = len(doms)
    eq = {}

    def same(word, i):
        r = eq.get((word, i))
        if r is None:
            w = run.word(word)
            r = g.And_n([g.Iff(w[q], run.bits[i][q]) for q in range(8)] + [w[q] ^ 1 for q in range(8, 32)])
            eq[(word, i)] = r
        return r

    bads = []
    for k, l in groups:
        if k[0] == "trap" or k[0] not in (0, 1):
            bads.append(l)
        elif k[0] == 1:
            bads.append(g.And(l, m))
        elif k[1] != len(sels):
            bads.append(l)
        else:
            ok, at = [m], 2
            for s in sels:
                ln = k[at]
                ws = k[at + 1:at + 1 + ln]
                at += 1 + ln
                ok.append(g.Or_n(g.And_n([op[s][a], cl[s][a + ln]] + [same(ws[t], a + t) for t in range(ln)])
                                 for a in range(n - ln + 1)))
            bads.append(g.And(l, g.And_n(ok) ^ 1))
    x = run.decide(res, g.Or_n(bads))
    if x is not None:
        got = native(cfg, parts, x, all_)
        want = expected(parts, x, all_)
        ws = None if want is None else [x[a:b].decode() for a, b in want]
        if (got.get("strs") if got["ok"] else None) == ws and not got.get("panic"):
            res.errors.append(f"{res.name}: counterexample does not replay: {x!r} {got} {want}")
        else:
            res.viol.append(("strings", ident, f"strings of {short(x)}: {brief({**got, 'spans': None})}, the text there is {ws}",
                             {"parts": parts, "all": all_, "input": list(x), "got": got, "want": ws}))
    return True


# ---------------------------------------------------------------- texts
def sample(e, r, depth=0):
    """A random string of the language of an AST."""
    k = e[0]
    if k == "cls":
        rs = [x for x in e[1] if x[0] < 128]
        if not rs:
            return chr(e[1][0][0])
        nice = [c for a, b in rs for c in range(a, min(b, 127) + 1) if 32 <= c < 127]
        if nice:
            return chr(r.choice(nice))
        a, b = r.choice(rs)
        return chr(r.randint(a, min(b, 127)))
    if k == "cat":
        return "".join(sample(x, r, depth + 1) for x in e[1])
    if k == "alt":
        return sample(r.choice(e[1]), r, depth + 1)
    if k == "rep":
        lo, hi = e[2], e[3] if e[3] is not None else e[2] + 2
        return "".join(sample(e[1], r, depth + 1) for _ in range(r.randint(lo, min(hi, lo + 2))))
    return ""


def holes(r, text, k):
    """The text with k positions left open."""
    b = text.encode()
    doms = fixed(b)
    asc = [i for i in range(len(b)) if b[i] < 128]
    if not asc:
        return None
    if r.random() < .5:
        i = r.randrange(len(asc))
        pick = asc[i:i + k]
    else:
        pick = r.sample(asc, min(k, len(asc)))
    for i in pick:
        doms[i] = ASCII
    return doms


def sym_ways(g, ref, text):
    """Literals of the matches a text has: start[j], end[j] per text position, may[part][byte]."""
    n, q = len(text), len(ref.tr)
    L = rref.lens(g, text) if ref.end_anchor else [1] * (n + 1)
    F = [[1 if s == 0 else 0 for s in range(q)]]
    for i in range(n):
        nx = [[] for _ in range(q)]
        for s in range(q):
            if F[-1][s]:
                for m, p, d in ref.tr[s]:
                    nx[d].append(g.And(F[-1][s], text.inset(i, m)))
        row = [g.Or_n(x) for x in nx]
        row[0] = 1
        F.append(row)
    B = [None] * (n + 1)
    for i in range(n, -1, -1):
        row = []
        for s in range(q):
            t = [L[i]] if s in ref.acc else []
            if i < n:
                t += [g.And(B[i + 1][d], text.inset(i, m)) for m, p, d in ref.tr[s]]
            row.append(g.Or_n(t))
        B[i] = row
    start = [B[i][0] for i in range(n + 1)]
    end = [g.Or_n(g.And(F[i][s], L[i]) for s in ref.acc) for i in range(n + 1)]
    may = [[g.Or_n(g.And_n([F[i][s], text.inset(i, m), B[i + 1][d]]) for s in range(q) if F[i][s]
                   for m, p, d in ref.tr[s] if p == k) for i in range(1, n)] for k in range(len(ref.parts))]
    return start, end, may


def any_match(ref, data):
    """Does the text of these bytes (the last one padding) hold a match?"""
    g = aig.AIG()
    c = rref.Text(g, [([b >> k & 1 for k in range(8)], 1) for b in data])
    return g.Or_n(sym_ways(g, ref, c)[0]) == 1


def agree_job(res, it, ref, T, F, doms, ident, max_paths, stats):
    """Extraction and the circuit's honest witness on every text of `doms` (followed by one zero byte in the circuit)."""
    parts = it.parts
    cfg = {"op": "idxes", "all": True, "parts": [[p, e] for p, e in parts]}
    run = Run(cfg, doms, max_paths=max_paths, fns=True)
    if not run.complete:
        return False
    tally(res, run)
    g, n = run.g, len(doms)
    groups = run.grouped()
    run.covered(res, groups)
    c = symcirc.Circuit(T, F, "T", n + 1, g=g, full=False, words=run.bits + [[0] * 8])
    text = rref.Text(g, c.byte_els())
    sat = g.And_n(c.cons)
    acc = g.And(sat, c.out_is(1))
    scan, _, _ = rref.sym_scan(g, ref, text)
    start, end, may = sym_ways(g, ref, text)
    off = len(ref.parts) - len(parts)  # the start anchor's section is a part of its own in the reference
    pubs = [k for k, (p, _) in enumerate(parts) if p]
    bads, uniq = [], []
    if set(c.reveals) != set(range(len(pubs))):
        res.viol.append(("outputs", ident, f"reveal outputs {sorted(c.reveals)}, {len(pubs)} public parts", {"parts": parts}))
        return True
    for k, l in groups:
        if k[0] == "trap" or (k[0] == 0 and len(k) != 1 + 2 * len(parts)):
            bads.append(l)
            continue
        if k[0] != 0:
            bads.append(g.And(l, acc))
            continue
        bads.append(g.And_n([l, scan, acc ^ 1]))
        bads.append(g.And(l, g.Or_n(start) ^ 1))
        sp = [(k[1 + 2 * j], k[2 + 2 * j]) for j in range(len(parts))]
        s0, e0 = sp[0][0], sp[-1][1]
        one = [start[j] ^ 1 for j in range(len(start)) if j != s0 + 1 and not (j == 0 and s0 == 0)]
        one += [end[j] ^ 1 for j in range(len(end)) if j != e0 + 1]
        for j, (a, b) in enumerate(sp):
            for i in range(n):
                here = a <= i < b
                m = may[j + off][i]
                if off and j == 0:
                    m = g.Or(m, may[0][i])
                if not here:
                    one.append(m ^ 1)
        u = g.And_n([l, acc] + one)
        uniq.append(u)
        diff = []
        for q, j in enumerate(pubs):
            a, b = sp[j]
            for i in range(n + 1):
                bits = c.dom.bits_of(c.reveals[q][i])
                want = run.bits[i] if a <= i < b else []
                for t in range(max(len(bits), len(want))):
                    diff.append(g.Xor(bits[min(t, len(bits) - 1)] if bits else 0, want[t] if t < len(want) else 0))
        bads.append(g.And(u, g.Or_n(diff)))
    if uniq and aig.solve(g, run.dom + [g.Or_n(uniq)], res.stats, tv.TIMEOUT) is not None:
        res.info["matching"] = res.info.get("matching", 0) + 1
    x = run.decide(res, g.Or_n(bads))
    if x is not None:
        got = native(cfg, parts, x, True)
        failed, out, rev = symcirc.run_concrete(T, F, "T", list(x) + [0])
        matched, _ = ref.scan_concrete(list(x) + [0])
        ok = not failed and out == 1
        if got.get("panic"):
            wrong = "extraction panics"
        elif ok and not got["ok"]:
            wrong = "the circuit accepts, extraction finds nothing"
        elif got["ok"] and not any_match(ref, list(x) + [0]):
            wrong = "extraction finds a match where the regex has none"
        elif got["ok"] and matched and not ok:
            wrong = "extraction finds a match, the circuit does not accept"
        elif got["ok"] and ok and len(got["spans"]) != len(parts):
            wrong = "extraction returns another number of spans"
        elif got["ok"] and ok and any(rev[q][i] != (x[i] if got["spans"][j][0] <= i < got["spans"][j][1] else 0)
                                      for q, j in enumerate(pubs) for i in range(n)):
            wrong = "the circuit reveals other bytes than extraction finds"
        else:
            wrong = None
        if wrong is None:
            res.errors.append(f"{res.name}: counterexample does not replay: {x!r} {got} {out} {failed[:2]}")
        else:
            res.viol.append(("disagree", ident, f"{wrong}: {x!r}, extraction {brief(got)}, circuit out={out} reveals "
                             + str({q: bytes(v % 256 for v in rev[q]) for q in rev}), {"parts": parts, "input": list(x)}))
    return True


def c12_task(a):
    it, seed, cap, deep = a
    res = tv.Res(it.name)
    t = time.time()
    try:
        c12_one(res, it, random.Random(seed), cap, deep)
    except rref.RegexError as e:
        res.skipped = f"outside the reference: {e}"
    except (circom.IllFormed, circom.Unsupported) as e:
        res.skipped = f"circuit: {e}"
    except Exception as e:  # noqa
        res.errors.append(f"{it.name} {it.parts}: {e!r} {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def c12_one(res, it, r, cap, deep):
    ref = rref.Ref(it.parts)
    if ref.unsupported():
        res.skipped = ref.unsupported()
        return
    if len(ref.parts) > len(it.parts) and it.parts[0][0]:
        res.skipped = "the section of the start anchor is public"
        return
    ans = tv.drive().ask(cmd="struct", parts=it.parts, name="T", subs=True)
    if not ans["ok"]:
        res.skipped = "not compiled"
        return
    lib = symcirc.Library(common.REPO)
    T, F = lib.load_text(ans["circom"], tv.BASE)
    res.programs = 1
    ident = it.parts
    low = ASCII & ~1
    mn = corpus.minimum(ref)
    for n in range(max(mn, 1), mn + (5 if deep else 3)):
        if not agree_job(res, it, ref, T, F, [low] * n, ident, cap, None):
            break
        res.info["full"] = n
        if n > 8 or res.info["paths"] > cap:
            break
    try:
        prog = prio.Prog([e for _, e in it.parts])
    except rref.RegexError:
        return
    for _ in range(5 if deep else 2):
        t = r.choice(["", "", "x", ";"]) + "".join(sample(e, r) for e in prog.asts)
        if not ref.end_anchor:
            t += r.choice(["", ";", "ab"])
        if len(t.encode()) > 40 or "\0" in t:
            continue
        for k in ((4, 3, 2, 1) if deep else (3, 2, 1)):
            doms = holes(r, t, k)
            if doms is None:
                break
            if agree_job(res, it, ref, T, F, [d if d & (d - 1) == 0 else low for d in doms], ident, cap, None):
                break


def ext_hand():
    P, S = True, False
    return [
        [(S, "a"), (P, "[0-9]+"), (S, ";")],
        [(S, "a"), (P, ".+?"), (S, "b")],
        [(P, ".??"), (S, "b")],
        [(P, "(a|ab)(c|bcd)"), (P, "(d*)")],
        [(S, "x|y"), (P, "a|ab"), (S, "b|c")],
        [(P, "(a)(b)?"), (S, "((c))"), (P, "d")],
        [(S, "((a))"), (P, "((b)|(c))+"), (S, "(d)?"), (P, "e")],
        [(P, "a*"), (P, "a*"), (S, "b")],
        [(P, "a*?"), (P, "a*"), (S, "b")],
        [(P, "[^,]+"), (S, ","), (P, "[^,]*"), (S, "$")],
        [(S, "^"), (P, "a+"), (S, "b")],
        [(S, "(\r\n|^)f:"), (P, "[^\r\n]+"), (S, "\r\n")],
        [(S, ""), (P, "a"), (S, "")],
        [(P, ""), (S, "b")],
        [(P, "(?:a|b)+"), (S, "c")],
        [(P, "(?P<n>a|b)+"), (S, "c"), (P, "(?P<m>d)")],
        [(P, "a{2}"), (P, "b{1,2}?"), (S, "b*")],
        [(S, "\\."), (P, "\\w+"), (S, "\\s")],
        [(P, "\\d+"), (S, "-"), (P, "\\d{2}")],
        [(P, "é+"), (S, "a")],
        [(S, "a"), (P, "[é-ü]+")],
        [(P, "\\(a\\)"), (S, "b")],
        [(S, "a"), (P, "[\\]\\[]+"), (S, "b")],
        [(S, "<"), (P, "[^>]+"), (S, ">"), (P, "[^<]"), (S, "<")],
        [(P, "(a(b(c)?)?)"), (P, "(c)?"), (S, "!")],
        [(P, "a"), (P, "b"), (P, "c"), (P, "d")],
        [(S, "a")],
        [(P, "(a|b)*"), (P, "(b|c)*"), (S, "d")],
        [(P, "[A-Za-z0-9._%+-]+"), (S, "@"), (P, "[A-Za-z0-9.-]+")],
        [(S, "bh="), (P, "[a-zA-Z0-9+/=]+"), (S, ";")],
    ]


def ext_rnd(seed, count):
    r = random.Random(seed)
    lits = list("ab1;:=@< .-,") + ["\\.", "\\-", "\\+", "ab", "a:", "\\$", "é", "\\n", "\\\\"]

    def atom():
        k = r.random()
        if k < .45:
            return r.choice(lits)
        if k < .6:
            a = r.choice("ab1")
            return f"[{a}-{chr(ord(a) + r.randint(1, 4))}]"
        if k < .75:
            return "[" + "".join(sorted(r.sample("ab1;:=@<,", r.randint(2, 3)))) + "]"
        if k < .9:
            return "[^" + "".join(r.sample("ab1;:=@<,", r.randint(1, 2))) + "]"
        return r.choice([".", "\\d", "\\w", "\\s", "[^\\n]"])

    def expr(d):
        k = r.random()
        if d == 0 or k < .35:
            return atom()
        if k < .5:
            o = r.choice(["(", "(", "(?:"])
            return o + "|".join(expr(d - 1) for _ in range(r.randint(2, 3))) + ")"
        if k < .75:
            e = expr(d - 1)
            e = e if re.fullmatch(r"\[[^\]]*\]|\\?.", e) else r.choice(["(", "(?:"]) + e + ")"
            return e + r.choice(["*", "+", "?", "+", "*?", "+?", "??", "{2}", "{1,2}", "{0,2}?", "{1,}"])
        return expr(d - 1) + expr(d - 1)

    out = []
    while len(out) < count:
        n = r.choice([1, 2, 2, 3, 3, 4])
        parts = []
        for i in range(n):
            e = expr(r.choice([1, 2, 2]))
            if r.random() < .15:
                e = e + "|" + expr(1)
            if r.random() < .15:
                e = "(" + e + ")"
            if r.random() < .03:
                e = ""
            parts.append([r.random() < .6, e])
        if r.random() < .1:
            parts[0][1] = "^" + parts[0][1] if "|" not in parts[0][1] else "(^|;)" + "(" + parts[0][1] + ")"
        if r.random() < .1:
            parts[-1][1] = ("(" + parts[-1][1] + ")" if "|" in parts[-1][1] else parts[-1][1]) + "$"
        parts = [(p, e) for p, e in parts]
        try:
            prog = prio.Prog([e for _, e in parts])
        except rref.RegexError:
            continue
        if len(prog.ins) > 160:
            continue
        out.append(parts)
    return out


LONG = [([(False, "q"), (True, "[a-z]"), (False, ";")], "qz;", "."), ([(True, "é"), (False, "(a|b)+"), (True, "[0-9]*")], "éab1", "ü"),
        ([(False, "(^|\n)k:"), (True, "[^\n]+"), (False, "\n")], "\nk:v\n", "k:")]


def long_jobs(deep):
    """Texts whose match lies beyond the range of 8 or 16 bits."""
    out = []
    for parts, t, fill in LONG:
        for at in ((250, 65500, 65533, 66000, 131070) if deep else (253, 65533, 66000)):
            for op in ("idxes", "js_idxes", "strs", "js_strs"):
                out.append(("long", parts, t, fill, at, op))
    return out


def long_one(res, parts, t, fill, at, op):
    prog = prio.Prog([e for _, e in parts])
    res.programs = 1
    sels = [k for k, (p, _) in enumerate(parts) if p]
    n = at // len(fill.encode())
    b = t.encode()
    doms = fixed((fill * n).encode()) + [ASCII if c < 128 else 1 << c for c in b]
    while True:
        free = [i for i, d in enumerate(doms) if d & (d - 1)]
        while len(free) > 3:
            doms[free[0]] = 1 << (fill * n + t).encode()[free[0]]
            free = free[1:]
        cfg = {"op": op, "all": False, "parts": [[p, e] for p, e in parts]}
        if (strs_job if "strs" in op else spans_job)(res, parts, cfg, doms, prog, sels, ["extract", parts], 6000, False):
            return
        if len(free) < 2:
            res.errors.append(f"{res.name}: too many paths for one open byte")
            return
        doms[free[0]] = 1 << (fill * n + t).encode()[free[0]]


def c11_task(a):
    if a[0] == "long":
        res = tv.Res(f"long {a[5]} {a[4]}")
        try:
            long_one(res, *a[1:])
        except Exception as e:  # noqa
            res.errors.append(f"{a}: {e!r} {traceback.format_exc()[-600:]}")
        return res
    parts, seed, cap, deep = a
    res = tv.Res(json.dumps(parts))
    try:
        c11_one(res, parts, random.Random(seed), cap, deep)
    except Exception as e:  # noqa
        import traceback
        res.errors.append(f"{parts}: {e!r} {traceback.format_exc()[-600:]}")
    return res


def c11_one(res, parts, r, cap, deep):
    prog = prio.Prog([e for _, e in parts])
    res.programs = 1
    ident = ["extract", parts]
    variants = []
    for all_ in (False, True):
        sels = [k for k, (p, _) in enumerate(parts) if p or all_]
        if not all_ or sels != variants[0][1]:
            variants.append((all_, sels))

    def jobs(doms, limit):
        all_, sels = r.choice(variants)
        cfg = {"op": "idxes", "all": all_, "parts": [[p, e] for p, e in parts]}
        if r.random() < .2:
            cfg.update(op="js_idxes", object=r.random() < .5, style=r.choice(["plain", "plain", "camel", "extra"]))
        ok = spans_job(res, parts, cfg, doms, prog, sels, ident, limit, all_, fns=True)
        if ok and sels and r.random() < .35:
            strs_job(res, parts, {**cfg, "op": cfg["op"].replace("idxes", "strs")}, doms, prog, sels, ident, limit, all_)
        return ok

    # every ASCII text of length 0, 1, 2, ... as far as the number of paths allows
    last, n = 1, 0
    while n <= (10 if deep else 7):
        if not jobs([ASCII] * n, cap):
            break
        res.info["full"] = n
        got = res.info["paths"]
        grown = got - last
        last = got
        if n > 2 and grown * 4 > cap:
            break
        n += 1
    # longer texts around matches, a few characters open
    for _ in range(6 if deep else 3):
        pre = r.choice(["", "", "x", "a;", "\n", "é"])
        suf = r.choice(["", "", ";", "ab", " é", "\n"])
        t = pre + "".join(sample(e, r) for e in prog.asts) + suf
        if prog.ascii_only:
            t = t.encode("ascii", "replace").decode()
        if len(t.encode()) > 60:
            continue
        k = 4 if deep else 3
        while k:
            doms = holes(r, t, k)
            if doms is None or jobs(doms, cap):
                break
            k -= 1
    # characters of several bytes
    if not prog.ascii_only:
        for _ in range(3 if deep else 2):
            doms = []
            for _ in range(r.randint(2, 3)):
                doms += r.choice([[ASCII], [ASCII], multibyte(2), multibyte(3), multibyte(4)])
            if len(doms) <= 8:
                jobs(doms, cap)
        t = "".join(sample(e, r) for e in prog.asts)
        i = r.randint(0, len(t))
        if len(t) < 30:
            jobs(fixed(t[:i].encode()) + multibyte(r.choice([2, 3])) + (holes(r, t[i:], 2) or fixed(t[i:].encode())), cap)


# ---------------------------------------------------------------- the built-in extractors
def address_parts(field):
    """The address of a header line: the last one in angle brackets, or the line without brackets."""
    return [(False, f"(\r\n|^){field}:"), (False, "([^\r\n]*<)?"), (True, "[^<>\r\n]+"), (False, ">?\r\n")]


def definition(name):
    if name in ("from_addr", "to_addr"):
        return address_parts(name.split("_")[0])
    j = json.load(open(os.path.join(common.REPO, "packages/circom/circuits/common", name + ".json")))
    return [(bool(p["is_public"]), p["regex_def"]) for p in j["parts"]]


EXTRACTORS = ["email_addr", "email_domain", "from_all", "from_addr", "to_all", "to_addr", "subject_all", "body_hash", "timestamp", "message_id"]
DKIM = "dkim-signature:v=1; a=rsa-sha256; d=g.co; t=1694989812; x=16; bh=BWE+9/Q=; b="
LINES = {
    "email_addr": ["a.b@c.de", "x <a@b.c> y", "to a@b@c-d.e, f@g", "\"é\" <é@ü.de>;q@r", "@a@b."],
    "email_domain": ["a.b@c.de", "x <a@b.c> y", "to a@b@c-d.e, f@g", "é@ü.de;q@r", "a/b@c"],
    "from_all": ["from:a <b@c>\r\n", "to:x\r\nfrom: y\r\nfrom:z\r\n", "xfrom:a\r\n\r\nfrom:b\r\n", "from:\r\nfrom:é\r\n", "From:q\r\nfrom:w"],
    "to_all": ["to:a <b@c>\r\n", "from:x\r\nto: y\r\nto:z\r\n", "reply-to:a\r\n\r\nto:b\r\n", "to:\r\nto:é\r\n", "To:q\r\nto:w"],
    "subject_all": ["subject:a b\r\n", "to:x\r\nsubject: y\r\nsubject:z\r\n", "xsubject:a\r\n\r\nsubject:b\r\n", "subject:\r\nsubject:é\r\n"],
    "from_addr": ["from:a <b@c>\r\n", "from:a@b.c\r\nto:x@y\r\n", "from:<a@b>\r\nq<r>\r\n", "to:x\r\nfrom:\"a<b\" <c@d>\r\n", "from:x <a> y\r\nfrom:b\r\n", "from:<é> <ü>\r\n"],
    "to_addr": ["to:a <b@c>\r\n", "to:a@b.c\r\nfrom:x@y\r\n", "to:<a@b>\r\nq<r>\r\n", "from:x\r\nto:\"a<b\" <c@d>\r\n", "to:x <a> y\r\nto:b\r\n", "reply-to:<a>\r\nto:<ü>\r\n"],
    "body_hash": [DKIM, "x\r\ndkim-signature:a=b; bh=q; ", "dkim-signature:bh=a; bh=c; bh=d;", "dkim-signature:a=b; c=bh=x;d; bh=y/+=;", "xdkim-signature:a=b; bh=c;\r\ndkim-signature:é=b; z=é; bh=w;"],
    "timestamp": [DKIM, "x\r\ndkim-signature:a=b; t=1; ", "dkim-signature:t=1; t=2; t=3;", "dkim-signature:a=b; c=t=4;d; t=56;", "xdkim-signature:a=b; t=7;\r\ndkim-signature:é=b; z=é; t=8;"],
    "message_id": ["message-id:<a.b@c>\r\n", "x\r\nmessage-id:<A+=_-9@>\r\n", "message-id:<>\r\nmessage-id:<a>\r\n", "xmessage-id:<a>\r\n\r\nmessage-id:<b>\r\nmessage-id:<c>\r\n", "message-id:<é>\r\nmessage-id:<e>\r\n"],
}
SHORT = {"email_addr": "", "email_domain": "", "from_all": "from:", "from_addr": "from:", "to_all": "to:", "to_addr": "to:",
         "subject_all": "subject:", "body_hash": "dkim-signature:a=b; bh=", "timestamp": "dkim-signature:a=b; t=", "message_id": "message-id:<"}


def c13_texts(name, r, deep):
    """Texts (as domains) around which the extractor is run."""
    prog = prio.Prog([e for _, e in definition(name)])
    out = []
    texts = list(LINES[name])
    for _ in range(8 if deep else 3):
        t = r.choice(["", "", "\r\n", "x\r\n", "a:b\r\n", "é\r\n"]) + "".join(sample(e, r) for e in prog.asts)
        t += r.choice(["", "", "x", "\r\n", "".join(sample(e, r) for e in prog.asts)])
        if len(t.encode()) <= 200:
            texts.append(t)
    k = 3 if deep else 2
    for t in texts:
        b = t.encode()
        # every run of k neighbouring bytes open, one run after the other (half a run apart when there is time)
        for i in range(0, len(b), 1 if deep else k):
            d = fixed(b)
            pos = [j for j in range(i, min(i + k, len(b))) if b[j] < 128]
            for j in pos:
                d[j] = ASCII
            if pos:
                out.append(d)
        # bytes apart
        for _ in range(12 if deep else 5):
            out.append(holes(r, t, 3))
        # a character of several bytes somewhere
        for _ in range(3 if deep else 1):
            i = r.randint(0, len(t))
            d = fixed(t[:i].encode()) + multibyte(r.choice([2, 3, 4])) + fixed(t[i:].encode())
            out.append(d)
    # far into a long text
    for at in (65533, 66000) if not deep else (253, 65500, 65533, 66000, 131070):
        t = r.choice(LINES[name])
        d = holes(r, "\r\n" + t, 1)
        out.append(fixed(b"q: " + b";" * at) + d)
    pre = SHORT[name]
    for n in range(0, 6 if deep else 4):
        out.append(fixed(pre.encode()) + [ASCII] * n)
        if n:
            out.append([ASCII] * n)
            if name in ("from_all", "from_addr", "to_all", "to_addr", "subject_all"):
                out.append(fixed(pre.encode()) + [ASCII] * n + fixed(b"\r\n"))
            if name in ("body_hash", "timestamp"):
                out.append(fixed(pre.encode()) + [ASCII] * n + fixed(b";"))
            if name == "message_id":
                out.append(fixed(pre.encode()) + [ASCII] * n + fixed(b">\r\n"))
    return [d for d in out if d]


def c13_task(a):
    name, side, chunk, cap = a
    res = tv.Res(f"{side}{name}")
    t = time.time()
    try:
        parts = definition(name)
        prog = prio.Prog([e for _, e in parts])
        sels = [k for k, (p, _) in enumerate(parts) if p]
        for doms in chunk:
            while not spans_job(res, parts, {"op": side + name}, doms, prog, sels, ["extractor", side + name], cap, fns=True):
                free = [i for i, d in enumerate(doms) if d & (d - 1)]
                if len(free) < 2:
                    res.errors.append(f"{res.name}: too many paths for one open byte")
                    break
                doms = [d if i != free[-1] else 1 << ord("a") for i, d in enumerate(doms)]
                if not all(d & (d - 1) == 0 or d in (ASCII, ASCII & ~1) for d in doms):
                    break
            if res.viol:
                break
        res.programs = 1
    except Exception as e:  # noqa
        res.errors.append(f"{res.name}: {e!r} {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


# ---------------------------------------------------------------- padding
def pad_native(op, text, size):
    if op == "js_pad":
        r = js().ask("padString", text.decode(), size)
        return {**r, "bytes": r.get("value")}
    return tv.drive().ask(cmd="pad", input=text.decode(), size=size)


def c14_task(a):
    op, doms, size, cap = a
    res = tv.Res(f"{op} of {len(doms)} bytes")
    t = time.time()
    try:
        c14_one(res, op, doms, size, cap)
        res.programs = 1
    except Exception as e:  # noqa
        res.errors.append(f"{res.name}: {e!r} {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def c14_one(res, op, doms, size, cap):
    n = len(doms)
    cfg = {"op": op, "len": n}
    if size is not None:
        cfg["size"] = size
    run = Run(cfg, doms + ([] if size is not None else [(1 << 256) - 1]), sym=True, max_paths=cap, fns=True)
    if not run.complete:
        raise common.CheckError(f"padding needs {run.why}")
    tally(res, run)
    g = run.g
    groups = run.grouped()
    run.covered(res, groups)
    sz = [run.bits[n][k] for k in range(8)] if size is None else [size >> k & 1 for k in range(32)]
    # size >= n
    enough = 1
    for k in range(len(sz)):
        bit = n >> k & 1
        enough = g.And(enough, sz[k]) if bit else g.Or(enough, sz[k])
    if n >> len(sz):
        enough = 0
    bads = []
    for k, l in groups:
        if k[0] == "trap":
            bads.append(g.And(l, enough))
            continue
        if k[0] != 0:
            bads.append(l)
            continue
        ln, ws = k[2], k[3:]
        same = [g.Iff(sz[q], ln >> q & 1) for q in range(len(sz))] + [0 if ln >> len(sz) else 1]
        ok = []
        for t, w in enumerate(ws):
            w = run.word(w)
            want = run.bits[t] if t < n else [0] * 8
            ok += [g.Iff(w[q], want[q]) for q in range(8)] + [x ^ 1 for x in w[8:]]
        if len(ws) < n or len(ws) != ln:
            bads.append(l)  # cut
        else:
            bads.append(g.And(l, g.And_n(ok) ^ 1))
            bads.append(g.And_n([l, enough, g.And_n(same) ^ 1]))
        res.info["matching"] = res.info.get("matching", 0) + 1
    x = run.decide(res, g.Or_n(bads))
    if x is not None:
        text, s = x[:n], size if size is not None else x[n]
        got = pad_native(op, text, s)
        want = list(text) + [0] * (s - n)
        if got.get("ok") and got["bytes"] == want if s >= n else not got.get("ok"):
            res.errors.append(f"{res.name}: counterexample does not replay: {x!r} {s} {got}")
        else:
            res.viol.append(("pad", [op, n, s], f"{op} of {text!r} to {s} bytes: {got.get('panic') or got.get('err') or got.get('bytes')!r}",
                             {"text": list(text), "size": s, "got": got}))


def c14_jobs(deep):
    out = []
    shapes = [[ASCII] * n for n in range(0, 33 if deep else 17)]
    for ks in ([2], [3], [4], [2, 1], [1, 3], [4, 1, 2], [3, 3], [1, 2, 1, 4]):
        d = []
        for k in ks:
            d += [ASCII] if k == 1 else multibyte(k)
        shapes.append(d)
    for op in ("pad", "js_pad"):
        for d in shapes:
            out.append((op, d, None, 20000))
        for d in shapes[::4] + [[ASCII] * 64, [ASCII] * 63]:
            n = len(d)
            for s in sorted({n, n + 1, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 2048, 4096} | ({8192, 65535, 65536, 100000} if deep else set())):
                out.append((op, d, s, 20000))
        for n in (100, 200, 300, 1000):  # longer texts, some bytes open
            d = fixed(b"a" * n)
            for i in range(0, n, max(1, n // 20)):
                d[i] = ASCII
            for s in (0, n - 1, n, n + 1, n + 64, 1024, 2048):
                out.append((op, d, s, 20000))
    return out


# ---------------------------------------------------------------- malformed input
H = "\x7f"  # stands for an open byte
META = rref.mask_of(0, 0)
META = 0
for _c in "()[]{}|*+?.^$\\-,:=<>!&~#'\"_/ab01wdsnpuxPQAzZ \n":
    META |= 1 << ord(_c)
CORE = 0
for _c in "()[]{}|*+?^$\\-,:a1b.":
    CORE |= 1 << ord(_c)
REGEX_HOLES = [
    H, "a" + H, H + "a", "a" + H + "b", "(" + H + ")b", "(a" + H + "b)", "a{" + H + "}", "a{1," + H + "}", "a{" + H + ",2}", "[" + H + "]", "[^" + H + "]a",
    "[a-" + H + "]", "[" + H + "-z]", "[ab" + H + "]c", "(a|" + H + ")", "a|" + H, "\\" + H, "a\\" + H + "b", "[\\" + H + "]", "(?" + H + ")a",
    "(?" + H + "a)", "(?" + H + ":a)", "(?<" + H + ">a)", "(?P<n" + H + "a)", "^" + H, H + "$", "(^|" + H + ")a", "a(b|$" + H + ")", "(" + H + "|^)a", "\\x" + H + "1", "\\x{" + H + "}", "\\u00" + H + "1",
    "\\p{" + H + "}", "\\p" + H, "[[:" + H + "lpha:]]", "[a&&" + H + "]b", "(?:" + H + ")*c", "(a" + H + ")+", "a**" + H, "a*" + H + "b", "()" + H, "(" * 20 + H + ")" * 20,
    "[^\\x00-" + H + "]", "a" + H + "{2}", "(a)\\" + H, "a(?=" + H + ")", "(?i)" + H, "(?i:a" + H + ")", "(?x) a " + H + " b", "\\b" + H, "[" + H + "[a]]", "é" + H, H + "é", "[é-" + H + "]",
    "(?s:." + H + ")", "(?s)" + H, "\\Q" + H, "#" + H + "\"", "'" + H, "\\\\" + H,
]
PAIRS = [H + H, "a" + H + H, "(" + H + H + ")", "[" + H + H + "]", "\\" + H + H, "(?" + H + H + "a)", "a" + H + "b" + H, "[a" + H + "b" + H + "]", "{" + H + H, "^" + H + H, H + "^" + H, H + H + "$",
         "(a" + H + H + "b)", "[^" + H + H + "]", "a{" + H + H + "}", "(" + H + "|" + H + ")c"]
CONTEXTS = [[("h", True)], [("a", False), ("h", True), ("b", False)], [("h", False), ("[0-9]+", True)], [("(\r\n|^)f:", False), ("h", True), ("\r\n", False)],
            [("[a-z]+", True), ("h", False)], [("a*", True), ("h", True)], [("h", True), ("$", False)]]
TRANSITIONS = ['{"transitions":[[[0,1],[1,2]]]}', '{"transitions":[[[0,1]],[[1,2],[2,2]]]}']
DEFS = ['{"parts":[{"is_public":true,"regex_def":"a"}]}', '{"parts":[{"is_public":false,"regex_def":"a"},{"regex_def":"b+","is_public":true}]}']


def opened(t, mask):
    """A template's domains: H is an open byte."""
    out = []
    for b in t.encode():
        out.append(mask if b == 0x7f else 1 << b)
    return out


def slid(t):
    """Every byte of a text open in turn."""
    b = t.encode()
    for i in range(len(b)):
        d = fixed(b)
        d[i] = ASCII
        yield d


def c15_jobs(seed, deep):
    r = random.Random(seed)
    jobs = []

    def compile_(t, mask, paths):
        d = opened(t, mask)
        jobs.append(({"op": "rawre", "subs": '{"transitions":[]}'}, d, paths))
        return d

    def part(t, mask, paths, ctx):
        at = next(i for i, (e, _) in enumerate(ctx) if e == "h")
        parts = [[p, "x" if e == "h" else e] for e, p in ctx]
        text = r.choice(["", "ab", "a1b", "f:ab\r\n", "xaé b", "aab0"])
        jobs.append(({"op": "part", "at": at, "parts": parts, "input": text, "all": r.random() < .5}, opened(t, mask), paths))

    def dec(t, mask, paths, ctx):
        at = next(i for i, (e, _) in enumerate(ctx) if e == "h")
        jobs.append(({"op": "decpart", "at": at, "parts": [[p, "x" if e == "h" else e] for e, p in ctx]}, opened(t, mask), paths))

    for k, t in enumerate(REGEX_HOLES):
        for ctx in (CONTEXTS if deep else [CONTEXTS[0], CONTEXTS[1 + k % (len(CONTEXTS) - 1)]]):
            part(t, ASCII, 4000, ctx)
        if deep or k % 3 == 0:
            compile_(t, ASCII, 400)
        else:
            compile_(t, CORE, 400)
        for ctx in (CONTEXTS if deep else r.sample(CONTEXTS, 1)):
            dec(t, ASCII if deep else CORE, 400, ctx)
    for k, t in enumerate(PAIRS):
        part(t, ASCII if deep else META, 20000, r.choice(CONTEXTS))
        compile_(t, META if deep else CORE, 4000)
        if deep:
            dec(t, CORE, 4000, r.choice(CONTEXTS))
    for n in (20, 49, 51, 100, 249, 251, 400):
        for op in ("rawre", "part"):
            t = "(" * n + H + ")" * n
            compile_(t, CORE, 400) if op == "rawre" else part(t, CORE, 400, CONTEXTS[0])
    # parts that need the backtracking engine, and texts on which it gives up
    for k, t in enumerate(["(a|b|ab)*(?=c)" + H, "(?<=b)" + H + "*", "(a+)+(?!" + H + ")d", "(a|" + H + ")\\1", "(?=(a|b|ab)*)" + H]):
        jobs.append(({"op": "part", "at": 0, "parts": [[True, "x"], [False, "c"]], "input": "ab" * 30 + "abcd", "all": bool(k & 1)}, opened(t, ASCII if deep else CORE), 400))
    for t in TRANSITIONS[:2 if deep else 1]:
        for d in slid(t):
            jobs.append(({"op": "raw", "regex": "ab", "T": 1}, d, 400))
    for t in ['{"transitions":[[[%s,%s]]]}' % (H, H), '{"transitions":[[[0,1],[%s,2]],[[1,%s]]]}' % (H, H), '{"transitions":[%s]}' % H, '{"transitions":[[%s]]}' % H,
              '{"transitions":[[[0,1%s]]]}' % H, '{"transitions":[[[0,429496729%s]]]}' % H, '{"transitions":[[[0,1844674407370955161%s]]]}' % H, '{"transitions":[[[0,1,%s]]]}' % H,
              '{"transitions":[[],[[0,%s]],[]]}' % H, '{"transitions":[[[-%s,1]]]}' % H, '{"transitions":[[[1.%s,1]]]}' % H, '{"transitions":[[[1e%s,1]]]}' % H]:
        for re_ in (["ab", "a*", "(a|b)c"] if deep else ["ab"]):
            jobs.append(({"op": "raw", "regex": re_}, opened(t, ASCII), 2000))
    for t in DEFS[:2 if deep else 1]:
        for d in slid(t):
            jobs.append(({"op": "dec"}, d, 400))
    for t in DEFS:
        for d in slid(t):
            jobs.append(({"op": "js_cfg", "input": "xab", "all": False}, d, 2000))
    for t in ['{"parts":[]}', "{}", "[]", '{"parts":[{}]}', '{"parts":null}', "", '{"parts":[{"is_public":1,"regex_def":"a"}]}', '{"parts":[{"is_public":true,"regex_def":""}]}',
              '{"parts":[{"is_public":false,"regex_def":"a"}]}', '{"parts":[{"is_public":true,"regex_def":"\\\\u00e9"}]}', '{"parts":[{"is_public":true,"regex_def":"\\ud800"}]}']:
        for i in range(0, len(t) + 1, 1 if deep else 3):
            d = opened(t[:i] + H + t[i:], ASCII)
            jobs.append(({"op": "dec"}, d, 400))
            jobs.append(({"op": "js_cfg", "input": "a", "all": True}, d, 2000))
    if os.environ.get("WX_FILES"):
        # the same from files, tables included
        g = lambda: r.choice([None, False, True])
        for op, ts in (("fileraw", TRANSITIONS), ("filedec", DEFS)):
            for d in slid(ts[0]):
                jobs.append(({"op": op, "regex": "ab", "g": g()}, d, 400))
        for t in ['{"transitions":[[[%s,%s]]]}' % (H, H), '{"transitions":%s}' % H, '{"transitions":[[[0,1]],[%s]]}' % H, '{"transitions":[[],[[0,%s]],[]]}' % H, H, '{"transitions":[[[0,18446744073709551615%s]]]}' % H]:
            jobs.append(({"op": "fileraw", "regex": r.choice(["ab", "a*", "(a|b)c", "^a"]), "g": True}, opened(t, ASCII), 2000))
        for t in ['{"parts":[%s]}' % H, H, '{"parts":[{"is_public":tru%s,"regex_def":"a"}]}' % H, '{"parts":[{"is_public":true,"regex_def":"%s"}]}' % H]:
            jobs.append(({"op": "filedec", "g": True}, opened(t, ASCII if deep else CORE), 2000))
        for k, t in enumerate(REGEX_HOLES):
            if deep or k % 5 == 0:
                jobs.append(({"op": "filerawre", "subs": r.choice(['{"transitions":[]}', '{"transitions":[[[0,1]]]}']), "g": g()}, opened(t, ASCII if deep else CORE), 400))
    r.shuffle(jobs)
    return jobs


def from_files(kind, opts, files, g):
    """The command line tool on files of the given contents."""
    d = tempfile.mkdtemp(prefix="cli", dir=common.scratch())
    try:
        for k, v in files.items():
            with open(os.path.join(d, k), "w", newline="") as f:
                f.write(v)
        os.mkdir(os.path.join(d, "h"))
        p = subprocess.run([os.environ["ZKCLI_EXE"], kind, *opts, "-h", "h", "-c", "o.circom", "-t", "T", *([] if g is None else ["-g", "true" if g else "false"])],
                           cwd=d, capture_output=True, text=True, timeout=300)
        if p.returncode == 0:
            return {"ok": True}
        return {"ok": False, "panic" if "panicked" in p.stderr or p.returncode < 0 or p.returncode == 101 else "err": p.stderr[-300:] or f"exit {p.returncode}"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def malformed_native(cfg, text):
    op = cfg["op"]
    if op == "filedec":
        return from_files("decomposed", ["-d", "d.json"], {"d.json": text}, cfg["g"])
    if op == "fileraw":
        return from_files("raw", ["--raw-regex=" + cfg["regex"], "-s", "s.json"], {"s.json": text}, cfg["g"])
    if op == "filerawre":
        return from_files("raw", ["--raw-regex=" + text, "-s", "s.json"], {"s.json": cfg["subs"]}, cfg["g"])
    if op == "part":
        parts = [list(p) for p in cfg["parts"]]
        parts[cfg["at"]][1] = text
        return tv.drive().ask(cmd="extract", parts=parts, input=cfg["input"], reveal_private=cfg["all"])
    if op == "rawre":
        return js().ask("genFromRaw", text, cfg["subs"], "T")
    if op == "raw":
        return js().ask("genFromRaw", cfg["regex"], text, "T")
    if op == "dec":
        return js().ask("genFromDecomposed", text, "T")
    if op == "js_cfg":
        return js().ask("extractSubstrIdxes", cfg["input"], text, cfg["all"])
    parts = [{"is_public": p, "regex_def": text if i == cfg["at"] else e} for i, (p, e) in enumerate(cfg["parts"])]
    return js().ask("genFromDecomposed", json.dumps({"parts": parts}), "T")


PATH_STEPS = 4_000_000_000


def c15_task(a):
    cfg, doms, cap, deadline = a
    res = tv.Res(cfg["op"])
    t = time.time()
    if t > deadline:
        res.skipped = "no time left"
        return res
    try:
        run = Run(cfg, doms, max_paths=cap, secs=max(20, deadline - t + 60), fns=True, max_steps=10**13, path_steps=PATH_STEPS)
        if not run.complete:
            res.skipped = run.why
            return res
        tally(res, run)
        groups = run.grouped()
        run.covered(res, groups)
        res.programs = 1
        ok = sum(1 for p in run.paths if "out" in p and p["out"][0] == 0)
        res.info["handled"], res.info["refused"] = ok, sum(1 for p in run.paths if "out" in p and p["out"][0] == 1)
        odd = run.g.Or_n(l for k, l in groups if k[0] not in (0, 1, "trap"))
        bads = [(k, l) for k, l in groups if k[0] == "trap"] + [(("result",), odd)]
        for k, l in bads:
            x = run.decide(res, l)
            if x is None:
                continue
            text = x.decode()
            got = malformed_native(cfg, text)
            shown = {**cfg, "open": text}
            if got.get("panic"):
                res.viol.append(("crash", [cfg["op"], k[-1].split(" in ")[0] if k[0] == "trap" else "result"],
                                 f"{shown}: {got['panic']} ({k[-1]})", {"input": text, "config": cfg, "got": got}))
            elif k == ("trap", "path step limit"):
                res.info["slow"] = res.info.get("slow", 0) + 1
            else:
                res.errors.append(f"{shown}: counterexample does not replay ({k})")
    except Exception as e:  # noqa
        res.errors.append(f"{cfg}: {e!r} {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res
