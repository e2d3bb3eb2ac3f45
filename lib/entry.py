"""C17: the same definition through every entry point, with and without options."""
import json, os, random, shutil, subprocess, tempfile, time, traceback
import aig, circom, common, corpus, props, rref, symcirc, tv, wx


def cli(args, cwd):
    try:
        p = subprocess.run([os.environ["ZKCLI_EXE"], *args], cwd=cwd, capture_output=True, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return -1, "it does not end within five minutes"
    return p.returncode, p.stderr


def flag(r, short, long, value):
    k = r.random()
    return ["-" + short, value] if k < .4 else ["--" + long, value] if k < .8 else [f"--{long}={value}"]


def through_cli(r, kind, it, lists, subs, name, halo2, circuit=True):
    d = tempfile.mkdtemp(prefix="cli", dir=common.scratch())
    try:
        if kind == "decomposed":
            f = os.path.join(d, "in.json")
            json.dump({"parts": [{"is_public": bool(p), "regex_def": e} for p, e in it.parts]}, open(f, "w"))
            opts = [flag(r, "d", "decomposed-regex-path", "in.json")]
            public = sum(1 for p, _ in it.parts if p)
        else:
            opts = [flag(r, "r", "raw-regex", props.raw_of(it))] if not props.raw_of(it).startswith("-") else [["--raw-regex=" + props.raw_of(it)]]
            if lists is not None:
                json.dump({"transitions": lists}, open(os.path.join(d, "subs.json"), "w"))
                opts.append(flag(r, "s", "substrs-json-path", "subs.json"))
            public = len(lists or [0])
        if circuit:
            opts.append(flag(r, "c", "circom-file-path", "out.circom"))
            opts.append(flag(r, "t", "template-name", name))
        if subs is not None:
            opts.append(flag(r, "g", "gen-substrs", "true" if subs else "false"))
        if halo2:
            opts.append(flag(r, "h", "halo2-dir-path", "."))
        r.shuffle(opts)
        rc, err = cli([kind] + [a for o in opts for a in o], d)
        out = {"ok": rc == 0, "args": [a for o in opts for a in o]}
        if rc:
            out["panic" if "panicked" in err or rc < 0 else "err"] = err[-300:]
            return out

        def read(n):
            p = os.path.join(d, n)
            return open(p).read() if os.path.exists(p) else None
        out["circom"] = read("out.circom")
        out["allstr"] = read("allstr.txt")
        out["substr"] = [read(f"substr_{i}.txt") for i in range(public + 2)]
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


NAME = 8


def plain_js(res, native, name):
    """Beyond the steps or the time of the symbolic run (very large automata): the binding under node, with one fixed name."""
    res.info["fixed_names"] = res.info.get("fixed_names", 0) + 1
    x = native(name)
    return {"ok": bool(x.get("ok")), "circom": x.get("value") if x.get("ok") else None, "err": x.get("err")}


def through_js(res, it, op, cfg, r, native):
    """The emitted text with the template's name open: (text for the name `native`, or None if refused)."""
    n = r.randint(1, NAME)
    doms = [wx.ASCII] * n
    k = r.random()
    if k < .12:
        doms = wx.multibyte(r.choice([2, 3])) + doms[:3]
    elif k < .2:
        doms = wx.fixed(b"Name" * r.randint(15, 80)) + doms[:3]
    n = len(doms)
    run = wx.Run({"op": op, **cfg}, doms, sym=True, max_paths=400, secs=200, fns=True)
    if not run.complete:
        return plain_js(res, native, "T")
    wx.tally(res, run)
    groups = run.grouped()
    run.covered(res, groups)
    g = run.g
    # what the engine emits for the name "T" (a fixed text), and where the open name goes
    base = wx.Run({"op": op, **cfg}, wx.fixed(b"T"), sym=True, max_paths=4, secs=200)
    if not base.complete or len(base.paths) != 1:
        return plain_js(res, native, "T")
    p = base.paths[0]
    if "trap" in p:
        return {"ok": False, "panic": p["trap"]}
    if p["out"][0] != 0:
        bad = g.Or_n(l for k, l in groups if k[0] != 1)
        x = run.decide(res, bad)
        if x is not None:
            res.viol.append(("name", [op, it.parts], f"{op} refuses {it.parts} for the name T, not for {x!r}", {}))
        return {"ok": False, "err": "refused"}
    text = bytes(p["out"][1:]).decode()
    head = "template T(msg_bytes)"
    at = text.find(head)
    if at < 0 or text.count("template ") != 1:
        res.viol.append(("name", [op, it.parts], f"{op}: no template of the name T in {text[:200]!r}", {"circom": text}))
        return {"ok": True, "circom": text}
    at = len(text[:at + len("template ")].encode())
    b = text.encode()
    want_len = len(b) - 1 + n
    bads = []
    for k, l in groups:
        w = k[1:]
        if k[0] != 0 or len(w) != want_len:
            bads.append(l)
            continue
        diff = []
        for i, x in enumerate(w):
            if i < at:
                c = b[i]
            elif i < at + n:
                bits = run.word(x)
                diff += [g.Xor(bits[q], run.bits[i - at][q]) for q in range(8)] + bits[8:]
                continue
            else:
                c = b[i - n + 1]
            if isinstance(x, str):
                bits = run.word(x)
                diff += [g.Xor(bits[q], c >> q & 1) for q in range(8)] + bits[8:]
            elif x != c:
                diff.append(1)
        bads.append(g.And(l, g.Or_n(diff)))
    x = run.decide(res, g.Or_n(bads))
    if x is not None:
        name = x.decode()
        got = native(name)
        want = text[:at] + name + text[at + 1:]
        if got.get("ok") and got.get("value") == want:
            # hash maps may order lines differently from run to run; the text alone decides nothing then
            res.errors.append(f"{it.name}: {op}: the name {name!r}: counterexample does not replay")
        else:
            res.viol.append(("name", [op, it.parts], f"{op} with the template name {name!r} does not give the same circuit under that name", {"got": got, "name": name}))
    return {"ok": True, "circom": text}


def miter(res, A, B, n, ident, what, reveals=True):
    """Two circuits, honest witnesses: satisfiability, out and the reveals agree for every byte message of n elements."""
    g = aig.AIG()
    a = symcirc.Circuit(*A, "T", n, g=g, full=False)
    res.templates.update(a.el.used)
    b = symcirc.Circuit(*B, "T", n, g=g, full=False, words=a.words)
    rv = set(a.reveals) if reveals else set()
    if set(b.reveals) != rv:
        res.viol.append(("outputs", ident, f"{what}: reveal outputs {sorted(b.reveals)} instead of {sorted(rv)}", {}))
        return
    sa, sb = g.And_n(a.cons), g.And_n(b.cons)
    bad = [g.Xor(sa, sb)]
    diff = [g.Xor(a.out_is(v), b.out_is(v)) for v in (0, 1)]
    for j in rv:
        for i in range(n):
            x, y = a.dom.bits_of(a.reveals[j][i]), b.dom.bits_of(b.reveals[j][i])
            diff += [g.Xor(x[min(q, len(x) - 1)], y[min(q, len(y) - 1)]) for q in range(max(len(x), len(y)))]
    bad.append(g.And(sa, g.Or_n(diff)))
    res.obligations += 1
    dom = [g.byte_in(w, (1 << 255) - 1) for w in a.words]
    m = aig.solve(g, dom + [g.Or_n(bad)], res.stats, tv.TIMEOUT)
    if m is None:
        return
    msg = a.message(m)
    fa, oa, ra = symcirc.run_concrete(*A, "T", msg)
    fb, ob, rb = symcirc.run_concrete(*B, "T", msg)
    if bool(fa) == bool(fb) and (fa or (oa == ob and all(ra[j] == rb[j] for j in rv))):
        res.errors.append(f"{res.name}: {what}: counterexample does not replay: {msg}")
        return
    res.viol.append(("differs", ident, f"{what}: msg={tv.render(msg)!r} (n={n}): out {oa} and {ob}",
                     {"message": msg, "first": [bool(fa), oa, ra], "second": [bool(fb), ob, rb]}))


def same_tables(res, A, B, ident, what, halo2subs=True):
    """Two sets of tables: equal line by line, or the same automaton with the same substrings."""
    if A["allstr"] == B["allstr"] and A["substr"] == B["substr"]:
        res.info["same_tables"] = res.info.get("same_tables", 0) + 1
        return
    sa = [set(x.split("\n")) if x is not None else None for x in [A["allstr"]] + A["substr"]]
    sb = [set(x.split("\n")) if x is not None else None for x in [B["allstr"]] + B["substr"]]
    if sa == sb:
        res.info["same_tables"] = res.info.get("same_tables", 0) + 1
        return
    res.viol.append(("tables", ident, f"{what}: other tables", {"first": A["allstr"], "second": B["allstr"]}))


def table_ways(res, tables, first, ident, what):
    """The tables of every way are those of the first; without substrings, as far as there are any."""
    if first not in tables:
        return
    A = tables[first]
    for k, B in tables.items():
        if all(t is None for t in B["substr"]):
            same_tables(res, {**A, "substr": B["substr"]}, B, ident, f"{what}: {first} and {k}")
        else:
            same_tables(res, A, B, ident, f"{what}: {first} and {k}")


def only_tables(res, tables, accepted, way, x, ident, what):
    """No circuit asked for: the same tables, and no circuit."""
    if not x["ok"]:
        if accepted and way in tables:
            res.viol.append(("refused", ident, f"{what}: {way} without a circuit refuses {ident}: {x.get('err') or x.get('panic')}", {}))
    elif x.get("circom") is not None:
        res.viol.append(("circuit", ident, f"{what}: {way} writes a circuit where none was asked for", {}))
    elif way in tables:
        same_tables(res, tables[way], x, ident, f"{what}: {way} with and without a circuit")


def task(a):
    it, seed, extra, jsops = a
    res = tv.Res(it.name)
    t = time.time()
    try:
        one(res, it, random.Random(seed), extra, jsops)
    except aig.Unknown as e:
        res.errors.append(f"{it.name}: {e}")
    except circom.IllFormed as e:
        res.viol.append(("illformed", it.parts, f"a circuit for {it.parts} is not valid circom: {e}", {}))
    except Exception:  # noqa
        res.errors.append(f"{it.name} {it.parts}: {traceback.format_exc()[-700:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def one(res, it, r, extra, jsops):
    d, parts, ident = tv.drive(), it.parts, it.parts
    ref = rref.Ref(parts)
    lib = symcirc.Library(common.REPO)
    obj = {"parts": [{"is_public": bool(p), "regex_def": e} for p, e in parts]}
    base = d.ask(cmd="struct", parts=parts, name="T", subs=True)
    n = corpus.minimum(ref) + extra if not ref.empty_language else 3
    cfg = {"parts": [[bool(p), e] for p, e in parts]}
    ways = {
        "structure again": lambda: d.ask(cmd="struct", parts=parts, name="T", subs=True),
        "the same structure, used before": lambda: d.ask(cmd="struct", parts=parts, name="T", subs=True, again=True),
        "file, no tables": lambda: d.ask(cmd="decomposed", parts=parts, name="T", subs=True, halo2=False),
        "file": lambda: d.ask(cmd="decomposed", parts=parts, name="T", subs=True, halo2=True),
        "command line": lambda: through_cli(r, "decomposed", it, None, True, "T", True),
        "genCircom": lambda: through_js(res, it, "circomname", {**cfg, "object": True, "style": r.choice(["plain", "extra"])}, r, lambda nm: wx.js().ask("genCircom", obj, nm)),
        "genFromDecomposed": lambda: through_js(res, it, "name", {**cfg, "style": r.choice(["plain", "extra"])}, r, lambda nm: wx.js().ask("genFromDecomposed", json.dumps(obj), nm)),
    }
    off = {
        "structure without substrings": lambda: d.ask(cmd="struct", parts=parts, name="T", subs=False),
        "file without substrings": lambda: d.ask(cmd="decomposed", parts=parts, name="T", subs=False, halo2=True),
        "command line without substrings": lambda: through_cli(r, "decomposed", it, None, False, "T", True),
        "structure, option left out": lambda: d.ask(cmd="struct", parts=parts, name="T", subs=None),
        "file, option left out": lambda: d.ask(cmd="decomposed", parts=parts, name="T", subs=None, halo2=True),
        "command line, option left out": lambda: through_cli(r, "decomposed", it, None, None, "T", True),
    }
    if not jsops:
        ways = {k: v for k, v in ways.items() if not k.startswith("gen")}
    parsed = {}

    def load(text):
        if text not in parsed:
            T, F = lib.load_text(text, tv.BASE)
            if "T" not in T:
                raise circom.IllFormed("the template does not have the requested name")
            parsed[text] = (T, F)
        return parsed[text]

    tables = {}

    def against(base, ways, ident, what, reveals=True):
        for k, f in ways.items():
            x = f()
            if x["ok"] != base["ok"]:
                res.viol.append(("refused", ident, f"{what}: the library {'accepts' if base['ok'] else 'refuses'} {ident}, {k} "
                                 f"{'accepts' if x['ok'] else 'refuses'} it: {x.get('err') or x.get('panic') or base.get('err') or base.get('panic')}", {}))
                continue
            if not x["ok"]:
                continue
            if x.get("circom") is None:
                res.viol.append(("nocircuit", ident, f"{what}: {k} writes no circuit for {ident}", {}))
                continue
            if "allstr" in x and x["allstr"] is not None:
                tables[k] = x
                if not reveals and any(t is not None for t in x["substr"]):
                    res.viol.append(("tables", ident, f"{what}: {k} writes substring tables", {}))
            A, B = load(base["circom"]), load(x["circom"])
            if x["circom"] == base["circom"]:
                res.info["identical"] = res.info.get("identical", 0) + 1
            else:
                miter(res, A, B, n, ident, f"{what}: library and {k}", reveals)

    against(base, ways, ident, "decomposed")
    against(base, off, ident, "decomposed", reveals=False)
    table_ways(res, tables, "file", ident, "decomposed")
    for k, x in (("file", d.ask(cmd="decomposed", parts=parts, subs=True, halo2=True, nocircuit=True)),
                 ("command line", through_cli(r, "decomposed", it, None, True, "T", True, circuit=False))):
        only_tables(res, tables, base["ok"], k, x, ident, "decomposed")
    tables.clear()
    if base["ok"]:
        # what is left without the reveal outputs, against the regex and any prover
        T, F = load(d.ask(cmd="struct", parts=parts, name="T", subs=False)["circom"])
        if not ref.unsupported():
            tv.soundness(res, T, F, "T", ref, corpus.minimum(ref) + 1, ident, do_out=True, do_rev=False)
    automaton(res, it, obj, base["ok"])
    # the same as one raw regex with transitions
    txt = props.raw_of(it)
    q = d.ask(cmd="raw", regex=txt, transitions=None, name="T", subs=False, halo2=True)
    lists = []
    if q["ok"]:
        tab = rref.TableRef(q["allstr"], [], ref.end_anchor)
        edges = sorted((s, e) for s, o in enumerate(tab.dtr) for e in o)
        lists = [sorted(r.sample(edges, min(len(edges), r.randint(1, 3)))) for _ in range(r.randint(1, 2))]
    rb = d.ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=True, halo2=True)
    subs = {"transitions": lists}
    ways = {
        "raw again": lambda: d.ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=True, halo2=True),
        "raw, option left out": lambda: d.ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=None, halo2=True),
        "command line": lambda: through_cli(r, "raw", it, lists, True, "T", True),
        "command line, option left out": lambda: through_cli(r, "raw", it, lists, None, "T", True),
        "genFromRaw": lambda: through_js(res, it, "rawname", {"regex": txt, "subs": subs}, r, lambda nm: wx.js().ask("genFromRaw", txt, json.dumps(subs), nm)),
    }
    off = {
        "raw without substrings": lambda: d.ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=False, halo2=True),
        "command line without substrings": lambda: through_cli(r, "raw", it, lists, False, "T", True),
        "command line without transitions": lambda: through_cli(r, "raw", it, None, False, "T", False),
    }
    if not jsops:
        ways.pop("genFromRaw")
    rid = ["raw", txt, lists]
    against(rb, ways, rid, "raw")
    against(rb, off, rid, "raw", reveals=False)
    table_ways(res, tables, "raw again", rid, "raw")
    for k, x in (("raw again", d.ask(cmd="raw", regex=txt, transitions=lists, subs=True, halo2=True, nocircuit=True)),
                 ("command line", through_cli(r, "raw", it, lists, True, "T", True, circuit=False))):
        only_tables(res, tables, rb["ok"], k, x, rid, "raw")
    res.programs = 1
    res.info["n"] = n


def automaton(res, it, obj, accepted):
    """What genRegexAndDfa reports, as tables, against the reference automaton."""
    a = wx.js().ask("genRegexAndDfa", obj)
    if not a["ok"]:
        if accepted:
            res.viol.append(("refused", it.parts, f"genRegexAndDfa refuses {it.parts}: {a.get('err') or a.get('panic')}", {}))
        return
    if not accepted:
        return  # refused later, when a circuit is made of it
    j = json.loads(a["value"])
    ref = rref.Ref(it.parts)
    if ref.unsupported():
        return
    ident = ["genRegexAndDfa", it.parts]
    if j["has_end_anchor"] != ref.end_anchor:
        res.viol.append(("anchor", ident, f"genRegexAndDfa says has_end_anchor={j['has_end_anchor']} for {it.parts}", {}))
        return
    st = j["dfa"]["states"]
    acc = [s["state_id"] for s in st if s["state_type"] == "accept"]
    rows = [f"{s['state_id']} {to} {c}" for s in st for to, cs in s["transitions"].items() for c in cs]
    top = max([s["state_id"] for s in st])
    sub = j["substrings"]
    files = []
    for k, edges in enumerate(sub["substring_ranges"]):
        b, e = sub["substring_boundaries"][k]
        files.append("\n".join([" ".join(map(str, b)), " ".join(map(str, e))] + [f"{x} {y}" for x, y in edges]) + "\n")
    if len(acc) != 1:
        res.viol.append(("accepting", ident, f"genRegexAndDfa reports {len(acc)} accepting states for {it.parts}", {}))
        return
    n, programs = res.info.get("n"), res.programs
    props.table_one(res, it, 2, {"ok": True, "allstr": f"0\n{acc[0]}\n{top}\n" + "\n".join(rows) + "\n", "substr": files})
    res.programs, res.info["n"] = programs, n
    res.info["automata"] = res.info.get("automata", 0) + 1


# ---------------------------------------------------------------- open regexes and definitions through the entry points
def open_jobs(seed, deep):
    """Jobs (configuration, domains): a definition with open bytes through library (structure, file) and JavaScript."""
    r = random.Random(seed * 77 + 5)
    few = lambda k: sum(1 << ord(c) for c in r.sample("()[]{}|*+?^$\\-,:a1b.", k))
    jobs = []

    def runs(raw):
        out = [["file", r.random() < .5, True, r.choice([True, None] if raw else [True]), r.random() < .5],
               [r.choice(["file"] if raw else ["file", "struct", "struct"]), False, True, r.choice([False] if raw else [False, None]), r.random() < .5]]
        if out[1][0] == "struct" or not raw and r.random() < .3:
            out[0][0] = "struct"
            out[0][1] = False
        else:
            out[0][1] = True
        return out
    holes = [t for t in wx.REGEX_HOLES if "\\p" not in t and "[[" not in t]
    for t in holes if deep else r.sample(holes, 24):
        ctx = r.choice(wx.CONTEXTS)
        at = next(i for i, (e, _) in enumerate(ctx) if e == "h")
        parts = [[p, "x" if e == "h" else e] for e, p in ctx]
        jobs.append(({"op": "fileways", "at": at, "parts": parts, "public": sum(p for p, _ in parts), "runs": runs(False)}, wx.opened(t, wx.CORE if deep else few(8))))
    for t in holes if deep else r.sample(holes, 16):
        subs = r.choice([[[[0, 1]]], [[[0, 1]], [[1, 2]]], [], [[[1, 1]], [[0, 1]], [[0, 2], [2, 2]]]])
        jobs.append(({"op": "filerawways", "subs": {"transitions": subs}, "public": len(subs), "runs": runs(True)}, wx.opened(t, wx.CORE if deep else few(8))))
    # the JSON text itself: layout, order and unknown fields
    for t in ['{"parts":[{"is_public":true,"regex_def":"a%sb"}]}' % wx.H, '{"parts":[%s{"regex_def":"b+","is_public":true}]}' % wx.H,
              '{"parts":[{"is_public":true,"x":%s,"regex_def":"[\\"a]"}]}' % wx.H, '{"parts":[{"is_public":true,"regex_def":"\\u00%s1"}]}' % wx.H]:
        jobs.append(({"op": "fileways", "public": 1, "runs": runs(False)}, wx.opened(t, wx.ASCII if deep else wx.CORE | 1 << 32 | 1 << 10 | 1 << 34)))
    return jobs


def item_of(cfg, text):
    if cfg["op"] == "filerawways":
        return corpus.Item("open", [(0, text)])
    if "parts" in cfg:
        return corpus.Item("open", [(int(p), text if i == cfg["at"] else e) for i, (p, e) in enumerate(cfg["parts"])])
    return corpus.Item("open", [(int(p["is_public"]), p["regex_def"]) for p in json.loads(text)["parts"]])


def open_task(a):
    cfg, doms, deadline = a
    res = tv.Res(cfg["op"])
    t = time.time()
    if t > deadline:
        res.skipped = "no time left"
        return res
    try:
        run = wx.Run(cfg, doms, max_paths=400, secs=max(20, deadline - t + 30), fns=True, max_steps=10**13, path_steps=wx.PATH_STEPS)
        if not run.complete:
            res.skipped = run.why
            return res
        wx.tally(res, run)
        groups = run.grouped()
        run.covered(res, groups)
        res.info["open_agree"] = sum(1 for p in run.paths if p.get("out") == [0])
        for k, l in groups:
            if k in ((0,), (1,)):
                continue
            x = run.decide(res, l)
            if x is None:
                continue
            if k[0] == "trap" and "step limit" in str(k):
                continue
            if differs(res, cfg, x.decode(), k) == "invalid":
                for x in list(run.members(run.by[k]))[:12]:
                    if differs(res, cfg, x.decode(), k) != "invalid":
                        break
    except circom.IllFormed as e:
        res.viol.append(("illformed", [cfg["op"]], f"{cfg['op']} {cfg}: the circuit is not valid circom: {e}", {}))
    except Exception as e:  # noqa
        res.errors.append(f"{cfg}: {e!r} {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def differs(res, cfg, text, k):
    """A disagreement the executor found: shown again natively, the circuits compared for every message.
    "invalid" if neither circuit is valid (the compiler's documented limits, such as regexes that accept the empty text)."""
    what = {1: "accepts what JavaScript refuses", 2: "refuses what JavaScript accepts", 3: "writes no circuit", 4: "writes a circuit nobody asked for",
            5: "writes another circuit than JavaScript", 6: "writes other than the circuit without its substrings", 7: "writes other tables than asked for"}.get(k[-1], str(k))
    way = cfg["runs"][k[1]] if k[0] == 2 else cfg["runs"]
    ident = [cfg["op"], what]
    shown = f"{cfg['op']} {way} on {text!r} ({cfg.get('parts') or cfg.get('subs')}): {what}"
    raw = cfg["op"] == "filerawways"
    if raw:
        subs = cfg["subs"]["transitions"]
        js = wx.js().ask("genFromRaw", text, json.dumps(cfg["subs"]), "T")
        nat = lambda g, h: tv.drive().ask(cmd="raw", regex=text, transitions=subs, name="T", subs=g, halo2=h)
    else:
        js = wx.js().ask("genFromDecomposed", text if "parts" not in cfg else json.dumps({"parts": [{"is_public": p, "regex_def": text if i == cfg["at"] else e} for i, (p, e) in enumerate(cfg["parts"])]}), "T")
        parts = item_of(cfg, text).parts if k[0] == "trap" or js["ok"] or k[-1] in (1, 2) else []
        nat = lambda g, h: tv.drive().ask(cmd="decomposed" if way[0] == "file" else "struct", parts=parts, name="T", subs=g, **({"halo2": h} if way[0] == "file" else {}))
    if k[0] == "trap":
        way = ["file", True, True, True, False]
        n = nat(True, True)
        if n.get("panic"):
            res.viol.append(("crash", ident, f"{shown}: {n['panic']}", {}))
        else:
            res.errors.append(f"{shown}: does not replay")
        return
    n = nat(way[3], way[1])
    if n["ok"] != js["ok"]:
        res.viol.append(("refused", ident, shown + f" ({n.get('err') or n.get('panic') or js.get('err') or js.get('panic')})", {"text": text}))
        return
    if not js["ok"]:
        res.errors.append(f"{shown}: does not replay")
        return
    public = cfg["public"]
    subs_on = way[3] if way[3] is not None else raw
    tabs = [x is not None for x in n.get("substr", [])]
    if way[1] and (n.get("allstr") is None or tabs[:public] != [subs_on] * public or any(tabs[public:])):
        res.viol.append(("tables", ident, shown, {"text": text}))
        return
    if n.get("circom") is None:
        res.viol.append(("nocircuit", ident, shown, {"text": text}))
        return
    lib = symcirc.Library(common.REPO)
    A, B = lib.load_text(js["value"], tv.BASE), lib.load_text(n["circom"], tv.BASE)
    if "T" not in B[0]:
        res.viol.append(("name", ident, shown, {"text": text}))
        return
    before = len(res.viol)
    try:
        symcirc.Circuit(*A, "T", 6, full=False)
    except circom.IllFormed:
        res.info["open_invalid"] = res.info.get("open_invalid", 0) + 1
        return "invalid"
    miter(res, A, B, 6, ident, shown, subs_on)
    if len(res.viol) == before:
        if way[4]:
            res.viol.append(("stale", ident, shown + ", where an older file stood before", {"text": text})) if stale(cfg, way, text, n["circom"]) else None
        res.info["texts_differ_circuits_agree"] = res.info.get("texts_differ_circuits_agree", 0) + 1


def stale(cfg, way, text, want):
    """Whether the command line tool leaves parts of an older output file."""
    d = tempfile.mkdtemp(prefix="cli", dir=common.scratch())
    try:
        open(os.path.join(d, "o.circom"), "w").write("stale\n" * 9000)
        if cfg["op"] == "filerawways":
            json.dump(cfg["subs"], open(os.path.join(d, "s.json"), "w"))
            opts = ["raw", "--raw-regex=" + text, "-s", "s.json"]
        else:
            json.dump({"parts": [{"is_public": bool(p), "regex_def": e} for p, e in item_of(cfg, text).parts]}, open(os.path.join(d, "d.json"), "w"))
            opts = ["decomposed", "-d", "d.json"]
        cli(opts + ["-c", "o.circom", "-t", "T"] + ([] if way[3] is None else ["-g", "true" if way[3] else "false"]), d)
        return "stale" in open(os.path.join(d, "o.circom")).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def any_task(a):
    return open_task(a[1]) if a[0] == "open" else task(a[1])
