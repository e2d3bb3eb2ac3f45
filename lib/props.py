"""One function per property: builds what it needs from /repo, asks the solver, reports."""
import glob, json, os, random, re, subprocess, sys, time, traceback
import aig, circom, common, corpus, rref, symcirc, tv
from common import Report, SEED, THOROUGH, REPO

CHECKS = {}
LEVEL = "bounded symbolic (SAT) over all messages up to the stated length, for each program of a stated corpus"
ASSUME_CIRC = [
    "circom's semantics (templates, components, tags, loops, quadratic-constraint rule) as implemented by lib/circom.py; cross-checked by evaluating every counterexample over the BN254 field",
    "circomlib's IsZero, IsEqual, LessThan, GreaterEqThan, LessEqThan, Num2Bits, AND, OR, NOT, MultiAND behave as their specifications (modelled natively)",
    "message elements are modelled as signed integers of 10 bits; values of larger magnitude are covered by the range check's own argument only through those 10 bits",
    "prover-chosen hints (<--) are modelled as signed integers of 10 bits",
]


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f
    return deco


def drive_env():
    os.environ["ZKDRIVE_EXE"] = common.build_drive()


def items(rnd_quick, rnd_thorough):
    its = corpus.shipped() + corpus.hand()
    its += corpus.many(SEED, rnd_thorough if THOROUGH else rnd_quick)
    return its


def anchored(its, which):
    out = []
    for it in its:
        try:
            r = rref.Ref(it.parts)
        except rref.RegexError:
            continue
        if (r.start_anchor if which == "^" else r.end_anchor):
            out.append(it)
    return out


def tv_check(pid, its, wants, extra, what, fn=tv.task):
    rep = Report(pid, "translation_validation")
    t = time.time()
    tasks = [(it, frozenset(wants), extra) for it in its]
    res = tv.run(tasks, fn)
    errors = tv.collect(rep, res)
    n = sum(1 for r in res if r.programs)
    rep.cov["rule"] = what
    rep.cov["bounds"] = (f"{len(its)} regexes (the repository's own, handwritten ones, {sum('random' in i.tags for i in its)} random "
                         f"with seed {SEED}); message lengths 1 and (shortest match + {extra}); every message of that length")
    rep.cov["functions_encoded"] = ("the circom text the current compiler emits for each regex, elaborated with regex_helpers.circom from "
                                    "/repo; compared with lib/rref.py's automaton of the same regex")
    rep.assumptions = ASSUME_CIRC + ["lib/rref.py gives regexes their standard meaning (own parser; the crates' parsers are not used)"]
    if n < len(its) // 3:
        errors.append(f"only {n} of {len(its)} regexes could be examined")
    return rep, errors


@check("C01")
def c01():
    drive_env()
    return tv_check("C01", items(3000, 12000) + corpus.wild(SEED + 2, 6000 if THOROUGH else 600), {"sound"}, 5 if THOROUGH else 3,
                    "for each regex: is there any witness with out=1 and no match (or out not boolean)?")


@check("C02")
def c02():
    drive_env()
    return tv_check("C02", items(3000, 12000), {"complete", "compiles", "wellformed"}, 5 if THOROUGH else 3,
                    "for each regex: is there a byte message with a match for which the honest witness fails a constraint or gives out!=1?")


@check("C03")
def c03():
    drive_env()
    return tv_check("C03", items(3000, 12000) + corpus.wild(SEED + 2, 6000 if THOROUGH else 600), {"privacy"}, 4 if THOROUGH else 2,
                    "for each regex: is there any witness revealing a byte that no match puts into that public part?")


@check("C04")
def c04():
    drive_env()
    return tv_check("C04", items(3000, 12000), {"reveal"}, 5 if THOROUGH else 3,
                    "for each regex: is there a byte message whose revealed bytes differ from those of the public part?")


@check("C05")
def c05():
    drive_env()
    its = items(0, 0)
    an = anchored(its + [i for i in corpus.many(SEED + 7, 1200 if not THOROUGH else 6000, caret=1)], "^")
    rest = [i for i in its if i not in an][::4]
    rep, e1 = tv_check("C05", an, {"sound", "complete", "sentinel", "compiles"}, 4 if THOROUGH else 3,
                       "anchored regexes: a match must start at the message's start; elements of 255 and more are refused")
    cov = dict(rep.cov)
    res = tv.run([(it, frozenset({"sentinel"}), 1) for it in rest])
    rep2 = rep
    errs = tv.collect(rep2, res)
    rep.cov = {**cov, "range_check_on_unanchored": {"programs": sum(r.programs for r in res), "queries": sum(r.stats.queries for r in res)},
               "programs": cov["programs"] + sum(r.programs for r in res)}
    return rep, e1 + errs


@check("C06")
def c06():
    drive_env()
    an = anchored(items(0, 0) + corpus.many(SEED + 11, 1500 if not THOROUGH else 6000, dollar=1), "$")
    return tv_check("C06", an, {"sound", "complete", "privacy", "reveal", "compiles"}, 4 if THOROUGH else 3,
                    "regexes ending in $, messages followed by zero padding only: out=1 exactly if a match ends at the last nonzero byte")


# ---------------------------------------------------------------- C18: one message, one set of outputs
def fixed_task(a):
    it, extra, raw = a
    res = tv.Res(it.name)
    t = time.time()
    try:
        fixed_one(res, it, extra, raw)
    except aig.Unknown as e:
        res.errors.append(f"{it.name}: {e}")
    except circom.IllFormed as e:
        res.skipped = f"ill-formed: {e}"  # C02's matter
    except circom.Unsupported as e:
        if "wild" not in it.tags:
            raise
        res.skipped = f"cannot encode: {e}"
    except Exception:
        res.errors.append(f"{it.name}: {traceback.format_exc()[-700:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def fixed_one(res, it, extra, raw):
    d = tv.drive()
    ident = it.parts
    if raw:
        txt = "".join(f"({e})" for _, e in it.parts) if len(it.parts) > 1 else it.parts[0][1]
        ident = ["raw", txt]
        r = d.ask(cmd="raw", regex=txt, transitions=None, name="T", subs=False, halo2=True)
        edges = []
        if r["ok"] and r.get("allstr"):
            edges = sorted({tuple(map(int, l.split()[:2])) for l in r["allstr"].split("\n")[3:] if l.strip()})
        rng = random.Random(f"{SEED}/{txt}")
        lists = [sorted(rng.sample(edges, min(len(edges), rng.randint(1, 4)))) for _ in range(rng.randint(1, 2))]
        r = d.ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=True)
    else:
        r = d.ask(cmd="struct", parts=it.parts, name="T", subs=True)
    if not r["ok"]:
        res.skipped = "not compiled"
        return
    size = re.search(r"signal states\[num_bytes\+1\]\[(\d+)\]", r["circom"])
    if size and int(size[1]) > (200 if THOROUGH else 40 if "wild" in it.tags else 120):
        res.skipped = "too many states"
        return
    lib = symcirc.Library(REPO)
    T, F = lib.load_text(r["circom"], tv.BASE)
    try:
        mn = corpus.minimum(rref.Ref(it.parts))
    except rref.RegexError:
        mn = 2
    for n in sorted({1, mn + extra}):
        tv.fixed(res, T, F, "T", n, ident)
        res.info.setdefault("n", []).append(n)
    res.programs = 1


@check("C18")
def c18():
    drive_env()
    rep = Report("C18", "translation_validation")
    k = 12000 if THOROUGH else 1000
    its = items(1000, 12000) + corpus.wild(SEED, k)
    ex = 4 if THOROUGH else 2
    tasks = [(it, ex, False) for it in its] + [(it, ex, True) for it in corpus.hand()[::2] + corpus.wild(SEED + 1, k // 3)]
    res = tv.run(tasks, fixed_task)
    ship = [(name, n) for name in shipped_names() for n in ((6, 14) if not THOROUGH else (6, 14, 24, 40))]
    res += tv.run(ship, fixed_shipped)
    errors = tv.collect(rep, res)
    rep.cov["rule"] = ("for each circuit: is there a message with two witnesses whose out or reveal outputs differ, or a witness with out not boolean, "
                       "with a reveal output that is neither zero nor the message's byte there, or with anything revealed while out is 0?")
    rep.cov["bounds"] = (f"{len(tasks)} regexes (the repository's own, handwritten and random with seed {SEED}, whether or not the documented limitations "
                         f"exclude them; decomposed and raw) at lengths 1 and (shortest match + {ex}), every circuit of packages/circom/circuits/common at {sorted({n for _, n in ship})}; every message")
    rep.cov["functions_encoded"] = "the circom text the current compiler emits, and the shipped circuits, elaborated with regex_helpers.circom from /repo"
    rep.assumptions = ASSUME_CIRC
    if sum(r.programs for r in res) < len(tasks) // 3:
        errors.append("hardly any circuit could be examined")
    return rep, errors


def shipped_names():
    return sorted(os.path.basename(f)[:-len(".circom")] for f in glob.glob(os.path.join(COMMON, "*.circom")))


def fixed_shipped(a):
    name, n = a
    res = tv.Res(f"{name}:{n}")
    try:
        path = os.path.join(COMMON, name + ".circom")
        lib = symcirc.Library(REPO)
        T, F = lib.load(path)
        tv.fixed(res, T, F, template_of(path), n, name)
        res.info["n"] = n
        res.programs = 1
    except aig.Unknown as e:
        res.errors.append(f"{res.name}: {e}")
    except circom.IllFormed as e:
        res.skipped = f"ill-formed: {e}"  # C07's matter
    except Exception:
        res.errors.append(f"{res.name}: {traceback.format_exc()[-700:]}")
    return res


# ---------------------------------------------------------------- C07: the circuits shipped in the repository
COMMON = os.path.join(REPO, "packages/circom/circuits/common")


def template_of(path):
    prog = circom.parse(open(path).read())
    names = list(prog[0])
    if len(names) != 1:
        raise circom.IllFormed(f"{os.path.basename(path)} holds {len(names)} templates")
    return names[0]


def shipped_task(args):
    name, kind, n = args
    res = tv.Res(f"{name}:{kind}:{n}")
    t = time.time()
    try:
        path = os.path.join(COMMON, name + "_regex.circom")
        lib = symcirc.Library(REPO)
        T, F = lib.load(path)
        tn = template_of(path)
        jpath = os.path.join(COMMON, name + ".json")
        parts = [(bool(p["is_public"]), p["regex_def"]) for p in json.load(open(jpath))["parts"]]
        ref = rref.Ref(parts)
        n = corpus.minimum(ref) + n if n > 1 else -n if n < 0 else 1
        if kind == "exact":
            tv.exact(res, T, F, tn, ref, n, name)
        elif kind == "sound":
            tv.soundness(res, T, F, tn, ref, n, name, do_range=True)
        else:
            tv.completeness(res, T, F, tn, ref, n, name)
        res.info["n"] = n
        res.programs = 1
    except circom.IllFormed as e:
        res.viol.append(("illformed", name, f"the shipped circuit is not valid circom: {e}", {}))
    except aig.Unknown as e:
        res.errors.append(f"{res.name}: {e}")
    except Exception:
        res.errors.append(f"{res.name}: {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def word_text(g, D, cells):
    """Values as text symbols: (the 8 low bits, whether the value is a byte 0..254) each, and their full bits."""
    els, words = [], []
    for v in cells:
        b = D.bits_of(v)
        lo = [b[k] if k < len(b) else 0 for k in range(8)]
        hi = b[8:] if len(b) > 8 else ([b[-1]] if b else [])
        els.append((lo, g.And(g.And_n(x ^ 1 for x in hi), g.byte_in(lo, (1 << 255) - 1))))
        words.append(b)
    return els, words


def summary(ref, k=None):
    """The reference scan of a definition standing for its circuit (shown equal to it by its own obligations)."""
    k = tv.public_parts(ref.parts)[0] if k is None else k

    def f(D, args, ins):
        g, n = D.g, args[0]
        els, words = word_text(g, D, [c.v for c in ins["msg"].cells])
        out, masks, _ = rref.sym_scan(g, ref, rref.Text(g, els))
        o = circom.Arr((), "sig", "out")
        o.cells = [circom.V(D.lit(out), 1)]
        r = circom.Arr([n], "sig", "reveal0")
        r.cells = [circom.V(D.word([g.And(m, b) for b in w], signed=True), 1) for m, w in zip(masks[k], words)]
        return {"out": o, "reveal0": r}
    return f


def composite_task(args):
    """The address circuits built from others: the address within the From/To line, in angle brackets if there are any."""
    name, n, mode = args
    res = tv.Res(f"{name}:composite:{mode}:{n}")
    t = time.time()
    try:
        load = lambda x: rref.Ref([(bool(p["is_public"]), p["regex_def"]) for p in json.load(open(os.path.join(COMMON, x + ".json")))["parts"]])
        brack, plain = load("reversed_bracket"), load("email_addr")
        lib = symcirc.Library(REPO)
        T, F = lib.load(os.path.join(COMMON, name + "_regex.circom"))
        tn = template_of(os.path.join(COMMON, name + "_regex.circom"))
        tname = lambda x: template_of(os.path.join(COMMON, x + "_regex.circom"))
        sums = {tname("reversed_bracket"): summary(brack), tname("email_addr"): summary(plain)}
        line = None
        if name != "email_addr_with_name":
            line = load(name.replace("_addr", "_all"))
            sums[tname(name.replace("_addr", "_all"))] = summary(line)
        c = symcirc.Circuit(T, F, tn, n, full=mode == "sound", summaries=sums)
        res.templates.update(c.el.used)
        g, D = c.g, c.dom
        els, words = word_text(g, D, [D.word(w, signed=mode == "sound") for w in c.words])
        tx = rref.Text(g, els)

        def inner(els):
            o1, m1, _ = rref.sym_scan(g, brack, rref.Text(g, els[::-1]))
            return o1, m1[tv.public_parts(brack.parts)[0]][::-1]

        def conc_inner(t):
            o, m = brack.scan_concrete(t[::-1])
            return o, m[tv.public_parts(brack.parts)[0]][::-1]

        if line is None:
            need = 1
            out, mask = inner(els)
            conc = lambda msg: (True, *conc_inner(msg))
        else:
            k, kp = tv.public_parts(line.parts)[0], tv.public_parts(plain.parts)[0]
            need, m0, _ = rref.sym_scan(g, line, tx)
            t2 = [([g.And(m, b) for b in bits], g.Or(m ^ 1, v)) for (bits, v), m in zip(els, m0[k])]
            o1, m1 = inner(t2)
            o2, m2, _ = rref.sym_scan(g, plain, rref.Text(g, t2))
            out = g.Or(o1, o2)
            mask = [g.And(g.Ite(o1, a, b), z) for a, b, z in zip(m1, m2[kp], m0[k])]

            def conc(msg):
                o0, m0 = line.scan_concrete(msg)
                t2 = [b if m else 0 for b, m in zip(msg, m0[k])]
                o1, m1 = conc_inner(t2)
                o2, m2 = plain.scan_concrete(t2)
                return o0, o1 or o2, [bool((a if o1 else b) and z) for a, b, z in zip(m1, m2[kp], m0[k])]

        sat = g.And_n(c.cons)
        if set(c.reveals) != {0}:
            raise circom.IllFormed("there is not exactly one reveal output")
        neq = []
        for i in range(n):
            bits = D.bits_of(c.reveals[0][i])
            for q in range(max(len(bits), len(words[i]))):
                neq.append(g.Xor(bits[min(q, len(bits) - 1)] if bits else 0, g.And(mask[i], words[i][min(q, len(words[i]) - 1)])))
        wrong = g.Or_n([g.Xor(c.out_is(1), out), g.Xor(c.out_is(0), out ^ 1), *neq])
        valid = g.And_n(v for _, v in els) if mode == "complete" else 1
        asks = [("differs", [sat, wrong]), ("accepts", [sat, need ^ 1])]
        if mode == "complete":
            asks.append(("unsat", [need, sat ^ 1]))
        for kind, roots in asks:
            res.obligations += 1
            m = aig.solve(g, [valid] + roots, res.stats, tv.TIMEOUT)
            if m is None:
                continue
            msg = c.message(m)
            failed, o, r = symcirc.run_concrete(T, F, tn, msg, c.hints(m))
            ok0, wo, wm = conc(msg)
            want = [b % circom.P if x else 0 for b, x in zip(msg, wm)]
            real = {"differs": not failed and (o != int(wo) or r[0] != want), "unsat": bool(failed) and ok0,
                    "accepts": not failed and not ok0}[kind]
            if not real:
                res.errors.append(f"{res.name}: {kind} does not replay: {msg}")
                continue
            res.viol.append((kind, name, f"{name} {kind}: msg={tv.render(msg)!r}", {"message": msg, "out": o, "expected_out": int(wo), "reveal": r.get(0), "expected": want}))
        if aig.solve(g, [valid, sat, out], res.stats, tv.TIMEOUT) is None:
            res.errors.append(f"{res.name}: nothing matches within this length")
        res.programs = 1
        res.info["n"] = n
    except circom.IllFormed as e:
        res.viol.append(("illformed", name, f"the shipped circuit is not valid circom: {e}", {}))
    except aig.Unknown as e:
        res.errors.append(f"{res.name}: {e}")
    except Exception:
        res.errors.append(f"{res.name}: {traceback.format_exc()[-600:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def c07_task(a):
    return composite_task(a[1:]) if a[0] == "comp" else shipped_task(a[1:])


@check("C07")
def c07():
    rep = Report("C07", "translation_validation")
    tasks = []
    ex = 30 if THOROUGH else 20
    lens = set()
    for n, Ls in (("from_addr", (12, 13, 14, 18, 24) if THOROUGH else (12, 15, 20)), ("to_addr", (10, 12, 14, 18, 24) if THOROUGH else (10, 13, 20)),
                  ("email_addr_with_name", (3, 6, 12, 24, 40) if THOROUGH else (4, 9, 16, 30))):
        for x in Ls:
            subs = ["reversed_bracket"] + (["email_addr", n.replace("_addr", "_all")] if n != "email_addr_with_name" else [])
            lens |= {(s, x) for s in subs}
            tasks += [("comp", n, x, mode) for mode in ("sound", "complete")]
    # what the composites assume of their parts, at the composites' lengths
    for s, x in sorted(lens):
        tasks += [("one", s, "exact", -x), ("one", s, "complete", -x)]
    names = sorted(os.path.basename(j)[:-5] for j in glob.glob(os.path.join(COMMON, "*.json")))
    errors = []
    for name in names:
        if not os.path.exists(os.path.join(COMMON, name + "_regex.circom")):
            errors.append(f"{name}.json has no circuit")
            continue
        for kind in ("sound", "complete"):
            for n in (1, ex):
                tasks.append(("one", name, kind, n))
    res = tv.run(tasks, c07_task)
    errors += tv.collect(rep, res)
    rep.cov["bounds"] = f"{len(names)} circuits with a definition and 3 composites; lengths 1 and shortest match + {ex}; composites at {[t[2] for t in tasks if t[0] == 'comp']}"
    rep.cov["functions_encoded"] = "every .circom file of packages/circom/circuits/common that has a definition, the composites, and regex_helpers.circom"
    rep.assumptions = ASSUME_CIRC
    return rep, errors


# ---------------------------------------------------------------- C09 / C10: raw mode and the lookup tables
def substr_files(txts):
    out = []
    for t in txts:
        if t is None:
            break
        ls = t.split("\n")
        out.append((frozenset(map(int, ls[0].split())), frozenset(map(int, ls[1].split())),
                    frozenset(tuple(map(int, l.split())) for l in ls[2:] if l.strip())))
    return out


def raw_of(it):
    """One regex with the meaning of all parts together."""
    return "".join(p if i == 0 and rref.has_bol(rref.RParser(p).parse()) else f"({p[:-1]})$" if i == len(it.parts) - 1 and p.endswith("$") and not p.endswith("\\$") else f"({p})"
                   for i, (_, p) in enumerate(it.parts))


def raw_task(args):
    it, wants, extra = args
    res = tv.Res(it.name)
    t = time.time()
    try:
        raw_one(res, it, extra)
    except aig.Unknown as e:
        res.errors.append(f"{it.name}: {e}")
    except circom.IllFormed as e:
        res.viol.append(("illformed", res.info.get("ident"), f"the circuit of raw regex {res.info.get('ident')} is not valid circom: {e}", {}))
    except Exception:
        res.errors.append(f"{it.name}: {traceback.format_exc()[-700:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def raw_one(res, it, extra):
    d = tv.drive()
    txt = raw_of(it)
    ref = rref.Ref([(True, txt)])
    uns = ref.unsupported()
    res.info["ident"] = ident = txt
    r = d.ask(cmd="raw", regex=txt, transitions=None, name="T", subs=False, halo2=True)
    if not r["ok"]:
        res.skipped = "not compiled"
        if uns is None:
            res.viol.append(("refused", ident, f"the compiler refuses or panics on the supported raw regex {txt!r}: {r}", {"regex": txt}))
        return
    if uns is not None:
        res.skipped = uns
        return
    table = rref.TableRef(r["allstr"], [], ref.end_anchor)
    edges = sorted((s, e) for s, o in enumerate(table.dtr) for e in o)
    rng = random.Random(f"{SEED}/{txt}")
    lists = [sorted(rng.sample(edges, min(len(edges), rng.randint(1, 4)))), edges, [], [e for e in edges if e[0] == e[1] or rng.random() < .3]]
    r = d.ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=True, halo2=True)
    if not r["ok"]:
        res.viol.append(("refused", ident, f"raw regex {txt!r} with transitions {lists} is refused: {r}", {"regex": txt, "transitions": lists}))
        return
    # without a start anchor the numbering is known beforehand: breadth first, edges in the order of their labels
    if ref.start_anchor:
        table = rref.TableRef(r["allstr"], [set(map(tuple, l)) for l in lists], ref.end_anchor)
    else:
        table = rref.NumberedRef(txt, [set(map(tuple, l)) for l in lists])
    lib = symcirc.Library(REPO)
    T, F = lib.load_text(r["circom"], tv.BASE)
    # out is judged against the regex itself, the reveals against the listed transitions of the reported automaton
    for n in sorted({1, corpus.minimum(ref) + extra}):
        tv.soundness(res, T, F, "T", ref, n, ident, do_out=True, do_rev=False)
        tv.completeness(res, T, F, "T", ref, n, ident, do_out=True, do_rev=False)
        tv.completeness(res, T, F, "T", table, n, (ident, lists), do_out=False, do_rev=True,
                        reveal_map={i: i for i in range(len(lists))})
        if n > 1 and res.info.get("vacuous"):
            res.errors.append(f"{it.name}: nothing matches within n={n}")
        res.info.pop("vacuous", None)
        res.info.setdefault("n", []).append(n)
    res.programs = 1


README_RAW = ("1=(a|b) (2=(b|c)+ )+d", [[[2, 3]], [[6, 7], [7, 7]], [[8, 9]]])


@check("C09")
def c09():
    drive_env()
    its = [i for i in items(1500, 6000)]
    its.append(corpus.Item("alt-top", [(0, "ab|cd|e")]))
    its.append(corpus.Item("alt-top-end", [(0, "(ab|cd)$")]))
    its.append(corpus.Item("readme", [(0, README_RAW[0])]))
    rep, errors = tv_check("C09", its, {"raw"}, 4 if THOROUGH else 2,
                           "raw regexes with listed transitions: out against the regex, reveals against the listed transitions of the minimal automaton, numbered breadth first (with a start anchor: of the reported table)", raw_task)
    # the numbering the documentation relies on: its example must select the characters it says it selects
    txt, lists = README_RAW
    r = tv.drive().ask(cmd="raw", regex=txt, transitions=lists, name="T", subs=True, halo2=True)
    if not r["ok"]:
        rep.violation("readme", f"the documented example is refused: {r}", {"regex": txt})
    else:
        parts_ref = [rref.Ref([(0, "1="), (1, "(a|b)"), (0, " (2=(b|c)+ )+d")]), None, rref.Ref([(0, "1=(a|b) (2=(b|c)+ )+"), (1, "d")])]
        T, F = symcirc.Library(REPO).load_text(r["circom"], tv.BASE)
        res = tv.Res("readme-numbering")
        n = 12
        try:
            c = symcirc.Circuit(T, F, "T", n, full=False)
            g = c.g
            tx = rref.Text(g, c.byte_els())
            for j, k, ref in ((0, 1, parts_ref[0]), (2, 1, parts_ref[2])):
                out, masks, _ = rref.sym_scan(g, ref, tx)
                bad = []
                for i in range(n):
                    bits = c.dom.bits_of(c.reveals[j][i])
                    want = [g.And(masks[k][i], b) for b in c.words[i]]
                    bad += [g.Xor(bits[min(q, len(bits) - 1)], want[q] if q < len(want) else 0) for q in range(max(len(bits), len(want)))]
                m = aig.solve(g, [v for _, v in tx.els] + [g.Or_n(bad)], res.stats)
                if m:
                    msg = c.message(m)
                    _, o, rv = symcirc.run_concrete(T, F, "T", msg)
                    _, mk = ref.scan_concrete(msg)
                    if any(rv[j][i] != (msg[i] if mk[k][i] else 0) for i in range(n)):
                        rep.violation("readme", f"the documented transitions select other characters: msg={tv.render(msg)!r}", {"message": msg, "reveals": rv})
                    else:
                        errors.append("readme counterexample does not replay")
            # substring 1: the letters between "2=" and the blank
            full, _, _ = rref.sym_scan(g, rref.Ref([(1, txt)]), tx)
            letters = [tx.inset(i + 1, 1 << 98 | 1 << 99) for i in range(n)]
            after = [0] * n
            for i in range(2, n):
                eq = g.And(tx.inset(i - 1, 1 << 50), tx.inset(i, 1 << 61))
                after[i] = g.And(letters[i], g.Or(eq, after[i - 1]))
            # messages that are exactly one match followed by padding: start state consumed from position 0
            ex = rref.Ref([(0, "^"), (1, txt), (0, "$")])
            exact, _, _ = rref.sym_scan(g, ex, tx)
            bad = []
            for i in range(n):
                bits = c.dom.bits_of(c.reveals[1][i])
                want = [g.And(after[i], b) for b in c.words[i]]
                bad += [g.Xor(bits[min(q, len(bits) - 1)], want[q] if q < len(want) else 0) for q in range(max(len(bits), len(want)))]
            m = aig.solve(g, [v for _, v in tx.els] + [rref.zero_padded(g, tx), exact, g.Or_n(bad)], res.stats)
            if m:
                msg = c.message(m)
                rep.violation("readme1", f"the documented transitions 6->7, 7->7 select other characters: msg={tv.render(msg)!r}",
                              {"message": msg, "reveals": symcirc.run_concrete(T, F, "T", msg)[2]})
            rep.cov["readme_example_queries"] = res.stats.queries
        except (circom.IllFormed, KeyError) as e:
            rep.violation("readme", f"the documented example's circuit lacks its outputs: {e}", {})
    return rep, errors


def table_task(args):
    it, wants, extra = args
    res = tv.Res(it.name)
    t = time.time()
    try:
        table_one(res, it, extra)
    except aig.Unknown as e:
        res.errors.append(f"{it.name}: {e}")
    except (ValueError, IndexError, rref.RegexError) as e:
        res.viol.append(("badtable", it.parts, f"the table of {it.parts} is malformed: {e!r}", {}))
    except Exception:
        res.errors.append(f"{it.name}: {traceback.format_exc()[-700:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def ref_boundaries(ref):
    """Per public part: reference states where it may begin / where it is complete."""
    # rebuild the (part, state) names of the decomposed automaton
    ds = ref.part_dfas
    names = ref.names
    out = []
    for k, (pub, _) in enumerate(ref.parts):
        if not pub:
            continue
        null = lambda a, b: all(0 in ds[j][1] for j in range(a, b))
        st = frozenset(i for i, (p, q) in enumerate(names) if (p < k and q in ds[p][1] and null(p + 1, k)) or (i == 0 and null(0, k)))
        en = frozenset(i for i, (p, q) in enumerate(names) if (p == k and q in ds[k][1]) or (p < k and q in ds[p][1] and null(p + 1, k + 1))
                       or (i == 0 and null(0, k + 1)))
        out.append((st, en))
    return out


def table_one(res, it, extra, r=None):
    """The tables of a definition (the compiler's files, or `r`) against the reference automaton."""
    ref = rref.Ref(it.parts, zero=True)
    uns = ref.unsupported()
    ident = it.parts
    r = r or tv.drive().ask(cmd="decomposed", parts=it.parts, name="T", subs=True, halo2=True)
    if not r["ok"]:
        res.skipped = "not compiled"
        if uns is None:
            res.viol.append(("refused", ident, f"tables for the supported regex {it.parts} are refused: {r}", {}))
        return
    if uns is not None:
        res.skipped = uns
        return
    pub = tv.public_parts(ref.parts)
    subs = substr_files(r["substr"])
    if len(subs) != len(pub):
        res.viol.append(("substrfiles", ident, f"{len(subs)} substring tables for {len(pub)} public parts", {}))
        return
    tab = rref.TableRef(r["allstr"], [s[2] for s in subs], ref.end_anchor, zero=True)
    top = max(max(s, *o) if o else 0 for s, o in enumerate(tab.dtr))
    if tab.nondeterministic:
        res.viol.append(("nondeterministic", ident, f"two transitions for (state, byte) {tab.nondeterministic}", {"table": r["allstr"]}))
        return
    if max(top, *tab.dacc) > tab.max_state:
        res.viol.append(("maxstate", ident, f"states up to {top} but the table's largest state is given as {tab.max_state}", {"table": r["allstr"]}))
    n = min(max(corpus.minimum(ref) + 1 + extra, len(ref.dtr) + 1), 40)
    g = aig.AIG()
    sym = [[g.input(f"b{i}_{k}") for k in range(8)] for i in range(n)]
    inset = lambda i, m: g.byte_in(sym[i], m)
    run_t, run_r = [1] + [0] * (len(tab.dtr) - 1), [1] + [0] * (len(ref.dtr) - 1)
    bound = ref_boundaries(ref)
    bads, reach = [], {}
    reachable, work = {0}, [0]
    while work:
        new = set(tab.dtr[work.pop()]) - reachable
        reachable |= new
        work += new

    def step(run, dtr, i):
        nx = [[] for _ in run]
        ed = {}
        for s, o in enumerate(dtr):
            if run[s]:
                for e, m in o.items():
                    l = g.And(run[s], inset(i, m))
                    ed[(s, e)] = l
                    nx[e].append(l)
        return [g.Or_n(x) for x in nx], ed

    for i in range(n + 1):
        bads.append(("language", i, g.Xor(g.Or_n(run_t[a] for a in tab.dacc), g.Or_n(run_r[a] for a in ref.dacc))))
        # a dead end in one is a dead end in the other, so the tables list nothing superfluous
        bads.append(("alive", i, g.Xor(g.Or_n(run_t), g.Or_n(run_r))))
        alive = g.Or_n(run_r)
        for k in range(len(pub)):
            for which in (0, 1):
                may = g.Or_n(run_r[a] for a in bound[k][which])
                listed = g.Or_n(run_t[a] for a in subs[k][which] if a < len(run_t))
                bads.append((("start", "end")[which] + f" states of substring {k}", i, g.And(may, listed ^ 1)))
                for a in subs[k][which] & reachable:
                    reach.setdefault((k, which, a), []).append(g.And(may, run_t[a]) if a < len(run_t) else 0)
        if i == n:
            break
        nt, et = step(run_t, tab.dtr, i)
        nr, _ = step(run_r, ref.dtr, i)
        for j, k in enumerate(pub):
            a = g.Or_n(l for e, l in et.items() if e in subs[j][2])
            b = g.Or_n(g.And(run_r[s], inset(i, m[k])) for s, o in enumerate(ref.tags) if run_r[s] for e, m in o.items() if m.get(k))
            bads.append((f"transitions of substring {j}", i, g.Xor(a, b)))
        run_t, run_r = nt, nr
    res.obligations += 1
    m = aig.solve(g, [g.Or_n(b for *_, b in bads)], res.stats, tv.TIMEOUT)
    if m:
        word = bytes(sum(1 << k for k in range(8) if m.get(f"b{i}_{k}")) for i in range(n))
        # replay: walk both automata over the word
        vals = g.evaluate([b for *_, b in bads], m)
        hit = [(w, i) for (w, i, _), v in zip(bads, vals) if v][0]
        w, i = hit
        st = sr = 0
        for b in word[:i]:
            st = next((e for e, mm in tab.dtr[st].items() if mm >> b & 1), None) if st is not None else None
            sr = next((e for e, mm in ref.dtr[sr].items() if mm >> b & 1), None) if sr is not None else None
        res.viol.append(("table", ident, f"{w} after {word[:i + 1]!r} (table state {st}) differ from the regex {it.parts}",
                         {"word": list(word), "position": i, "table_state": st, "reference_state": sr, "table": r["allstr"], "substr": r["substr"][:len(pub)]}))
    # no state is listed as a boundary that is none for any word
    for (k, which, a), lits in reach.items():
        res.obligations += 1
        if aig.solve(g, [g.Or_n(lits)], res.stats, tv.TIMEOUT) is None and len(ref.dtr) < n:
            what = ("start", "end")[which]
            res.viol.append((f"{what}{k}", ident, f"state {a} is listed as {what} state of substring {k} but no word has that boundary there (regex {it.parts})",
                             {"table": r["allstr"], "substr": r["substr"][:len(pub)]}))
    if aig.solve(g, [g.Or_n(run_r[a] for a in ref.dacc)], res.stats, tv.TIMEOUT) is None and not ref.dacc:
        res.errors.append(f"{it.name}: vacuous")
    res.programs = 1
    res.info["n"] = n


@check("C10")
def c10():
    drive_env()
    rep, errors = tv_check("C10", items(3000, 9000), {"tables"}, 6 if THOROUGH else 3,
                           "words of up to n bytes run through the transition table and through the reference automaton in lockstep: acceptance, dead ends, substring transitions, start and end states agree",
                           table_task)
    rep.cov["bounds"] = rep.cov["bounds"].replace("message lengths 1 and (shortest match", "all words of up to (shortest match + 1")
    return rep, errors


# ---------------------------------------------------------------- C08: edge labels
def cls_text(bytes_, r):
    """A character class with exactly these members, written in one of the ways a class can be written."""
    runs, bs = [], sorted(bytes_)
    for b in bs:
        if runs and runs[-1][1] == b - 1:
            runs[-1][1] = b
        else:
            runs.append([b, b])

    def ch(b):
        c = chr(b)
        if r.random() < 0.5 and 32 < b < 127 or c in "\r\n\t" and r.random() < 0.5:
            return ("\\" + c) if c in "\\]^[-&~" else c
        return f"\\x{b:02x}"
    return "[" + "".join(ch(a) if a == b else f"{ch(a)}-{ch(b)}" for a, b in runs) + "]"


def label_items():
    r = random.Random(SEED)
    its = []

    def add(name, text):
        its.append(corpus.Item(name, [(0, "A"), (1, text), (0, "B")]))
    step = 1 if THOROUGH else 7
    k = r.randrange(step)
    for lo in range(1, 128):
        for hi in range(lo, 128):
            # every run of one to three characters and every run at the width where the generator changes its encoding
            edge = hi - lo in (0, 1, 15, 16) or hi == 127 or lo == 1 or hi - lo == 2 and not (lo & 1)
            if edge or (lo * 131 + hi) % step == k:
                add(f"run{lo}-{hi}", cls_text(range(lo, hi + 1), r))
    for i in range(2500 if THOROUGH else 250):
        s = set()
        for _ in range(r.randint(1, 5)):
            lo = r.randint(1, 127)
            s |= set(range(lo, min(127, lo + r.choice((0, 0, 1, 2, 14, 15, 16, 17, 18, 30, 60))) + 1))
        if r.random() < 0.3:
            add(f"not{i}", "[^" + cls_text(s, r)[1:])
        else:
            add(f"set{i}", cls_text(s, r))
    # several labels beside each other: gates are shared between edges
    for i in range(600 if THOROUGH else 120):
        alts = []
        for j in range(r.randint(2, 4)):
            lo = r.randint(1, 126)
            alts.append(cls_text(range(lo, min(127, lo + r.choice((0, 1, 3, 15, 16, 17, 20, 40))) + 1), r) + "xyzw"[j])
        its.append(corpus.Item(f"alts{i}", [(0, "A"), (1, "(" + "|".join(alts) + ")"), (0, "B")]))
    # characters beyond ASCII: runs that cross the boundaries of their encodings
    for i in range(300 if THOROUGH else 60):
        lo = r.choice((0x80, 0x7F0, 0xFF0, 0xD7F0, 0xE000, 0xFFF0, 0x10000, 0x1F600, 0x3040, 0xE0)) + r.randint(0, 15)
        hi = lo + r.choice((0, 1, 7, 20, 64, 70, 500))
        if not (0xD800 <= hi < 0xE000):
            add(f"utf{i}", f"[\\x{{{lo:x}}}-\\x{{{hi:x}}}]" if r.random() < 0.5 else f"[{chr(lo)}-{chr(hi)}]")
    return its


def label_task(args):
    """Circuit and table of one label at once."""
    it, wants, extra = args
    res = tv.task((it, frozenset({"sound", "complete", "privacy", "reveal", "compiles", "wellformed"}), extra))
    other = table_task((it, wants, extra))
    res.viol += other.viol
    res.errors += other.errors
    res.stats.merge(other.stats)
    return res


@check("C08")
def c08():
    drive_env()
    return tv_check("C08", label_items(), {"label"}, 1,
                    "one character class per program: the circuit accepts and reveals exactly its members between two fixed characters, for every message; the table lists exactly its members", label_task)


# ---------------------------------------------------------------- C16: the helper templates
@check("C16")
def c16():
    rep = Report("C16", "translation_validation")
    path = os.path.join(REPO, "packages/circom/circuits/regex_helpers.circom")
    T, F = symcirc.Library(REPO).load(path)
    st = aig.Stats()
    errors, progs = [], 0
    top = 260 if THOROUGH else 120
    big = [300, 500, 700, 1000] if THOROUGH else [128, 200, 256, 400, 700]

    def run(name, args, shapes, spec, boolean):
        """shapes: {input: (dims, bits)}; spec(g, words)->expected bits of out (list of literals, unsigned)"""
        nonlocal progs
        g = aig.AIG()
        D = symcirc.SymDomain(g)
        ins, words = {}, {}
        for k, (dims, nb) in shapes.items():
            cnt = 1
            for x in dims:
                cnt *= x
            words[k] = [[g.input(f"{k}{i}_{j}") for j in range(nb)] for i in range(cnt)]
            a = circom.Arr(list(dims), "sig", k) if dims else circom.Arr((), "sig", k)
            a.cells = [circom.V(D.word(w), 1) for w in words[k]]
            ins[k] = a
        el = circom.Elaborator(D, T, F)
        o = el.run_template(name, list(args), ins, "main")["out"].cells[0].v
        bits = D.bits_of(o)
        want = spec(g, words)
        bad = g.Or_n(g.Xor(bits[min(q, len(bits) - 1)], want[q] if q < len(want) else 0) for q in range(max(len(bits), len(want))))
        sat = g.And_n(D.cons)

        def signed(m, bits):
            v = sum(1 << i for i, b in enumerate(g.evaluate(bits, m)) if b)
            return v - (1 << len(bits)) if v >> (len(bits) - 1) & 1 else v

        def conc(m):
            Df = circom.FieldDomain({k: signed(m, bits) for k, bits in enumerate(D.hint_words)})
            ci, vals = {}, {}
            for k, (dims, nb) in shapes.items():
                vals[k] = [sum(1 << j for j in range(nb) if m.get(f"{k}{i}_{j}")) for i in range(len(words[k]))]
                a = circom.Arr(list(dims) if dims else (), "sig", k)
                a.cells = [circom.V(v, 1) for v in vals[k]]
                ci[k] = a
            r = circom.Elaborator(Df, T, F).run_template(name, list(args), ci, "main")["out"].cells[0].v
            w = g.evaluate(want, m)
            return vals, r, sum(1 << i for i, b in enumerate(w) if b), Df.failed

        for what, root in (("wrong output", g.And(sat, bad)), ("no honest witness", sat ^ 1 if not D.nhint else 0)):
            m = aig.solve(g, [root], st)
            if m:
                vals, r, w, failed = conc(m)
                if (r != w and not failed) if what == "wrong output" else failed:
                    rep.violation(f"{name}{args}-{what}".replace(" ", ""), f"{name}({args}) {what}: inputs {vals} give {r}, expected {w}", {"inputs": vals, "out": r, "expected": w})
                else:
                    errors.append(f"{name}{args}: {what} does not replay")
        progs += 1

    def orn(g, w):
        """At least one input is not 0: the sum of all of them is not 0 (stated by adders, not by gates of the same shape)."""
        ws = [list(v) + [0] for v in w["in"]]
        while len(ws) > 1:
            k = max(len(v) for v in ws) + 1
            ws = [g.add_words(ws[i], ws[i + 1], k)[:k] if i + 1 < len(ws) else ws[i] for i in range(0, len(ws), 2)]
        return g.Or_n(ws[0])
    try:
        for n in list(range(1, top + 1)) + big:
            run("MultiOR", (n,), {"in": ((n,), 1)}, lambda g, w: [orn(g, w)], True)
            run("MultiNOR", (n,), {"in": ((n,), 1)}, lambda g, w: [orn(g, w) ^ 1], True)
            if n <= 24:
                run("MultiOR", (n,), {"in": ((n,), 8)}, lambda g, w: [orn(g, w)], False)
        run("ORAnd", (), {"in": ((3,), 1)}, lambda g, w: [g.And(g.Or(w["in"][0][0], w["in"][1][0]), w["in"][2][0])], True)
        for nb in (1, 8, 16):
            def acc(g, w, nb=nb):
                nz = g.Or_n(w["in"][0])
                return g.add_words(w["acc"][0] + [0], [nz, 0], nb + 1)
            run("IsNotZeroAcc", (), {"acc": ((), nb), "in": ((), nb)}, acc, False)
    except circom.IllFormed as e:
        rep.violation("illformed", f"a helper template is not valid circom: {e}", {})
    rep.cov.update(programs=progs, disagreements_checked=st.queries + st.trivial, queries_discharged_by_z3=st.queries,
                   queries_trivial_after_hashing=st.trivial, solver_seconds=round(st.seconds, 2),
                   bounds=f"MultiOR/MultiNOR of 1..{top} inputs and {big} (boolean; up to 24 also bytes), ORAnd (boolean), IsNotZeroAcc (1, 8 and 16 bits)",
                   functions_encoded=["MultiOR", "MultiNOR", "ORAnd", "IsNotZeroAcc"], samples=["MultiOR(3)", "MultiNOR(8)", "IsNotZeroAcc"])
    rep.assumptions = ASSUME_CIRC[:2]
    return rep, errors
