"""Translation validation of generated circuits: one regex, one length, the questions asked of the solver."""
import hashlib, json, time, multiprocessing as mp, os, traceback
import common, corpus, rref, symcirc, circom, aig

BASE = os.path.join(common.REPO, "packages/circom/circuits/common")
TIMEOUT = 400 if common.THOROUGH else 250


def key_of(kind, ident):
    return f"{kind}-" + hashlib.sha1(json.dumps(ident, sort_keys=True).encode()).hexdigest()[:12]


class Res:
    """What one task found; picklable."""

    def __init__(self, name):
        self.name, self.stats = name, aig.Stats()
        self.viol = []  # (kind, ident, what, data)
        self.errors = []
        self.skipped = None
        self.info = {}
        self.programs = 0
        self.templates = {}
        self.obligations = 0


def render(msg):
    return bytes(b if 0 <= b < 256 else 63 for b in msg).decode("latin-1").encode("unicode_escape").decode()


def public_parts(parts):
    return [i for i, (p, _) in enumerate(parts) if p]


def replay(T, F, name, msg, hints, res):
    failed, out, rev = symcirc.run_concrete(T, F, name, msg, hints)
    return failed, out, rev


def soundness(res, T, F, name, ref, n, ident, do_out=True, do_rev=True, do_range=False, reveal_map=None, extra=None):
    """All witnesses, hints chosen by the prover: out=1 and every revealed byte are justified by a match."""
    c = symcirc.Circuit(T, F, name, n, full=True)
    res.templates.update(c.el.used)
    g = c.g
    tx = rref.Text(g, c.byte_els())
    zp = rref.zero_padded(g, tx) if ref.end_anchor else 1
    out1 = c.out_is(1)
    if do_out or do_rev:
        ex, may = rref.sym_exists(g, ref, tx)

    def ask(roots):
        res.obligations += 1
        return aig.solve(g, c.cons + roots, res.stats, TIMEOUT)

    if do_out:
        m = ask([g.And(c.out_is(0) ^ 1, out1 ^ 1)])
        if m:
            report(res, "nonboolean", ident, T, F, name, c, m, ref, lambda out, rev, msg: out not in (0, 1),
                   "out is neither 0 nor 1")
        m = ask([zp, out1, ex ^ 1])
        if m:
            report(res, "unsound", ident, T, F, name, c, m, ref,
                   lambda out, rev, msg: out == 1 and not ref.exists_concrete(msg)[0], "out=1 although nothing matches")
    if do_range:
        bad = g.Or_n(g.And(g.Or_n(w[8:9] + [g.byte_in(w[:8], 1 << 255)]), w[9] ^ 1) for w in c.words)
        m = ask([bad])
        if m:
            report(res, "sentinel", ident, T, F, name, c, m, ref, lambda out, rev, msg: any(v >= 255 for v in msg),
                   "a message element of 255 or more is accepted")
    if do_rev:
        rm = reveal_map if reveal_map is not None else {j: k for j, k in enumerate(public_parts(ref.parts))}
        if set(c.reveals) != set(rm):
            res.viol.append(("outputs", ident, f"reveal outputs {sorted(c.reveals)}, public parts need {sorted(rm)}", {}))
            return c
        bads = []
        for j, k in rm.items():
            for i in range(n):
                bits = c.dom.bits_of(c.reveals[j][i])
                w = c.words[i]
                nonzero = g.Or_n(bits)
                same = g.And_n(g.Iff(bits[min(q, len(bits) - 1)], w[min(q, len(w) - 1)]) for q in range(max(len(bits), len(w))))
                just = g.And_n([may[k][i], out1, same])
                bads.append((g.And(nonzero, just ^ 1), j, k, i))
        m = ask([zp, g.Or_n(b for b, *_ in bads)])
        if m:
            def leaks(out, rev, msg):
                ex, may = ref.exists_concrete(msg)
                return any(rev[j][i] != 0 and not (out == 1 and may[k][i] and rev[j][i] == msg[i] % circom.P)
                           for j, k in rm.items() for i in range(n))
            report(res, "leak", ident, T, F, name, c, m, ref, leaks, "a byte outside its public part of any match is revealed")
    return c


def report(res, kind, ident, T, F, name, c, model, ref, bad, what):
    msg, hints = c.message(model), c.hints(model)
    failed, out, rev = symcirc.run_concrete(T, F, name, msg, hints)
    if failed or not bad(out, rev, msg):
        res.errors.append(f"{res.name}: counterexample for {kind} does not replay: {msg} {hints} {failed[:3]} out={out}")
        return
    res.viol.append((kind, ident, f"{what}: msg={render(msg)!r} (n={len(msg)})",
                     {"message": msg, "hints": hints, "out": out, "reveals": {k: list(map(int, v)) for k, v in rev.items()}}))


def exact(res, T, F, name, ref, n, ident):
    """All witnesses, messages of any elements: out and the reveals are what the left-to-right scan says."""
    c = symcirc.Circuit(T, F, name, n, full=True)
    res.templates.update(c.el.used)
    g = c.g
    out, masks, _ = rref.sym_scan(g, ref, rref.Text(g, c.byte_els()))
    rm = {j: k for j, k in enumerate(public_parts(ref.parts))}
    if set(c.reveals) != set(rm):
        raise circom.IllFormed(f"reveal outputs {sorted(c.reveals)}, public parts need {sorted(rm)}")
    bad = [g.Xor(c.out_is(1), out), g.Xor(c.out_is(0), out ^ 1)]
    for j, k in rm.items():
        for i in range(n):
            bits, w = c.dom.bits_of(c.reveals[j][i]), c.words[i]
            for q in range(max(len(bits), len(w))):
                bad.append(g.Xor(bits[min(q, len(bits) - 1)], g.And(masks[k][i], w[min(q, len(w) - 1)])))
    res.obligations += 1
    m = aig.solve(g, c.cons + [g.Or_n(bad)], res.stats, TIMEOUT)
    if m:
        def differs(o, rev, msg):
            wo, mk = ref.scan_concrete(msg)
            return o != int(wo) or any(rev[j][i] != (msg[i] % circom.P if mk[k][i] else 0) for j, k in rm.items() for i in range(n))
        report(res, "differs", ident, T, F, name, c, m, ref, differs, "out or the revealed bytes differ from the scan's")


def fixed(res, T, F, name, n, ident):
    """All witnesses, byte messages: the outputs are those of the honest witness; revealed elements are the message's own."""
    c = symcirc.Circuit(T, F, name, n, full=True)
    res.templates.update(c.el.used)
    g = c.g
    h = symcirc.Circuit(T, F, name, n, g=g, full=False, words=[w[:8] for w in c.words])
    byte = [v for _, v in c.byte_els()]
    shown, other = [], []
    out1 = c.out_is(1)
    bad = [g.And(c.out_is(0) ^ 1, out1 ^ 1)]
    for j in c.reveals:
        for i in range(n):
            bits, w = c.dom.bits_of(c.reveals[j][i]), c.words[i]
            hb = h.dom.bits_of(h.reveals[j][i]) if j in h.reveals else []
            at = lambda b, q: b[min(q, len(b) - 1)] if b else 0
            top = max(len(bits), len(w), len(hb))
            same = g.And_n(g.Iff(at(bits, q), at(w, q)) for q in range(top))
            shown.append(g.And(g.Or_n(bits), g.And(same, out1) ^ 1))
            other += [g.Xor(at(bits, q), at(hb, q)) for q in range(top)]

    def ask(roots):
        res.obligations += 1
        return aig.solve(g, c.cons + roots, res.stats, TIMEOUT)

    m = ask([g.Or_n(bad + shown)])
    if m:
        report(res, "foreign", ident, T, F, name, c, m, None,
               lambda out, rev, msg: out not in (0, 1) or any(v != 0 and (out != 1 or v != msg[i] % circom.P) for j in rev for i, v in enumerate(rev[j])),
               "a witness with outputs that are not the message's own bytes, or without a match")
    diff = [g.Xor(c.out_is(v), h.out_is(v)) for v in (0, 1)] + other
    m = ask(byte + h.cons + [g.Or_n(diff)])
    if m:
        def differs(out, rev, msg):
            f, o, r = symcirc.run_concrete(T, F, name, msg)
            return not f and (o != out or any(list(r[j]) != list(rev[j]) for j in rev))
        report(res, "ambiguous", ident, T, F, name, c, m, None, differs, "a second witness for the same message with other outputs")


def completeness(res, T, F, name, ref, n, ident, do_out=True, do_rev=True, reveal_map=None, exact_out=True):
    """All byte messages: the constraints are satisfiable, and out / the reveals are what the scan says."""
    c = symcirc.Circuit(T, F, name, n, full=False)
    res.templates.update(c.el.used)
    g = c.g
    tx = rref.Text(g, c.byte_els())
    out, masks, acc = rref.sym_scan(g, ref, tx)
    dom = g.And_n([v for _, v in tx.els] + [rref.zero_padded(g, tx) if ref.end_anchor else 1])
    sat = g.And_n(c.cons)

    def ask(roots):
        res.obligations += 1
        return aig.solve(g, [dom] + roots, res.stats, TIMEOUT)

    def conc(bad, kind, what, m):
        msg = c.message(m)
        failed, o, rev = symcirc.run_concrete(T, F, name, msg)
        if not bad(failed, o, rev, msg):
            res.errors.append(f"{res.name}: counterexample for {kind} does not replay: {msg} out={o}")
            return
        res.viol.append((kind, ident, f"{what}: msg={render(msg)!r} (n={n})",
                         {"message": msg, "failed": failed[:5], "out": o, "reveals": {k: list(map(int, v)) for k, v in rev.items()}}))

    if do_out:
        m = ask([sat ^ 1])
        if m:
            conc(lambda f, o, r, s: bool(f), "unsat", "no witness exists for a byte message", m)
        m = ask([out, g.And(sat, c.out_is(1)) ^ 1])
        if m:
            conc(lambda f, o, r, s: (f or o != 1) and ref.scan_concrete(s)[0], "missed", "a match is not accepted", m)
        if exact_out:
            m = ask([out ^ 1, sat, c.out_is(0) ^ 1])
            if m:
                conc(lambda f, o, r, s: not f and o != 0 and not ref.scan_concrete(s)[0], "extra",
                     "accepted although the left-to-right scan finds nothing", m)
    if do_rev:
        rm = reveal_map if reveal_map is not None else {j: k for j, k in enumerate(public_parts(ref.parts))}
        if set(c.reveals) != set(rm):
            res.viol.append(("outputs", ident, f"reveal outputs {sorted(c.reveals)}, public parts need {sorted(rm)}", {}))
            return
        neq = []
        for j, k in rm.items():
            for i in range(n):
                bits = c.dom.bits_of(c.reveals[j][i])
                want = [g.And(masks[k][i], b) for b in c.words[i]]
                for q in range(max(len(bits), len(want))):
                    neq.append(g.Xor(bits[min(q, len(bits) - 1)], want[q] if q < len(want) else 0))
        m = ask([sat, g.Or_n(neq)])
        if m:
            def differs(f, o, r, s):
                _, mk = ref.scan_concrete(s)
                return not f and any(r[j][i] != (s[i] if mk[k][i] else 0) for j, k in rm.items() for i in range(n))
            conc(differs, "reveal", "the revealed bytes are not those of the public parts", m)
    # vacuity guard: within this length there is a message that matches
    if aig.solve(g, [dom, out], res.stats, TIMEOUT) is None:
        res.info["vacuous"] = True


# ---------------------------------------------------------------- running many items
_drive = None


def drive():
    global _drive
    if _drive is None:
        _drive = common.Drive(os.environ["ZKDRIVE_EXE"])
    return _drive


def lengths(ref, extra, it=None):
    mn = corpus.minimum(ref)
    more = set()
    if it is not None and it.origin != "random":
        more = {mn} | set(it.n or ())
    return sorted({1, mn + extra} | more)


def task(args):
    it, wants, extra = args
    res = Res(it.name)
    t = time.time()
    try:
        one(res, it, wants, extra)
    except aig.Unknown as e:
        res.errors.append(f"{it.name}: {e}")
    except circom.Unsupported as e:
        res.errors.append(f"{it.name}: cannot encode: {e}")
    except Exception as e:
        res.errors.append(f"{it.name}: {traceback.format_exc()[-700:]}")
    res.info["seconds"] = round(time.time() - t, 2)
    return res


def one(res, it, wants, extra):
    try:
        ref = rref.Ref(it.parts)
    except rref.RegexError as e:
        if "wild" not in it.tags:
            raise
        res.skipped = f"beyond the reference: {e}"
        return
    uns = ref.unsupported()
    r = drive().ask(cmd="struct", parts=it.parts, name="T", subs=True)
    ident = it.parts
    if not r["ok"]:
        res.skipped = "not compiled"
        if uns is None and "compiles" in wants:
            why = "panics: " + r["panic"] if "panic" in r else "refuses: " + r["err"]
            res.viol.append(("refused", ident, f"the compiler {why[:160]} on the supported regex {it.parts}", {"parts": it.parts}))
        return
    never = uns == "empty language"  # compiled all the same: then it must not accept anything
    limited = uns is not None and uns != "several accepting states" and not never
    if limited:  # beyond the documented limitations: what is accepted and shown must be justified all the same
        wants = wants & {"sound", "privacy", "sentinel"}
        if not wants:
            res.skipped = uns
            return
    lib = symcirc.Library(common.REPO)
    try:
        T, F = lib.load_text(r["circom"], BASE)
        if "T" not in T:
            raise circom.IllFormed("the template does not have the requested name")
        for n in [1, 3] if never else lengths(ref, extra, it):
            full = n > 1
            if wants & {"sound", "privacy", "sentinel"}:
                soundness(res, T, F, "T", ref, n, ident, do_out="sound" in wants, do_rev="privacy" in wants,
                          do_range="sentinel" in wants)
            if wants & {"complete", "reveal"} and not never:
                completeness(res, T, F, "T", ref, n, ident, do_out="complete" in wants, do_rev="reveal" in wants)
                if full and res.info.get("vacuous"):
                    res.errors.append(f"{it.name}: nothing matches within n={n}")
                res.info.pop("vacuous", None)
            if wants <= {"compiles", "wellformed"}:
                symcirc.Circuit(T, F, "T", n)
            res.info.setdefault("n", []).append(n)
        res.programs = 1
    except circom.IllFormed as e:
        if "wellformed" in wants and not limited:
            res.viol.append(("illformed", ident, f"the generated circuit is not valid circom: {e} (regex {it.parts})",
                             {"parts": it.parts, "circom": r["circom"]}))
        res.skipped = f"ill-formed: {e}"


def run(tasks, fn=task, procs=8):
    common.scratch()  # one for all workers, removed at the end
    ctx = mp.get_context("fork")
    with ctx.Pool(procs) as pool:
        out = []
        for r in pool.imap_unordered(fn, tasks, chunksize=1):
            out.append(r)
            if common.THOROUGH:
                print(f"  {r.name}: {r.info.get('seconds')} s {len(r.viol)} violations", flush=True)
    return out


def collect(rep, results, samples=6, functions=()):
    st = aig.Stats()
    errors, progs, templ = [], 0, {}
    obligations = 0
    for r in results:
        st.merge(r.stats)
        errors += r.errors
        progs += r.programs
        obligations += r.obligations
        for k, v in r.templates.items():
            templ[k] = templ.get(k, 0) + v
        for kind, ident, what, data in r.viol:
            rep.violation(key_of(kind, ident), f"{r.name}: {what}", {"regex": ident, **data})
    rep.cov.update(
        programs=progs, disagreements_checked=st.queries + st.trivial,
        queries_discharged_by_z3=st.queries, queries_trivial_after_hashing=st.trivial, unsat=st.unsat, sat=st.sat,
        solver_seconds=round(st.seconds, 2), largest_query_clauses=st.max_clauses,
        templates_encoded=templ, skipped={r.name: r.skipped for r in results if r.skipped},
        samples=[{"name": r.name, "n": r.info.get("n"), "seconds": r.info.get("seconds")} for r in results if r.programs][:samples],
        errors=errors[:20],
    )
    return errors
