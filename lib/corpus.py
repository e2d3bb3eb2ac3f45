"""The regexes whose compilation is validated: the repository's own definitions, handwritten ones that visit every
construct and boundary of the generator, and seeded random ones."""
import glob, json, multiprocessing as mp, os, random
import rref

REPO = "/repo"


class Item:
    def __init__(self, name, parts, n=None, tags=(), origin="hand"):
        self.name, self.parts, self.n, self.tags, self.origin = name, [(bool(p), r) for p, r in parts], n, set(tags), origin

    def __repr__(self):
        return f"{self.name}:{self.parts}"


def shipped():
    out, seen = [], set()
    pats = ["packages/circom/circuits/common/*.json", "packages/apis/src/decomposed_defs/*.json",
            "packages/circom/tests/circuits/*.json"]
    for p in pats:
        for f in sorted(glob.glob(os.path.join(REPO, p))):
            d = json.load(open(f))
            if "parts" not in d:
                continue
            parts = tuple((bool(x["is_public"]), x["regex_def"]) for x in d["parts"])
            if parts in seen:
                continue
            seen.add(parts)
            out.append(Item(os.path.basename(f)[:-5], parts, tags=("shipped",), origin=os.path.relpath(f, REPO)))
    return out


def esc(b):
    return "\\x%02x" % b if b < 32 or b == 127 else ("\\" + chr(b) if chr(b) in "\\.+*?()|[]{}^$" else chr(b))


def hand():
    P, S = 1, 0
    L = []

    def add(name, *parts, n=None, tags=()):
        L.append(Item(name, parts, n, tags))

    # parts that match nothing: to be refused, or never accepted
    add("empty-first", (S, "[^\\x00-\\x{10FFFF}]"), (P, "a"))
    add("empty-first2", (S, "x[^\\x00-\\x{10FFFF}]"), (P, "a+"), (S, "b"))
    add("empty-last", (P, "a"), (S, "(b|c)[^\\x00-\\x{10FFFF}]"))
    add("empty-mid", (S, "a"), (P, "[^\\x00-\\x{10FFFF}]b"), (S, "c"))
    # plain shapes
    add("lit", (S, "ab"))
    add("pub-mid", (S, "a"), (P, "b+"), (S, "c"), n=(40, 130))
    add("pub-end", (S, "a="), (P, "[a-c]+"))
    add("pub-first", (P, "[a-c]+"), (S, ";"))
    add("two-pub", (S, "a"), (P, "[0-9]+"), (S, "b"), (P, "[x-z]+"), (S, ";"))
    add("pub-pub", (S, "a"), (P, "b+"), (P, "c+"), (S, "d"))
    add("five-parts", (P, "a+"), (S, "b"), (P, "c+"), (S, "d"), (P, "e+"))
    add("pub-single", (S, "x"), (P, "y"), (S, "z"))
    add("pub-alt", (S, "<"), (P, "(ab|cd|e)"), (S, ">"))
    add("pub-loop2", (S, "<"), (P, "(ab)+"), (S, ">"))
    add("pub-opt", (S, "a"), (P, "b?"), (S, "c"))
    add("pub-star", (S, "a"), (P, "b*"), (S, "c"))
    # concatenation of parts whose automata loop through their start state
    add("plus-star", (S, "Q"), (P, "a+"), (S, "b*"), (S, "c"))
    add("plus-starpub", (S, "a+"), (P, "b*"), (S, "c"))
    add("plus-starseq", (S, "a+"), (S, "(xy)*"), (P, "z"))
    add("alt-starseq", (S, "(a|bc)"), (S, "(xy)*z"))
    add("alt-starpub", (S, "(a|bc)"), (P, "(xy)*z"), (S, ";"))
    add("star-star", (S, "a"), (S, "b*"), (P, "c*"), (S, "d"))
    add("star-loop-pub", (S, "a+"), (P, "(bc)*d"), (S, "e"))
    add("opt-chain", (S, "a"), (S, "b?"), (P, "c?"), (S, "d?"), (S, "e"))
    add("alt-ends", (S, "(a|bb)"), (P, "[c-e]+"), (S, "f"))
    add("alt-ends-pubpub", (P, "(a|bb)"), (P, "(c|dd)"), (S, "e"))
    add("loop-accept", (S, "a"), (P, "(b|c)+"), (S, "(d|e)+"))
    add("end-loop", (S, "x"), (P, "[0-9]+"), tags=())
    add("rev-order", (S, "z"), (P, "(y|x)+"), (S, "w"))
    # ranges: below, at and above the width at which the generator switches to comparisons
    for w in (14, 15, 16, 17, 18, 30):
        add(f"run{w}", (S, "="), (P, f"[\\x{65:02x}-\\x{65 + w - 1:02x}]+"), (S, "!"))
    add("run-low", (S, "="), (P, "[\\x01-\\x20]+"), (S, "!"))
    add("run-high", (S, "="), (P, "[\\x60-\\x7f]+"), (S, "!"))
    add("two-runs", (S, "="), (P, "[A-Za-z]+"), (S, "!"))
    add("run-and-singles", (S, "="), (P, "[a-z0-9_.!]+"), (S, ";"))
    add("adjacent-runs", (S, "="), (P, "[A-Qb-r]"), (S, "[a-pR-Z]"), n=(33, 65))
    add("shared-range", (P, "[a-z]+"), (S, "@"), (P, "[a-z]+"), (S, ";"))
    add("shared-set", (P, "[abc]+"), (S, "@"), (P, "[abc]+"), (S, ";"))
    add("overlap-range", (S, "[a-z]"), (P, "[a-y]"), (S, "[b-z]"), (P, "[a-z]"))
    add("all-but-one", (S, "="), (P, "[^;]+"), (S, ";"))
    add("all-but-many", (S, "="), (P, "[^;a-m,\\x00-\\x1f]+"), (S, ";"))
    # labels that the automaton's textual form escapes or quotes
    add("quotes", (S, "'"), (P, "[^\"]"), (S, "\""))
    add("punct1", (S, "a "), (P, "[-=>,]+"), (S, ":"))
    add("punct2", (S, "="), (P, "[ -/]+"), (S, "0"))
    add("punct3", (S, "-"), (P, "[,-]+"), (S, "="))
    add("backslash", (S, "\\\\"), (P, "[\\\\\\]\\[]+"), (S, "n"))
    add("ctrl", (S, "\\t"), (P, "[\\r\\n]+"), (S, "\\x0b\\x0c"))
    add("real-ctrl", (S, "\r\n"), (P, "[^\r\n]+"), (S, "\r\n"))
    add("dollar-lit", (S, "a\\$"), (P, "[0-9]+"), (S, "\\^"))
    add("caret-class", (S, "[a^]"), (P, "[b^]+"), (S, "c"))
    add("caret-class2", (S, "(a[b^])c"), (P, "d"))
    add("brackets", (S, "\\("), (P, "[()]+x"), (S, "\\)"))
    add("braces", (S, "\\{"), (P, "[^}]+"), (S, "\\}"))
    add("escaped-end", (S, "a"), (P, "b+"), (S, "\\$"), tags=("dollar-escape",))
    # bytes at the boundaries
    add("x01", (S, "\\x01"), (P, "\\x02+"), (S, "\\x7f"))
    add("x7e", (S, "\\x7e"), (P, "[\\x7d-\\x7f]+"), (S, "\\x20"))
    # every ASCII byte, as a single label, spread over several circuits
    bs = [b for b in range(1, 128)]
    for k in range(0, len(bs), 16):
        chunk = bs[k:k + 16]
        # every byte alone on an edge: a chain would be long, so an alternation of two-byte words
        add(f"bytes{k:03d}", (S, "(" + "|".join(esc(b) + chr(97 + i) for i, b in enumerate(chunk)) + ")"), (P, "Z"))
    for lo, hi in ((9, 13), (31, 45), (32, 34), (34, 39), (38, 40), (39, 44), (44, 45), (45, 46), (46, 61), (60, 62),
                   (61, 63), (91, 93), (92, 94), (93, 96), (120, 127)):
        add(f"rng{lo}-{hi}", (S, "A"), (P, f"[\\x{lo:02x}-\\x{hi:02x}]+"), (S, "B"))
    # international characters
    add("utf2", (S, "é"), (P, "[à-ü]+"), (S, "ß"))
    add("utf3", (S, "€"), (P, "[あ-ん]"), (S, "。"))
    add("utf4", (S, "😀"), (P, "[😀-😏]"), (S, "!"))
    add("utfmix", (S, "a"), (P, "(é|x|日)+"), (S, "b"))
    add("dot", (S, "a"), (P, "."), (S, "b"))
    add("neg-utf", (S, "<"), (P, "[^>é]+"), (S, ">"))
    # repetition counts
    add("count", (S, "a{3}"), (P, "b{2,3}"), (S, "c"))
    add("count2", (S, "x"), (P, "[0-9]{1,4}"), (S, "y{2,}z"))
    add("lazy", (S, "a"), (P, "b+?"), (S, "c"))
    # start anchor
    add("caret", (S, "^ab"), (P, "c+"), (S, "d"))
    add("caret-group", (S, "(^|x)a"), (P, "b+"), (S, "c"))
    add("caret-crlf", (S, "(\r\n|^)to:"), (P, "[^\r\n]+"), (S, "\r\n"), n=(40,))
    add("caret-group2", (S, "(^|xy|z)"), (P, "[a-c]+"), (S, ";"))
    add("caret-only", (S, "^"), (P, "[a-c]+"), (S, ";"))
    add("caret-pub", (P, "^[a-c]+"), (S, ";"), tags=())
    add("caret-loop", (S, "(^|;)a"), (P, "(ba)+"), (S, "c"))
    add("caret-prefixes", (S, "(^|x|xy)a"), (P, "b"), (S, "c"))
    add("caret-loopalt", (S, "(^|x+)a"), (P, "b"), (S, "c"))
    add("caret-loopalt2", (S, "(^|(xy)+|z)a"), (P, "b"), (S, "c"))
    add("caret-utf", (S, "^é"), (P, "[^;]+"), (S, ";"))
    add("caret-dollar", (S, "^a"), (P, "b+$"))
    # end anchor
    add("dollar", (S, "a"), (P, "b+"), (S, "c$"), n=(70,))
    add("dollar-pub", (S, "a"), (P, "[bc]+$"))
    add("dollar-one", (S, "a$"))
    add("dollar-alone", (S, "a"), (P, "b+"), (S, "$"))
    add("dollar-repeat", (S, "a"), (P, "b"), (S, "(ab)?c$"))
    add("dollar-dot", (S, "a"), (P, "[^a]+$"))
    # nesting
    add("nest1", (S, "((a|b)c)+"), (P, "d"), (S, "e"))
    add("nest2", (S, "x"), (P, "((a|b)(c|d))+"), (S, "y"))
    add("nest3", (S, "(a(b(c|d)e|f)g)"), (P, "h+"))
    add("nest-caret", (S, "(^|(x|y)z)a"), (P, "b"), (S, "c"))
    add("noncap", (S, "(?:a|b)c"), (P, "(?:d|e)+"), (S, "f"))
    # scanning: failed runs and restarts
    add("restart", (S, "aab"), (P, "c+"), (S, "d"))
    add("restart2", (S, "abab"), (P, "c"), (S, "d"))
    add("restart-pub", (P, "a+"), (S, "ab"), tags=("ambiguous",))
    add("restart3", (S, "ab"), (P, "a+"), (S, "c"))
    add("same-first", (S, "a"), (P, "[^a]+"), (S, "a"))
    # more states than a decimal digit, many public parts
    add("many-states", (S, "abcdefghij"), (P, "k+"), (S, "lm"))
    add("many-public", *[x for i in range(6) for x in ((S, chr(65 + i)), (P, f"[{chr(97 + 2 * i)}{chr(98 + 2 * i)}]+"))], (S, "!"))
    # more states than fit a digit, two digits, a byte; more parts than fit a digit
    rw = random.Random(20)
    for count, alpha, ln in ((40, "abcdefgh", 4), (110, "abcdefghijkl", 4), (150, "abcdefghijklmnopqrst", 5), (400, "abcdefghijklmnopqrst", 5)):
        ws = sorted({"".join(rw.choice(alpha) for _ in range(ln)) for _ in range(count)})
        add(f"words{count}", (S, "<"), (P, "(" + "|".join(ws) + ")"), (S, ">"))
    add("chain70", (S, "ab" * 35), (P, "[a-c]"), (S, "d"))
    add("many-public12", *[x for i in range(12) for x in ((P, chr(97 + i)), (S, chr(65 + i)))])
    add("many-parts30", *[((P if i % 7 == 3 else S), chr(97 + i % 26)) for i in range(30)])
    add("wide-alt", (S, "(" + "|".join(chr(97 + i) + chr(65 + i) for i in range(12)) + ")"), (P, "0+"), (S, "1"))
    return L


ATOMS = ["a", "b", "c", "x", "[ab]", "[b-d]", "[^a]", "[a-z]", "[A-Za-z0-9]", "(a|b)", "(ab|c)", "(a|bc|x)", "é", " ", "=", ",", "-", "\\\\",
         "\r\n", "[^\r\n]", "[0-9]", ";", "<", "'", "[a-p]", "[a-q]", "[b-r]", "\\.", "@", "[^;é]"]


CARETS = ("^", "(^|;)", "(\r\n|^)", "(^|ab|c)", "(?:x|^|yz)", "(a+|^)", "(^|(a|b)c)", "(^|é)", "(x[^y]|^)")


def _chars(r):
    """A random character or class, as text."""
    k = r.random()
    if k < 0.35:
        return r.choice("abcxyz019 =;<>@,'_")
    if k < 0.45:
        return r.choice(("\\.", "\\\\", "\\$", "\\^", "\\[", "\\(", "\\)", "\\+", "\\|", "\\-", "\\/"))
    if k < 0.52:
        return r.choice(("\r\n", "\n", "\t", "\\x0b", "\\x1f", "\\x7f", "\\x01", "\\r"))
    if k < 0.58:
        return r.choice(("é", "ß", "日", "€", "😀", "[à-ü]", "[あ-ん]", "."))
    neg = r.random() < 0.25
    body = []
    for _ in range(r.randint(1, 4)):
        j = r.random()
        if j < 0.4:
            body.append(r.choice("abcxyz019 =;<>@,'_$|()*+?{}."))
        elif j < 0.5:
            body.append(r.choice(("\\\\", "\\]", "\\[", "\\-", "\\^", "\r\n", "\t", "\\x00")))
        else:
            lo = r.randint(1, 126)
            hi = min(127, lo + r.choice((1, 2, 3, 8, 14, 15, 16, 17, 18, 25, 40)))
            body.append(f"\\x{lo:02x}-\\x{hi:02x}")
    return "[" + ("^" if neg else "") + "".join(body) + "]"


def _expr(r, depth):
    """A random regex with at most `depth` nested groups."""
    out = ""
    for _ in range(r.choice((1, 1, 2, 2, 3))):
        if depth and r.random() < 0.35:
            alts = [_expr(r, depth - 1) for _ in range(r.choice((1, 2, 2, 3)))]
            a = r.choice(("(", "(", "(?:")) + "|".join(alts) + ")"
        else:
            a = _chars(r)
        q = r.choice(("", "", "", "", "+", "+", "*", "?", "{2}", "{1,2}", "{2,}", "+?"))
        if q and len(a) > 1 and a[0] not in "[(\\" or (q and a == "\r\n"):
            a = f"({a})"
        out += a + q
    return out


def rnd(seed, count, states=24, caret=.2, dollar=.15):
    """Seeded random decomposed regexes the compiler's documentation does not exclude."""
    r = random.Random(seed)
    out, tries = [], 0
    while len(out) < count and tries < count * 60:
        tries += 1
        deep = r.random() < 0.5
        parts = []
        for i in range(r.randint(1 if deep else 2, 5)):
            if deep:
                s = _expr(r, r.choice((0, 1, 1, 2)))
            else:
                s = ""
                for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
                    a = r.choice(ATOMS)
                    q = r.choice(("", "", "", "+", "+", "*", "?", "{2}", "{1,2}"))
                    if len(a) > 1 and a[0] not in "[(\\" and q:
                        a = f"({a})"
                    s += a + q
            parts.append([r.random() < 0.45, s])
        if not any(p for p, _ in parts):
            r.choice(parts)[0] = True
        if r.random() < caret:
            parts[0][1] = r.choice(CARETS) + parts[0][1]
            if r.random() < 0.6:
                parts[0][0] = False
        if r.random() < dollar:
            parts[-1][1] += "$"
        try:
            ref = rref.Ref([(p, s) for p, s in parts])
        except (rref.RegexError, RecursionError):
            continue
        if ref.unsupported() or len(ref.dtr) > states:
            continue
        out.append(Item(f"rnd{seed}-{len(out)}", parts, tags=("random",), origin="random"))
    return out


def wild(seed, count):
    """Seeded random decomposed regexes, the documented limitations notwithstanding."""
    r = random.Random(seed * 31 + 8)
    out = []
    while len(out) < count:
        parts = []
        for i in range(r.randint(1, 4)):
            s = _expr(r, r.choice((0, 1, 2))) if r.random() < .5 else "".join(
                r.choice(("a", "b", "[ab]", "[a-c]", "[^a]", "x", ";")) + r.choice(("", "", "+", "*", "?", "*?")) for _ in range(r.randint(1, 3)))
            parts.append([r.random() < .6, s])
        if r.random() < .2:
            parts[0][1] = r.choice(CARETS) + parts[0][1]
        if r.random() < .2:
            parts[-1][1] += "$"
        out.append(Item(f"wild{seed}-{len(out)}", parts, tags=("random", "wild"), origin="random"))
    return out


def _pool_class(r, pool, w):
    """A union of some members of the pool; never everything, so that classes differ."""
    k = r.randint(1, min(w, len(pool)))
    return "[" + "".join(r.sample(pool, k)) + "]"


def pool(seed, count, states=24, caret=0, dollar=0):
    """Regexes whose classes are unions of the same few runs and characters: edges share gates in many ways."""
    r = random.Random(seed * 7919 + 5)
    out, tries = [], 0
    while len(out) < count and tries < count * 60:
        tries += 1
        members = []
        lo = r.choice((1, 33, 48, 65, 97))
        for _ in range(r.randint(1, 2)):
            # runs above the width at which the generator compares, some with a bound in common
            a = lo if r.random() < 0.6 else r.randint(1, 100)
            members.append(f"\\x{a:02x}-\\x{min(127, a + r.choice((16, 17, 18, 25))):02x}")
        for _ in range(r.randint(2, 4)):
            a = r.randint(33, 126)
            b = min(127, a + r.choice((0, 0, 0, 1, 2, 3)))
            members.append(f"\\x{a:02x}" if a == b else f"\\x{a:02x}-\\x{b:02x}")
        seps = r.sample([c for c in ";=<>@ ,:" if not any(_in(m, ord(c)) for m in members)] or ["\\x7f"], 1)
        parts = []
        for _ in range(r.randint(1, 4)):
            s = ""
            for _ in range(r.choice((1, 1, 2, 3))):
                if r.random() < 0.3:
                    s += "(" + "|".join(_pool_class(r, members, 4) + r.choice(("", "", "q", seps[0])) for _ in range(r.randint(2, 3))) + ")"
                else:
                    s += _pool_class(r, members, 4) + r.choice(("", "", "", "+", "?", "{2}"))
            if r.random() < 0.4:
                s += seps[0]
            parts.append([r.random() < 0.4, s])
        if not any(p for p, _ in parts):
            r.choice(parts)[0] = True
        if caret and r.random() < caret:
            parts.insert(0, [False, r.choice(CARETS)])
        if dollar and r.random() < dollar:
            parts[-1][1] += "$"
        out += _keep(f"pool{seed}-{len(out)}", parts, states)
    return out


def _in(member, b):
    a, _, c = member.partition("-")
    lo = int(a[2:], 16)
    return lo <= b <= (int(c[2:], 16) if c else lo)


def _keep(name, parts, states):
    try:
        ref = rref.Ref([(p, s) for p, s in parts])
    except (rref.RegexError, RecursionError):
        return []
    if ref.unsupported() or len(ref.dtr) > states:
        return []
    return [Item(name, parts, tags=("random",), origin="random")]


# part shapes over two letters x, y that no other part of the same regex uses
SHAPES = ["x", "xy", "x+", "x*", "x?", "x+y", "x*y", "xy*", "xy?", "xy+", "(xy)+", "(xy)*", "(x|y)", "(x|y)+", "(x|yx)", "(xy|y)", "(xy)*x", "(x|y)*x",
          "x{2}", "x{2,}", "x{1,2}", "(xy)?", "x?y?", "x*y*", "(xy*)+", "(x|y+)", "(xx|y)+", "x(xy)*", "(x+y)+"]
FOREIGN = ["[^{}]+", "[^{}]*", "[^{}]"]


def grid(seed, count, states=24, caret=.12, dollar=.15):
    """Every pair of part shapes, and a seeded sample of longer chains, with every choice of public parts; at most `count`."""
    r = random.Random(seed * 104729 + 3)
    combos = []
    for a in SHAPES:
        for b in SHAPES:
            for f in ((1, 0), (0, 1), (1, 1)):
                combos.append(((a, b), f))
    r.shuffle(combos)
    combos = combos[:count // 2]
    while len(combos) < count:
        n = r.choice((3, 3, 3, 4, 4, 5))
        f = tuple(int(r.random() < 0.45) for _ in range(n))
        if any(f):
            combos.append((tuple(r.choice(SHAPES) for _ in range(n)), f))
    out = []
    for sh, f in combos:
        parts = []
        names = "abcdefghijklm"
        for i, (s, p) in enumerate(zip(sh, f)):
            x, y = names[2 * i], names[2 * i + 1]
            parts.append([p, "".join(x if c == "x" else y if c == "y" else c for c in s)])
        if r.random() < 0.3:
            # a part that takes anything but what follows it
            i = r.randrange(len(parts))
            nxt = names[2 * i + 2:2 * i + 4] if i + 1 < len(parts) else ";"
            parts[i][1] = r.choice(FOREIGN).format(nxt)
        end = r.random()
        if end < dollar:
            parts.append([0, "$"]) if r.random() < 0.5 else parts.__setitem__(-1, [parts[-1][0], parts[-1][1] + "$"])
        elif end < dollar + (1 - dollar) * 0.65:
            parts.append([0, ";"])
        if r.random() < caret:
            parts.insert(0, [0, r.choice(("^", "(^|;)", "(\r\n|^)", "(^|z+)"))])
        out += _keep(f"grid{seed}-{len(out)}", parts, states)
    return out


def _chunk(a):
    fam, seed, count, kw = a
    return {"rnd": rnd, "pool": pool, "grid": grid}[fam](seed, count, **kw)


def many(seed, count, **kw):
    """A mixture of all random families, made in parallel; the result depends on the seed only."""
    jobs = []
    for fam, n, size in (("rnd", count * 2 // 5, 20), ("pool", count // 5, 50), ("grid", count * 2 // 5, 100)):
        jobs += [(fam, seed * 1000 + i, min(size, n - i * size), kw) for i in range((n + size - 1) // size)]
    if not jobs:
        return []
    with mp.get_context("fork").Pool(8) as p:
        out = [x for l in p.map(_chunk, jobs, chunksize=1) for x in l]
    seen, uniq = set(), []
    for it in out:
        k = tuple(it.parts)
        if k not in seen:
            seen.add(k)
            uniq.append(it)
    return uniq


def minimum(ref):
    s = ref.shortest() or []
    return len([b for b in s if b != 255])
