"""Reference semantics of regular expressions, independent of the code under test.

A regex (the Rust `regex` subset listed in README's limitations) is parsed here, turned into a byte-level NFA whose
transitions carry the index of the decomposed part they stem from, and from there into a trimmed DFA.  `^` consumes
the symbol 255 that stands in front of the message; `$` at the very end is a flag.  Byte 0 is message padding and is
in no transition.  Symbolic encodings over an AIG are at the bottom.
"""


class RegexError(Exception):
    """Not a regex we give meaning to."""


ALL = (1 << 256) - 1
MAXCP = 0x10FFFF


def norm(ranges):
    out = []
    for a, b in sorted(ranges):
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def negate(ranges):
    out, nxt = [], 0
    for a, b in norm(ranges):
        if a > nxt:
            out.append((nxt, a - 1))
        nxt = b + 1
    if nxt <= MAXCP:
        out.append((nxt, MAXCP))
    return out


def intersect(x, y):
    return negate(negate(x) + negate(y))


POSIX = {
    "alnum": [(48, 57), (65, 90), (97, 122)], "alpha": [(65, 90), (97, 122)], "ascii": [(0, 127)],
    "blank": [(9, 9), (32, 32)], "cntrl": [(0, 31), (127, 127)], "digit": [(48, 57)], "graph": [(33, 126)],
    "lower": [(97, 122)], "print": [(32, 126)], "punct": [(33, 47), (58, 64), (91, 96), (123, 126)],
    "space": [(9, 13), (32, 32)], "upper": [(65, 90)], "word": [(48, 57), (65, 90), (95, 95), (97, 122)],
    "xdigit": [(48, 57), (65, 70), (97, 102)],
}
SIMPLE = {"n": 10, "r": 13, "t": 9, "v": 11, "f": 12, "a": 7}
META = set("\\.+*?()|[]{}^$#&-~/\"'`!@%=:;,_ ")


class RParser:
    """AST: ('cls', ranges) ('cat', [..]) ('alt', [..]) ('rep', x, lo, hi) ('bol',) ('eol',)"""

    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def parse(self):
        e = self.alt()
        if self.i != len(self.s):
            raise RegexError(f"trailing {self.s[self.i:]!r}")
        return e

    def alt(self):
        xs = [self.cat()]
        while self.peek() == "|":
            self.i += 1
            xs.append(self.cat())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def cat(self):
        xs = []
        while self.peek() is not None and self.peek() not in "|)":
            xs.append(self.rep())
        return xs[0] if len(xs) == 1 else ("cat", xs)

    def rep(self):
        e = self.atom()
        while True:
            c = self.peek()
            if c == "*":
                lo, hi = 0, None
                self.i += 1
            elif c == "+":
                lo, hi = 1, None
                self.i += 1
            elif c == "?":
                lo, hi = 0, 1
                self.i += 1
            elif c == "{":
                j = self.s.index("}", self.i) if "}" in self.s[self.i:] else -1
                if j < 0:
                    raise RegexError("unclosed {")
                body = self.s[self.i + 1:j]
                p = body.split(",")
                try:
                    lo = int(p[0])
                    hi = lo if len(p) == 1 else (int(p[1]) if p[1].strip() else None)
                except ValueError:
                    raise RegexError("bad counted repetition")
                if len(p) > 2 or (hi is not None and hi < lo):
                    raise RegexError("bad counted repetition")
                self.i = j + 1
            else:
                return e
            if e[0] in ("bol", "eol"):
                raise RegexError("repeated anchor")
            if self.peek() == "?":
                self.i += 1  # laziness does not change the language
            e = ("rep", e, lo, hi)

    def escape(self):
        """after the backslash; returns ranges"""
        c = self.peek()
        if c is None:
            raise RegexError("trailing backslash")
        self.i += 1
        if c == "x":
            if self.peek() == "{":
                j = self.s.index("}", self.i)
                h = self.s[self.i + 1:j]
                self.i = j + 1
            else:
                h = self.s[self.i:self.i + 2]
                self.i += 2
            v = int(h, 16)
            return [(v, v)]
        if c in SIMPLE:
            return [(SIMPLE[c], SIMPLE[c])]
        if c in META:
            return [(ord(c), ord(c))]
        raise RegexError(f"escape \\{c}")

    def atom(self):
        c = self.s[self.i]
        self.i += 1
        if c == "(":
            if self.peek() == "?":
                rest = self.s[self.i:]
                if rest.startswith("?:"):
                    self.i += 2
                elif rest.startswith("?P<") or (rest.startswith("?<") and rest[2:3] not in ("=", "!")):
                    self.i = self.s.index(">", self.i) + 1
                else:
                    raise RegexError("group flags")
            e = self.alt()
            if self.peek() != ")":
                raise RegexError("unclosed group")
            self.i += 1
            return e if e[0] != "cls" else ("cat", [e])
        if c == "[":
            return ("cls", self.cls())
        if c == ".":
            return ("cls", negate([(10, 10)]))
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c == "\\":
            return ("cls", self.escape())
        if c in "*+?{":
            raise RegexError(f"nothing to repeat at {self.i - 1}")
        return ("cls", [(ord(c), ord(c))])

    def cls(self):
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        rs = []
        first = True
        while True:
            c = self.peek()
            if c is None:
                raise RegexError("unclosed class")
            if c == "]" and not first:
                self.i += 1
                break
            first = False
            two = self.s[self.i:self.i + 2]
            if two in ("&&", "--", "~~"):
                raise RegexError("class set operation")
            if c == "[":
                if two == "[:":
                    j = self.s.index(":]", self.i)
                    name = self.s[self.i + 2:j]
                    n = name.startswith("^")
                    r = POSIX[name.lstrip("^")]
                    rs += negate(r) if n else r
                    self.i = j + 2
                    continue
                self.i += 1
                rs += self.cls()
                continue
            lo = self.cls_char()
            if self.peek() == "-" and self.i + 1 < len(self.s) and self.s[self.i + 1] not in "]-":
                self.i += 1
                hi = self.cls_char()
                if hi < lo:
                    raise RegexError("class range")
                rs.append((lo, hi))
            else:
                rs.append((lo, lo))
        rs = norm(rs)
        return negate(rs) if neg else rs

    def cls_char(self):
        c = self.s[self.i]
        self.i += 1
        if c == "\\":
            r = self.escape()
            if len(r) != 1 or r[0][0] != r[0][1]:
                raise RegexError("class escape in range")
            return r[0][0]
        return ord(c)


# ---------------------------------------------------------------- UTF-8
def utf8_seqs(ranges):
    """Byte-range sequences [(lo,hi),...] covering exactly the UTF-8 encodings of the code points."""
    out = []
    for a, b in norm(ranges):
        for lo, hi in ((0, 0x7F), (0x80, 0x7FF), (0x800, 0xD7FF), (0xE000, 0xFFFF), (0x10000, 0x10FFFF)):
            x, y = max(a, lo), min(b, hi)
            if x <= y:
                _split(list(chr(x).encode()), list(chr(y).encode()), out)
    return out


def _split(lo, hi, out, pre=()):
    if len(lo) == 1:
        out.append(list(pre) + [(lo[0], hi[0])])
        return
    if lo[0] == hi[0]:
        _split(lo[1:], hi[1:], out, pre + ((lo[0], lo[0]),))
        return
    k = len(lo) - 1
    a, b = lo[0], hi[0]
    full = [(0x80, 0xBF)] * k
    if any(x != 0x80 for x in lo[1:]):
        _split(lo[1:], [0xBF] * k, out, pre + ((a, a),))
        a += 1
    last = None
    if any(x != 0xBF for x in hi[1:]):
        last = b
        b -= 1
    if a <= b:
        out.append(list(pre) + [(a, b)] + full)
    if last is not None:
        _split([0x80] * k, hi[1:], out, pre + ((last, last),))


def mask_of(lo, hi):
    return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)


# ---------------------------------------------------------------- NFA
class NFA:
    def __init__(self, zero=False):
        self.lowest = 0 if zero else 1  # whether byte 0 is a character or message padding
        self.eps = []
        self.tr = []  # state -> [(mask, part, dest)]

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def build(self, e, part):
        k = e[0]
        s = self.new()
        if k == "cls":
            t = self.new()
            by_prefix = {}
            for seq in utf8_seqs(e[1]):
                if len(seq) == 1:
                    m = mask_of(*seq[0]) & (ALL << self.lowest)
                    if m:
                        self.tr[s].append((m, part, t))
                    continue
                cur, key = s, ()
                for i, (lo, hi) in enumerate(seq):
                    last = i == len(seq) - 1
                    key = key + ((lo, hi),)
                    if last:
                        self.tr[cur].append((mask_of(lo, hi), part, t))
                    else:
                        n = by_prefix.get(key)
                        if n is None:
                            n = by_prefix[key] = self.new()
                            self.tr[cur].append((mask_of(lo, hi), part, n))
                        cur = n
            return s, t
        if k == "cat":
            cur = s
            for x in e[1]:
                a, b = self.build(x, part)
                self.eps[cur].append(a)
                cur = b
            return s, cur
        if k == "alt":
            t = self.new()
            for x in e[1]:
                a, b = self.build(x, part)
                self.eps[s].append(a)
                self.eps[b].append(t)
            return s, t
        if k == "rep":
            _, x, lo, hi = e
            cur = s
            for _ in range(lo):
                a, b = self.build(x, part)
                self.eps[cur].append(a)
                cur = b
            if hi is None:
                a, b = self.build(x, part)
                c = self.new()
                self.eps[cur].append(c)
                self.eps[c].append(a)
                self.eps[b].append(c)
                d = self.new()
                self.eps[c].append(d)
                return s, d
            t = self.new()
            self.eps[cur].append(t)
            for _ in range(hi - lo):
                a, b = self.build(x, part)
                self.eps[cur].append(a)
                self.eps[b].append(t)
                cur = b
            return s, t
        if k == "bol":
            t = self.new()
            self.tr[s].append((1 << 255, part, t))
            return s, t
        raise RegexError("$ is only supported at the very end")

    def closure(self, states):
        seen, st = set(states), list(states)
        while st:
            for d in self.eps[st.pop()]:
                if d not in seen:
                    seen.add(d)
                    st.append(d)
        return frozenset(seen)


def has_bol(e):
    k = e[0]
    if k == "bol":
        return True
    if k in ("cat", "alt"):
        return any(has_bol(x) for x in e[1])
    return k == "rep" and has_bol(e[1])


def strip_eol(e):
    """Remove a trailing end anchor."""
    if e[0] == "eol":
        return ("cat", []), True
    if e[0] == "cat" and e[1]:
        last, f = strip_eol(e[1][-1])
        if f:
            return ("cat", e[1][:-1] + [last]), True
    return e, False


def part_dfa(ast, zero=False):
    """Minimal trimmed DFA of one part: (list of {dest: mask}, set of accepting states); start 0."""
    n = NFA(zero)
    a, b = n.build(ast, 0)
    ids, order, tr = {}, [], []

    def get(S):
        if S not in ids:
            ids[S] = len(order)
            order.append(S)
            if len(order) > 4000:
                raise RegexError("too many DFA states")
        return ids[S]

    get(n.closure([a]))
    i = 0
    while i < len(order):
        ms = [(m, d) for s in order[i] for m, _, d in n.tr[s]]
        blocks = [ALL]
        for m in {m for m, _ in ms}:
            nb = []
            for x in blocks:
                if x & m:
                    nb.append(x & m)
                if x & ~m:
                    nb.append(x & ~m)
            blocks = nb
        out = {}
        for x in blocks:
            D = [d for m, d in ms if m & x]
            if D:
                j = get(n.closure(D))
                out[j] = out.get(j, 0) | x
        tr.append(out)
        i += 1
    acc = {i for i, S in enumerate(order) if b in S}
    live, ch = set(acc), True
    while ch:
        ch = False
        for i, o in enumerate(tr):
            if i not in live and any(d in live for d in o):
                live.add(i)
                ch = True
    cls = [(2 if i in acc else 1) if i in live else 0 for i in range(len(tr))]
    while True:
        sig, new = {}, []
        for i, o in enumerate(tr):
            out = {}
            for d, m in o.items():
                if d in live:
                    out[cls[d]] = out.get(cls[d], 0) | m
            new.append(sig.setdefault((cls[i], tuple(sorted(out.items()))), len(sig)))
        if len(sig) == len(set(cls)):
            break
        cls = new
    rep, reps = {}, []
    for i in range(len(tr)):
        if (i in live or i == 0) and cls[i] not in rep:
            rep[cls[i]] = len(reps)
            reps.append(i)
    res = []
    for i in reps:
        o = {}
        for d, m in tr[i].items():
            if d in live:
                k = rep[cls[d]]
                o[k] = o.get(k, 0) | m
        res.append(o)
    return res, {rep[cls[i]] for i in acc}


def split_caret(parts):
    """The section with the start anchor is a part of its own, and never public (README, limitation 2)."""
    if not parts or not has_bol(RParser(parts[0][1]).parse()):
        return parts
    p = RParser(parts[0][1])
    p.rep()
    rest = parts[0][1][p.i:]
    return [(False, parts[0][1][:p.i])] + ([(parts[0][0], rest)] if rest or parts[0][0] else []) + list(parts[1:])


class Ref:
    """The reference meaning of a decomposed regex: parts = [(is_public, regex text)].

    nfa: trimmed, epsilon-free: states 0..n-1, start `start`, `acc` set, tr[s] = [(mask, part, dest)]
    dfa: deterministic, start 0, dacc set, dtr[s] = {dest: mask}, tags[s][dest] = {part: mask}
    """

    def __init__(self, parts, zero=False):
        parts = split_caret(parts)
        self.parts, self.zero_chars = parts, zero
        n = NFA(zero)
        cur = start = n.new()
        self.end_anchor = False
        self.start_anchor = False
        asts = []
        for i, (pub, txt) in enumerate(parts):
            e = RParser(txt).parse()
            if i == len(parts) - 1:
                e, self.end_anchor = strip_eol(e)
            if has_bol(e):
                if i:
                    raise RegexError("^ outside the first part")
                self.start_anchor = True
            asts.append(e)
            a, b = n.build(e, i)
            n.eps[cur].append(a)
            cur = b
        self.asts = asts
        self._trim(n, start, cur)
        self._decomposed()

    def _trim(self, n, start, final):
        clos = [n.closure([i]) for i in range(len(n.eps))]
        # epsilon-free: states = targets of byte transitions + start
        keep, work, tr = {start}, [start], {}
        while work:
            s = work.pop()
            out = {}
            for q in clos[s]:
                for m, p, d in n.tr[q]:
                    out[(p, d)] = out.get((p, d), 0) | m
            tr[s] = [(m, p, d) for (p, d), m in out.items()]
            for m, p, d in tr[s]:
                if d not in keep:
                    keep.add(d)
                    work.append(d)
        acc = {s for s in keep if final in clos[s]}
        live, ch = set(acc), True
        while ch:
            ch = False
            for s in keep:
                if s not in live and any(d in live for _, _, d in tr[s]):
                    live.add(s)
                    ch = True
        self.empty_language = start not in live
        ids = {s: i for i, s in enumerate(sorted(live | {start}, key=lambda s: (s != start, s)))}
        self.start = 0
        self.tr = [[] for _ in ids]
        for s in ids:
            self.tr[ids[s]] = [(m, p, ids[d]) for m, p, d in tr[s] if d in live]
        self.acc = {ids[s] for s in acc}

    # ---- the decomposed automaton: when a byte can extend the current part or begin the next, the next part takes it
    def _decomposed(self):
        ds = [part_dfa(e, self.zero_chars) for e in self.asts]
        self.part_dfas = ds
        k = len(ds)

        def nullable_from(i):  # may parts i.. be empty
            return all(0 in ds[j][1] for j in range(i, k))

        memo = {}

        def edges(i, q):
            """{(byte-mask piece): ...} as list of (mask, part, (part, state))"""
            r = memo.get((i, q))
            if r is None:
                over = edges(i + 1, 0) if q in ds[i][1] and i + 1 < k else []
                taken = 0
                for m, _, _ in over:
                    taken |= m
                r = list(over)
                for d, m in ds[i][0][q].items():
                    if m & ~taken:
                        r.append((m & ~taken, i, (i, d)))
                memo[(i, q)] = r
            return r

        ids, order = {(0, 0): 0}, [(0, 0)]
        self.dtr, self.tags = [], []
        i = 0
        while i < len(order):
            out, tg = {}, {}
            for m, p, d in edges(*order[i]):
                if d not in ids:
                    ids[d] = len(order)
                    order.append(d)
                j = ids[d]
                out[j] = out.get(j, 0) | m
                t = tg.setdefault(j, {})
                t[p] = t.get(p, 0) | m
            self.dtr.append(out)
            self.tags.append(tg)
            i += 1
        self.names = order
        self.dacc = {i for i, (p, q) in enumerate(order) if q in ds[p][1] and nullable_from(p + 1)}

    def unsupported(self):
        """None, or why the compiler's documented limitations exclude this regex."""
        if self.empty_language:
            return "empty language"
        if 0 in self.dacc:
            return "accepts the empty string"
        if any(0 in o for o in self.dtr) or any(0 in o for o in self.part_dfas[0][0]) and not self.start_anchor:
            return "transition into the initial state"
        if len(self.part_dfas[-1][1]) != 1 or 0 in self.part_dfas[-1][1]:
            return "several accepting states"
        return None

    def min_len(self):
        dist, fr = {0: 0}, [0]
        while fr:
            nx = []
            for s in fr:
                for d in self.dtr[s]:
                    if d not in dist:
                        dist[d] = dist[s] + 1
                        nx.append(d)
            fr = nx
        return min((dist[a] for a in self.dacc if a in dist), default=None)

    def shortest(self, limit=None):
        """One shortest accepted symbol string (255 = start of message)."""
        prev, fr, seen = {0: None}, [0], {0}
        while fr:
            nx = []
            for s in fr:
                if s in self.dacc:
                    out = []
                    while prev[s] is not None:
                        s, b = prev[s]
                        out.append(b)
                    return out[::-1]
                for d, m in self.dtr[s].items():
                    if d not in seen:
                        seen.add(d)
                        prev[d] = (s, (m & -m).bit_length() - 1)
                        nx.append(d)
            fr = nx
        return None

    # ---------------------------------------------------------------- concrete semantics (for replay)
    def scan_concrete(self, msg):
        """Left-to-right scan with restarts.  (matched, masks[part] over message positions)"""
        text = [255] + list(msg)
        run = None
        trace = []  # (state or None, continued, part)
        for i, b in enumerate(text):
            nxt, cont, ps = None, False, None
            if i and b == 255:  # only the position in front of the message holds the sentinel
                b = -1
            if run is not None:
                nxt, ps = self.step(run, b)
                cont = nxt is not None
            if nxt is None:
                nxt, ps = self.step(0, b)
            run = nxt
            trace.append((run, cont, ps))
        n = len(msg)
        L = 1 + sum(1 for b in msg if b)
        acc = [t[0] in self.dacc and (not self.end_anchor or i == L - 1) for i, t in enumerate(trace)]
        out = any(acc)
        c = [False] * (len(text) + 1)
        for i in range(len(text) - 1, -1, -1):
            c[i] = trace[i][0] is not None and (acc[i] or (i + 1 < len(text) and c[i + 1] and trace[i + 1][1]))
        masks = [[bool(out and c[i] and trace[i][2] and k in trace[i][2]) for i in range(1, len(text))] for k in range(len(self.parts))]
        return out, masks

    def step(self, s, b):
        if not 0 <= b <= 255:
            return None, None
        for d, m in self.dtr[s].items():
            if m >> b & 1:
                return d, {p for p, mm in self.tags[s][d].items() if mm >> b & 1}
        return None, None

    def exists_concrete(self, msg):
        """(a matching substring exists, may[part][i]: byte i lies in part k of some matching substring)"""
        text = [255] + list(msg)
        L = 1 + sum(1 for b in msg if b)
        F = [{0}]
        for b in text:
            F.append({0} | {d for s in F[-1] for m, p, d in self.tr[s] if m >> b & 1})
        n = len(text)
        ok = lambda i: (not self.end_anchor) or i == L
        B = [set() for _ in range(n + 1)]
        for i in range(n, -1, -1):
            if ok(i):
                B[i] |= self.acc
            if i < n:
                b = text[i]
                B[i] |= {s for s in range(len(self.tr)) if any(m >> b & 1 and d in B[i + 1] for m, p, d in self.tr[s])}
        may = [[False] * (n - 1) for _ in self.parts]
        for i in range(1, n):
            b = text[i]
            for s in F[i]:
                for m, p, d in self.tr[s]:
                    if m >> b & 1 and d in B[i + 1]:
                        may[p][i - 1] = True
        return any(ok(i) and F[i] & self.acc for i in range(n + 1)), may


class TableRef(Ref):
    """The automaton a transition table spells out; part k = the transitions listed for substring k."""

    def __init__(self, allstr, lists, end_anchor, zero=False):
        ls = allstr.split("\n")
        self.first, acc, self.max_state = int(ls[0]), int(ls[1]), int(ls[2])
        edges = [tuple(map(int, l.split())) for l in ls[3:] if l.strip()]
        if self.first != 0:
            raise RegexError("the first state is not 0")
        n = 1 + max([self.max_state, acc] + [max(a, b) for a, b, _ in edges])
        self.states = n
        self.dtr = [{} for _ in range(n)]
        self.nondeterministic = None
        seen = {}
        for a, b, c in edges:
            if seen.setdefault((a, c), b) != b:
                self.nondeterministic = (a, c)
            if c or zero:
                self.dtr[a][b] = self.dtr[a].get(b, 0) | 1 << c
        self.dacc = {acc}
        self.parts = [(True, None)] * len(lists)
        self.tags = [{d: {k: m for k, l in enumerate(lists) if (s, d) in l} for d, m in o.items()} for s, o in enumerate(self.dtr)]
        self.end_anchor = end_anchor


def _byte_label(b):
    """The name the automaton's textual form gives a byte."""
    if b == 32:
        return "' '"
    if b in (9, 10, 13, 34, 39, 92):
        return {9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 39: "\\'", 92: "\\\\"}[b]
    return chr(b) if 32 < b < 127 else f"\\x{b:02X}"


def _labels(mask):
    """Names of the maximal runs of a set of bytes."""
    out, b = [], 0
    while b < 256:
        if not mask >> b & 1:
            b += 1
            continue
        e = b
        while e < 255 and mask >> (e + 1) & 1:
            e += 1
        t = _byte_label(b) if b == e else f"{_byte_label(b)}-{_byte_label(e)}"
        if len(t) > 3 and t[2] == "\\" and t[3] != "x":
            t = t[:2] + t[3:]
        out.append(t)
        b = e + 1
    return out


class NumberedRef(Ref):
    """The minimal automaton of a raw regex with the states numbered the way users refer to them: breadth first,
    a state's edges in the order of their labels.  Part k = the transitions listed for substring k."""

    def __init__(self, text, lists=()):
        e, self.end_anchor = strip_eol(RParser(text).parse())
        if has_bol(e):
            raise RegexError("anchored")
        tr, acc = part_dfa(e, True)
        ids, order, i = {0: 0}, [0], 0
        while i < len(order):
            for _, d in sorted((l, d) for d, m in tr[order[i]].items() for l in _labels(m)):
                if d not in ids:
                    ids[d] = len(order)
                    order.append(d)
            i += 1
        self.dtr = [{ids[d]: m & ~1 for d, m in tr[q].items() if m & ~1} for q in order]
        self.dacc = {ids[q] for q in acc}
        self.parts = [(True, None)] * len(lists)
        self.tags = [{d: {k: m for k, l in enumerate(lists) if (s, d) in l} for d, m in o.items()} for s, o in enumerate(self.dtr)]


# ---------------------------------------------------------------- symbolic semantics
class Text:
    """Symbols over an AIG: position 0 is the constant 255; `els[i]` = (bits, valid)."""

    def __init__(self, g, els):
        self.g, self.els = g, els

    def __len__(self):
        return 1 + len(self.els)

    def inset(self, i, mask):
        if i == 0:
            return 1 if mask >> 255 & 1 else 0
        bits, valid = self.els[i - 1]
        return self.g.And(valid, self.g.byte_in(bits, mask & ~(1 << 255)))

    def zero(self, i):
        if i == 0:
            return 0
        bits, valid = self.els[i - 1]
        return self.g.And(valid, self.g.byte_in(bits, 1))


def lens(g, text):
    """last[i] (i in 0..len(text)): the text's nonzero symbols are exactly the first i (given zero padding)."""
    n = len(text)
    nz = [text.zero(i) ^ 1 for i in range(n)]
    return [g.And(nz[i - 1] if i else 0, (nz[i] ^ 1) if i < n else 1) for i in range(n + 1)]


def zero_padded(g, text):
    n = len(text)
    nz = [text.zero(i) ^ 1 for i in range(n)]
    return g.And_n([g.Imp(nz[i + 1], nz[i]) for i in range(1, n - 1)])


def sym_scan(g, ref, text):
    """(out, {part: [lit per message position]}, accept lits per text position)"""
    n = len(text)
    q = len(ref.dtr)
    run = [0] * q  # one-hot
    rows = []
    for i in range(n):
        cont_any, nxt = 0, [0] * q
        edge = {}
        for s in range(q):
            if run[s] == 0:
                continue
            for d, m in ref.dtr[s].items():
                e = g.And(run[s], text.inset(i, m))
                nxt[d] = g.Or(nxt[d], e)
                edge[(s, d, 1)] = e
        cont_any = g.Or_n(nxt)
        for d, m in ref.dtr[0].items():
            e = g.And(cont_any ^ 1, text.inset(i, m))
            nxt[d] = g.Or(nxt[d], e)
            edge[(0, d, 0)] = e
        rows.append((nxt, cont_any, run))
        run = nxt
    acc = [g.Or_n(r[0][a] for a in ref.dacc) for r in rows]
    if ref.end_anchor:
        L = lens(g, text)
        acc = [g.And(acc[i], L[i + 1]) for i in range(n)]
    out = g.Or_n(acc)
    c = [0] * (n + 1)
    for i in range(n - 1, -1, -1):
        nxtc = g.And(c[i + 1], rows[i + 1][1]) if i + 1 < n else 0
        c[i] = g.And(g.Or_n(rows[i][0]), g.Or(acc[i], nxtc))
    masks = {}
    for k in range(len(ref.parts)):
        lits = []
        for i in range(1, n):
            nxt, cont, prev = rows[i]
            hits = []
            for s in range(q):
                for d, tg in ref.tags[s].items():
                    m = tg.get(k, 0)
                    if not m:
                        continue
                    if prev[s]:
                        hits.append(g.And(prev[s], text.inset(i, m)))
                    if s == 0:
                        hits.append(g.And(cont ^ 1, text.inset(i, m)))
            lits.append(g.And(g.Or_n(hits), g.And(out, c[i])))
        masks[k] = lits
    return out, masks, acc


def sym_exists(g, ref, text):
    """(a match exists, {part: [lit per message position: the byte may belong to that part of a match]})"""
    n, q = len(text), len(ref.tr)
    F = [[1 if s == 0 else 0 for s in range(q)]]
    for i in range(n):
        nx = [[] for _ in range(q)]
        for s in range(q):
            if F[-1][s]:
                for m, p, d in ref.tr[s]:
                    nx[d].append(g.And(F[-1][s], text.inset(i, m)))
        row = [g.Or_n(x) for x in nx]
        row[0] = 1
        F.append(row)
    L = lens(g, text) if ref.end_anchor else [1] * (n + 1)
    B = [None] * (n + 1)
    for i in range(n, -1, -1):
        row = []
        for s in range(q):
            t = [L[i]] if s in ref.acc else []
            if i < n:
                for m, p, d in ref.tr[s]:
                    if B[i + 1][d]:
                        t.append(g.And(B[i + 1][d], text.inset(i, m)))
            row.append(g.Or_n(t))
        B[i] = row
    exists = g.Or_n(g.And(F[i][s], L[i]) for i in range(n + 1) for s in ref.acc)
    may = {}
    for k in range(len(ref.parts)):
        lits = []
        for i in range(1, n):
            h = []
            for s in range(q):
                if F[i][s]:
                    for m, p, d in ref.tr[s]:
                        if p == k and B[i + 1][d]:
                            h.append(g.And_n([F[i][s], text.inset(i, m), B[i + 1][d]]))
            lits.append(g.Or_n(h))
        may[k] = lits
    return exists, may
