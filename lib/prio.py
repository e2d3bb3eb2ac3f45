"""Reference for matching with priorities (leftmost start, alternatives and repetitions in the order the pattern
prefers): the spans of the concatenated parts, over a text of symbolic bytes."""
import rref
from rref import RegexError, negate, utf8_seqs, mask_of

PERL = {"d": [(48, 57)], "s": [(9, 13), (32, 32)], "w": [(48, 57), (65, 90), (95, 95), (97, 122)]}
MASKALL = (1 << 256) - 1


class PParser(rref.RParser):
    """As RParser, with ('rep', x, lo, hi, lazy) and the classes \\d \\s \\w (their ASCII members only)."""
    ascii_only = False

    def rep(self):
        e = self.atom()
        while True:
            c = self.peek()
            if c == "*":
                lo, hi = 0, None
                self.i += 1
            elif c == "+":
                lo, hi = 1, None
                self.i += 1
            elif c == "?":
                lo, hi = 0, 1
                self.i += 1
            elif c == "{":
                j = self.s.index("}", self.i) if "}" in self.s[self.i:] else -1
                if j < 0:
                    raise RegexError("unclosed {")
                p = self.s[self.i + 1:j].split(",")
                try:
                    lo = int(p[0])
                    hi = lo if len(p) == 1 else (int(p[1]) if p[1].strip() else None)
                except ValueError:
                    raise RegexError("bad counted repetition")
                if len(p) > 2 or (hi is not None and hi < lo):
                    raise RegexError("bad counted repetition")
                self.i = j + 1
            else:
                return e
            lazy = self.peek() == "?"
            if lazy:
                self.i += 1
            e = ("rep", e, lo, hi, lazy)

    def escape(self):
        c = self.peek()
        if c is not None and c.lower() in PERL:
            self.i += 1
            self.ascii_only = True
            return PERL[c] if c in PERL else negate(PERL[c.lower()])
        return super().escape()


def nullable(e):
    k = e[0]
    if k == "cls":
        return False
    if k == "cat":
        return all(map(nullable, e[1]))
    if k == "alt":
        return any(map(nullable, e[1]))
    if k == "rep":
        return e[2] == 0 or nullable(e[1])
    return True


class Prog:
    """chr[s] = (mask, next) | eps[s] = [targets in order of preference] | save[s] = (slot, next) | at[s] = (kind, next)"""

    def __init__(self, parts):
        self.ins = []
        self.ascii_only = False
        asts = []
        for p in parts:
            q = PParser(p)
            asts.append(q.parse())
            self.ascii_only |= q.ascii_only
        self.asts = asts
        self.match = self._new(("match",))
        nxt = self.match
        for k in range(len(parts) - 1, -1, -1):
            close = self._new(("save", 2 * k + 1, nxt))
            body = self._build(asts[k], close)
            nxt = self._new(("save", 2 * k, body))
        self.start = nxt
        self.parts = len(parts)

    def _new(self, i):
        self.ins.append(i)
        return len(self.ins) - 1

    def _build(self, e, nxt):
        k = e[0]
        if k == "cls":
            alts = []
            for seq in utf8_seqs(e[1]):
                t = nxt
                for lo, hi in reversed(seq):
                    t = self._new(("chr", mask_of(lo, hi), t))
                alts.append(t)
            # single bytes together
            one = 0
            rest = []
            for a in alts:
                i = self.ins[a]
                if i[2] == nxt and i[1] < 1 << 128:
                    one |= i[1]
                else:
                    rest.append(a)
            if one:
                rest.insert(0, self._new(("chr", one, nxt)))
            return rest[0] if len(rest) == 1 else self._new(("eps", rest))
        if k == "cat":
            for x in reversed(e[1]):
                nxt = self._build(x, nxt)
            return nxt
        if k == "alt":
            return self._new(("eps", [self._build(x, nxt) for x in e[1]]))
        if k == "bol" or k == "eol":
            return self._new(("at", k, nxt))
        _, x, lo, hi, lazy = e
        order = (lambda a, b: [b, a]) if lazy else (lambda a, b: [a, b])
        if hi is None:
            if nullable(x):
                raise RegexError("loop over a part that may be empty")
            loop = self._new(("eps", []))
            body = self._build(x, loop)
            self.ins[loop] = ("eps", order(body, nxt))
            nxt = loop
        else:
            out = nxt
            for _ in range(hi - lo):
                nxt = self._new(("eps", order(self._build(x, nxt), out)))
        for _ in range(lo):
            nxt = self._build(x, nxt)
        return nxt


def symbolic(g, prog, bits, anchored_start=False):
    """bits[i] = the 8 literals of byte i.  (match literal, open[k][i], close[k][i] for i in 0..n)"""
    n = len(bits)
    can = {}

    def c(s, i):
        r = can.get((s, i))
        if r is not None:
            return r
        k = prog.ins[s]
        if k[0] == "match":
            r = 1
        elif k[0] == "chr":
            r = g.And(g.byte_in(bits[i], k[1]), c(k[2], i + 1)) if i < n else 0
        elif k[0] == "save":
            r = c(k[2], i)
        elif k[0] == "at":
            r = c(k[2], i) if (i == 0 if k[1] == "bol" else i == n) else 0
        else:
            r = g.Or_n(c(t, i) for t in k[1])
        can[(s, i)] = r
        return r

    # positions from the end, so that recursion stays within one position
    for i in range(n, -1, -1):
        for s in range(len(prog.ins)):
            c(s, i)
    opens = [[0] * (n + 1) for _ in range(prog.parts)]
    closes = [[0] * (n + 1) for _ in range(prog.parts)]
    # an order in which every state comes after the states with an empty move into it
    succ = lambda s: [prog.ins[s][2]] if prog.ins[s][0] in ("save", "at") else (list(prog.ins[s][1]) if prog.ins[s][0] == "eps" else [])
    topo, mark = [], set()
    for root in range(len(prog.ins)):
        st = [(root, iter(succ(root)))] if root not in mark else []
        mark.add(root)
        while st:
            s, it = st[-1]
            t = next(it, None)
            if t is None:
                topo.append(s)
                st.pop()
            elif t not in mark:
                mark.add(t)
                st.append((t, iter(succ(t))))
    topo.reverse()
    on = [0] * len(prog.ins)
    none = 1
    for i in range(n + 1):
        nx = [0] * len(prog.ins)
        st = c(prog.start, i)
        on[prog.start] = g.Or(on[prog.start], g.And(none, st))
        none = g.And(none, st ^ 1)
        for s in topo:
            v = on[s]
            if v == 0:
                continue
            k = prog.ins[s]
            if k[0] == "chr":
                if i < n:
                    nx[k[2]] = g.Or(nx[k[2]], v)
            elif k[0] == "save":
                (closes if k[1] & 1 else opens)[k[1] >> 1][i] = v
                on[k[2]] = g.Or(on[k[2]], v)
            elif k[0] == "at":
                on[k[2]] = g.Or(on[k[2]], v)
            elif k[0] == "eps":
                for t in k[1]:
                    w = g.And(v, c(t, i))
                    on[t] = g.Or(on[t], w)
                    v = g.And(v, c(t, i) ^ 1)
        on = nx
    return none ^ 1, opens, closes


def concrete(parts, text):
    """Spans of the parts in the leftmost match of a byte string, or None."""
    import aig
    g = aig.AIG()
    bits = [[b >> k & 1 for k in range(8)] for b in text]
    m, o, c = symbolic(g, Prog(parts), bits)
    if not m:
        return None
    return [(o[k].index(1), c[k].index(1)) for k in range(len(parts))]
