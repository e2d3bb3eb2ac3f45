"""Symbolic evaluation of circom templates: every signal is a linear form over AIG literals.

A value is Lin(c, {lit: coef}) meaning c + sum coef*lit over the integers (all magnitudes stay far below the field's
half-size, so integer and field equality coincide).  Literals are even AIG literals (a negated one is rewritten).
"""
import circom
from circom import P, V, Arr
from aig import AIG


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c, self.t, self._h = c, t, None

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.t.items()))
        return self._h


MAXTERMS = 20000
HINT_BITS = 10


def sym(c):
    c %= P
    return c if c < P // 2 else c - P


class SymDomain:
    def __init__(self, g, honest=False):
        self.g = g
        self.honest = honest  # hints take the value the template computes, instead of any value
        self.cons = []  # literals that a witness must make true
        self.nhint = 0
        self.hint_words = []
        self.word_cache = {}
        self.factors = {}  # product literal -> literals it implies
        self.overflow = False

    # -- construction
    def lit(self, l):
        if l == 0:
            return Lin(0, {})
        if l == 1:
            return Lin(1, {})
        if l & 1:
            return Lin(1, {l ^ 1: -1})
        return Lin(0, {l: 1})

    def word(self, bits, signed=False):
        t, c = {}, 0
        for k, b in enumerate(bits):
            w = -(1 << k) if signed and k == len(bits) - 1 else 1 << k
            if b == 1:
                c += w
            elif b & 1:
                c += w
                t[b ^ 1] = t.get(b ^ 1, 0) - w
            elif b:
                t[b] = t.get(b, 0) + w
        return Lin(c, {l: w for l, w in t.items() if w})

    # -- domain interface
    def const(self, i):
        return Lin(sym(i), {})

    def as_int(self, v):
        if v.t:
            raise circom.IllFormed("constant expected")
        return v.c

    def add(self, a, b, k=1):
        if not b.t:
            return Lin(a.c + k * b.c, a.t)
        if not a.t and k == 1:
            return Lin(a.c + b.c, b.t)
        t = dict(a.t)
        for l, w in b.t.items():
            n = t.get(l, 0) + k * w
            if n:
                t[l] = n
            else:
                del t[l]
        if len(t) > MAXTERMS:
            raise circom.Unsupported("linear form too large")
        return self.simplify(Lin(a.c + k * b.c, t))

    def sub(self, a, b):
        return self.add(a, b, -1)

    def simplify(self, v):
        """Recognise the few shapes that are plainly booleans."""
        if len(v.t) == 2 and abs(v.c) <= 1:
            (x, p), (y, q) = v.t.items()
            if v.c == 0 and p == 1 and q == 1 and self.disjoint(x, y):
                return self.lit(self.g.Or(x, y))
            if v.c == 1 and p == -1 and q == -1 and self.disjoint(x, y):
                return self.lit(self.g.Or(x, y) ^ 1)
            if p + q == 0 and abs(p) == 1:
                if q == 1:
                    x, y = y, x
                if v.c == 1 and self.disjoint(x, y ^ 1):  # 1 + x - y where x implies y
                    return self.lit(self.g.Or(x, y ^ 1))
                if v.c == 0 and self.disjoint(y, x ^ 1):  # x - y where y implies x
                    return self.lit(self.g.And(x, y ^ 1))
        return v

    def disjoint(self, x, y):
        return self.g.And(x, y) == 0 or y ^ 1 in self.factors.get(x, ()) or x ^ 1 in self.factors.get(y, ())

    def boolean(self, v):
        """The literal a value equals if it is syntactically a bit, else None."""
        if not v.t:
            return v.c if v.c in (0, 1) else None
        if len(v.t) == 1:
            (l, w), = v.t.items()
            if v.c == 0 and w == 1:
                return l
            if v.c == 1 and w == -1:
                return l ^ 1
        return None

    def bools(self, a, b):
        return self.boolean(a) is not None and self.boolean(b) is not None

    def bor(self, a, b):
        return self.lit(self.g.Or(self.boolean(a), self.boolean(b)))

    def mul(self, a, b):
        if not a.t:
            a, b = b, a
        if not b.t:
            if b.c == 0:
                return Lin(0, {})
            return Lin(a.c * b.c, {l: w * b.c for l, w in a.t.items()})
        x, y = self.boolean(a), self.boolean(b)
        if x is not None and y is not None:
            l = self.g.And(x, y)
            if l > 1:
                self.factors.setdefault(l, set()).update((x, y))
            return self.lit(l)
        if y is not None:
            a, b, x, y = b, a, y, x
        g = self.g
        if x is not None:  # bit times linear form
            t, c = {}, 0

            def put(l, w):
                nonlocal c
                if l == 1:
                    c += w
                elif l:
                    if l & 1:
                        c += w
                        l, w = l ^ 1, -w
                    n = t.get(l, 0) + w
                    if n:
                        t[l] = n
                    else:
                        t.pop(l, None)

            if b.c:
                put(x, b.c)
            for l, w in b.t.items():
                put(g.And(x, l), w)
            return Lin(c, t)
        if len(a.t) * len(b.t) > 400:  # sums of many bits: go through their binary representation
            a, b = (self.word(self.bits_of(v), signed=True) if len(v.t) > 12 else v for v in (a, b))
            if len(a.t) * len(b.t) > MAXTERMS:
                raise circom.Unsupported("product too large")
            if self.boolean(a) is not None or self.boolean(b) is not None:
                return self.mul(a, b)
        out = Lin(a.c * b.c, {})
        for l, w in a.t.items():
            out = self.add(out, self.mul(self.lit(l), Lin(b.c * w, {m: u * w for m, u in b.t.items()})))
        if a.c:
            out = self.add(out, Lin(0, {m: u * a.c for m, u in b.t.items()}))
        return out

    # -- bit blasting
    def bits_of(self, v):
        """Two's complement bits (the last one is the sign) of a linear form."""
        k = (v.c, v.key())
        r = self.word_cache.get(k)
        if r is not None:
            return r
        lo = v.c + sum(w for w in v.t.values() if w < 0)
        hi = v.c + sum(w for w in v.t.values() if w > 0)
        if max(hi, -lo) >> 240:
            raise circom.Unsupported("magnitude beyond what integers and the field share")
        n = 1
        while not (-(1 << (n - 1)) <= lo and hi < 1 << (n - 1)):
            n += 1
        r = self._plain(v, n)
        if r is None:
            # group the terms by weight: a carry-save column compression
            cols = [[] for _ in range(n)]
            const = v.c
            for l, w in sorted(v.t.items()):
                if w < 0:  # w*l = -|w| + |w|*(not l)
                    const += w
                    l, w = l ^ 1, -w
                k2 = 0
                while w:
                    if w & 1 and k2 < n:
                        cols[k2].append(l)
                    w >>= 1
                    k2 += 1
            for k2 in range(n):
                if const >> k2 & 1:
                    cols[k2].append(1)
            r = []
            g = self.g
            for k2 in range(n):
                col = cols[k2]
                while len(col) > 1:
                    if len(col) >= 3:
                        x, y, z = col[:3]
                        xy = g.Xor(x, y)
                        s, cy = g.Xor(xy, z), g.Or(g.And(x, y), g.And(xy, z))
                        col = col[3:] + [s]
                    else:
                        x, y = col
                        s, cy = g.Xor(x, y), g.And(x, y)
                        col = [s]
                    if k2 + 1 < n:
                        cols[k2 + 1].append(cy)
                r.append(col[0] if col else 0)
        self.word_cache[k] = r
        return r

    def _plain(self, v, n):
        """Distinct powers of two, no constant: the literals are the bits already."""
        if v.c:
            return None
        out = [0] * n
        for l, w in v.t.items():
            if w > 0 and w & (w - 1) == 0 and out[w.bit_length() - 1] == 0:
                out[w.bit_length() - 1] = l
            else:
                return None
        return out

    def zero_lit(self, v):
        g = self.g
        if not v.t:
            return int(v.c == 0)
        b = self.boolean(v)
        if b is not None:
            return b ^ 1
        lo = v.c + sum(w for w in v.t.values() if w < 0)
        hi = v.c + sum(w for w in v.t.values() if w > 0)
        if lo > 0 or hi < 0:
            return 0
        if lo == 0:
            return g.And_n(l ^ 1 if w > 0 else l for l, w in v.t.items())
        if hi == 0:
            return g.And_n(l if w > 0 else l ^ 1 for l, w in v.t.items())
        # v - c == -c over bits whose weights are distinct powers of two: a comparison with a constant
        w0 = Lin(0, v.t)
        n = 1
        while not -(1 << (n - 1)) <= -v.c < (1 << (n - 1)):
            n += 1
        bits = self.bits_of(w0)
        m = max(n, len(bits))
        return g.And_n((bits[min(i, len(bits) - 1)] ^ 1 ^ ((-v.c >> i) & 1)) for i in range(m))

    def is_zero(self, v):
        return self.lit(self.zero_lit(v))

    def bits_gadget(self, n, v):
        b = self.bits_of(v)
        g = self.g
        out = [b[i] if i < len(b) - 1 else b[-1] for i in range(n)]
        # 0 <= v < 2^n: every higher bit, the sign included, is zero
        for i in range(n, len(b)):
            self.need(b[i] ^ 1)
        if n >= len(b):
            self.need(b[-1] ^ 1)
            out = [b[i] if i < len(b) - 1 else 0 for i in range(n)]
        return [self.lit(x) for x in out]

    def lt_gadget(self, n, v):
        b = self.bits_gadget(n + 1, v)
        return self.sub(self.const(1), b[n])

    def need(self, l):
        if l != 1:
            self.cons.append(l)

    def constrain(self, a, b):
        self.need(self.zero_lit(self.sub(a, b)))

    def hint(self, v):
        if self.honest:
            if v is None:
                raise circom.Unsupported("honest value of a hint")
            return v
        k = self.nhint
        self.nhint += 1
        bits = [self.g.input(f"h{k}_{i}") for i in range(HINT_BITS)]
        self.hint_words.append(bits)
        return self.word(bits, signed=True)

    def opaque(self, op, a, b):
        return None if self.honest else Lin(0, {})

    def branch(self, v):
        return None

    def placeholder(self, k):
        raise circom.Unsupported("placeholder")


# ---------------------------------------------------------------- driving one template
class Library:
    """Templates of the repository, found through circom includes; circomlib is modelled natively."""

    def __init__(self, repo):
        import os
        self.repo, self.cache = repo, {}
        self.circuits = os.path.join(repo, "packages/circom/circuits")

    def resolve(self, inc, base):
        import os
        if "circomlib/" in inc:
            return None
        pre = "@zk-email/zk-regex-circom/circuits/"
        if inc.startswith(pre):
            return os.path.join(self.circuits, inc[len(pre):])
        return os.path.normpath(os.path.join(base, inc))

    def load(self, path):
        """(templates, functions) reachable from a file."""
        T, F, seen = {}, {}, set()

        def go(p):
            p_ = p
            if p_ in seen:
                return
            seen.add(p_)
            import os
            if p_ not in self.cache:
                try:
                    text = open(p_).read()
                except OSError:
                    raise circom.IllFormed(f"include {p_} does not exist")
                self.cache[p_] = (text, circom.parse(text))
            text, (t, f) = self.cache[p_][0], self.cache[p_][1][:2]
            for k, v in t.items():
                if k in T and T[k] is not v:
                    raise circom.IllFormed(f"template {k} defined twice")
                T[k] = v
            F.update(f)
            for inc in self.cache[p_][1][2]:
                q = self.resolve(inc, os.path.dirname(p_))
                if q:
                    go(q)

        go(path)
        return T, F

    def load_text(self, text, base):
        import os
        T, F = {}, {}
        prog = circom.parse(text)
        T.update(prog[0])
        F.update(prog[1])
        for inc in prog[2]:
            q = self.resolve(inc, base)
            if q:
                t, f = self.load(q)
                for k, v in t.items():
                    if k in T and T[k] is not v:
                        raise circom.IllFormed(f"template {k} defined twice")
                    T[k] = v
                F.update(f)
        return T, F


class Circuit:
    """One symbolic instance of template `name`(n)."""

    def __init__(self, T, F, name, n, g=None, full=True, prefix="m", summaries=None, words=None):
        self.g = g or AIG()
        self.dom = D = SymDomain(self.g, honest=not full)
        self.n = n
        self.nb = 10 if full else 8
        self.words = words or [[self.g.input(f"{prefix}{i}_{k}") for k in range(self.nb)] for i in range(n)]
        msg = Arr([n], "sig", "msg")
        msg.cells = [V(D.word(w, signed=full), 1) for w in self.words]
        self.el = circom.Elaborator(D, T, F)
        for k, f in (summaries or {}).items():
            self.el.summaries[k] = lambda args, ins, f=f: f(D, args, ins)
        self.outputs = self.el.run_template(name, [n], {"msg": msg}, "main")
        o = self.outputs.get("out")
        if o is None or o.dims != ():
            raise circom.IllFormed("no scalar output `out`")
        self.out = o.cells[0].v
        self.reveals = {}
        for k, a in self.outputs.items():
            if k.startswith("reveal") and k[6:].isdigit():
                if a.dims != (n,):
                    raise circom.IllFormed(f"{k} has the wrong shape")
                self.reveals[int(k[6:])] = [c.v for c in a.cells]
        self.cons = D.cons

    def out_is(self, v):
        return self.dom.zero_lit(self.dom.sub(self.out, self.dom.const(v)))

    def byte_els(self):
        """(bits, valid) per message element; valid: the element is a byte 0..254."""
        g = self.g
        r = []
        for w in self.words:
            b = w[:8]
            hi = [x ^ 1 for x in w[8:]]
            r.append((b, g.And(g.And_n(hi), g.byte_in(b, (1 << 255) - 1))))
        return r

    def message(self, model, prefix="m"):
        out = []
        for i in range(self.n):
            v = 0
            for k in range(self.nb):
                if model.get(f"{prefix}{i}_{k}"):
                    v += -(1 << k) if self.nb == 10 and k == 9 else 1 << k
            out.append(v)
        return out

    def hints(self, model):
        out = {}
        for k, bits in enumerate(self.dom.hint_words):
            v = 0
            for i, b in enumerate(bits):
                if model.get(self.g.inputs[b >> 1]):
                    v += -(1 << i) if i == len(bits) - 1 else 1 << i
            out[k] = v
        return out


def run_concrete(T, F, name, msg, hints=None):
    """Evaluate over the real field.  (failed constraints, out, {k: reveal list})"""
    D = circom.FieldDomain(hints)
    n = len(msg)
    a = Arr([n], "sig", "msg")
    a.cells = [V(v % P, 1) for v in msg]
    el = circom.Elaborator(D, T, F)
    o = el.run_template(name, [n], {"msg": a}, "main")
    rev = {int(k[6:]): [c.v for c in x.cells] for k, x in o.items() if k.startswith("reveal") and k[6:].isdigit()}
    return D.failed, o["out"].cells[0].v, rev
