"""And-inverter graph with structural hashing, and its translation to a SAT problem for z3."""
import time

FALSE, TRUE = 0, 1


class AIG:
    """Literals are ints: 2*node + negated.  Node 0 is the constant false."""

    def __init__(self):
        self.a = [0]
        self.b = [0]
        self.tab = {}
        self.inputs = {}  # node -> name
        self.byname = {}
        self.sets = {}

    def input(self, name):
        n = len(self.a)
        self.a.append(-1)
        self.b.append(-1)
        self.inputs[n] = name
        self.byname[name] = 2 * n
        return 2 * n

    def And(self, x, y):
        if x > y:
            x, y = y, x
        if x == 0 or x == y ^ 1:
            return 0
        if x == 1 or x == y:
            return y
        k = (x, y)
        r = self.tab.get(k)
        if r is not None:
            return r
        # one-level look-ahead: contradiction and absorption
        nx, ny = x >> 1, y >> 1
        ax, bx, ay, by = self.a[nx], self.b[nx], self.a[ny], self.b[ny]
        r = None
        if ay >= 0:
            if not y & 1:
                if x ^ 1 == ay or x ^ 1 == by:
                    r = 0
                elif x == ay or x == by:
                    r = y
                elif ax >= 0 and not x & 1 and (ax ^ 1 in (ay, by) or bx ^ 1 in (ay, by)):
                    r = 0
            else:
                if x ^ 1 == ay or x ^ 1 == by:
                    r = x
                elif x == ay:
                    r = self.And(x, by ^ 1)
                elif x == by:
                    r = self.And(x, ay ^ 1)
        if r is None and ax >= 0:
            if not x & 1:
                if y ^ 1 == ax or y ^ 1 == bx:
                    r = 0
                elif y == ax or y == bx:
                    r = x
            else:
                if y ^ 1 == ax or y ^ 1 == bx:
                    r = y
                elif y == ax:
                    r = self.And(y, bx ^ 1)
                elif y == bx:
                    r = self.And(y, ax ^ 1)
        if r is None:
            n = len(self.a)
            self.a.append(x)
            self.b.append(y)
            r = 2 * n
        self.tab[k] = r
        return r

    def Or(self, x, y):
        return self.And(x ^ 1, y ^ 1) ^ 1

    def Xor(self, x, y):
        return self.And(self.And(x, y) ^ 1, self.And(x ^ 1, y ^ 1) ^ 1)

    def Iff(self, x, y):
        return self.Xor(x, y) ^ 1

    def Imp(self, x, y):
        return self.And(x, y ^ 1) ^ 1

    def Ite(self, c, x, y):
        if c == 1:
            return x
        if c == 0:
            return y
        if x == y:
            return x
        return self.Or(self.And(c, x), self.And(c ^ 1, y))

    def And_n(self, xs):
        xs = list(xs)
        if not xs:
            return 1
        while len(xs) > 1:
            xs = [self.And(xs[i], xs[i + 1]) if i + 1 < len(xs) else xs[i] for i in range(0, len(xs), 2)]
        return xs[0]

    def Or_n(self, xs):
        return self.And_n([x ^ 1 for x in xs]) ^ 1

    # ---- words (little-endian literal lists)
    def add_words(self, x, y, width):
        out, c = [], 0
        for i in range(width):
            p = x[i] if i < len(x) else x[-1]
            q = y[i] if i < len(y) else y[-1]
            pq = self.Xor(p, q)
            out.append(self.Xor(pq, c))
            c = self.Or(self.And(p, q), self.And(pq, c))
        return out

    def byte_in(self, bits, members):
        """bits: 8 literals (lsb first); members: iterable of byte values or a 256-bit int mask."""
        if not isinstance(members, int):
            m = 0
            for v in members:
                m |= 1 << v
            members = m
        key = (tuple(bits), members)
        r = self.sets.get(key)
        if r is None:
            r = self._mux(bits, 8, members)
            self.sets[key] = r
        return r

    def _mux(self, bits, k, mask):
        if mask == 0:
            return 0
        full = (1 << (1 << k)) - 1
        if mask == full:
            return 1
        key = (tuple(bits[:k]), mask, k)
        r = self.sets.get(key)
        if r is None:
            h = 1 << (k - 1)
            lo, hi = mask & ((1 << h) - 1), mask >> h
            r = self.Ite(bits[k - 1], self._mux(bits, k - 1, hi), self._mux(bits, k - 1, lo))
            self.sets[key] = r
        return r

    # ---- evaluation under an assignment name -> bool
    def evaluate(self, lits, assign):
        val = {0: False}
        for lit in lits:
            stack = [lit >> 1]
            while stack:
                n = stack[-1]
                if n in val:
                    stack.pop()
                    continue
                a = self.a[n]
                if a < 0:
                    val[n] = bool(assign.get(self.inputs[n], False))
                    stack.pop()
                    continue
                b = self.b[n]
                need = [m for m in (a >> 1, b >> 1) if m not in val]
                if need:
                    stack.extend(need)
                    continue
                val[n] = (val[a >> 1] ^ bool(a & 1)) and (val[b >> 1] ^ bool(b & 1))
                stack.pop()
        return [val[l >> 1] ^ bool(l & 1) for l in lits]

    def cnf(self, roots):
        """Tseitin clauses of the cone of `roots`, each root asserted.  Returns (nvars, clauses, node->var)."""
        var, order = {}, []
        stack = [r >> 1 for r in roots]
        seen = set()
        while stack:
            n = stack.pop()
            if n in seen or n == 0:
                continue
            seen.add(n)
            order.append(n)
            if self.a[n] >= 0:
                stack.append(self.a[n] >> 1)
                stack.append(self.b[n] >> 1)
        order.sort()
        for i, n in enumerate(order):
            var[n] = i + 1
        lit = lambda l: -var[l >> 1] if l & 1 else var[l >> 1]
        cl = []
        for n in order:
            if self.a[n] >= 0:
                v, p, q = var[n], lit(self.a[n]), lit(self.b[n])
                cl.append((-v, p))
                cl.append((-v, q))
                cl.append((v, -p, -q))
        for r in roots:
            cl.append((lit(r),))
        return len(order), cl, var


class Stats:
    def __init__(self):
        self.queries = 0
        self.trivial = 0
        self.seconds = 0.0
        self.unsat = 0
        self.sat = 0
        self.max_clauses = 0
        self.log = []

    def merge(self, o):
        self.queries += o.queries
        self.trivial += o.trivial
        self.seconds += o.seconds
        self.unsat += o.unsat
        self.sat += o.sat
        self.max_clauses = max(self.max_clauses, o.max_clauses)


class Unknown(Exception):
    pass


def solve(g, roots, stats, timeout_s=120):
    """Decide the conjunction of `roots`.  None if unsatisfiable, else {input name: bool}."""
    roots = [r for r in roots if r != 1]
    if any(r == 0 for r in roots):
        stats.trivial += 1
        stats.unsat += 1
        return None
    import z3

    stats.queries += 1
    n, cl, var = g.cnf(roots)
    stats.max_clauses = max(stats.max_clauses, len(cl))
    t = time.time()
    s = z3.SolverFor("QF_FD")
    s.set("timeout", int(timeout_s * 1000))
    txt = ["p cnf %d %d" % (n, len(cl))]
    txt += [" ".join(map(str, c)) + " 0" for c in cl]
    s.from_string("\n".join(txt) + "\n")
    r = s.check()
    stats.seconds += time.time() - t
    if r == z3.unsat:
        stats.unsat += 1
        return None
    if r != z3.sat:
        raise Unknown(f"z3 answered {r} ({s.reason_unknown()}) on {len(cl)} clauses")
    stats.sat += 1
    m = s.model()
    vals = {}
    for d in m.decls():
        nm = d.name()
        k = int(nm.split("!")[-1].lstrip("k") or 0) if "!" in nm else int("".join(ch for ch in nm if ch.isdigit()))
        vals[k] = z3.is_true(m[d])
    inv = {v: k for k, v in var.items()}
    out = {name: False for name in g.inputs.values()}
    for k, b in vals.items():
        node = inv.get(k)
        if node in g.inputs:
            out[g.inputs[node]] = b
    # the model must satisfy the query under our own evaluation
    if not all(g.evaluate(roots, out)):
        raise Unknown("model does not satisfy the query (variable naming?)")
    return out
