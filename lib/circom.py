"""A front end for the circom language: lexer, parser and elaborator.

The elaborator executes a template for given parameters and walks every statement the way the circom
compiler does (loops unrolled over concrete vars; signals are single-assignment; a component runs when
its last input arrives).  It is generic in the value domain:

  * SymDomain  (symcirc.py)  signals are SMT terms over symbolic message elements;
  * FieldDomain (below)      signals are integers modulo the BN254 scalar field, for replaying a
                             counterexample: an honest prover's witness, every constraint checked mod p.

Only circomlib templates are modelled natively (they are an external dependency, not in the tree); every
template that lives in /repo is elaborated from its current source.
"""
import re

P = 21888242871839275222246405745257275088548364400416034343698204186575808495617


class IllFormed(Exception):
    """The text is not a circuit the circom compiler would accept."""


class Unsupported(Exception):
    """Outside what this front end understands (an error of the check, not a verdict)."""


# ---------------------------------------------------------------- lexer
TOK = re.compile(
    r"""(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<num>0x[0-9a-fA-F]+|\d+)|(?P<id>[A-Za-z_$][A-Za-z_$0-9]*)|(?P<str>"[^"\n]*")
    |(?P<op><==|==>|<--|-->|===|\*\*=|<<=|>>=|&&|\|\||==|!=|<=|>=|<<|>>|\+\+|--|\+=|-=|\*=|/=|\\=|%=|&=|\|=|\^=|\*\*|[-+*/\\%<>=!~&|^?:;,.(){}\[\]])
    |(?P<ph>\x01\d+\x02)""",
    re.X | re.S,
)


def lex(text):
    pos, out = 0, []
    n = len(text)
    while pos < n:
        m = TOK.match(text, pos)
        if not m:
            raise IllFormed(f"unexpected character {text[pos]!r} at offset {pos}")
        pos = m.end()
        k = m.lastgroup
        if k == "ws":
            continue
        out.append((k, m.group(k)))
    out.append(("eof", ""))
    return out


# ---------------------------------------------------------------- parser (AST = tuples)
BINPREC = {
    "||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, ">": 7, "<=": 7, ">=": 7,
    "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "\\": 10, "%": 10, "**": 11,
}
ASSIGN = {"<==", "<--", "=", "+=", "-=", "*=", "/=", "\\=", "%=", "**=", "<<=", ">>=", "&=", "|=", "^="}


class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def at(self, v):
        x = self.t[self.i]
        return x[1] == v and x[0] in ("op", "id")

    def accept(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise IllFormed(f"expected {v!r}, found {self.peek()[1]!r} (token {self.i})")

    def ident(self):
        k, v = self.next()
        if k != "id":
            raise IllFormed(f"expected an identifier, found {v!r}")
        return v

    def program(self):
        templates, functions, includes = {}, {}, []
        while self.peek()[0] != "eof":
            v = self.next()[1]
            if v == "pragma":
                while not self.accept(";"):
                    if self.peek()[0] == "eof":
                        raise IllFormed("unterminated pragma")
                    self.next()
            elif v == "include":
                k, s = self.next()
                if k != "str":
                    raise IllFormed("include needs a string")
                includes.append(s[1:-1])
                self.expect(";")
            elif v in ("template", "function"):
                while self.peek()[1] in ("parallel", "custom"):
                    self.next()
                name = self.ident()
                self.expect("(")
                params = []
                while not self.accept(")"):
                    params.append(self.ident())
                    if not self.at(")"):
                        self.expect(",")
                body = self.block()
                (templates if v == "template" else functions)[name] = (params, body)
            elif v == "component":
                self.ident()
                if self.accept("{"):
                    while not self.accept("}"):
                        self.next()
                self.expect("=")
                self.expr()
                self.expect(";")
            else:
                raise IllFormed(f"unexpected {v!r} at top level")
        return templates, functions, includes

    def block(self):
        self.expect("{")
        out = []
        while not self.accept("}"):
            if self.peek()[0] == "eof":
                raise IllFormed("missing '}' at end of file")
            out.append(self.stmt())
        return out

    def body(self):
        if self.at("{"):
            return self.block()
        return [self.stmt()]

    def dims(self):
        d = []
        while self.accept("["):
            d.append(self.expr())
            self.expect("]")
        return d

    def stmt(self):
        k, v = self.peek()
        if v == "{" and k == "op":
            return ("block", self.block())
        if k == "id":
            if v == "signal":
                return self.decl_signal()
            if v in ("var", "component"):
                s = self.decl_var(v)
                self.expect(";")
                return s
            if v == "if":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                a = self.body()
                b = self.body() if self.accept("else") else []
                return ("if", c, a, b)
            if v == "for":
                self.next()
                self.expect("(")
                init = self.decl_var("var") if self.at("var") else self.simple()
                self.expect(";")
                c = self.expr()
                self.expect(";")
                step = self.simple()
                self.expect(")")
                return ("for", init, c, step, self.body())
            if v == "while":
                self.next()
                self.expect("(")
                c = self.expr()
                self.expect(")")
                return ("while", c, self.body())
            if v == "return":
                self.next()
                e = self.expr()
                self.expect(";")
                return ("return", e)
            if v in ("assert", "log"):
                self.next()
                self.expect("(")
                a = []
                while not self.accept(")"):
                    if self.peek()[0] == "str":
                        self.next()
                        a.append(("num", 0))
                    else:
                        a.append(self.expr())
                    if not self.at(")"):
                        self.expect(",")
                self.expect(";")
                return (v, a)
        s = self.simple()
        self.expect(";")
        return s

    def decl_signal(self):
        self.next()
        kind = "inter"
        if self.peek()[1] in ("input", "output"):
            kind = self.next()[1]
        if self.accept("{"):
            while not self.accept("}"):
                self.next()
        if self.accept("("):
            out = []
            while not self.accept(")"):
                n = self.ident()
                out.append((n, self.dims(), None))
                if not self.at(")"):
                    self.expect(",")
            init = (self.next()[1], self.expr()) if self.peek()[1] in ("<==", "<--") else None
            self.expect(";")
            decl = ("signal", kind, out)
            return decl if init is None else ("both", decl, ("assign", init[0], ("tuple", [("id", n) for n, _, _ in out]), init[1]))
        out = []
        while True:
            name = self.ident()
            d = self.dims()
            init = None
            if self.peek()[1] in ("<==", "<--", "="):
                op = self.next()[1]
                init = (op, self.expr())
            out.append((name, d, init))
            if not self.accept(","):
                break
        self.expect(";")
        return ("signal", kind, out)

    def decl_var(self, what):
        self.next()
        out = []
        while True:
            name = self.ident()
            d = self.dims()
            init = None
            if self.accept("="):
                init = self.expr()
            out.append((name, d, init))
            if not self.accept(","):
                break
        return (what, out)

    def simple(self):
        if self.peek()[1] in ("++", "--") and self.peek()[0] == "op":
            op = self.next()[1]
            e = self.expr()
            return ("assign", "+=" if op == "++" else "-=", e, ("num", 1))
        e = self.expr()
        v = self.peek()[1]
        if v in ASSIGN:
            self.next()
            return ("assign", v, e, self.expr())
        if v in ("==>", "-->"):
            self.next()
            rhs = self.expr()
            return ("assign", "<==" if v == "==>" else "<--", rhs, e)
        if v == "===":
            self.next()
            return ("constraint", e, self.expr())
        if v in ("++", "--"):
            self.next()
            return ("assign", "+=" if v == "++" else "-=", e, ("num", 1))
        return ("expr", e)

    def expr(self):
        c = self.binary(1)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            b = self.expr()
            return ("cond", c, a, b)
        return c

    def binary(self, prec):
        a = self.unary()
        while True:
            k, v = self.peek()
            p = BINPREC.get(v) if k == "op" else None
            if p is None or p < prec:
                return a
            self.next()
            b = self.binary(p + 1)
            a = ("bin", v, a, b)

    def unary(self):
        k, v = self.peek()
        if k == "op" and v in ("-", "!", "~"):
            self.next()
            return ("un", v, self.unary())
        return self.postfix()

    def args(self, end):
        a = []
        while not self.accept(end):
            if self.peek()[0] == "id" and self.peek(1)[1] in ("<==", "<--"):
                n = self.ident()
                self.next()
                a.append(("named", n, self.expr()))
            else:
                a.append(self.expr())
            if not self.at(end):
                self.expect(",")
        return a

    def postfix(self):
        k, v = self.next()
        if k == "num":
            e = ("num", int(v, 0))
        elif k == "ph":
            e = ("ph", int(v[1:-1]))
        elif v == "(":
            e = self.expr()
            if self.at(","):
                items = [e]
                while self.accept(","):
                    items.append(self.expr())
                e = ("tuple", items)
            self.expect(")")
        elif v == "[":
            e = ("array", self.args("]"))
        elif k == "id":
            if v == "parallel":
                return self.postfix()
            e = ("id", v)
            if self.accept("("):
                a = self.args(")")
                if self.accept("("):
                    e = ("anon", v, a, self.args(")"))
                else:
                    e = ("call", v, a)
        else:
            raise IllFormed(f"unexpected {v!r} in an expression (token {self.i})")
        while True:
            if self.accept("["):
                i = self.expr()
                self.expect("]")
                e = ("index", e, i)
            elif self.at("."):
                self.next()
                e = ("member", e, self.ident())
            else:
                return e


# ---------------------------------------------------------------- runtime objects
class Arr:
    """A (possibly multi-dimensional) array, row-major."""

    __slots__ = ("dims", "cells", "kind", "name")

    def __init__(self, dims, kind, name):
        n = 1
        for d in dims:
            if d < 0:
                raise IllFormed(f"negative array size for {name}")
            n *= d
        self.dims, self.kind, self.name = tuple(dims), kind, name
        self.cells = [None] * n

    def flat(self, idx):
        if len(idx) != len(self.dims):
            raise IllFormed(f"{self.name}: {len(idx)} indices for {len(self.dims)} dimensions")
        o = 0
        for i, d in zip(idx, self.dims):
            if not 0 <= i < d:
                raise IllFormed(f"{self.name}: index {i} outside 0..{d}")
            o = o * d + i
        return o


class V:
    """A value with its algebraic degree: 0 constant, 1 linear in signals, 2 quadratic, 3 beyond."""

    __slots__ = ("v", "deg")

    def __init__(self, v, deg):
        self.v, self.deg = v, deg


class Comp:
    __slots__ = ("el", "tname", "args", "inputs", "outputs", "missing", "done", "native", "path")

    def __init__(self, el, tname, args, path):
        self.el, self.tname, self.args, self.path = el, tname, args, path
        self.inputs, self.outputs, self.done = {}, {}, False
        sig = el.signature(tname, args)
        self.native = sig[0]
        self.missing = 0
        for n, d in sig[1]:
            a = Arr(d, "sig", f"{path}.{n}")
            self.inputs[n] = a
            self.missing += len(a.cells)
        if self.missing == 0:
            self.run()

    def set_input(self, name, idx, val):
        a = self.inputs.get(name)
        if a is None:
            raise IllFormed(f"{self.path} ({self.tname}) has no input {name}")
        o = a.flat(idx)
        if a.cells[o] is not None:
            raise IllFormed(f"{a.name}{list(idx)} assigned twice")
        a.cells[o] = val
        self.missing -= 1
        if self.missing == 0:
            self.run()

    def run(self):
        self.done = True
        if self.native:
            self.outputs = self.el.run_native(self.tname, self.args, self.inputs)
        else:
            self.outputs = self.el.run_template(self.tname, self.args, self.inputs, self.path)

    def get(self, name):
        if name in self.inputs:
            return self.inputs[name]
        if not self.done:
            raise IllFormed(f"{self.path}.{name} read before all inputs of {self.tname} are assigned")
        if name not in self.outputs:
            raise IllFormed(f"{self.path} ({self.tname}) has no output {name}")
        return self.outputs[name]


class Ret(Exception):
    def __init__(self, v):
        self.v = v


# Input names, in declaration order, of the circomlib templates we model.
NATIVE = {
    "IsZero": ([], [("in", 0)]), "IsEqual": ([], [("in", [2])]), "ForceEqualIfEnabled": ([], [("enabled", 0), ("in", [2])]),
    "LessThan": (["n"], [("in", [2])]), "LessEqThan": (["n"], [("in", [2])]),
    "GreaterThan": (["n"], [("in", [2])]), "GreaterEqThan": (["n"], [("in", [2])]),
    "AND": ([], [("a", 0), ("b", 0)]), "OR": ([], [("a", 0), ("b", 0)]), "XOR": ([], [("a", 0), ("b", 0)]),
    "NAND": ([], [("a", 0), ("b", 0)]), "NOR": ([], [("a", 0), ("b", 0)]), "NOT": ([], [("in", 0)]),
    "MultiAND": (["n"], [("in", ["n"])]), "Num2Bits": (["n"], [("in", 0)]), "Bits2Num": (["n"], [("in", ["n"])]),
}


class Elaborator:
    def __init__(self, dom, templates, functions, budget=40_000_000):
        self.dom, self.templates, self.functions = dom, templates, functions
        self.sig_cache, self.steps, self.budget = {}, 0, budget
        self.n_constraints = 0
        self.used = {}
        self.summaries = {}  # template name -> function standing for it, established separately

    # -- signatures: run only the input declarations of a template
    def signature(self, name, args):
        key = (name, tuple(args))
        s = self.sig_cache.get(key)
        if s is None:
            if name in self.templates:
                params, body = self.templates[name]
                if len(params) != len(args):
                    raise IllFormed(f"{name} takes {len(params)} parameters, given {len(args)}")
                env = dict(zip(params, (V(self.dom.const(a), 0) for a in args)))
                ins = []
                for st in body:
                    if st[0] == "var":
                        for n, d, init in st[1]:
                            if not d and init is not None:
                                try:
                                    env[n] = self.eval(init, env)
                                except Exception:
                                    pass
                    if st[0] == "signal" and st[1] == "input":
                        for n, d, _ in st[2]:
                            ins.append((n, [self.cint(x, env) for x in d]))
                s = (False, ins)
            elif name in NATIVE:
                params, ins = NATIVE[name]
                if len(params) != len(args):
                    raise IllFormed(f"{name} takes {len(params)} parameters, given {len(args)}")
                env = dict(zip(params, args))
                s = (True, [(n, [] if d == 0 else [env.get(x, x) for x in d]) for n, d in ins])
            else:
                raise IllFormed(f"template {name} is not defined")
            self.sig_cache[key] = s
        return s

    # -- native circomlib models, over the domain's arithmetic
    def run_native(self, name, args, inputs):
        D = self.dom
        g = {n: [c.v for c in a.cells] for n, a in inputs.items()}
        out = None
        if name == "IsZero":
            out = D.is_zero(g["in"][0])
        elif name == "IsEqual":
            out = D.is_zero(D.sub(g["in"][1], g["in"][0]))
        elif name in ("LessThan", "LessEqThan", "GreaterThan", "GreaterEqThan"):
            n = args[0]
            if not 0 <= n <= 252:
                raise IllFormed("comparator width above 252")
            a, b = g["in"]
            if name == "LessEqThan":
                b = D.add(b, D.const(1))
            elif name == "GreaterThan":
                a, b = b, a
            elif name == "GreaterEqThan":
                a, b = b, D.add(a, D.const(1))
            out = D.lt_gadget(n, D.add(D.sub(a, b), D.const(1 << n)))
        elif name == "AND":
            out = D.mul(g["a"][0], g["b"][0])
        elif name == "OR":
            a, b = g["a"][0], g["b"][0]
            out = D.sub(D.add(a, b), D.mul(a, b)) if not D.bools(a, b) else D.bor(a, b)
        elif name == "XOR":
            a, b = g["a"][0], g["b"][0]
            out = D.sub(D.add(a, b), D.mul(D.const(2), D.mul(a, b)))
        elif name == "NAND":
            out = D.sub(D.const(1), D.mul(g["a"][0], g["b"][0]))
        elif name == "NOR":
            a, b = g["a"][0], g["b"][0]
            out = D.sub(D.add(D.mul(a, b), D.const(1)), D.add(a, b))
        elif name == "NOT":
            out = D.sub(D.const(1), g["in"][0])
        elif name == "MultiAND":
            if not g["in"]:
                raise IllFormed("MultiAND(0)")
            out = g["in"][0]
            for x in g["in"][1:]:
                out = D.mul(out, x)
        elif name == "Num2Bits":
            bits = D.bits_gadget(args[0], g["in"][0])
            a = Arr([args[0]], "sig", "out")
            a.cells = [V(b, 1) for b in bits]
            return {"out": a}
        elif name == "Bits2Num":
            out = D.const(0)
            for i, b in enumerate(g["in"]):
                out = D.add(out, D.mul(D.const(1 << i), b))
        elif name == "ForceEqualIfEnabled":
            a, b = g["in"]
            D.constrain(D.mul(D.sub(a, b), g["enabled"][0]), D.const(0))
            return {}
        else:
            raise Unsupported(f"no model for {name}")
        a = Arr([], "sig", "out")
        a.cells = [V(out, 1)]
        return {"out": a}

    # -- running a template
    def run_template(self, name, args, inputs, path):
        params, body = self.templates[name]
        if name in self.summaries:
            return self.summaries[name](args, inputs)
        self.used[name] = self.used.get(name, 0) + 1
        env = dict(zip(params, (V(self.dom.const(a), 0) for a in args)))
        fr = Frame(path, inputs)
        self.exec_block(body, env, fr)
        out = {}
        for n in fr.outputs:
            a = env[n]
            if any(c is None for c in a.cells):
                raise IllFormed(f"output {path}.{n} is not fully assigned")
            out[n] = a
        for cname, c in fr.comps:
            for cc in (c.cells if isinstance(c, Arr) else [c]):
                if isinstance(cc, Comp) and not cc.done:
                    raise IllFormed(f"component {path}.{cname} ({cc.tname}) never gets all its inputs")
        return out

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("elaboration budget exhausted")

    def scoped(self, body, env, fr):
        """A block: variables it declares hide those of the same name outside."""
        kept = shadowed(body, env)
        for s in body:
            self.exec(s, env, fr)
        if kept:
            env.update(kept)

    def exec_block(self, body, env, fr):
        for s in body:
            self.exec(s, env, fr)

    def exec(self, s, env, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("elaboration budget exhausted")
        k = s[0]
        if k == "assign":
            self.assign(s[1], s[2], s[3], env, fr)
        elif k == "for":
            kept = shadowed([s[1]], env)
            self.exec(s[1], env, fr)
            while self.truth(s[2], env, fr):
                self.scoped(s[4], env, fr)
                self.exec(s[3], env, fr)
            env.update(kept)
        elif k == "signal":
            for n, d, init in s[2]:
                if n in env:
                    if s[1] != "input" or n not in fr.inputs:
                        # circom rejects a second declaration in one scope
                        raise IllFormed(f"{fr.path}.{n} declared twice")
                dims = [self.cint(x, env, fr) for x in d]
                if s[1] == "input":
                    if n not in fr.inputs:
                        raise IllFormed(f"input {n} of {fr.path} declared conditionally")
                    env[n] = fr.inputs[n]
                else:
                    a = Arr(dims, "sig", f"{fr.path}.{n}")
                    env[n] = a
                    if s[1] == "output":
                        fr.outputs.append(n)
                    if init is not None:
                        if dims:
                            val = self.eval_any(init[1], env, fr)
                            self.assign_array(init[0], a, [], val, fr)
                        else:
                            self.assign(init[0], ("id", n), init[1], env, fr)
        elif k == "var":
            for n, d, init in s[1]:
                if d:
                    a = Arr([self.cint(x, env, fr) for x in d], "var", n)
                    a.cells = [V(self.dom.const(0), 0)] * len(a.cells)
                    env[n] = a
                    if init is not None:
                        a.cells = [c for c in flatten(self.eval_any(init, env, fr))]
                elif init is not None:
                    env[n] = self.eval_any(init, env, fr)
                else:
                    env[n] = V(self.dom.const(0), 0)
        elif k == "component":
            for n, d, init in s[1]:
                if d:
                    env[n] = Arr([self.cint(x, env, fr) for x in d], "comp", f"{fr.path}.{n}")
                else:
                    env[n] = Arr([], "comp", f"{fr.path}.{n}")
                fr.comps.append((n, env[n]))
                if init is not None:
                    if d:
                        raise IllFormed("component array with initialiser")
                    self.assign("=", ("id", n), init, env, fr)
        elif k == "constraint":
            a, b = self.eval_any(s[1], env, fr), self.eval_any(s[2], env, fr)
            fa, fb = flatten(a), flatten(b)
            if len(fa) != len(fb):
                raise IllFormed("=== between different shapes")
            for x, y in zip(fa, fb):
                if max(x.deg, y.deg) > 2 or (x.deg == 2 and y.deg == 2):
                    raise IllFormed(f"non-quadratic constraint in {fr.path}")
                self.n_constraints += 1
                self.dom.constrain(x.v, y.v)
        elif k == "if":
            if self.truth(s[1], env, fr):
                self.scoped(s[2], env, fr)
            else:
                self.scoped(s[3], env, fr)
        elif k == "block":
            self.scoped(s[1], env, fr)
        elif k == "both":
            self.exec(s[1], env, fr)
            self.exec(s[2], env, fr)
        elif k == "while":
            while self.truth(s[1], env, fr):
                self.scoped(s[2], env, fr)
        elif k == "return":
            raise Ret(self.eval_any(s[1], env, fr))
        elif k == "assert":
            for e in s[1]:
                v = self.eval(e, env, fr)
                if v.deg == 0 and self.dom.as_int(v.v) == 0:
                    raise IllFormed(f"assert failed in {fr.path}")
        elif k == "log":
            pass
        elif k == "expr":
            e = s[1]
            if e[0] == "anon":
                self.anon(e, env, fr)
            else:
                self.eval_any(e, env, fr)
        else:
            raise Unsupported(k)

    # -- assignment
    def lvalue(self, e, env, fr):
        idx = []
        member = None
        midx = []
        while True:
            if e[0] == "index":
                idx.append(self.cint(e[2], env, fr))
                e = e[1]
            elif e[0] == "member":
                if member is not None:
                    raise IllFormed("nested member access")
                member, midx, idx = e[2], idx[::-1], []
                e = e[1]
            elif e[0] == "id":
                return e[1], idx[::-1], member, midx
            else:
                raise IllFormed(f"cannot assign to {e[0]}")

    def assign(self, op, lhs, rhs, env, fr):
        if lhs[0] == "tuple":
            if rhs[0] == "tuple":
                if len(rhs[1]) != len(lhs[1]):
                    raise IllFormed("tuple arity")
                for l, x in zip(lhs[1], rhs[1]):
                    self.assign(op, l, x, env, fr)
                return
            if rhs[0] != "anon":
                raise Unsupported("tuple assignment")
            outs = self.anon(rhs, env, fr, multi=True)
            if len(outs) != len(lhs[1]):
                raise IllFormed("tuple arity")
            for l, o in zip(lhs[1], outs):
                if l != ("id", "_"):
                    name, idx, member, midx = self.lvalue(l, env, fr)
                    self.assign_array(op, env[name], idx, o, fr)
            return
        name, idx, member, midx = self.lvalue(lhs, env, fr)
        if name == "_":
            self.eval_any(rhs, env, fr)
            return
        tgt = env.get(name)
        if tgt is None:
            raise IllFormed(f"{fr.path}.{name} is not declared")
        if member is not None:
            if not (isinstance(tgt, Arr) and tgt.kind == "comp"):
                raise IllFormed(f"{name} is not a component")
            c = tgt.cells[tgt.flat(idx)]
            if c is None:
                raise IllFormed(f"component {fr.path}.{name}{idx} used before it is created")
            if op not in ("<==", "<--"):
                raise IllFormed(f"{op} on a component input")
            val = self.eval_any(rhs, env, fr)
            a = c.inputs.get(member)
            if a is None:
                raise IllFormed(f"{name}.{member} is not an input")
            if isinstance(val, Arr) or len(midx) < len(a.dims):
                cells = flatten(val)
                base = len(midx)
                rest = a.dims[base:]
                n = 1
                for d in rest:
                    n *= d
                if len(cells) != n:
                    raise IllFormed(f"{name}.{member}: shape mismatch")
                for i, v in enumerate(cells):
                    ii = []
                    r = i
                    for d in reversed(rest):
                        ii.append(r % d)
                        r //= d
                    c.set_input(member, list(midx) + ii[::-1], self.fresh_if(op, v, fr))
            else:
                c.set_input(member, midx, self.fresh_if(op, val, fr))
            return
        if isinstance(tgt, Arr) and tgt.kind == "comp":
            if op != "=":
                raise IllFormed(f"{op} on component {name}")
            o = tgt.flat(idx)
            if rhs[0] != "call":
                raise IllFormed("component must be initialised with a template call")
            if tgt.cells[o] is not None:
                raise IllFormed(f"component {name}{idx} created twice")
            args = [self.carg(a, env, fr) for a in rhs[2]]
            tgt.cells[o] = Comp(self, rhs[1], args, f"{fr.path}.{name}{idx or ''}")
            return
        if isinstance(tgt, Arr) and tgt.kind == "sig":
            if op not in ("<==", "<--"):
                raise IllFormed(f"{op} on signal {name}")
            if name in fr.inputs:
                raise IllFormed(f"assignment to input signal {name}")
            val = self.eval_any(rhs, env, fr)
            if len(idx) < len(tgt.dims):
                self.assign_array(op, tgt, idx, val, fr)
                return
            o = tgt.flat(idx)
            if tgt.cells[o] is not None:
                raise IllFormed(f"{tgt.name}{idx} assigned twice")
            v = flatten(val)
            if len(v) != 1:
                raise IllFormed("array assigned to a scalar signal")
            tgt.cells[o] = self.fresh_if(op, v[0], fr)
            return
        # var
        if op in ("<==", "<--"):
            raise IllFormed(f"{op} on var {name}")
        if op == "=":
            val = self.eval_any(rhs, env, fr)
        else:
            cur = self.eval(lhs, env, fr)
            val = self.binop(op[:-1], cur, self.eval(rhs, env, fr), fr)
        if isinstance(tgt, Arr) and idx:
            if isinstance(val, Arr):
                cells = flatten(val)
                base = tgt.flat(list(idx) + [0] * (len(tgt.dims) - len(idx)))
                if tuple(val.dims) != tuple(tgt.dims[len(idx):]):
                    raise IllFormed(f"{name}: shape mismatch")
                tgt.cells[base:base + len(cells)] = cells
            else:
                tgt.cells[tgt.flat(idx)] = val
        elif isinstance(tgt, Arr) and isinstance(val, Arr):
            b = Arr(val.dims, "var", name)
            b.cells = list(val.cells)
            env[name] = b
        else:
            env[name] = val

    def assign_array(self, op, tgt, idx, val, fr):
        cells = flatten(val)
        rest = tgt.dims[len(idx):]
        n = 1
        for d in rest:
            n *= d
        if n != len(cells):
            raise IllFormed(f"{tgt.name}: shape mismatch")
        base = 0
        for i, d in zip(idx, tgt.dims):
            if not 0 <= i < d:
                raise IllFormed(f"{tgt.name}: index out of range")
            base = base * d + i
        base *= n
        for i, v in enumerate(cells):
            if tgt.cells[base + i] is not None:
                raise IllFormed(f"{tgt.name} assigned twice")
            tgt.cells[base + i] = self.fresh_if(op, v, fr)

    def fresh_if(self, op, v, fr):
        """The value a signal holds: under <== the expression's; under <-- whatever a prover likes."""
        if op == "<==":
            if v.deg > 2:
                raise IllFormed(f"non-quadratic constraint in {fr.path}")
            self.n_constraints += 1
            return V(v.v, 1)
        return V(self.dom.hint(v.v), 1)

    # -- expressions
    def truth(self, e, env, fr):
        v = self.eval(e, env, fr)
        if v.deg:
            raise IllFormed("control flow depends on a signal")
        return self.dom.as_int(v.v) != 0

    def cint(self, e, env, fr=None):
        k = e[0]
        if k == "num":
            return e[1]
        v = self.eval(e, env, fr)
        if not isinstance(v, V) or v.deg:
            raise IllFormed("a size, index or parameter depends on a signal")
        i = self.dom.as_int(v.v)
        return i

    def carg(self, e, env, fr):
        return self.cint(e, env, fr)

    def eval(self, e, env, fr=None):
        v = self.eval_any(e, env, fr)
        if isinstance(v, Arr):
            if v.dims == ():
                c = v.cells[0]
                if c is None:
                    raise IllFormed(f"{v.name} read before it is assigned")
                return c
            raise IllFormed(f"array {v.name} where a value is expected")
        return v

    def eval_any(self, e, env, fr=None):
        k = e[0]
        if k == "num":
            return V(self.dom.const(e[1]), 0)
        if k == "id":
            x = env.get(e[1])
            if x is None:
                raise IllFormed(f"{e[1]} is not declared")
            if isinstance(x, Arr) and x.dims == () and x.kind != "comp":
                c = x.cells[0]
                if c is None:
                    raise IllFormed(f"{x.name} read before it is assigned")
                return c
            return x
        if k == "bin":
            op = e[1]
            return self.binop(op, self.eval(e[2], env, fr), self.eval(e[3], env, fr), fr)
        if k in ("index", "member"):
            return self.access(e, env, fr)
        if k == "un":
            v = self.eval(e[2], env, fr)
            if e[1] == "-":
                return V(self.dom.sub(self.dom.const(0), v.v), v.deg)
            if v.deg:
                raise IllFormed(f"{e[1]} on a signal")
            i = self.dom.as_int(v.v)
            if e[1] == "!":
                return V(self.dom.const(0 if i else 1), 0)
            return V(self.dom.const(((i % P) ^ ((1 << 254) - 1)) % P), 0)
        if k == "ph":
            return V(self.dom.placeholder(e[1]), 0)
        if k == "anon":
            r = self.anon(e, env, fr)
            if isinstance(r, Arr) and r.dims == ():
                return r.cells[0]
            return r
        if k == "array":
            items = [self.eval_any(x, env, fr) for x in e[1]]
            if items and isinstance(items[0], Arr):
                a = Arr([len(items)] + list(items[0].dims), "var", "array")
                a.cells = [c for it in items for c in flatten(it)]
            else:
                a = Arr([len(items)], "var", "array")
                a.cells = items
            return a
        if k == "cond":
            c = self.eval(e[1], env, fr)
            if c.deg:  # only legal on the right of <--: a prover's hint
                b = self.dom.branch(c.v)
                if b is None:
                    return V(self.dom.opaque("?", c.v, c.v), 3)
                return V(self.eval(e[2] if b else e[3], env, fr).v, 3)
            return self.eval_any(e[2] if self.dom.as_int(c.v) else e[3], env, fr)
        if k == "call":
            if e[1] in self.functions:
                params, body = self.functions[e[1]]
                fenv = dict(zip(params, [self.eval_any(a, env, fr) for a in e[2]]))
                try:
                    self.exec_block(body, fenv, Frame(e[1], {}))
                except Ret as r:
                    return r.v
                raise IllFormed(f"function {e[1]} returns nothing")
            raise IllFormed(f"call of {e[1]} is not an expression")
        raise Unsupported(f"expression {k}")

    def access(self, e, env, fr):
        name, idx, member, midx = self.lvalue(e, env, fr)
        x = env.get(name)
        if x is None:
            raise IllFormed(f"{name} is not declared")
        if not isinstance(x, Arr):
            raise IllFormed(f"{name} is not an array")
        if member is not None:
            if x.kind != "comp":
                raise IllFormed(f"{name} is not a component")
            c = x.cells[x.flat(idx)]
            if c is None:
                raise IllFormed(f"component {x.name}{idx} read before it is created")
            x, idx = c.get(member), midx
        if len(idx) == len(x.dims):
            c = x.cells[x.flat(idx)]
            if c is None:
                raise IllFormed(f"{x.name}{list(idx)} read before it is assigned")
            return c
        if x.kind == "comp":
            raise IllFormed("component array used as a value")
        rest = x.dims[len(idx):]
        n = 1
        for d in rest:
            n *= d
        base = 0
        for i, d in zip(idx, x.dims):
            if not 0 <= i < d:
                raise IllFormed(f"{x.name}: index {i} outside 0..{d}")
            base = base * d + i
        a = Arr(rest, "var", x.name)
        a.cells = x.cells[base * n:(base + 1) * n]
        if any(c is None for c in a.cells):
            raise IllFormed(f"{x.name}{list(idx)} read before it is assigned")
        return a

    def anon(self, e, env, fr, multi=False):
        _, tname, args, ins = e
        args = [self.carg(a, env, fr) for a in args]
        c = Comp(self, tname, args, f"{fr.path}.{tname}()")
        names = list(c.inputs)
        if len(ins) != len(names):
            raise IllFormed(f"{tname}: {len(ins)} inputs given, {len(names)} expected")
        for n, x in zip(names, ins):
            if x[0] == "named":
                n, x = x[1], x[2]
                if n not in c.inputs:
                    raise IllFormed(f"{tname} has no input {n}")
            v = self.eval_any(x, env, fr)
            a = c.inputs[n]
            cells = flatten(v)
            if len(cells) != len(a.cells) or (isinstance(v, Arr) and tuple(v.dims) != tuple(a.dims)) or (
                not isinstance(v, Arr) and a.dims != ()
            ):
                raise IllFormed(f"{tname}: input {n} has the wrong shape ({len(cells)} for {len(a.cells)})")
            for i, cell in enumerate(cells):
                if cell.deg > 2:
                    raise IllFormed(f"non-quadratic input to {tname} in {fr.path}")
                self.n_constraints += 1
                if a.cells[i] is not None:
                    raise IllFormed(f"{tname}: input {n} given twice")
                a.cells[i] = V(cell.v, 1)
                c.missing -= 1
        if c.missing:
            raise IllFormed(f"{tname}: inputs missing")
        if not c.done:
            c.run()
        outs = list(c.outputs.values())
        if multi:
            return outs
        if len(outs) != 1:
            if not outs:
                return None
            raise IllFormed(f"{tname} has {len(outs)} outputs where one is expected")
        return outs[0]

    def binop(self, op, a, b, fr):
        D = self.dom
        if op == "+" or op == "-":
            d = a.deg if a.deg > b.deg else b.deg
            if a.deg == 2 and b.deg == 2:
                d = 3
            return V(D.add(a.v, b.v) if op == "+" else D.sub(a.v, b.v), d)
        if op == "*":
            d = a.deg + b.deg
            return V(D.mul(a.v, b.v), d if d < 3 else 3)
        if a.deg or b.deg:
            if op in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "/", "\\", "%", "&", "|", "^", "<<", ">>", "**"):
                # legal only on the right of <--, where the value is a prover's hint anyway
                return V(D.opaque(op, a.v, b.v), 3)
        x, y = D.as_int(a.v), D.as_int(b.v)
        if op == "\\":
            r = x // y
        elif op == "%":
            r = x % y
        elif op == "**":
            r = pow(x, y, P)
        elif op == "/":
            r = x * pow(y, -1, P) % P
        elif op == "<<":
            r = x << y
        elif op == ">>":
            r = x >> y
        elif op == "&":
            r = x & y
        elif op == "|":
            r = x | y
        elif op == "^":
            r = x ^ y
        else:
            r = {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y,
                 "&&": bool(x) and bool(y), "||": bool(x) or bool(y)}[op]
            r = int(r)
        return V(D.const(r), 0)


class Frame:
    __slots__ = ("path", "inputs", "outputs", "comps")

    def __init__(self, path, inputs):
        self.path, self.inputs, self.outputs, self.comps = path, inputs, [], []


def shadowed(body, env):
    return {n: env[n] for s in body if s[0] == "var" for n, _, _ in s[1] if n in env}


def flatten(v):
    if isinstance(v, Arr):
        for c in v.cells:
            if c is None:
                raise IllFormed(f"{v.name} read before it is assigned")
        return v.cells
    if isinstance(v, V):
        return [v]
    raise IllFormed("not a value")


# ---------------------------------------------------------------- the concrete field domain
class Rejected(Exception):
    """A constraint does not hold: the prover has no witness for this input."""


class FieldDomain:
    """Honest execution over the scalar field; constraints are checked, hints are computed."""

    def __init__(self, hints=None):
        self.failed = []
        self.nhint = 0
        self.hints = hints or {}

    def const(self, i):
        return i % P

    def as_int(self, v):
        return v if v < P // 2 else v - P

    def add(self, a, b):
        return (a + b) % P

    def sub(self, a, b):
        return (a - b) % P

    def mul(self, a, b):
        return a * b % P

    def bools(self, a, b):
        return False

    def is_zero(self, a):
        return 1 if a == 0 else 0

    def lt_gadget(self, n, v):
        b = self.bits_gadget(n + 1, v)
        return (1 - b[n]) % P

    def bits_gadget(self, n, v):
        if v >= 1 << n:
            self.failed.append(f"Num2Bits({n}) of {v}")
        return [(v >> i) & 1 for i in range(n)]

    def constrain(self, a, b):
        if (a - b) % P:
            self.failed.append(f"{a} === {b}")

    def hint(self, v):
        i = self.nhint
        self.nhint += 1
        return self.hints.get(i, v) % P

    def opaque(self, op, a, b):
        x, y = self.as_int(a), self.as_int(b)
        if op == "/":
            return x * pow(y, -1, P) % P if y % P else 0
        if op == "\\":
            return x // y
        if op == "%":
            return x % y
        if op == "**":
            return pow(x, y, P)
        if op in ("&", "|", "^", "<<", ">>"):
            return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << y if y < 300 else 0, ">>": a >> y if y < 300 else 0}[op] % P
        return int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": a == b, "!=": a != b,
                    "&&": bool(a) and bool(b), "||": bool(a) or bool(b)}[op])

    def branch(self, v):
        return v != 0

    def placeholder(self, k):
        raise Unsupported("symbolic placeholder in concrete replay")


def parse(text):
    return Parser(text).program()
