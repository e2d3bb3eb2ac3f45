"""What the demonstrations share: compile with the packages build.sh made, evaluate a circuit on a message."""
import json, os, subprocess, sys, tempfile, atexit, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import circom
from circom import V, Arr, P
REPO = os.getcwd()
CIRC = os.path.join(REPO, "packages/circom/circuits")
_tmp = tempfile.mkdtemp(prefix="demo")
atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))


def node(body, arg):
    p = subprocess.run(["node", "-e", "const A=JSON.parse(process.argv[1]);console.log=()=>{};" + body, json.dumps(arg)], capture_output=True, text=True, cwd=REPO)
    if p.returncode:
        raise SystemExit("node failed: " + p.stderr[-1500:])
    return json.loads(p.stdout)


def compile(parts, name="T"):
    """Circuit text for [(public, regex)]."""
    cfg = json.dumps({"parts": [{"is_public": bool(p), "regex_def": r} for p, r in parts]})
    r = node("const c=require('./packages/compiler/pkg/zk_regex_compiler.js');let o;try{o={ok:c.genFromDecomposed(A[0],A[1])}}catch(e){o={err:String(e)}};process.stdout.write(JSON.stringify(o))", [cfg, name])
    return r.get("ok") if "ok" in r else r


def compile_raw(regex, transitions, name="T"):
    r = node("const c=require('./packages/compiler/pkg/zk_regex_compiler.js');let o;try{o={ok:c.genFromRaw(A[0],A[1],A[2])}}catch(e){o={err:String(e)}};process.stdout.write(JSON.stringify(o))",
             [regex, json.dumps({"transitions": transitions}), name])
    return r.get("ok") if "ok" in r else r


def api(fn, *args):
    """A function of the extraction package; what it returns, or {"err": ...}."""
    return node("const c=require('./packages/apis/pkg/zk_regex_apis.js');let o;try{o=c[A[0]](...A[1])}catch(e){o={err:String(e)}};process.stdout.write(JSON.stringify(o))", [fn, list(args)])


def config(parts):
    return json.dumps({"parts": [{"is_public": bool(p), "regex_def": r} for p, r in parts]})


def cli(*args):
    """The command line tool, built from the tree."""
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.99.1-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(_tmp, "target"),
               PATH="/root/.cargo/bin:" + os.environ["PATH"])
    p = subprocess.run(["cargo", "run", "-q", "--offline", "--release", "-p", "zk-regex-compiler", "--bin", "zk-regex", "--", *args], capture_output=True, text=True, cwd=REPO, env=env)
    return p


def scratch():
    return tempfile.mkdtemp(dir=_tmp)


def templates(text=None, path=None):
    T, F, seen = {}, {}, set()

    def go(src, base):
        t, f, incs = circom.parse(src)[:3]
        T.update(t)
        F.update(f)
        for i in incs:
            if "circomlib/" in i:
                continue
            pre = "@zk-email/zk-regex-circom/circuits/"
            q = os.path.join(CIRC, i[len(pre):]) if i.startswith(pre) else os.path.normpath(os.path.join(base, i))
            if q not in seen:
                seen.add(q)
                go(open(q).read(), os.path.dirname(q))
    if path:
        text = open(path).read()
    go(text, os.path.dirname(path) if path else CIRC + "/common")
    return T, F


def run(TF, name, msg, n=None, hints=None):
    """(failed constraints, out, {k: reveal bytes}) on a message padded with zeros to n."""
    T, F = TF
    m = list(msg.encode() if isinstance(msg, str) else msg)
    m += [0] * ((n or len(m)) - len(m))
    D = circom.FieldDomain(hints)
    a = Arr([len(m)], "sig", "msg")
    a.cells = [V(v % P, 1) for v in m]
    o = circom.Elaborator(D, T, F).run_template(name, [len(m)], {"msg": a}, "main")
    rev = {int(k[6:]): [c.v for c in x.cells] for k, x in o.items() if k.startswith("reveal") and k[6:].isdigit()}
    return D.failed, o["out"].cells[0].v, rev


def shown(rev):
    """Revealed bytes as text, '.' where nothing is revealed."""
    return "".join(chr(b) if b else "." for b in rev)


def check(parts, msg, out, *reveals, n=None):
    """The circuit for the parts answers `out` and reveals the given strings ('.' for nothing)."""
    failed, o, rev = run(templates(compile(parts)), "T", msg, n)
    got = [shown(rev[k])[:len(msg)] for k in sorted(rev)]
    ok = not failed and o == out and (not reveals or got == list(reveals))
    print(parts, repr(msg), "->", o, got, "failed constraints" if failed else "", "" if ok else f"  EXPECTED {out} {list(reveals)}")
    return ok


def done(*oks):
    sys.exit(0 if all(oks) else 1)
