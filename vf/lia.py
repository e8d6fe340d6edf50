#!/usr/bin/env python3-vt
"""Integer-arithmetic back end: the verification conditions CBMC generates from the real code (its SMT-LIB output) are
translated, exactly, from bit-vectors to mathematical integers (interval analysis decides where wrap-around must be kept)
and given to z3's linear integer arithmetic, one obligation at a time. usage: lia.py BINARY TIMEOUT cbmc-args..."""
import sys, os, json, subprocess, tempfile, time, shutil, signal
from concurrent.futures import ThreadPoolExecutor
import multiprocessing as mp


class Unsupported(Exception):
    pass


def translate(path):
    import z3
    Z = z3
    asserts = list(Z.parse_smt2_file(path))
    flat = []

    def conj(a):
        if Z.is_and(a):
            for c in a.children():
                conj(c)
        elif Z.is_not(a) and Z.is_or(a.arg(0)):
            for c in a.arg(0).children():
                conj(Z.Not(c) if not Z.is_not(c) else c.arg(0))
        elif Z.is_not(a) and Z.is_not(a.arg(0)):
            conj(a.arg(0).arg(0))
        else:
            flat.append(a)
    for a in asserts:
        conj(a)
    isvar = lambda x: Z.is_const(x) and x.decl().kind() == Z.Z3_OP_UNINTERPRETED
    alias, rest = {}, []

    def root(x):
        n = x.decl().name()
        while n in alias:
            x = alias[n]
            if not isvar(x):
                break
            n = x.decl().name()
        return x
    for a in flat:
        if Z.is_eq(a) and Z.is_bv(a.arg(0)) and isvar(a.arg(0)) and isvar(a.arg(1)):
            l, r = root(a.arg(0)), root(a.arg(1))
            if l.decl().name() != r.decl().name():
                alias[l.decl().name()] = r
        else:
            rest.append(a)
    bnd = {}      # root name -> [lo, hi] signed
    sval = lambda c, w: c.as_signed_long()

    def bound(n, w, lo=None, hi=None):
        b = bnd.setdefault(n, [-(1 << (w - 1)), (1 << (w - 1)) - 1])
        if lo is not None:
            b[0] = max(b[0], lo)
        if hi is not None:
            b[1] = min(b[1], hi)
    for a in rest:
        neg = False
        while Z.is_not(a):
            a, neg = a.arg(0), not neg
        k = a.decl().kind()
        cmpk = {Z.Z3_OP_SGEQ: ">=", Z.Z3_OP_SLEQ: "<=", Z.Z3_OP_SGT: ">", Z.Z3_OP_SLT: "<"}
        ucmp = {Z.Z3_OP_UGEQ: ">=", Z.Z3_OP_ULEQ: "<=", Z.Z3_OP_UGT: ">", Z.Z3_OP_ULT: "<"}
        if k in cmpk or k in ucmp:
            op = cmpk.get(k) or ucmp.get(k)
            x, y = a.arg(0), a.arg(1)
            if neg:
                op = {">=": "<", "<=": ">", ">": "<=", "<": ">="}[op]
            if isvar(y) and Z.is_bv_value(x):
                x, y = y, x
                op = {">=": "<=", "<=": ">=", ">": "<", "<": ">"}[op]
            if isvar(x) and Z.is_bv_value(y):
                w = x.size()
                n = root(x).decl().name()
                v = y.as_signed_long()
                if k in ucmp:
                    if op in ("<=", "<") and v >= 0:      # unsigned below a positive constant: not negative either
                        bound(n, w, lo=0)
                    else:
                        continue
                if op == ">=": bound(n, w, lo=v)
                if op == ">": bound(n, w, lo=v + 1)
                if op == "<=": bound(n, w, hi=v)
                if op == "<": bound(n, w, hi=v - 1)
    out, memo, ivs, keep = [], {}, {}, []
    ints, named = {}, {}

    def var(x):
        x = root(x)
        n, w = x.decl().name(), x.size()
        if n not in ints:
            lo, hi = bnd.get(n, [-(1 << (w - 1)), (1 << (w - 1)) - 1])
            v = Z.Int("i!" + n)
            ints[n] = (v, lo, hi)
            out.append(v >= lo)
            out.append(v <= hi)
        return ints[n]

    def fit(t, lo, hi, w):
        m, M = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if m <= lo and hi <= M:
            return t, lo, hi
        return (t - m) % (1 << w) + m, m, M

    def uns(t, lo, hi, w):
        if lo >= 0:
            return t, lo, hi
        if hi < 0:
            return t + (1 << w), lo + (1 << w), hi + (1 << w)
        return Z.If(t >= 0, t, t + (1 << w)), 0, (1 << w) - 1

    def sgn(t, lo, hi, w):
        return fit(t, lo, hi, w)

    def tq(t, lo, hi, c):      # truncated quotient by a non-zero constant
        if c < 0:
            q, l, h = tq(t, lo, hi, -c)
            return -q, -h, -l
        if lo >= 0:
            return t / c, lo // c, hi // c
        if hi <= 0:
            return -((-t) / c), -((-lo) // c), -((-hi) // c)
        return Z.If(t >= 0, t / c, -((-t) / c)), -((-lo) // c), hi // c

    def fresh(r, w):      # names a big term, so that it is shared
        t, lo, hi = r
        if Z.is_int_value(t) or (Z.is_const(t)):
            return r
        if t.get_id() in named:      # equal terms share their name
            return named[t.get_id()][0]
        v = Z.Int("s!%d" % len(keep))
        keep.append(v)
        named[t.get_id()] = ((v, lo, hi), t)
        out.append(v == t)
        out.append(v >= lo)
        out.append(v <= hi)
        return v, lo, hi

    def bv(x):
        i = x.get_id()
        if i in memo:
            return memo[i][0]
        r = bv_(x)
        if r[0].num_args() > 0:
            r = fresh(r, x.size())
        memo[i] = (r, x)
        return r

    def cval(x):
        t, lo, hi = bv(x)
        return lo if lo == hi else None

    def bv_(x):
        w, k = x.size(), x.decl().kind()
        if Z.is_bv_value(x):
            v = x.as_signed_long()
            return Z.IntVal(v), v, v
        if isvar(x):
            return var(x)
        ch = x.children()
        if k == Z.Z3_OP_ITE:
            c, (a, al, ah), (b, bl, bh) = bo(ch[0]), bv(ch[1]), bv(ch[2])
            return Z.If(c, a, b), min(al, bl), max(ah, bh)
        if k in (Z.Z3_OP_BADD, Z.Z3_OP_BMUL, Z.Z3_OP_BSUB):
            t, lo, hi = bv(ch[0])
            for y in ch[1:]:
                u, l, h = bv(y)
                if k == Z.Z3_OP_BADD:
                    t, lo, hi = t + u, lo + l, hi + h
                elif k == Z.Z3_OP_BSUB:
                    t, lo, hi = t - u, lo - h, hi - l
                else:
                    if lo != hi and l != h:
                        raise Unsupported("product of two variables")
                    ps = [lo * l, lo * h, hi * l, hi * h]
                    t, lo, hi = t * u, min(ps), max(ps)
                t, lo, hi = fit(t, lo, hi, w)
            return t, lo, hi
        if k == Z.Z3_OP_BNEG:
            t, lo, hi = bv(ch[0])
            return fit(-t, -hi, -lo, w)
        if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSREM, Z.Z3_OP_BSDIV_I, Z.Z3_OP_BSREM_I):
            (t, lo, hi), c = bv(ch[0]), cval(ch[1])
            if not c:
                raise Unsupported("division by a variable")
            q, l, h = tq(t, lo, hi, c)
            if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSDIV_I):
                return fit(q, l, h, w)
            q, l, h = fresh((q, l, h), w)
            a = abs(c) - 1
            return t - c * q, (0 if lo >= 0 else max(-a, lo)), (0 if hi <= 0 else min(a, hi))
        if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUREM, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM_I):
            (t, lo, hi), c = bv(ch[0]), cval(ch[1])
            if c is None or c == 0:
                raise Unsupported("division by a variable")
            c %= 1 << w
            t, lo, hi = uns(t, lo, hi, w)
            q, l, h = t / c, lo // c, hi // c
            if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I):
                return sgn(q, l, h, w)
            q, l, h = fresh((q, l, h), w)
            return sgn(t - c * q, 0, min(c - 1, hi), w)
        if k == Z.Z3_OP_SIGN_EXT:
            return bv(ch[0])
        if k == Z.Z3_OP_ZERO_EXT:
            return uns(*bv(ch[0]), ch[0].size())
        if k == Z.Z3_OP_EXTRACT:
            hi_, lo_ = x.params()
            t, lo, hi = bv(ch[0])
            if lo_:
                t, lo, hi = t / (1 << lo_), lo >> lo_, hi >> lo_
            return fit(t, lo, hi, hi_ - lo_ + 1)
        if k == Z.Z3_OP_CONCAT:
            t, lo, hi = bv(ch[0])
            ww = ch[0].size()
            for y in ch[1:]:
                u, l, h = uns(*bv(y), y.size())
                n = 1 << y.size()
                t, lo, hi = t * n + u, lo * n + l, hi * n + h
                ww += y.size()
            return t, lo, hi
        if k == Z.Z3_OP_BAND:
            for a, b in ((ch[0], ch[1]), (ch[1], ch[0])) if len(ch) == 2 else ():
                c = cval(b)
                if c is not None:
                    c %= 1 << w
                    if c & (c + 1) == 0 and c:
                        t, lo, hi = bv(a)
                        return sgn(t % (c + 1), 0, c, w) if not (0 <= lo and hi <= c) else (t, lo, hi)
            raise Unsupported("bvand")
        if k in (Z.Z3_OP_BSHL, Z.Z3_OP_BASHR, Z.Z3_OP_BLSHR):
            c = cval(ch[1])
            if c is None or not 0 <= c < w:
                raise Unsupported("shift by a variable")
            t, lo, hi = bv(ch[0])
            if k == Z.Z3_OP_BSHL:
                return fit(t * (1 << c), lo << c, hi << c, w)
            if k == Z.Z3_OP_BLSHR:
                t, lo, hi = uns(t, lo, hi, w)
                return sgn(t / (1 << c), lo >> c, hi >> c, w)
            return t / (1 << c), lo >> c, hi >> c
        raise Unsupported("operator " + str(x.decl()))

    def bo(x):
        i = x.get_id()
        if i in memo:
            return memo[i][0]
        r = bo_(x)
        memo[i] = (r, x)
        return r

    def bo_(x):
        k, ch = x.decl().kind(), x.children()
        if Z.is_true(x) or Z.is_false(x):
            return x
        if isvar(x):
            return x
        if k in (Z.Z3_OP_AND, Z.Z3_OP_OR):
            return (Z.And if k == Z.Z3_OP_AND else Z.Or)([bo(c) for c in ch])
        if k == Z.Z3_OP_NOT:
            return Z.Not(bo(ch[0]))
        if k == Z.Z3_OP_IMPLIES:
            return Z.Implies(bo(ch[0]), bo(ch[1]))
        if k == Z.Z3_OP_XOR:
            return Z.Xor(bo(ch[0]), bo(ch[1]))
        if k == Z.Z3_OP_ITE:
            return Z.If(bo(ch[0]), bo(ch[1]), bo(ch[2]))
        if k in (Z.Z3_OP_EQ, Z.Z3_OP_DISTINCT, Z.Z3_OP_IFF):
            if Z.is_bool(ch[0]):
                e = bo(ch[0]) == bo(ch[1])
            elif Z.is_bv(ch[0]):
                e = bv(ch[0])[0] == bv(ch[1])[0]
            else:
                raise Unsupported("equality of " + str(ch[0].sort()))
            return Z.Not(e) if k == Z.Z3_OP_DISTINCT else e
        S = {Z.Z3_OP_SGEQ: lambda a, b: a >= b, Z.Z3_OP_SLEQ: lambda a, b: a <= b, Z.Z3_OP_SGT: lambda a, b: a > b, Z.Z3_OP_SLT: lambda a, b: a < b}
        U = {Z.Z3_OP_UGEQ: lambda a, b: a >= b, Z.Z3_OP_ULEQ: lambda a, b: a <= b, Z.Z3_OP_UGT: lambda a, b: a > b, Z.Z3_OP_ULT: lambda a, b: a < b}
        if k in S:
            return S[k](bv(ch[0])[0], bv(ch[1])[0])
        if k in U:
            return U[k](uns(*bv(ch[0]), ch[0].size())[0], uns(*bv(ch[1]), ch[1].size())[0])
        raise Unsupported("predicate " + str(x.decl()))

    # definitions first, in order: the defined variable takes the interval of its defining term
    fin = []
    for a in rest:
        if Z.is_eq(a) and Z.is_bv(a.arg(0)):
            l, r = a.arg(0), a.arg(1)
            if isvar(l) and root(l).decl().name() not in ints:
                n, w = root(l).decl().name(), l.size()
                t, lo, hi = bv(r)
                if n not in ints:
                    b = bnd.get(n, [lo, hi])
                    lo, hi = max(lo, b[0]), min(hi, b[1])
                    if lo > hi:
                        out.append(Z.BoolVal(False))
                    ints[n] = (t, lo, hi)
                    out.append(t >= lo)
                    out.append(t <= hi)
                    continue
        fin.append(bo(a))
    return out + fin


def solve(path, tactic, timeout, q):
    try:
        import z3
        if tactic == "bv":
            s = z3.Solver()
            s.add(list(z3.parse_smt2_file(path)))
        else:
            cs = translate(path)
            s = z3.SolverFor("QF_LIA") if tactic == "QF_LIA" else z3.Solver()
            s.add(cs)
        s.set("timeout", int(timeout * 1000))
        q.put((str(s.check()), tactic))
    except Unsupported as e:
        q.put(("unsupported", str(e)))
    except Exception as e:
        q.put(("error", repr(e)[:300]))


def one(gb, p, args, deadline, d):
    f = os.path.join(d, p.replace("/", "_") + ".smt2")
    pr = subprocess.run(["cbmc", gb, "--smt2", "--z3", "--outfile", f, "--object-bits", "10", "--slice-formula", "--property", p] + args, capture_output=True, text=True, timeout=max(1, deadline - time.time()))
    if "Passing problem to" not in pr.stdout and "Outputting formula" in pr.stdout and pr.returncode in (0, 6, 10):      # no verification condition is left after simplification
        return "SUCCESS", "simplifier"
    if not os.path.exists(f):
        return "ERROR", (pr.stdout + pr.stderr)[-300:]
    q = mp.Queue()
    ps = []
    t0 = time.time()
    for t in ("QF_LIA", "default", "bv"):
        c = mp.Process(target=solve, args=(f, t, deadline - time.time(), q))
        c.start()
        ps.append(c)
    left, why, ans = len(ps), [], None
    while left and time.time() < deadline + 1:
        try:
            r, w = q.get(timeout=0.2)
        except Exception:
            continue
        left -= 1
        if r == "unsat":
            ans = ("SUCCESS", w)
            break
        if r == "sat":
            ans = ("FAILURE", w)
            break
        why.append(r + " " + w)
    for c in ps:
        c.kill()
        c.join()
    if os.environ.get("LIA_V"):
        print(p, ans or why, round(time.time() - t0, 1), file=sys.stderr)
    return ans or ("ERROR", "; ".join(why) or "timeout")


def main():
    gb, timeout, args = sys.argv[1], float(sys.argv[2]), sys.argv[3:]
    deadline = time.time() + timeout
    d = tempfile.mkdtemp(prefix="lia")
    g2 = os.path.join(d, "u.gb")
    if subprocess.run(["goto-instrument", "--drop-unused-functions", gb, g2], capture_output=True).returncode == 0:
        gb = g2
    pr = subprocess.run(["cbmc", gb, "--show-properties", "--json-ui"] + [a for a in args], capture_output=True, text=True)
    props = []
    for x in json.loads(pr.stdout):
        if isinstance(x, dict) and "properties" in x:
            props = x["properties"]
    res, bad = [], []
    try:
        # everything the SAT back end settles at once needs no integer reasoning
        with ThreadPoolExecutor(4) as ex:
            for p, (st, why) in zip(props, ex.map(lambda p: one(gb, p["name"], args, deadline, d), props)):
                if st == "ERROR":
                    bad.append("%s: %s" % (p["name"], why))
                res.append({"property": p["name"], "description": p["description"], "status": st, "sourceLocation": p.get("sourceLocation", {})})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if any(r["status"] == "FAILURE" for r in res):
        print(json.dumps([{"result": [r for r in res if r["status"] != "ERROR"]}]))
        sys.exit(10)
    if bad:
        print("; ".join(bad)[:600], file=sys.stderr)
        sys.exit(6)
    print(json.dumps([{"result": res}]))
    sys.exit(0)


main()
