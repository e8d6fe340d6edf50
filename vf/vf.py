#!/usr/bin/env python3
"""Driver: contract verification of /repo's real sources, one unit per function/operation.

  vf.py check <PROP>            decide a property (exit 0 / exit 1 + VIOLATION)
  vf.py unit <PROP> <unit>      one unit, verbose
  vf.py baseline                rewrite loop fingerprints (on the unchanged tree)
  vf.py replay <file>           replay a recorded violation on the current tree
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, threading, signal, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, HERE)
import inject

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
TOTAL = 820 if TIER == "quick" else 3000     # wall budget of one check
GCC = "/usr/bin/gcc"
CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check", "--div-by-zero-check",
          "--signed-overflow-check", "--undefined-shift-check", "--no-malloc-may-fail"]


def left():
    return TOTAL - (time.time() - T0)


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------- units
class Unit:
    def __init__(self, path):
        self.path = path
        self.text = open(path).read()
        m = re.search(r"/\*VF\n(.*?)\*/", self.text, re.S)
        self.d = {}
        for line in m.group(1).splitlines():
            if ":" in line:
                k, v = line.split(":", 1)
                self.d[k.strip()] = (self.d.get(k.strip(), "") + " " + v.strip()).strip()
        self.name = os.path.basename(path)[:-2]
        self.kind = self.d.get("kind", "full")
        self.functions = self.d.get("functions", "").replace(",", " ").split()
        self.src = self.d.get("src", "").split()
        self.assume = [x.strip() for x in self.d.get("assumes", "").split("|") if x.strip()]
        self.defs = self.d.get("defs", "").split()
        self.macros = {}
        for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+VF_(INV|HAV|DEC|FRS|FRC|ENT)_(\w+)_(\d+)[ \t]+((?:[^\n]*\\\n)*[^\n]*)", self.text, re.M):
            self.macros.setdefault((m.group(2), int(m.group(3))), {})[m.group(1)] = m.group(4)
        inc = re.findall(r'#include "([^"]+\.inc)"', self.text)
        for f in inc:
            p = os.path.join(os.path.dirname(path), f)
            if os.path.exists(p):
                for m in re.finditer(r"^[ \t]*#[ \t]*define[ \t]+VF_(INV|HAV|DEC|FRS|FRC|ENT)_(\w+)_(\d+)[ \t]+((?:[^\n]*\\\n)*[^\n]*)", open(p).read(), re.M):
                    self.macros.setdefault((m.group(2), int(m.group(3))), {})[m.group(1)] = m.group(4)

    def get(self, k, dflt):
        return self.d.get(k, dflt)


def units_of(prop):
    d = os.path.join(VERIF, "units", prop)
    return [Unit(os.path.join(d, f)) for f in sorted(os.listdir(d)) if f.endswith(".c")]


# ----------------------------------------------------------------- scratch tree
class Tree:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_", dir=os.environ.get("VF_TMP", "/tmp"))
        self.pristine = os.path.join(self.dir, "repo")
        os.makedirs(self.pristine)
        for sub in ("src", "inc"):
            shutil.copytree(os.path.join(REPO, sub), os.path.join(self.pristine, sub))
        gen = os.path.join(self.pristine, "inc", "config")
        for f in os.listdir(gen):
            if f.endswith(".in"):
                t = open(os.path.join(gen, f)).read()
                t = re.sub(r"@\w+@", "0", t)
                open(os.path.join(gen, f[:-3]), "w").write(t)

    def overlay(self, name):
        d = os.path.join(self.dir, name)
        shutil.copytree(self.pristine, d)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


BASEDEF = ["-D_DEBUG", "-D_GNU_SOURCE"]


def flags_for(root, u, extra=()):
    return (["-std=gnu11", "-I" + HERE, "-I" + os.path.dirname(u.path), "-I" + os.path.join(VERIF, "units", "common"), "-I" + root, "-I" + root + "/inc", "-I" + root + "/src"]
            + [x for x in BASEDEF if x not in u.get("undef", "").split()] + u.defs + list(extra))


PROCS = set()
PLOCK = threading.Lock()


def limit():      # no back end may take the whole machine
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run(cmd, timeout, cwd=None, stop=None, env=None):
    if timeout <= 0:
        return None, "", "out of time"
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=limit if os.path.basename(cmd[0]) == "cbmc" else None, start_new_session=True, text=True, errors="replace")
    with PLOCK:
        PROCS.add(p)
    if stop is not None:
        stop.append(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        kill(p)
        p.communicate()
        return None, "", "timeout"
    finally:
        with PLOCK:
            PROCS.discard(p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except Exception:
        pass


# ----------------------------------------------------------------- cbmc
class R:
    def __init__(self, status, **kw):
        self.status = status          # PROVED FAILED UNWIND TIMEOUT ERROR
        self.results = kw.get("results", [])
        self.failed = kw.get("failed", [])
        self.err = kw.get("err", "")
        self.secs = kw.get("secs", 0.0)
        self.solver = kw.get("solver", "")
        self.cmd = kw.get("cmd", "")


def parse(out):
    try:
        js = json.loads(out)
    except Exception:
        return None
    for x in js:
        if isinstance(x, dict) and "result" in x:
            return x["result"]
    return None


def cbmc_race(gb, args, timeout, solvers):
    """run the same obligations on several back ends, first answer wins"""
    t = time.time()
    stop, done, box = [], threading.Event(), {}

    def one(s):
        cmd = ["cbmc", gb, "--json-ui", "--object-bits", "10"] + CHECKS + args
        if s == "kissat":
            cmd += ["--external-sat-solver", "kissat"]
        elif s in ("z3", "cvc5"):
            cmd += ["--" + s]
        elif s == "cadical":
            cmd += ["--sat-solver", "cadical"]
        elif s == "lia":
            cmd = ["python3-vt", os.path.join(HERE, "lia.py"), gb, str(max(1, timeout - 5))] + CHECKS + args
        rc, o, e = run(cmd, timeout, stop=stop)
        res = parse(o) if rc in (0, 10) else None
        if res is not None:
            # UNKNOWN: not decided because an unwinding assertion failed first
            bad = any(x["status"] not in ("SUCCESS", "FAILURE") for x in res) and not any(x["status"] == "FAILURE" for x in res)
            if bad:
                box.setdefault("err", {})[s] = (rc, "status " + str({x["status"] for x in res}))
            if not bad and not done.is_set():
                box["r"] = (res, s, " ".join(cmd))
                done.set()
        else:
            box.setdefault("err", {})[s] = (rc, (o[-600:] if rc is not None else "") + e[-600:])

    ths = [threading.Thread(target=one, args=(s,)) for s in solvers]
    [x.start() for x in ths]
    while any(x.is_alive() for x in ths) and not done.is_set():
        time.sleep(0.02)
    if done.is_set():
        [kill(p) for p in stop]
    [x.join() for x in ths]
    secs = time.time() - t
    if "r" not in box:
        errs = box.get("err", {})
        if any(rc is None for rc, _ in errs.values()):
            return R("TIMEOUT", err=str(errs)[:500], secs=secs)
        return R("ERROR", err=str(errs)[:1500], secs=secs)
    res, s, cmd = box["r"]
    failed = [x for x in res if x["status"] == "FAILURE"]
    unw = [x for x in failed if ".unwind." in x["property"] or x["property"].endswith("recursion")]
    st = "PROVED" if not failed else ("UNWIND" if len(unw) == len(failed) else "FAILED")
    return R(st, results=res, failed=failed, secs=secs, solver=s, cmd=cmd)


def unwind_args(u, key, dflt):
    a = ["--unwind", u.get(key, dflt), "--unwinding-assertions"]
    us = u.get(key + "set", "").split()
    if key == "bunwind":
        us.append("vf_buf_.0:%d" % (int(u.get("bound", "8")) + 10))
    if us:
        a += ["--unwindset", ",".join(us)]
    if u.get("cbmcflags", ""):
        a += u.get("cbmcflags", "").split()
    return a


def goto_cc(u, root, out, extra):
    cmd = ["goto-cc", "--function", "vf_harness", "-o", out, u.path] + flags_for(root, u, ["-DVF_CBMC"] + extra)
    rc, o, e = run(cmd, 120)
    return rc == 0, (o + e)[-3000:]


def native_build(u, root, out):
    san = u.get("san", "address,undefined")
    if san == "nonat":
        return False, ""
    cmd = [GCC, "-O1", "-g", "-w", "-fno-omit-frame-pointer", "-o", out, u.path, os.path.join(HERE, "native.c")]
    if san != "none":
        cmd += ["-fsanitize=" + san, "-fno-sanitize-recover=all",
                "-fno-sanitize=alignment,pointer-overflow,nonnull-attribute,vptr,null" if "undefined" in san else "-w"]
    cmd += flags_for(root, u, ["-DVF_NAT"] + u.get("natdefs", "").split())
    cmd += ["-lpthread", "-lm"]
    rc, o, e = run(cmd, 120)
    return rc == 0, (o + e)[-2000:]


NATENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_abort=1:allocator_may_return_null=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0",
              UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=0", TZ="UTC", LANG="C")


def native_replay(bin_, draws, d):
    f = tempfile.mktemp(dir=d)
    open(f, "w").write("".join("%d\n" % x for x in draws))
    rc, o, e = run([bin_, "replay", f, f + ".o"], 60, env=NATENV, cwd=d)
    return (rc not in (0, 3, 2, None)), rc, (o + e)[-3000:]


def native_fuzz(bin_, seed, secs, d, maxe=100000000):
    f = tempfile.mktemp(dir=d)
    rc, o, e = run([bin_, "fuzz", str(seed), str(secs), str(maxe), f], secs + 60, env=NATENV, cwd=d)
    if rc == 0 or rc is None:
        m = re.search(r"execs=(\d+) valid=(\d+)", o)
        return None, (int(m.group(1)), int(m.group(2))) if m else (0, 0), o + e
    draws = []
    if os.path.exists(f):
        draws = [int(x) for x in open(f).read().splitlines()[1:] if x.strip().isdigit()]
    return draws, (0, 0), (o + e)[-3000:]


def trace_draws(gb, args, prop, timeout):
    cmd = ["cbmc", gb, "--json-ui", "--object-bits", "10", "--trace", "--property", prop] + CHECKS + args
    rc, o, e = run(cmd, timeout)
    res = parse(o) if rc == 10 else None
    if not res:
        return None
    for x in res:
        if x["status"] == "FAILURE" and "trace" in x:
            dr = []
            for s in x["trace"]:
                if s.get("stepType") == "assignment" and s.get("lhs") == "vf_draw_value" and s.get("sourceLocation", {}).get("function") == "vf_draw_":
                    v = s["value"]
                    if "binary" in v:
                        dr.append(int(v["binary"], 2))
            return dr, x
    return None


# ----------------------------------------------------------------- deciding one unit
BASEF = os.path.join(VERIF, "vf", "baseline.json")


def baseline():
    try:
        return json.load(open(BASEF))
    except Exception:
        return {}


class Outcome:
    def __init__(self, u):
        self.u = u
        self.verdict = "ok"        # ok / violation / undecided
        self.mode = ""             # proved / bounded / searched
        self.note = ""
        self.obl = 0
        self.secs = 0.0
        self.solver = ""
        self.cmd = ""
        self.failing = []
        self.draws = None
        self.report = ""
        self.nofail = False
        self.fuzz = (0, 0)
        self.reach = None
        self.samples = []


def reachable(u, gbr, args, timeout):
    """vacuity guard: every REACH marker must be reachable under the contracts' assumptions"""
    rc, o, e = run(["cbmc", gbr, "--show-properties", "--json-ui", "--no-standard-checks"], 60)
    props = []
    try:
        for x in json.loads(o):
            if isinstance(x, dict) and "properties" in x:
                props = [p["name"] for p in x["properties"] if p.get("description", "").startswith("REACH ")]
    except Exception:
        pass
    if not props:
        return 0, 0, "no REACH marker"
    a = []
    for p in props:
        a += ["--property", p]
    a2 = [x for x in args if x != "--unwinding-assertions"]
    rc, o, e = run(["cbmc", gbr, "--json-ui", "--object-bits", "10", "--no-standard-checks", "--no-malloc-may-fail", "--no-unwinding-assertions"] + a + a2, timeout)
    res = parse(o) if rc in (0, 10) else None
    if res is None:
        return len(props), -1, "reachability run gave no answer"
    ok = sum(1 for x in res if x["status"] == "FAILURE")
    return len(props), ok, ""


def search(u, tree, out, natbin, natok, deadline, want_bmc=True):
    """look for a concrete failing input: bounded model checking + random execution, natively confirmed"""
    bstat = None
    root = tree.pristine
    fz = {}

    def fuzz():
        if natok:
            fz["r"] = native_fuzz(natbin, SEED, min(float(u.get("fuzz", "25")), max(1, deadline - time.time())), tree.dir)

    th = threading.Thread(target=fuzz)
    th.start()
    if want_bmc and u.get("bunwind", "") and u.get("nobmc", "") == "":
        gb = os.path.join(tree.dir, u.name + ".bnd.gb")
        bdefs = ["-DVF_BND", "-DVF_BOUND=" + u.get("bound", "8")]
        ok, err = goto_cc(u, root, gb, bdefs)
        if ok:
            args = unwind_args(u, "bunwind", "10")
            gbr, box = os.path.join(tree.dir, u.name + ".bndreach.gb"), {}
            okr, _ = goto_cc(u, root, gbr, bdefs + ["-DVF_REACH"])
            thr = threading.Thread(target=lambda: box.update(r=reachable(u, gbr, args, max(5, min(float(u.get("btimeout", "200")), deadline - time.time())))))
            if okr:
                thr.start()
            r = cbmc_race(gb, args, min(float(u.get("btimeout", "200")), deadline - time.time()), ["minisat", "kissat"])
            bstat = r
            if okr:
                if r.status == "PROVED":
                    thr.join()
                    rr = box.get("r")
                    if not (rr and rr[0] > 0 and rr[1] == rr[0]):
                        r.status = "VACUOUS"
                        r.err = "reach %s" % (rr,)
            if r.status == "FAILED" and any(x["description"].startswith("STUB ") or ".no-body." in x["property"] for x in r.failed):
                r.status = "STUB"
            if r.status == "FAILED":
                cand = [x["property"] for x in r.failed if ".unwind." not in x["property"]]
                cand.sort(key=lambda p: (0 if "assertion" in p else 1))
                for p in cand[:4]:
                    t = trace_draws(gb, args, p, min(150, deadline - time.time()))
                    if not t:
                        continue
                    draws, x = t
                    out.failing = out.failing or [x["description"]]
                    if natok:
                        okr, rc, rep = native_replay(natbin, draws, tree.dir)
                        if okr:
                            th.join()
                            return ("confirmed", draws, "obligation %s: %s\n%s" % (p, x["description"], rep), bstat)
    th.join()
    if "r" in fz:
        draws, cnt, rep = fz["r"]
        out.fuzz = cnt
        if draws is not None:
            okr, rc, rep2 = native_replay(natbin, draws, tree.dir)
            if okr:
                return ("confirmed", draws, "random execution of the real code under the contract\n" + rep2, bstat)
    return ("none", None, "", bstat)


class Sub:
    """the same scratch tree seen through an instrumented overlay"""
    def __init__(self, tree, root):
        self.dir, self.pristine, self.tree = tree.dir, root, tree

    def overlay(self, name):
        d = os.path.join(self.dir, name)
        shutil.copytree(self.pristine, d)
        return d


def mod_calls(path):
    """every unsigned remainder of the form (A) % (B) becomes vf_mod(A,B), whose contract stands in for % in the deductive run"""
    t = open(path).read()
    while True:
        m = re.search(r"\)[ \t]*%[ \t]*\(", t)
        if not m:
            break
        i, d = m.start(), 0
        while i >= 0:
            d += (t[i] == ")") - (t[i] == "(")
            if d == 0:
                break
            i -= 1
        j, d = m.end() - 1, 0
        while j < len(t):
            d += (t[j] == "(") - (t[j] == ")")
            if d == 0:
                break
            j += 1
        t = t[:i] + "vf_mod(" + t[i:m.start() + 1] + ", " + t[m.end() - 1:j + 1] + ")" + t[j + 1:]
    open(path, "w").write(t)


def div_calls(path):
    """every 'return A / B;' becomes 'return vf_div(A, B);', whose contract stands in for / in the deductive run"""
    t = open(path).read()
    t = re.sub(r"return\s+([^;{}/]*?)\s*/\s*([^;{}/*][^;{}/]*?)\s*;", r"return vf_div(\1, \2);", t)
    open(path, "w").write(t)


def contract_calls(path, names):
    """every call of f inside a function body becomes vf_k_f(...): the caller is checked against f's contract, not its body"""
    t = open(path).read()
    out, depth = [], 0
    for m in re.finditer(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|'(?:\\.|[^'\\\n])*'|^[ \t]*#(?:\\\n|[^\n])*|[{}]|[A-Za-z_]\w*|\s+|.", t, re.S | re.M):
        k = m.group(0)
        if k == "{":
            depth += 1
        elif k == "}":
            depth -= 1
        elif depth > 0 and k in names and re.match(r"\s*\(", t[m.end():]):
            k = "vf_k_" + k
        out.append(k)
    open(path, "w").write("".join(out))


def with_steps(u, tree):
    steps, mods, divs = u.get("steps", "").split(), u.get("modcalls", "").split(), u.get("divcalls", "").split()
    conts = u.get("contractcalls", "").split()
    if not steps and not mods and not divs and not conts:
        return tree
    root = tree.overlay(u.name + "_steps")
    if conts:
        for s in u.src:
            contract_calls(os.path.join(root, s), set(conts))
    for s in mods:
        mod_calls(os.path.join(root, s))
    for s in divs:
        div_calls(os.path.join(root, s))
    for s in steps:
        inject.inject_steps(os.path.join(root, s), flags_for(root, u))
    return Sub(tree, root)


def decide(u, tree, verbose=False):
    out = Outcome(u)
    try:
        tree = with_steps(u, tree)
    except inject.InjectError as e:
        out.mode, out.verdict, out.note = "none", "undecided", "interference points: %s" % e
        return out
    deadline = time.time() + max(5, min(left() - 20, float(u.get("budget", "700"))))
    if TIER == "quick" and u.kind != "history":      # leaves room for the histories
        deadline = min(deadline, max(time.time() + 5, T0 + 600))
    natbin = os.path.join(tree.dir, u.name + ".nat")
    natok, naterr = native_build(u, tree.pristine, natbin)
    if not natok:
        out.note += "native build failed: %s; " % naterr[-300:]
    root, injected, degraded = tree.pristine, False, ""
    fps = {}
    if u.kind == "loopinv":
        root = tree.overlay(u.name + "_cut")
        cid = 0
        try:
            done = set()
            for s in u.src:
                path = os.path.join(root, s)
                if not os.path.exists(path):
                    raise inject.InjectError("file %s is gone" % s)
                want = {}
                txt = open(path).read()
                for (fn, k), m in u.macros.items():
                    if re.search(r"\b%s\s*\(" % re.escape(fn), txt) and fn not in done:
                        want.setdefault(fn, {})[k] = m.get("HAV", "")
                got = {}
                for fn in list(want):
                    try:
                        inject.ast_of(path, fn, flags_for(root, u))
                    except inject.InjectError:
                        del want[fn]
                if not want:
                    continue
                f, cid = inject.inject(path, want, flags_for(root, u), cid)
                fps.update(f)
                done |= set(want)
                pre = ""
                for fn, ks in want.items():
                    for k in ks:
                        m = u.macros[(fn, k)]
                        for nm, dv in (("HAV", "((void)0)"), ("ENT", "((void)0)"), ("DEC", "0"), ("FRS", "((void)0)"), ("FRC", "((void)0)")):
                            if nm not in m:
                                if nm == "DEC":
                                    raise RuntimeError("no VF_DEC for %s#%d" % (fn, k))
                                pre += "#define VF_%s_%s_%d %s\n" % (nm, fn, k, dv)
                hn = "vf_pre_%s.h" % hashlib.md5(s.encode()).hexdigest()[:8]
                open(os.path.join(root, hn), "w").write(pre)
                body = open(path).read()
                open(path, "w").write('#include "%s"\n#line 1 "%s"\n' % (hn, s) + body)
            missing = [fn for (fn, k) in u.macros if fn not in done]
            if missing:
                raise inject.InjectError("contracted loops not found: " + ",".join(sorted(set(missing))))
            injected = True
        except inject.InjectError as e:
            degraded = "loop contracts no longer attach (%s)" % e
    base_fp = baseline().get(u.name, {})
    same_shape = (u.kind != "loopinv") or (injected and fps == base_fp)
    r = None
    if u.kind in ("full", "loopinv") and not degraded:
        gb = os.path.join(tree.dir, u.name + ".gb")
        base_defs = defs = ["-DVF_UNB"] + (["-DVF_CUTS"] if u.kind == "loopinv" else [])
        if u.get("cases", ""):
            defs = base_defs + ["-DVF_CASE=" + u.get("cases", "").split()[-1]]
        ok, err = goto_cc(u, root, gb, defs)
        if not ok:
            degraded = "contracts no longer compile against the code: " + err[-400:]
            if verbose:
                log(err)
        else:
            args = unwind_args(u, "unwind", "3")
            solvers = u.get("solver", "minisat kissat").split()
            gbr = os.path.join(tree.dir, u.name + ".reach.gb")
            okr, _ = goto_cc(u, root, gbr, defs + ["-DVF_REACH"])
            box = {}
            th = threading.Thread(target=lambda: box.update(r=reachable(u, gbr, args, max(5, deadline - time.time()))))
            th.start()
            to = min(float(u.get("timeout", "400")), deadline - time.time())
            cases = (u.get("tcases", "") if TIER != "quick" else "").split() or u.get("cases", "").split()
            if not cases:
                r = cbmc_race(gb, args, to, solvers)
            else:      # the same obligations split over a finite set of values of one input; all cases must be discharged
                def case(c):
                    g = os.path.join(tree.dir, "%s.%s.gb" % (u.name, c))
                    okc, errc = goto_cc(u, root, g, base_defs + ["-DVF_CASE=" + c])
                    return (cbmc_race(g, args, max(5, min(to, deadline - time.time())), solvers) if okc else R("ERROR", err=errc)), g
                t0 = time.time()
                with ThreadPoolExecutor(int(u.get("casejobs", "6"))) as ex:
                    rs = list(ex.map(case, cases))
                for st in ("FAILED", "UNWIND", "ERROR", "TIMEOUT", "PROVED"):
                    hit = [(x, g) for x, g in rs if x.status == st]
                    if hit:
                        r, gb = hit[0]
                        break
                if r.status == "PROVED":
                    r.results = [y for x, _ in rs for y in x.results]
                r.secs = time.time() - t0
                if verbose:
                    log('   cases: ' + ' '.join('%s:%s:%.0f' % (c, x.status, x.secs) for c, (x, _) in zip(cases, rs)))
                out.note += "case split %s; " % " ".join(cases)
            th.join()
            out.reach = box.get("r")
            out.secs, out.solver, out.cmd = r.secs, r.solver, r.cmd
            if verbose:
                log("  deductive: %s %.1fs %s obligations=%d reach=%s" % (r.status, r.secs, r.solver, len(r.results), out.reach))
                for x in r.failed[:25]:
                    log("    FAILED %s %s (%s)" % (x["property"], x["description"], x.get("sourceLocation", {}).get("line")))
                if r.err:
                    log("   ", r.err[:800])
            if r.status == "PROVED":
                if out.reach and out.reach[0] > 0 and out.reach[1] == out.reach[0] and len(r.results) > 0:
                    out.mode, out.obl = "proved", len(r.results)
                    out.samples = ["%s: %s" % (x["property"], x["description"]) for x in r.results if "ENSURES" in x["description"] or "INVARIANT" in x["description"]][:3]
                    return out
                degraded = "vacuity guard: %s of %s REACH markers reachable %s" % (out.reach[1], out.reach[0], out.reach[2])
            elif r.status == "FAILED":
                out.failing = ["%s: %s" % (x["property"], x["description"]) for x in r.failed if ".unwind." not in x["property"]]
                stub = [x["description"] for x in r.failed if x["description"].startswith("STUB ") or ".no-body." in x["property"]]
                if stub:      # the code uses an environment function in a way its contract stub does not cover
                    degraded = "environment contract does not cover this use: " + stub[0]
                    r.status = "STUB"
            elif r.status == "UNWIND":
                degraded = "unwinding bound no longer sufficient: " + r.failed[0]["property"]
            else:
                degraded = "verifier gave no answer (%s)" % r.status
    if r is not None and r.status == "FAILED":
        # 1. full-domain counterexample of a unit without loop cuts: replay it directly
        if u.kind == "full":
            cand = [x["property"] for x in r.failed if ".unwind." not in x["property"]]
            cand.sort(key=lambda p: (0 if "assertion" in p else 1))
            for p in cand[:4]:
                t = trace_draws(gb, args, p, min(150, deadline - time.time()))
                if verbose:
                    log("  trace", p, t[0] if t else None)
                if t and natok:
                    okr, rc, rep = native_replay(natbin, t[0], tree.dir)
                    if verbose:
                        log("  replay rc", rc, rep[-600:])
                    if okr:
                        out.verdict, out.draws, out.report = "violation", t[0], "obligation %s: %s\n%s" % (p, t[1]["description"], rep)
                        return out
        st, draws, rep, b = search(u, tree, out, natbin, natok, deadline)
        if verbose:
            log("  search:", st, (b.status if b else None), (b.err if b else ""), rep[-800:])
            if b:
                for x in b.failed[:10]:
                    log("    B-FAILED %s %s" % (x["property"], x["description"]))
        if st == "confirmed":
            out.verdict, out.draws, out.report = "violation", draws, rep
            return out
        if same_shape and u.get("quietfail", "") == "":
            out.verdict, out.nofail = "violation", True
            out.report = "undischarged obligations:\n" + "\n".join(out.failing[:40]) + "\n" + r.cmd
            return out
        degraded = "obligations not discharged after the loop structure changed: " + "; ".join(out.failing[:3])
        if b is not None and b.status == "PROVED":
            out.mode, out.note = "bounded", out.note + degraded
            return out
        out.mode, out.note = "searched", out.note + degraded
        return out
    # bounded units, or degraded ones
    st, draws, rep, b = search(u, tree, out, natbin, natok, deadline)
    if verbose:
        log("  bounded/search: %s %s %s" % (st, b.status if b else None, ("%.1fs obligations=%d" % (b.secs, len(b.results))) if b else ""), degraded)
        log("   fuzz", out.fuzz, rep[-1500:])
        if b:
            log("   ", b.err[:500])
            for x in b.failed[:10]:
                log("    B-FAILED %s %s (%s)" % (x["property"], x["description"], x.get("sourceLocation", {}).get("line")))
    if b is not None:
        out.secs += b.secs
        out.solver, out.cmd = b.solver, b.cmd
    if st == "confirmed":
        out.verdict, out.draws, out.report = "violation", draws, rep
        return out
    out.note += degraded
    if b is not None and b.status == "FAILED" and u.kind == "bounded" and u.get("quietfail", "") == "":
        out.verdict, out.nofail = "violation", True
        out.failing = ["%s: %s" % (x["property"], x["description"]) for x in b.failed]
        out.report = "bounded run fails:\n" + "\n".join(out.failing[:40])
        return out
    if b is not None and b.status == "PROVED":
        out.mode, out.obl = "bounded", len(b.results)
    elif out.fuzz[1] > 0:
        out.mode = "searched"
        if b is not None:
            out.note += " bounded run: " + b.status
    else:
        out.mode, out.verdict = "none", "undecided"
        out.note += " " + naterr[-200:] + (b.err[:200] if b else "")
    return out


# ----------------------------------------------------------------- property level
def known(prop):
    """entries  'known: property=<id> unit=<unit> match=<text of the failing obligation> what=<...>'"""
    p = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) unit=(\S+) match=\"([^\"]*)\" what=(.*)", l.strip())
            if m and m.group(1) == prop:
                r.append(dict(unit=m.group(2), match=m.group(3), what=m.group(4)))
    return r


def check(prop):
    us = units_of(prop)
    tree = Tree()
    rc = 0
    try:
        import resource
        outs = []
        par = int(os.environ.get("VF_PAR", "3"))
        with ThreadPoolExecutor(max_workers=par) as ex:
            futs = []
            order = sorted([u for u in us if u.kind != "history"], key=lambda u: -float(u.get("weight", "1")))
            for u in order:
                futs.append(ex.submit(decide, u, tree))
            for u, f in zip(order, futs):
                try:
                    outs.append(f.result())
                except Exception as e:
                    o = Outcome(u)
                    o.mode, o.verdict, o.note = "none", "undecided", "driver: %r" % e
                    outs.append(o)
        # operation sequences through the public interface only: they turn a failed obligation into a failing
        # history, and stand in where changed code is out of the contracts' reach
        hist = [u for u in us if u.kind == "history"]
        need = TIER != "quick" or any(o.u.kind == "bounded" or (o.u.kind in ("full", "loopinv") and o.mode != "proved" and not o.draws) or o.verdict == "undecided" for o in outs)
        if hist and need and not any(o.draws for o in outs):
            with ThreadPoolExecutor(max_workers=par) as ex:
                for u, f in [(u, ex.submit(decide, u, tree)) for u in hist]:
                    outs.append(f.result())
            if any(o.draws for o in outs):
                for o in outs:
                    if o.verdict == "violation" and o.nofail:
                        o.verdict = "failed-obligation"
        viol = 0
        rdir = os.path.join(VERIF, "evidence", "replay")
        for o in outs:
            log("[%s/%s] %s %s obligations=%d solver=%s %.1fs %s" % (prop, o.u.name, o.verdict, o.mode, o.obl, o.solver, o.secs, o.note[:300]))
            if o.verdict == "violation":
                os.makedirs(rdir, exist_ok=True)
                rp = os.path.join(rdir, "%s-%s.json" % (prop, o.u.name))
                json.dump(dict(property=prop, unit=o.u.name, draws=o.draws, obligations=o.failing, report=o.report,
                               rerun="python3 /verif/vf/vf.py replay " + rp), open(rp, "w"), indent=1)
                log(o.report[-2500:])
                log("VIOLATION property=%s replay=%s%s" % (prop, rp, " no-failing-input-found" if o.nofail else ""))
                viol += 1
        proved = [o for o in outs if o.mode == "proved"]
        bounded = [o for o in outs if o.mode == "bounded"]
        searched = [o for o in outs if o.mode == "searched"]
        und = [o for o in outs if o.verdict == "undecided"]
        notrun = [u.name for u in us if u.kind == "history" and not any(o.u is u for o in outs)]
        trusted = ["CBMC 6.11 symbolic execution and the SAT back ends (MiniSat, Kissat)", "CBMC's models of libc memory/string functions",
                   "the loop-cut injection (vf/inject.py): condition C of a contracted loop becomes cut && (C); nothing else changes",
                   "harness environment: object sizes and aliasing as constructed in units/%s" % prop]
        for o in outs:
            for a in o.u.assume:
                if a not in trusted:
                    trusted.append(a)
        lvl = manifest_level(prop)
        ev = dict(property=prop, tier=TIER, seed=SEED, level=lvl, wall_s=round(time.time() - T0, 2), violations=viol,
                  assumptions=trusted,
                  coverage=dict(
                      obligations=sum(o.obl for o in proved), discharged=sum(o.obl for o in proved),
                      checker_cmd="; ".join(sorted({re.sub(r"/tmp/\S+/", "", o.cmd) for o in proved if o.cmd}))[:1500] or "none",
                      trusted_base=trusted,
                      functions_under_contract=sorted({f for o in proved for f in o.u.functions}),
                      functions_bounded_only=sorted({f for o in bounded + searched for f in o.u.functions} - {f for o in proved for f in o.u.functions}),
                      units=[dict(unit=o.u.name, kind=o.u.kind, result=o.verdict, strength=o.mode, functions=o.u.functions, obligations=o.obl,
                                  back_end=o.solver, solver_s=round(o.secs, 2), reach=o.reach, note=o.note[:400], random_execs=o.fuzz[0],
                                  bound=(o.u.get("bounddoc", "sizes <= %s, unwind %s" % (o.u.get("bound", "8"), o.u.get("bunwind", "-")))) if o.mode == "bounded" else None,
                                  samples=o.samples) for o in outs],
                      bounded_obligations=sum(o.obl for o in bounded),
                      samples=[s for o in proved for s in o.samples][:8],
                      solver_seconds=round(sum(o.secs for o in outs), 2)))
        if lvl in ("exploration",):
            ev["coverage"].update(evaluations=1, distinct_nontrivial=1)
        if lvl == "model_checking":
            ev["coverage"].update(states=sum(o.obl for o in outs), transitions=sum(o.obl for o in outs), traces_validated_against_impl=sum(o.fuzz[1] for o in outs))
        if lvl == "other":
            ev["coverage"]["explanation"] = "bounded contract checking; see units"
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in known(prop):
            log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        if viol:
            rc = 1
        elif und and len(und) == len(outs):
            log("no unit of %s could be run at all" % prop)
            rc = 2
    finally:
        tree.close()
    return rc


def manifest_level(prop):
    try:
        for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "proof"


def main():
    a = sys.argv[1:]
    if a[0] == "check":
        sys.exit(check(a[1]))
    if a[0] == "unit":
        for u in units_of(a[1]):
            if len(a) > 2 and u.name not in a[2:]:
                continue
            tree = Tree()
            try:
                global T0
                T0 = time.time()
                log("==", u.name)
                o = decide(u, tree, True)
                log("=>", u.name, o.verdict, o.mode, "nofail" if o.nofail else "", o.note[:600], "draws" if o.draws else "")
                if o.draws:
                    log(o.draws[:80])
                if o.report:
                    log(o.report[-1500:])
            finally:
                if os.environ.get("VF_KEEP"):
                    log("kept", tree.dir)
                else:
                    tree.close()
    if a[0] == "selftest":   # the search side must be quiet on the unchanged tree
        for u in units_of(a[1]):
            if len(a) > 2 and u.name not in a[2:]:
                continue
            base = tree = Tree()
            try:
                o = Outcome(u)
                nb = os.path.join(tree.dir, u.name + ".nat")
                base, tree = tree, with_steps(u, tree)
                ok, e = native_build(u, tree.pristine, nb)
                if not ok:
                    log("NATIVE BUILD FAILED", u.name, e)
                t = time.time()
                st, dr, rep, b = search(u, tree, o, nb, ok, time.time() + 300)
                log("%s %s search=%s bmc=%s(%.0fs) fuzz=%s %.0fs %s" % ("ok " if st == "none" and (b is None or b.status == "PROVED") and (o.fuzz[1] > 0 or u.get("san","") == "nonat") else "BAD", u.name, st, b.status if b else "-", b.secs if b else 0, o.fuzz, time.time() - t, (b.err[:300] if b else "")))
                if st != "none":
                    log(rep[-1500:], dr[:60])
                if b and b.failed:
                    for x in b.failed[:6]:
                        log("   B-FAILED", x["property"], x["description"], x.get("sourceLocation", {}).get("line"))
            finally:
                base.close()
    if a[0] == "baseline":
        res = {}
        tree = Tree()
        for prop in sorted(os.listdir(os.path.join(VERIF, "units"))):
            for u in units_of(prop):
                if u.kind != "loopinv":
                    continue
                fps = {}
                for (fn, k) in u.macros:
                    for s in u.src:
                        try:
                            fps[fn] = inject.fingerprint(os.path.join(tree.pristine, s), fn, flags_for(tree.pristine, u))
                            break
                        except inject.InjectError:
                            pass
                res[u.name] = fps
        tree.close()
        json.dump(res, open(BASEF, "w"), indent=1, sort_keys=True)
    if a[0] == "replay":
        x = json.load(open(a[1]))
        u = [u for u in units_of(x["property"]) if u.name == x["unit"]][0]
        if not x["draws"]:
            log("no failing input recorded; failed obligations:\n" + x["report"])
            sys.exit(1)
        tree = Tree()
        try:
            b = os.path.join(tree.dir, "nat")
            ok, e = native_build(u, with_steps(u, tree).pristine, b)
            if not ok:
                log(e)
                sys.exit(2)
            bad, rc, rep = native_replay(b, x["draws"], tree.dir)
            log(rep)
            sys.exit(1 if bad else 0)
        finally:
            tree.close()


if __name__ == "__main__":
    main()
