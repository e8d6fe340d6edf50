"""Mechanical injection of loop contracts into a scratch copy of a source file.

For each loop k (pre-order, 1-based) of function fn for which the unit defines
VF_INV_fn_k, the loop condition C becomes (VF_CUT && (C)); nothing else in the
file changes.  The set of variables the loop modifies is computed from the AST
and havocked, whatever the contract says."""
import json, re, subprocess

ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
LOOPS = ("ForStmt", "WhileStmt", "DoStmt")


class InjectError(Exception):
    pass


def ast_of(path, fn, flags):
    cmd = ["/usr/bin/clang-18", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + fn,
           "-fsyntax-only"] + flags + [path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    dec, s, i, out = json.JSONDecoder(), r.stdout, 0, None
    while i < len(s):
        while i < len(s) and s[i] != "{":
            i += 1
        if i >= len(s):
            break
        obj, i = dec.raw_decode(s, i)
        if obj.get("kind") == "FunctionDecl" and obj.get("name") == fn and \
                any(c.get("kind") == "CompoundStmt" for c in obj.get("inner", [])):
            out = obj
    if out is None:
        raise InjectError("function %s has no body in %s %s" % (fn, path, r.stderr[:200]))
    return out


def pos(loc):
    if "expansionLoc" in loc:
        loc = loc["expansionLoc"]
    if "offset" not in loc:
        raise InjectError("no source position")
    return loc["offset"], loc.get("tokLen", 0)


def endpos(src, loc):
    """offset just after the last token; a function-like macro's arguments belong to it"""
    e, tl = pos(loc)
    e += tl
    if "expansionLoc" in loc:
        j = e
        while j < len(src) and src[j:j + 1].isspace():
            j += 1
        if src[j:j + 1] == b"(":
            d = 0
            while j < len(src):
                d += {b"(": 1, b")": -1}.get(src[j:j + 1], 0)
                j += 1
                if d == 0:
                    return j
    return e


def in_macro(n):
    b = n["range"]["begin"]
    return "expansionLoc" in b


def walk(n):
    yield n
    for c in n.get("inner", []) or []:
        if isinstance(c, dict):
            yield from walk(c)


def loops_of(fn):
    return [n for n in walk(fn) if n.get("kind") in LOOPS and not in_macro(n)]


def root(n):
    k = n.get("kind")
    inner = [c for c in n.get("inner", []) if isinstance(c, dict)]
    if k == "DeclRefExpr":
        return n.get("referencedDecl")
    if k in ("ParenExpr", "ImplicitCastExpr", "CStyleCastExpr"):
        # an lvalue-to-rvalue read of a pointer is not a write to the pointer
        if k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue":
            return None
        return root(inner[0])
    if k == "MemberExpr":
        return None if n.get("isArrow") else root(inner[0])
    if k == "ArraySubscriptExpr":
        return root(inner[0])
    if k == "ConditionalOperator":
        return None
    return None


def modified(loop):
    declared, mods = set(), {}
    init = None
    if loop["kind"] == "ForStmt":
        init = loop["inner"][0]
    initids = {n.get("id") for n in walk(init)} if init else set()
    for n in walk(loop):
        if n.get("kind") == "VarDecl" and n.get("id") not in initids:
            declared.add(n.get("id"))
        t = None
        if n.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode") in ASSIGN:
            t = root(n["inner"][0])
        elif n.get("kind") == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
            t = root(n["inner"][0])
        if t and t.get("kind") in ("VarDecl", "ParmVarDecl"):
            mods[t["id"]] = (t["name"], t["type"]["qualType"])
    return sorted((v for k, v in mods.items() if k not in declared), key=lambda x: x[0])


def fingerprint(path, fn, flags):
    f = ast_of(path, fn, flags)
    return [[n["kind"], [m[0] for m in modified(n)]] for n in loops_of(f)]


def inject(path, wanted, flags, base_id=0):
    """wanted: {fn: {k: hav_text}}; rewrites path in place; returns fingerprints"""
    src = open(path, "rb").read()
    edits, fps, cid = [], {}, base_id
    for fn, ks in wanted.items():
        f = ast_of(path, fn, flags)
        ls = loops_of(f)
        fps[fn] = [[n["kind"], [m[0] for m in modified(n)]] for n in ls]
        for k, hav in sorted(ks.items()):
            if k > len(ls):
                raise InjectError("function %s has %d loop(s); contract for loop %d has nothing to attach to" % (fn, len(ls), k))
            n = ls[k - 1]
            auto = []
            for name, ty in modified(n):
                if re.search(r"\b%s\s*=[^=]" % re.escape(name), hav) or re.search(r"HAVOBJ\(\s*%s\b" % re.escape(name), hav):
                    continue
                if "*" in ty:
                    raise InjectError("loop %s#%d modifies pointer %s which its contract does not cover" % (fn, k, name))
                if "[" in ty:
                    auto.append("__CPROVER_havoc_object(%s);" % name)
                else:
                    auto.append("%s = VF_ND(%s);" % (name, name))
            key = "%s_%d" % (fn, k)
            cut = ("({ if (vf_cnt[%d] == 0) { VF_ENT_%s; __CPROVER_assert((VF_INV_%s), \"INVARIANT %s#%d holds on entry\"); %s VF_HAV_%s; "
                   "__CPROVER_assume(VF_INV_%s); vf_dec[%d] = (uint64_t)(VF_DEC_%s); VF_FRS_%s; vf_cnt[%d] = 1; } "
                   "else { __CPROVER_assert((VF_INV_%s), \"INVARIANT %s#%d is preserved\"); "
                   "__CPROVER_assert((uint64_t)(VF_DEC_%s) < vf_dec[%d], \"DECREASES %s#%d\"); VF_FRC_%s; __CPROVER_assume(0); } 1; })"
                   % (cid, key, key, fn, k, " ".join(auto), key, key, cid, key, key, cid, key, fn, k, key, cid, fn, k, key))
            b, _ = pos(n["range"]["begin"])
            edits.append((b, 0, "if ((vf_cnt[%d] = 0)) {} else " % cid))
            inner = n["inner"]
            if n["kind"] == "ForStmt":
                init, _, cond, inc, body = inner
                if cond.get("kind"):
                    cb, _ = pos(cond["range"]["begin"]); ce, tl = endpos(src, cond["range"]["end"]), 0
                    edits.append((cb, 0, cut + " && ("))
                    edits.append((ce + tl, 1, ")"))
                else:
                    if init.get("kind"):
                        e, tl = pos(init["range"]["end"]); p = e + tl
                        if init["kind"] != "DeclStmt":
                            p = src.index(b";", p) + 1
                    else:
                        p = src.index(b";", b) + 1
                    edits.append((p, 0, cut))
            elif n["kind"] == "WhileStmt":
                cond = inner[-2]
                cb, _ = pos(cond["range"]["begin"]); ce, tl = endpos(src, cond["range"]["end"]), 0
                edits.append((cb, 0, cut + " && ("))
                edits.append((ce + tl, 1, ")"))
            else:
                body = inner[0]
                if body.get("kind") != "CompoundStmt":
                    raise InjectError("do-loop without block body")
                bb, tl = pos(body["range"]["begin"])
                edits.append((bb + tl, 0, cut + ";"))
            cid += 1
    for p, _, t in sorted(edits, key=lambda e: (e[0], e[1]), reverse=True):
        src = src[:p] + t.encode() + src[p:]
    open(path, "wb").write(src)
    return fps, cid


def functions_in(path):
    """names of the functions defined in a file (text scan; each is confirmed against the AST)"""
    t = open(path, errors="replace").read()
    names = []
    for m in re.finditer(r"^(?!#)[A-Za-z_][^;{}()]*?\b([A-Za-z_]\w*)\s*\(", t, re.M):
        n = m.group(1)
        if n not in names and n not in ("if", "while", "for", "switch", "return", "sizeof", "defined"):
            names.append(n)
    return names


def shared_access(st):
    """does the statement itself (not the blocks nested in it) touch memory behind a pointer or call something?"""
    todo = [st]
    while todo:
        n = todo.pop()
        k = n.get("kind")
        if k == "CallExpr" or (k == "MemberExpr" and n.get("isArrow")) or k == "ArraySubscriptExpr" or (k == "UnaryOperator" and n.get("opcode") == "*"):
            return True
        for c in n.get("inner", []) or []:
            if isinstance(c, dict) and c.get("kind") != "CompoundStmt":
                todo.append(c)
    return False


def inject_steps(path, flags, call="vf_step();"):
    """insert a call before every statement that touches memory behind a pointer or calls a function, in every function
    of the file: the points where another thread's effects can take place (statements that touch only locals commute
    with them)"""
    src = open(path, "rb").read()
    edits = set()
    for fn in functions_in(path):
        try:
            f = ast_of(path, fn, flags)
        except InjectError:
            continue
        for n in walk(f):
            if n.get("kind") != "CompoundStmt" or in_macro(n):
                continue
            for c in n.get("inner", []) or []:
                if not isinstance(c, dict) or c.get("kind") in ("CaseStmt", "DefaultStmt", "LabelStmt", "NullStmt", "BreakStmt", "ContinueStmt"):
                    continue
                if not shared_access(c):
                    continue
                try:
                    b, _ = pos(c["range"]["begin"])
                except InjectError:
                    continue
                edits.add(b)
    if not edits:
        raise InjectError("no statements in " + path)
    for p in sorted(edits, reverse=True):
        src = src[:p] + call.encode() + b" " + src[p:]
    open(path, "wb").write(b"void vf_step(void);\n#line 1\n" + src)
