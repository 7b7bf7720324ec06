"""Ownership (frame) conditions of OpenMP regions, read off clang's AST of the current source: every variable a parallel
region writes is declared inside it, private to each thread, or a reduction; a private variable is written before it is read."""
import re, subprocess, os
from terms import TRUE, FALSE
from irparse import REPO

FLAGS = ["-fsyntax-only", "-fopenmp", "-std=c++11", "-w", "-DANSI", "-DUSING_SCONS", "-DLINUX", "-DFFTW_THREADING", "-DUSE_OPENMP", "-I.", "-Icore", "-Isolvers", "-Icdream", "-Icdream/include",
         "-Ifunction_objects", "-include", "cstring", "-Xclang", "-ast-dump", "-fno-color-diagnostics"]
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class N:
    __slots__ = ("kind", "text", "kids", "parent")
    def __init__(self, kind, text): self.kind = kind; self.text = text; self.kids = []; self.parent = None


def tree(txt):
    roots = []; stack = []
    for l in txt.splitlines():
        m = re.match(r"^([| `-]*)(.*)$", l)
        dep = len(m.group(1)) // 2; body = m.group(2)
        if not body or body.startswith("Dumping"): continue
        n = N(body.split(" ", 1)[0], body)
        stack = stack[:dep]
        if stack: stack[-1].kids.append(n); n.parent = stack[-1]
        else: roots.append(n)
        stack.append(n)
    return roots


def walk(n):
    yield n
    for k in n.kids: yield from walk(k)


def var_of(n):
    """(id, name) of the variable an lvalue designates, or a description"""
    while n.kind in ("ParenExpr", "ImplicitCastExpr"): n = n.kids[0]
    if n.kind == "DeclRefExpr":
        m = re.search(r"(?:Var|ParmVar|OMPCapturedExpr) (0x[0-9a-f]+) '([^']*)'", n.text)
        if m: return ("var", m.group(1), m.group(2))
    if n.kind == "MemberExpr":
        m = re.search(r"(?:->|\.)(\w+)", n.text)
        base = n
        while base.kids: base = base.kids[0]
        if base.kind == "CXXThisExpr": return ("member", m.group(1) if m else "?", "")
        return ("elem", "", "")
    return ("elem", "", "")


def check(rel, funcs):
    """list of (name, ok, why) for every OpenMP region in the named functions of the file; [] if there is none"""
    out = []
    for f in funcs:
        p = subprocess.run(["clang++"] + FLAGS + ["-I" + STUBS, "-Xclang", "-ast-dump-filter=" + f.split("::")[-1], rel], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0: out.append(("%s: OpenMP regions readable" % f, False, p.stderr[-300:])); continue
        k = 0
        for r in tree(p.stdout):
            for n in walk(r):
                if not (n.kind.startswith("OMP") and "Parallel" in n.kind and n.kind.endswith("Directive")): continue
                k += 1
                priv, red, body = {}, {}, None
                for d in walk(n):
                    if d.kind in ("OMPPrivateClause", "OMPFirstprivateClause", "OMPLastprivateClause", "OMPLinearClause", "OMPReductionClause"):
                        for x in d.kids:
                            v = var_of(x)
                            if v[0] == "var": (red if d.kind == "OMPReductionClause" else priv)[v[1]] = (v[2], d.kind)
                bodies = [x for x in n.kids if x.kind == "CapturedStmt"]
                # the captured statement proper: first statement below each CapturedDecl
                stmts = []
                def collect(x):
                    for y in x.kids:
                        if y.kind == "CapturedDecl":
                            if y.kids: stmts.append(y.kids[0])
                        elif y.kind == "CapturedStmt": collect(y)
                for b in bodies: collect(b)
                def nodes(x):
                    """source statements only: descend through nested directives"""
                    if x.kind == "CapturedDecl":
                        if x.kids: yield from nodes(x.kids[0])
                        return
                    if x.kind.startswith("OMP") and x.kind.endswith("Clause"): return
                    if x.kind in ("OMPCapturedExprDecl", "ImplicitParamDecl", "RecordDecl"): return
                    yield x
                    if x.kind == "CapturedStmt":
                        for y in x.kids:
                            if y.kind == "CapturedDecl": yield from nodes(y)
                        return
                    kids = x.kids
                    if x.kind in ("BinaryOperator",) and x.text.rstrip().endswith("'='") and len(kids) == 2: kids = [kids[1], kids[0]]
                    if x.kind.startswith("OMP") and x.kind.endswith("Directive"): kids = [y for y in kids if y.kind == "CapturedStmt"] or kids
                    for y in kids: yield from nodes(y)
                bad = []
                loopv = set()
                for b in stmts:
                    seq = list(nodes(b))
                    inside = {re.search(r"0x[0-9a-f]+", x.text).group(0) for x in seq if x.kind == "VarDecl"}
                    # predetermined private: iteration variables of work-shared loops
                    for x in seq:
                        if x.kind.startswith("OMP") and "For" in x.kind:
                            for y in nodes(x):
                                if y.kind == "ForStmt":
                                    init = y.kids[0]
                                    if init.kind == "BinaryOperator":
                                        v = var_of(init.kids[0])
                                        if v[0] == "var": loopv.add(v[1])
                                    break
                    first = {}
                    for x in seq:
                        tgt = None; both = False
                        if x.kind == "BinaryOperator" and re.search(r"'='\s*$", x.text): tgt = x.kids[0]
                        elif x.kind == "CompoundAssignOperator": tgt = x.kids[0]; both = True
                        elif x.kind == "UnaryOperator" and re.search(r"'(\+\+|--)'", x.text): tgt = x.kids[0]; both = True
                        if tgt is not None:
                            v = var_of(tgt)
                            if v[0] == "var":
                                if v[1] in inside or v[1] in loopv: pass
                                elif v[1] in red:
                                    if not both: bad.append("reduction variable %s is overwritten" % v[2])
                                elif v[1] not in priv: bad.append("shared variable %s is written" % v[2])
                            elif v[0] == "member": bad.append("member %s is written" % v[1])
                    # private variables: first occurrence must be a plain assignment
                    for x in seq:
                        if x.kind != "DeclRefExpr": continue
                        v = var_of(x)
                        if v[0] != "var" or v[1] not in priv or v[1] in first or v[1] in loopv: continue
                        p_ = x.parent
                        while p_ is not None and p_.kind in ("ParenExpr",): p_ = p_.parent
                        w = p_ is not None and p_.kind == "BinaryOperator" and re.search(r"'='\s*$", p_.text) and p_.kids[0] in (x, x.parent)
                        first[v[1]] = bool(w)
                        if not w and priv[v[1]][1] == "OMPPrivateClause": bad.append("private variable %s is read before it is assigned" % v[2])
                out.append(("%s: OpenMP region %d: each thread writes only its own variables" % (f, k), not bad, "; ".join(sorted(set(bad)))))
    return out


def contract(rel, funcs, label=None):
    def omp_ownership(prog):
        from spec import Ctx
        c = Ctx(prog, "OpenMP ownership %s" % rel)
        for nm, ok, why in check(rel, funcs): c.ex.oblig(nm + ((" (violated: %s)" % why) if not ok else ""), TRUE if ok else FALSE, [], "frame")
        return c
    omp_ownership.label = "omp_ownership"
    return omp_ownership
