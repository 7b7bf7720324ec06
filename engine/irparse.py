"""LLVM IR front end of the verifier.

Every run compiles /repo's current source with clang (-O0, debug info) to LLVM IR, promotes
stack slots to SSA form with `opt` (sroa, simplifycfg, instsimplify, loop-simplify, lcssa), and
parses the textual IR.  Nothing of the function bodies is dropped except debug intrinsics,
lifetime markers and exceptional (unwind) edges.
"""
import os, re, subprocess, hashlib, tempfile, threading, functools

REPO = os.environ.get("VERIF_REPO", "/repo")
LLVM = "/usr/lib/llvm-18/bin"
HERE = os.path.dirname(os.path.abspath(__file__))
INCL = ["", "core", "function_objects", "solvers", "cdream", "cdream/include", "profile_fitting",
        "function_objects_1d"]
DEFS = ["-DANSI", "-DUSING_SCONS", "-DLINUX", "-DFFTW_THREADING", "-DUSE_OPENMP"]
PASSES = ("function(sroa<modify-cfg>,simplifycfg<no-sink-common-insts;no-hoist-common-insts>,"
          "instsimplify,loop-simplify,lcssa)")


class IRError(Exception):
    pass


def clang_flags():
    return (["-std=c++11"] + DEFS + ["-I" + os.path.join(REPO, d) for d in INCL]
            + ["-I" + os.path.join(HERE, "stubs"), "-w"])


def build_ir(relpath, outdir):
    """Compile one source file of /repo to optimised-for-reading IR; returns path of .ll."""
    src = os.path.join(REPO, relpath)
    base = re.sub(r"[^A-Za-z0-9]", "_", relpath)
    raw = os.path.join(outdir, base + ".raw.ll")
    out = os.path.join(outdir, base + ".ll")
    extra = ["-include", "cstring"] if relpath.endswith("imageparams_file_parser.cpp") else []
    cmd = ([os.path.join(LLVM, "clang++")] + clang_flags() + extra +
           ["-O0", "-g", "-fstandalone-debug", "-fno-discard-value-names", "-fno-math-errno",
            "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", src, "-o", raw])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise IRError("clang failed on %s:\n%s" % (relpath, r.stdout[-2000:]))
    r = subprocess.run([os.path.join(LLVM, "opt"), "-S", "-passes=" + PASSES, raw, "-o", out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise IRError("opt failed on %s:\n%s" % (relpath, r.stdout[-2000:]))
    os.unlink(raw)
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("k", "a", "n", "packed")

    def __init__(self, k, a=None, n=None, packed=False):
        self.k = k; self.a = a; self.n = n; self.packed = packed

    def __repr__(self):
        if self.k == "int": return "i%d" % self.n
        if self.k == "named": return "%" + self.a
        if self.k == "array": return "[%d x %r]" % (self.n, self.a)
        if self.k == "struct": return "{%s}" % ",".join(map(repr, self.a))
        return self.k

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|%"[^"]*"|@"[^"]*"|%[-\w.$]+|@[-\w.$]+|![-\w.]+|#\d+|"[^"]*"|0x[0-9A-FKLM]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|\.\.\.|<\{|\}>|[\w.]+|[^\s\w])''')


def tokenize(s):
    return TOK.findall(s)


class TokStream:
    def __init__(self, s):
        self.t = tokenize(s); self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]; self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError("expected %r got %r in %r" % (x, y, " ".join(self.t)))


def unq(s):
    s = s[1:]
    if s.startswith('"'): s = s[1:-1]
    return s


def parse_type(ts):
    t = ts.next()
    if re.fullmatch(r"i\d+", t): r = Ty("int", n=int(t[1:]))
    elif t in ("double", "float", "void", "ptr", "x86_fp80", "label", "metadata", "half", "token"):
        r = Ty("fp", n={"double": 64, "float": 32, "x86_fp80": 80, "half": 16}[t]) if t in (
            "double", "float", "x86_fp80", "half") else Ty(t)
    elif t == "opaque": r = Ty("opaque")
    elif t.startswith("%"): r = Ty("named", unq(t))
    elif t == "[":
        n = int(ts.next()); ts.expect("x"); e = parse_type(ts); ts.expect("]"); r = Ty("array", e, n)
    elif t == "<{" or t == "{":
        close = "}>" if t == "<{" else "}"
        el = []
        if not ts.accept(close):
            while True:
                el.append(parse_type(ts))
                if ts.accept(close): break
                ts.expect(",")
        r = Ty("struct", el, packed=(t == "<{"))
    elif t == "<":
        n = int(ts.next()); ts.expect("x"); e = parse_type(ts); ts.expect(">"); r = Ty("vector", e, n)
    else:
        raise IRError("type? %r in %r" % (t, ts.t[:40]))
    while ts.peek() == "(":      # function type
        ts.next(); d = 1
        while d:
            x = ts.next()
            d += (x == "(") - (x == ")")
        r = Ty("func", r)
    return r


ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "readonly", "writeonly",
         "returned", "inreg", "immarg", "readnone", "nofree", "noreturn", "nest", "allocptr", "swiftself",
         "dead_on_unwind", "writable", "allocalign"}


def skip_attrs(ts):
    while True:
        p = ts.peek()
        if p in ATTRS: ts.next()
        elif p == "align":
            ts.next(); ts.next()
        elif p in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "captures",
                   "range", "nofpclass", "memory"):
            ts.next()
            if ts.peek() == "(":
                d = 0
                while True:
                    x = ts.next()
                    d += (x == "(") - (x == ")")
                    if d == 0: break
        elif p is not None and p.startswith("#"): ts.next()
        else: return


# values: ('reg',name) ('int',n) ('fp',str) ('null',) ('undef',) ('global',name) ('bool',b)
# ('cexpr', op, ...) ('zero',) ('agg',[..])
def parse_value(ts, ty):
    t = ts.next()
    if t.startswith("%"): return ("reg", unq(t))
    if t.startswith("@"): return ("global", unq(t))
    if t == "null": return ("null",)
    if t in ("undef", "poison"): return ("undef",)
    if t == "true": return ("bool", True)
    if t == "false": return ("bool", False)
    if t == "zeroinitializer": return ("zero",)
    if t == "none": return ("undef",)
    if t.startswith('c"'): return ("str", t)
    if t in ("getelementptr",):
        ts.accept("inbounds")
        ts.expect("(")
        base = parse_type(ts); ts.expect(",")
        pt = parse_type(ts); pv = parse_value(ts, pt); idx = []
        while ts.accept(","):
            ts.accept("inrange")
            it = parse_type(ts); idx.append((it, parse_value(ts, it)))
        ts.expect(")")
        return ("cgep", base, (pt, pv), idx)
    if t in ("ptrtoint", "inttoptr", "bitcast", "trunc", "sub", "add"):
        d = 0; 
        while True:
            x = ts.next()
            d += (x == "(") - (x == ")")
            if d == 0: break
        return ("undef",)
    if t in ("{", "[", "<{", "<"):
        close = {"{": "}", "[": "]", "<{": "}>", "<": ">"}[t]
        el = []
        if not ts.accept(close):
            while True:
                et = parse_type(ts); el.append((et, parse_value(ts, et)))
                if ts.accept(close): break
                ts.expect(",")
        return ("agg", el)
    if ty is not None and ty.k == "fp": return ("fp", t)
    if re.fullmatch(r"-?\d+", t): return ("int", int(t))
    if t.startswith("0x"): return ("fp", t)
    raise IRError("value? %r in %r" % (t, ts.t))


class Instr:
    __slots__ = ("op", "dst", "ty", "a", "line", "raw")

    def __init__(self, op, dst, ty, a, raw, line):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.raw = raw; self.line = line

    def __repr__(self): return self.raw.strip()


class Block:
    def __init__(self, name):
        self.name = name; self.ins = []; self.succ = []; self.pred = []


class Func:
    def __init__(self, mod, name, rety, params, vararg):
        self.mod = mod; self.name = name; self.rety = rety; self.params = params; self.blocks = {}
        self.order = []; self.parsed = False; self.vararg = vararg; self.loops = None; self.dbg = None
        self.file = None


BIN = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
        "ptrtoint", "inttoptr", "addrspacecast"}
FLAGS = {"nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds",
         "disjoint", "nneg", "volatile", "atomic"}

DBGRE = re.compile(r", !dbg !(\d+)")


def parse_instr(line):
    m = DBGRE.search(line)
    dbg = int(m.group(1)) if m else None
    raw = line
    line = re.sub(r",? ![\w.]+ !\d+", "", line)
    ts = TokStream(line)
    dst = None
    if ts.peek().startswith("%") and ts.peek(1) == "=":
        dst = unq(ts.next()); ts.next()
    op = ts.next()
    if op in ("tail", "musttail", "notail"):
        op = ts.next()
    I = lambda ty, a: Instr(op, dst, ty, a, raw, dbg)
    if op in BIN:
        fl = set()
        while ts.peek() in FLAGS: fl.add(ts.next())
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(","); b = parse_value(ts, ty)
        return I(ty, (a, b, fl))
    if op == "fneg":
        while ts.peek() in FLAGS: ts.next()
        ty = parse_type(ts); return I(ty, (parse_value(ts, ty),))
    if op in ("icmp", "fcmp"):
        while ts.peek() in FLAGS: ts.next()
        p = ts.next(); ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(","); b = parse_value(ts, ty)
        return I(ty, (p, a, b))
    if op in CAST:
        while ts.peek() in FLAGS: ts.next()
        ty = parse_type(ts); v = parse_value(ts, ty); ts.expect("to"); t2 = parse_type(ts)
        return I(t2, (ty, v))
    if op == "alloca":
        ts.accept("inalloca")
        ty = parse_type(ts); n = None
        if ts.accept(","):
            if ts.peek() != "align":
                nt = parse_type(ts); n = (nt, parse_value(ts, nt))
        return I(ty, (n,))
    if op == "load":
        while ts.peek() in FLAGS: ts.next()
        ty = parse_type(ts); ts.expect(","); pt = parse_type(ts); p = parse_value(ts, pt)
        return I(ty, (p,))
    if op == "store":
        while ts.peek() in FLAGS: ts.next()
        ty = parse_type(ts); v = parse_value(ts, ty); ts.expect(","); pt = parse_type(ts); p = parse_value(ts, pt)
        return I(ty, (v, p))
    if op == "getelementptr":
        while ts.peek() in FLAGS: ts.next()
        base = parse_type(ts); ts.expect(","); pt = parse_type(ts); p = parse_value(ts, pt); idx = []
        while ts.accept(","):
            it = parse_type(ts); idx.append((it, parse_value(ts, it)))
        return I(base, (p, idx))
    if op == "phi":
        while ts.peek() in FLAGS: ts.next()
        ty = parse_type(ts); inc = []
        while True:
            ts.expect("["); v = parse_value(ts, ty); ts.expect(","); b = unq(ts.next()); ts.expect("]")
            inc.append((v, b))
            if not ts.accept(","): break
        return I(ty, inc)
    if op == "select":
        while ts.peek() in FLAGS: ts.next()
        ct = parse_type(ts); c = parse_value(ts, ct); ts.expect(","); t1 = parse_type(ts); v1 = parse_value(ts, t1)
        ts.expect(","); t2 = parse_type(ts); v2 = parse_value(ts, t2)
        return I(t1, (c, v1, v2))
    if op == "freeze":
        ty = parse_type(ts); return I(ty, (parse_value(ts, ty),))
    if op in ("call", "invoke"):
        while ts.peek() in FLAGS or ts.peek() in ("fastcc", "ccc"): ts.next()
        skip_attrs(ts)
        ty = parse_type(ts)
        if ty.k == "func": ty = ty.a
        callee = parse_value(ts, None) if ts.peek() != "asm" else None
        if callee is None:
            return I(ty, (("asm",), [], None, None))
        ts.expect("("); args = []
        if not ts.accept(")"):
            while True:
                at = parse_type(ts)
                if at.k == "metadata":
                    d = 0
                    while not (d == 0 and ts.peek() in (",", ")")):
                        x = ts.next(); d += (x in "({[") - (x in ")}]")
                    args.append((at, ("undef",)))
                else:
                    skip_attrs(ts)
                    args.append((at, parse_value(ts, at)))
                if ts.accept(")"): break
                ts.expect(",")
        nd = ud = None
        if op == "invoke":
            while ts.peek() is not None and ts.peek() != "to": ts.next()
            ts.expect("to"); ts.expect("label"); nd = unq(ts.next()); ts.expect("unwind"); ts.expect("label"); ud = unq(ts.next())
        return I(ty, (callee, args, nd, ud))
    if op == "br":
        if ts.peek() == "label":
            ts.next(); return I(None, (None, unq(ts.next()), None))
        t = parse_type(ts); c = parse_value(ts, t); ts.expect(","); ts.expect("label"); a = unq(ts.next())
        ts.expect(","); ts.expect("label"); b = unq(ts.next())
        return I(None, (c, a, b))
    if op == "switch":
        t = parse_type(ts); v = parse_value(ts, t); ts.expect(","); ts.expect("label"); d = unq(ts.next()); ts.expect("[")
        cs = []
        while not ts.accept("]"):
            ct = parse_type(ts); cv = parse_value(ts, ct); ts.expect(","); ts.expect("label"); cs.append((cv, unq(ts.next())))
        return I(t, (v, d, cs))
    if op == "ret":
        t = parse_type(ts)
        if t.k == "void": return I(t, (None,))
        return I(t, (parse_value(ts, t),))
    if op == "unreachable": return I(None, ())
    if op in ("extractvalue",):
        t = parse_type(ts); v = parse_value(ts, t); ix = []
        while ts.accept(","): ix.append(int(ts.next()))
        return I(t, (v, ix))
    if op == "insertvalue":
        t = parse_type(ts); v = parse_value(ts, t); ts.expect(","); t2 = parse_type(ts); v2 = parse_value(ts, t2); ix = []
        while ts.accept(","): ix.append(int(ts.next()))
        return I(t, (v, t2, v2, ix))
    if op in ("landingpad", "resume", "fence", "cmpxchg", "atomicrmw", "va_arg", "extractelement", "insertelement",
              "shufflevector", "cleanup", "filter", "catch", "indirectbr"):
        return I(None, ())
    raise IRError("instr? " + raw)


class Module:
    def __init__(self, path, rel):
        self.path = path; self.rel = rel
        self.structs = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.md = {}
        self._lines = open(path).read().split("\n")
        self._scan()
        self._size = {}
        self._composites = None

    def _scan(self):
        L = self._lines
        i = 0
        n = len(L)
        while i < n:
            s = L[i]
            if s.startswith("%"):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', s)
                if m: self.structs[unq(m.group(1))] = m.group(2)
            elif s.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-\w.$]+) = (.*)$', s)
                if m: self.globals[unq(m.group(1))] = m.group(2)
            elif s.startswith("define"):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', s)
                j = i
                while L[j] != "}": j += 1
                self.funcs[unq(m.group(1))] = (i, j)
                i = j
            elif s.startswith("declare"):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', s)
                self.decls[unq(m.group(1))] = s
            elif s.startswith("!"):
                m = re.match(r"!(\d+) = (.*)$", s)
                if m: self.md[int(m.group(1))] = m.group(2)
            i += 1
        self._parsed = {}

    # --- types
    def struct(self, name):
        v = self.structs.get(name)
        if v is None: raise IRError("unknown struct " + name)
        if isinstance(v, str):
            v = parse_type(TokStream(v)); self.structs[name] = v
        return v

    def resolve(self, ty):
        while ty.k == "named": ty = self.struct(ty.a)
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == "int": return max(1, min(16, ty.n // 8)) if ty.n >= 8 else 1
        if ty.k == "fp": return {64: 8, 32: 4, 80: 16, 16: 2}[ty.n]
        if ty.k == "ptr": return 8
        if ty.k in ("array", "vector"): return self.align(ty.a)
        if ty.k == "struct":
            if ty.packed or not ty.a: return 1
            return max(self.align(e) for e in ty.a)
        return 8

    def sizeof(self, ty):
        key = repr(ty) if ty.k != "named" else "%" + ty.a
        if key in self._size: return self._size[key]
        t = self.resolve(ty)
        if t.k == "int": r = max(1, (t.n + 7) // 8)
        elif t.k == "fp": r = {64: 8, 32: 4, 80: 16, 16: 2}[t.n]
        elif t.k in ("ptr",): r = 8
        elif t.k in ("array", "vector"): r = t.n * self.sizeof(t.a)
        elif t.k == "struct":
            off = 0
            for e in t.a:
                if not t.packed:
                    a = self.align(e); off = (off + a - 1) // a * a
                off += self.sizeof(e)
            if not t.packed and t.a:
                a = self.align(t); off = (off + a - 1) // a * a
            r = off
        elif t.k in ("opaque", "func", "void"): r = 1
        else: raise IRError("sizeof %r" % t)
        self._size[key] = r
        return r

    def field_offset(self, ty, i):
        t = self.resolve(ty)
        off = 0
        for k, e in enumerate(t.a):
            if not t.packed:
                a = self.align(e); off = (off + a - 1) // a * a
            if k == i: return off, e
            off += self.sizeof(e)
        raise IRError("field")

    # --- functions
    def func(self, name):
        if name in self._parsed: return self._parsed[name]
        i, j = self.funcs[name]
        hdr = self._lines[i]
        m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', hdr)
        pre = hdr[len("define"):m.start()]
        toks = TokStream(pre)
        LINK = {"dso_local", "internal", "linkonce_odr", "weak_odr", "hidden", "private", "external", "available_externally",
                "fastcc", "unnamed_addr", "local_unnamed_addr", "weak", "linkonce", "protected", "dso_preemptable", "noundef"}
        while toks.peek() in LINK: toks.next()
        skip_attrs(toks)
        rety = parse_type(toks)
        # params
        k = m.end(); d = 1; st = k
        inq = False
        while d:
            ch = hdr[k]
            if ch == '"': inq = not inq
            elif not inq:
                d += (ch == "(") - (ch == ")")
            k += 1
        ps = TokStream(hdr[st:k - 1]); params = []; vararg = False
        while ps.peek() is not None:
            if ps.accept("..."):
                vararg = True; break
            t = parse_type(ps); skip_attrs(ps)
            params.append((t, unq(ps.next())))
            ps.accept(",")
        F = Func(self, name, rety, params, vararg)
        mm = re.search(r"!dbg !(\d+)", hdr[k:])
        F.dbg = int(mm.group(1)) if mm else None
        cur = None
        buf = None
        first = True
        for ln in self._lines[i + 1:j]:
            if not ln.strip(): continue
            if not ln.startswith(" "):
                m = re.match(r'("[^"]*"|[-\w.$]+):', ln)
                if m:
                    nm = m.group(1).strip('"'); cur = Block(nm); F.blocks[nm] = cur; F.order.append(nm)
                continue
            if cur is None:
                cur = Block(str(len(params))); F.blocks[cur.name] = cur; F.order.append(cur.name)
            if buf is not None:
                buf += " " + ln.strip()
                if ln.strip().startswith("]"):
                    cur.ins.append(parse_instr(buf)); buf = None
                continue
            s = ln.strip()
            if s.startswith("switch") and not re.search(r"\](, !dbg.*)?$", s):
                buf = s; continue
            if s.startswith(("cleanup", "catch ", "filter ")): continue
            if s.startswith("invoke") or re.match(r"%\S+ = invoke", s):
                buf2 = s; cur._pend = s; continue
            if s.startswith("to label") and getattr(cur, "_pend", None):
                s = cur._pend + " " + s; cur._pend = None
            if "@llvm.dbg." in s or "@llvm.lifetime" in s: continue
            cur.ins.append(parse_instr(s))
        for b in F.blocks.values():
            t = b.ins[-1]
            if t.op == "br": b.succ = [x for x in t.a[1:] if x is not None]
            elif t.op == "switch": b.succ = [t.a[1]] + [x for _, x in t.a[2]]
            elif t.op == "invoke": b.succ = [t.a[2]]
            else: b.succ = []
            seen = []
            for s in b.succ:
                if s not in seen: seen.append(s)
            b.succ_u = seen
        for b in F.blocks.values():
            for s in b.succ_u: F.blocks[s].pred.append(b.name)
        F.entry = F.order[0]
        self._parsed[name] = F
        return F

    # --- debug info
    def mdget(self, n, key):
        s = self.md.get(n)
        if s is None: return None
        m = re.search(r'\b%s: ("(?:[^"\\]|\\.)*"|[^,)]+)' % key, s)
        if not m: return None
        v = m.group(1)
        if v.startswith('"'): return v[1:-1]
        return v

    def mdlist(self, n):
        s = self.md.get(n, "")
        return [int(x) for x in re.findall(r"!(\d+)", s)]

    def ref(self, v):
        return int(v[1:]) if v and v.startswith("!") and v[1:].isdigit() else None

    def composites(self):
        if self._composites is None:
            d = {}
            for n, s in self.md.items():
                if "DICompositeType(tag: DW_TAG_class_type" in s or "DICompositeType(tag: DW_TAG_structure_type" in s:
                    if "flags: DIFlagFwdDecl" in s and "elements:" not in s: continue
                    nm = self.mdget(n, "name")
                    if nm and nm not in d: d[nm] = n
            self._composites = d
        return self._composites

    def tname(self, n):
        """readable name of a DI type"""
        if n is None: return "void"
        s = self.md.get(n, "")
        if "DIBasicType" in s or "DICompositeType" in s: return self.mdget(n, "name") or "?"
        if "DIDerivedType" in s:
            tag = self.mdget(n, "tag"); b = self.ref(self.mdget(n, "baseType"))
            if tag == "DW_TAG_pointer_type": return self.tname(b) + "*"
            if tag in ("DW_TAG_const_type", "DW_TAG_volatile_type"): return self.tname(b)
            if tag == "DW_TAG_typedef":
                return self.tname(b)
            if tag in ("DW_TAG_reference_type",): return self.tname(b) + "&"
        return "?"

    def members(self, cls):
        """list of (name, byte offset, DI type id) incl. inherited; None if class unknown here"""
        n = self.composites().get(cls)
        if n is None: return None
        out = []
        el = self.ref(self.mdget(n, "elements"))
        for e in self.mdlist(el) if el is not None else []:
            s = self.md.get(e, "")
            if "tag: DW_TAG_member" in s and "DIFlagStaticMember" not in s:
                off = int(self.mdget(e, "offset") or 0) // 8
                out.append((self.mdget(e, "name"), off, self.ref(self.mdget(e, "baseType"))))
            elif "tag: DW_TAG_inheritance" in s:
                off = int(self.mdget(e, "offset") or 0) // 8
                b = self.ref(self.mdget(e, "baseType"))
                bn = self.mdget(b, "name")
                sub = self.members(bn) or []
                out += [(a, o + off, t) for a, o, t in sub]
        return out

    def bases(self, cls):
        n = self.composites().get(cls)
        r = []
        if n is None: return r
        el = self.ref(self.mdget(n, "elements"))
        for e in self.mdlist(el) if el is not None else []:
            if "tag: DW_TAG_inheritance" in self.md.get(e, ""):
                r.append(self.mdget(self.ref(self.mdget(e, "baseType")), "name"))
        return r

    def virtual_slot(self, cls, slot):
        """linkage name of the virtual method in vtable slot `slot` as declared in cls or a base"""
        n = self.composites().get(cls)
        if n is None: return None
        el = self.ref(self.mdget(n, "elements"))
        for e in self.mdlist(el) if el is not None else []:
            s = self.md.get(e, "")
            if "DISubprogram" in s and "virtualIndex" in s or ("DISubprogram" in s and "DISPFlagVirtual" in s) or ("DISPFlagPureVirtual" in s):
                vi = self.mdget(e, "virtualIndex")
                vi = int(vi) if vi is not None else 0
                if vi == slot:
                    ln = self.mdget(e, "linkageName")
                    nm = self.mdget(e, "name")
                    if nm and nm.startswith("~"): 
                        return "dtor"
                    return ln
        for b in self.bases(cls):
            r = self.virtual_slot(b, slot)
            if r: return r
        return None

    def line_of(self, dbg):
        if dbg is None: return None
        v = self.mdget(dbg, "line")
        return int(v) if v else None


class Program:
    """All translation units a check needs; symbol -> Module lookup."""

    def __init__(self, rels, outdir):
        from concurrent.futures import ThreadPoolExecutor
        self.mods = []
        self.where = {}
        with ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(lambda r: build_ir(r, outdir), rels))
        for r, p in zip(rels, paths):
            m = Module(p, r)
            self.mods.append(m)
            for f in m.funcs: self.where.setdefault(f, m)
        self._dem = {}

    def func(self, name):
        m = self.where.get(name)
        return m.func(name) if m else None

    def demangle_all(self):
        names = list(self.where)
        for m in self.mods: names += [d for d in m.decls]
        names = list(dict.fromkeys(names))
        r = subprocess.run([os.path.join(LLVM, "llvm-cxxfilt")], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        self._dem = dict(zip(names, r.stdout.split("\n")))

    def demangle(self, n):
        if not self._dem: self.demangle_all()
        if n not in self._dem:
            r = subprocess.run([os.path.join(LLVM, "llvm-cxxfilt"), n], stdout=subprocess.PIPE, text=True)
            self._dem[n] = r.stdout.strip()
        return self._dem[n]

    def find(self, dem):
        """mangled names of defined functions whose demangled name starts with `dem`( """
        if not self._dem: self.demangle_all()
        return [n for n in self.where if self._dem[n].split("(")[0] == dem or self._dem[n] == dem]
