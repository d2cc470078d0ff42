"""Loader and basic queries for the control-flow graphs written by tool/irx."""
import json
import re
from collections import defaultdict


class Instr:
    __slots__ = ("id", "op", "loc", "a", "blk", "pos", "fn")

    def __init__(self, fn, blk, pos, raw):
        self.fn = fn
        self.id = raw[0]
        self.op = raw[1]
        self.loc = raw[2]
        self.a = raw[3:]
        self.blk = blk
        self.pos = pos

    def __repr__(self):
        return "<%s %s %s>" % (self.id, self.op, self.a)

    # ---- calls -----------------------------------------------------------
    @property
    def is_call(self):
        return self.op in ("call", "invoke")

    @property
    def callee(self):
        """index into mod.ftab, or None for an indirect call"""
        c = self.a[1]
        return c if isinstance(c, int) else None

    @property
    def cname(self):
        c = self.callee
        return self.fn.mod.ftab[c][2] if c is not None else None

    @property
    def cfull(self):
        c = self.callee
        return self.fn.mod.ftab[c][1] if c is not None else None

    @property
    def args(self):
        return self.a[2]

    @property
    def nothrow(self):
        return bool(self.a[3])

    def line(self):
        return self.fn.mod.loc_str(self.loc)


class Block:
    __slots__ = ("id", "ins", "succ", "preds", "unwind")


class Func:
    def __init__(self, mod, j):
        self.mod = mod
        self.j = j
        self.fid = j["f"]
        self.link, self.full, self.short = mod.ftab[self.fid][:3]
        self.acc = j["acc"]
        self.nargs = len(j["args"])
        self.blocks = []
        self.defs = {}
        self.is_const = bool(re.search(r"\) const( &+)?$", self.full))
        self.is_static = bool(j.get("static"))
        for bi, bj in enumerate(j["blocks"]):
            b = Block()
            b.id = bi
            b.ins = [Instr(self, b, p, r) for p, r in enumerate(bj["i"])]
            b.preds = []
            b.unwind = None
            self.blocks.append(b)
            for i in b.ins:
                self.defs[i.id] = i
        for b in self.blocks:
            t = b.ins[-1]
            if t.op == "br":
                b.succ = [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == "invoke":
                b.succ = [t.a[4], t.a[5]]
                b.unwind = t.a[5]
            else:
                b.succ = []
            for s in b.succ:
                self.blocks[s].preds.append(b.id)
        # debug variables: value id -> [(declare?, name, type, argno, inlined)]
        self.vars = defaultdict(list)
        for v in j["vars"]:
            self.vars[v[0]].append(tuple(v[1:]))
        self._roots = {}
        self._acont = None

    @property
    def file(self):
        return self.mod.files[self.j["file"]] if "file" in self.j else "?"

    @property
    def where(self):
        return "%s:%s" % (self.mod.rel(self.file), self.j.get("line", "?"))

    def sig(self):
        """readable signature without template arguments"""
        return strip_templates(self.full)

    def instrs(self):
        for b in self.blocks:
            for i in b.ins:
                yield i

    def calls(self):
        for i in self.instrs():
            if i.op in ("call", "invoke"):
                yield i

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.blocks[0].succ))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def argtype(self, i):
        """debug type id of argument i, through the pointer/reference"""
        for d, name, ty, argno, inl in self.vars.get(i, ()):
            if not inl and argno:
                return ty
        return None

    # ---- where does a pointer point? ----------------------------------
    def roots(self, v):
        """Over-approximation of the objects a pointer value may lead into.

        Result: frozenset of
          ('arg', n)    memory reachable from argument n
          ('loc', id)   a local object (alloca) or its storage
          ('new', id)   an object returned by an opaque call / operator new
          ('glob', nm)  a global
          ('unk',)      anything
        """
        if not isinstance(v, int):
            return self._const_roots(v)
        r = self._roots.get(v)
        if r is not None:
            return r
        self._solve_roots()
        return self._roots.get(v, frozenset())

    def _const_roots(self, v):
        if not isinstance(v, list):
            return frozenset()
        if v[0] == "g":
            return frozenset([("glob", v[1])])
        if v[0] == "F":
            return frozenset()
        if v[0] == "ce":
            s = frozenset()
            for o in v[2:]:
                s |= self.roots(o)
            return s
        return frozenset()

    def _solve_roots(self):
        """flow-insensitive fixpoint over SSA values and the contents of local objects"""
        R = defaultdict(frozenset)   # value -> roots
        C = defaultdict(frozenset)   # local object -> roots of pointers stored in it
        for a in range(self.nargs):
            ptr = self.j["args"][a][1]
            if ptr:
                R[a] = frozenset([("loc", a)]) if self.j["args"][a][2] else frozenset([("arg", a)])
            else:
                R[a] = frozenset()
        ins = list(self.instrs())

        def rt(o):
            return R[o] if isinstance(o, int) else self._const_roots(o)

        changed = True
        rounds = 0
        while changed and rounds < 60:
            changed = False
            rounds += 1

            def put(k, s):
                nonlocal changed
                if not s <= R[k]:
                    R[k] = R[k] | s
                    changed = True

            def cput(o, s):
                nonlocal changed
                if not s <= C[o]:
                    C[o] = C[o] | s
                    changed = True

            for i in ins:
                op = i.op
                if op == "gep":
                    put(i.id, rt(i.a[0]))
                elif op == "load":
                    if i.a[0] != "ptr" and i.a[0] != "i64" and i.a[0] != "struct":
                        continue
                    s = frozenset()
                    for o in rt(i.a[1]):
                        if o[0] in ("loc", "new"):
                            s |= C[o]
                        else:
                            s |= frozenset([o])
                    put(i.id, s)
                elif op == "store":
                    s = rt(i.a[1])
                    if s:
                        for o in rt(i.a[2]):
                            if o[0] in ("loc", "new"):
                                cput(o, s)
                elif op == "alloca":
                    put(i.id, frozenset([("loc", i.id)]))
                elif op in ("phi",):
                    s = frozenset()
                    for v, _ in i.a[1]:
                        s |= rt(v)
                    put(i.id, s)
                elif op == "select":
                    put(i.id, rt(i.a[2]) | rt(i.a[3]))
                elif op in ("call", "invoke"):
                    nm = i.cname or "<indirect>"
                    args = i.args
                    if nm.startswith("llvm.memcpy") or nm.startswith("llvm.memmove"):
                        s = frozenset()
                        for o in rt(args[1]):
                            s |= C[o] if o[0] in ("loc", "new") else frozenset([o])
                        for o in rt(args[0]):
                            if o[0] in ("loc", "new"):
                                cput(o, s)
                        continue
                    if nm.startswith("llvm.") or nm in ("operator new", "operator new[]"):
                        if nm.startswith("operator"):
                            put(i.id, frozenset([("new", i.id)]))
                        continue
                    allr = frozenset()
                    for x in args:
                        allr |= rt(x)
                    if is_accessor(nm):
                        # returns a pointer into the object's own storage
                        put(i.id, rt(args[0]) if args else frozenset())
                        if args and nm.split("::")[-1] in ("end", "begin", "cbegin", "cend", "rbegin", "rend"):
                            for o in rt(args[0]):
                                pass
                        # sret result: pointer is stored in the local
                        if i.a[0] == "void" and len(args) >= 2:
                            for o in rt(args[0]):
                                if o[0] in ("loc", "new"):
                                    cput(o, rt(args[1]))
                        continue
                    # opaque call: may store any argument pointer (or what it reaches) in a local argument
                    if allr:
                        reach = frozenset()
                        for o in allr:
                            reach |= frozenset([o]) | (C[o] if o[0] in ("loc", "new") else frozenset())
                        for x in args:
                            for o in rt(x):
                                if o[0] in ("loc", "new"):
                                    cput(o, reach - frozenset([o]))
                    if returns_fresh(nm):
                        put(i.id, frozenset([("new", i.id)]))
                    else:
                        s = frozenset([("new", i.id)])
                        for o in allr:
                            s |= frozenset([o]) | (C[o] if o[0] in ("loc", "new") else frozenset())
                        put(i.id, s)
                elif op in ("extractvalue",):
                    put(i.id, rt(i.a[1]))
                elif op == "insertvalue":
                    put(i.id, rt(i.a[0]) | rt(i.a[1]))
                elif op in ("ptrtoint", "inttoptr", "bitcast", "add", "sub", "freeze", "and", "or", "xor"):
                    s = frozenset()
                    for o in i.a[1:]:
                        s |= rt(o)
                    put(i.id, s)
                elif op == "landingpad":
                    pass
        self._roots = dict(R)
        self._acont = dict(C)

    # ---- field naming ------------------------------------------------------
    def field_path(self, v, depth=0):
        """('arg', i, 'a.b.c') style description of an address, best effort text"""
        if depth > 12:
            return "?"
        if not isinstance(v, int):
            return json.dumps(v)
        if v < self.nargs:
            for d, name, ty, argno, inl in self.vars.get(v, ()):
                if not inl and name:
                    return name
            return "arg%d" % v
        i = self.defs[v]
        if i.op == "gep":
            base, off = i.a[0], i.a[1]
            t = self.pointee(base)
            s = self.field_path(base, depth + 1)
            if i.a[2]:
                return s + "[..]"
            if t is not None:
                n = self.mod.member_at(t, off)
                if n:
                    return s + "." + n
            return s + ("+%d" % off if off else "")
        if i.op == "load":
            return "*(" + self.field_path(i.a[1], depth + 1) + ")"
        if i.op == "alloca":
            for d, name, ty, argno, inl in self.vars.get(v, ()):
                if name:
                    return "local " + name
            return "local"
        if i.is_call:
            nm = (i.cname or "?").split("::")[-1]
            return "%s(%s)" % (nm, ", ".join(self.field_path(x, depth + 1) for x in i.args[:3]))
        return i.op

    def pointee(self, v, depth=0):
        """debug type id of the object a pointer value points at, or None"""
        if not isinstance(v, int) or depth > 20:
            return None
        mod = self.mod
        for d, name, ty, argno, inl in self.vars.get(v, ()):
            if d:
                return mod.strip(ty)
            t = mod.strip(ty)
            b = mod.deref(t)
            if b is not None:
                return mod.strip(b)
        if v < self.nargs:
            return None
        i = self.defs[v]
        if i.op == "gep" and not i.a[2]:
            t = self.pointee(i.a[0], depth + 1)
            if t is not None:
                if i.a[1] == 0:
                    return t
                r = mod.type_at(t, i.a[1])
                return r
        if i.op == "load":
            t = self.pointee(i.a[1], depth + 1)
            if t is not None:
                t = mod.leaf0(t)
                b = mod.deref(t)
                if b is not None:
                    return mod.strip(b)
        return None


_ACC = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "crbegin", "crend", "operator[]", "at", "front", "back",
        "data", "get", "operator->", "operator*", "base", "find", "lower_bound", "upper_bound", "equal_range",
        "size", "empty", "capacity", "c_str", "length"}


def is_accessor(nm):
    parts = nm.split("::")
    return parts[0] in ("std", "__gnu_cxx") and parts[-1] in _ACC


def returns_fresh(nm):
    return nm in ("operator new", "operator new[]", "__cxa_allocate_exception", "malloc")


def strip_templates(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        for opn in ("operator<=>", "operator<<", "operator>>", "operator<=", "operator>=", "operator->", "operator<", "operator>"):
            if d == 0 and s.startswith(opn, i):
                out.append(opn)
                i += len(opn)
                break
        else:
            c = s[i]
            if c == "<":
                d += 1
            elif c == ">" and d:
                d -= 1
            elif d == 0:
                out.append(c)
            i += 1
    return "".join(out)


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.path = path
        self.ftab = d["ftab"]
        self.sps = d["sps"]
        self.files = d["files"]
        self.types = d["types"]
        self.not_inlined = d["not_inlined"]
        self.raw = d["functions"]
        self.consts = d.get("consts", {})
        self.byname = defaultdict(list)
        for j in self.raw:
            self.byname[self.ftab[j["f"]][2]].append(j)
        self._cache = {}

    @staticmethod
    def rel(f):
        for p in ("/include/mdds/",):
            k = f.find(p)
            if k >= 0:
                return "include/mdds/" + re.sub(r"^\./", "", f[k + len(p):].replace("/./", "/"))
        return f

    def func(self, j):
        k = j["f"]
        if k not in self._cache:
            self._cache[k] = Func(self, j)
        return self._cache[k]

    def funcs(self, pred=None):
        for j in self.raw:
            if pred is None or pred(self.ftab[j["f"]], j):
                yield self.func(j)

    def drop(self, f):
        self._cache.pop(f.fid, None)

    def loc_str(self, loc):
        if not loc:
            return "?"
        return "%s:%d" % (self.rel(self.files[loc[0]]), loc[1])

    def loc_chain(self, loc):
        """innermost-first list of (file, line, function) for an instruction inlined into an entry"""
        if not loc:
            return []
        return [(self.rel(self.files[loc[k]]), loc[k + 1], self.sps[loc[k + 2]] if loc[k + 2] >= 0 else "?")
                for k in range(0, len(loc), 3)]

    def chain_str(self, loc):
        """innermost mdds frame + the call path that leads to it"""
        ch = self.loc_chain(loc)
        md = [c for c in ch if c[0].startswith("include/mdds")]
        if not md:
            md = ch[:1]
        return " <- ".join("%s:%d (%s)" % (f, l, n.split("::")[-1]) for f, l, n in md)

    # ---- types -----------------------------------------------------------
    def strip(self, t):
        while t is not None and t >= 0:
            ty = self.types[t]
            if ty["t"] in ("DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type"):
                t = ty.get("b", -1)
                continue
            return t
        return None

    def deref(self, t):
        if t is None or t < 0:
            return None
        ty = self.types[t]
        if ty["t"] in ("DW_TAG_pointer_type", "DW_TAG_reference_type", "DW_TAG_rvalue_reference_type"):
            b = ty.get("b", -1)
            return b if b >= 0 else None
        return None

    def members(self, t):
        t = self.strip(t)
        if t is None:
            return []
        return self.types[t].get("m", [])

    def tname(self, t):
        t = self.strip(t)
        if t is None:
            return "?"
        return self.types[t]["n"]

    def member_at(self, t, off):
        """dotted member name at a byte offset (outermost struct down to the exact offset)"""
        t = self.strip(t)
        if t is None:
            return None
        for n, o, s, ty, _ in self.members(t):
            if o <= off < o + max(s, 1):
                sub = self.strip(ty)
                if off == o and (sub is None or not self.types[sub].get("m") or not self._own(sub)):
                    return n
                if sub is not None and self._own(sub):
                    r = self.member_at(sub, off - o)
                    if r:
                        return r if n == "<base>" else n + "." + r
                return n if n != "<base>" else self.member_at(sub, off - o)
        return None

    def _own(self, t):
        ident = self.types[t].get("id", "")
        return "mdds::" in ident.split("<")[0] or "drv" in ident.split("<")[0] or self.types[t]["n"] == ""

    def type_at(self, t, off):
        t = self.strip(t)
        while t is not None:
            for n, o, s, ty, _ in self.members(t):
                if o <= off < o + max(s, 1):
                    if off == o:
                        sub = self.strip(ty)
                        return sub
                    t = self.strip(ty)
                    off -= o
                    break
            else:
                return None
        return None

    def leaf0(self, t):
        """type of the scalar at offset 0 of an object type"""
        t = self.strip(t)
        for _ in range(8):
            if t is None:
                return None
            m = self.members(t)
            if not m:
                return t
            nt = None
            for n, o, s, ty, _ in m:
                if o == 0:
                    nt = self.strip(ty)
                    break
            if nt is None:
                return t
            t = nt
        return t
