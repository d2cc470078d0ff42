"""Segment-list model of multi_type_vector for the abstract interpreter.

A container starts as an unknown canonical block list: one *gap* (any number of blocks).  A
gap is split into [gap | cell | gap] when the code looks at one of its blocks; the block
arrays of the container are lists of cells and gaps that refer to the same pieces, so that
an edit of one array shows up as a difference between the arrays.  Element blocks are
objects with a type, a content (a list of segments of the original element sequence and of
the inserted values) and an owner; the element API calls (append_block, erase, ...) are the
transfer functions on those contents.
"""
import re
import lin
from lin import const, add, sub
from absint import Fork, Stop, fresh, Model, is_ptr, is_lin, PNULL

Z = lin.ZERO
ONE = const(1)


class MS:
    __slots__ = ("uni", "pi", "vecs", "ep", "blk", "destroyed", "generic", "esz", "touched", "log", "wrote", "nblk", "gone")

    def copy(self):
        m = MS.__new__(MS)
        m.uni = dict(self.uni)
        m.pi = dict(self.pi)
        m.vecs = dict(self.vecs)
        m.ep = dict(self.ep)
        m.blk = dict(self.blk)
        m.destroyed = self.destroyed
        m.generic = self.generic
        m.esz = dict(self.esz)
        m.touched = self.touched
        m.log = self.log
        m.wrote = self.wrote
        m.nblk = self.nblk
        m.gone = self.gone
        return m


def new_ms():
    m = MS.__new__(MS)
    m.uni, m.pi, m.vecs, m.ep, m.blk, m.esz = {}, {}, {}, {}, {}, {}
    m.destroyed = ()
    m.generic = ()
    m.touched = ()
    m.log = ()
    m.wrote = None
    m.nblk = 0
    m.gone = ()
    return m


class Piece:
    """immutable"""
    __slots__ = ("kind", "cont", "len", "cnt", "null", "status")

    def __init__(self, kind, cont, ln, cnt, null=None, status=None):
        self.kind, self.cont, self.len, self.cnt, self.null, self.status = kind, cont, ln, cnt, null, status

    def but(self, **k):
        p = Piece(self.kind, self.cont, self.len, self.cnt, self.null, self.status)
        for a, b in k.items():
            setattr(p, a, b)
        return p


# status of the non-null members of a gap: (content 'full'/'empty', alive, ((cont, net events),...))


class Blk:
    __slots__ = ("type", "content", "alive", "ev", "origin")

    def __init__(self, ty, content, alive, ev, origin):
        self.type, self.content, self.alive, self.ev, self.origin = ty, content, alive, ev, origin

    def but(self, **k):
        b = Blk(self.type, self.content, self.alive, self.ev, self.origin)
        for a, v in k.items():
            setattr(b, a, v)
        return b


def plen(p):
    return p[-1]


class MtvModel(Model):
    """Model hooks.  `conts` maps an argument region to a container name; the owner sets up
    the vectors with setup()."""

    def __init__(self, mod, func, layout):
        self.mod = mod
        self.f = func
        self.layout = layout
        self.conts = {}
        self.registry = {}
        self.spec = None
        self.evoff = 0
        self.n_ops = {}

    # ---- set-up -----------------------------------------------------------
    def setup(self, st, cont, reg, off_pos, off_size, off_data, off_cur, off_ev, aos_off=None, rec=None):
        """install an arbitrary canonical container at region reg"""
        m = st.m
        self.conts[reg] = cont
        g = "G:%s" % cont
        L, N = fresh("L" + cont), fresh("n" + cont)
        st.dom.set_lb(L, 0)
        st.dom.set_lb(N, 0)
        st.dom.add_ge0(sub(lin.sym(L), lin.sym(N)))
        m.pi[g] = Piece("g", cont, lin.sym(L), lin.sym(N), None, ("full", True, ((cont, 1),)))
        m.uni[cont] = (g,)
        if self.layout == "soa":
            for off, role in ((off_pos, "pos"), (off_size, "size"), (off_data, "data")):
                k = (reg, off)
                m.vecs[k] = (("g", g, ((0, role, Z if role == "pos" else None),)),)
                m.esz[k] = 8
                m.ep[k] = 0
        else:
            k = (reg, aos_off)
            m.vecs[k] = (("g", g, ((off_pos, "pos", Z), (off_size, "size", None), (off_data, "data", None))),)
            m.esz[k] = rec
            m.ep[k] = 0
        self.I.raw_store(st, reg, off_cur, lin.sym(L)) if False else st.mem.setdefault(reg, {}).__setitem__(off_cur, lin.sym(L))
        return lin.sym(L)

    # ---- universe -----------------------------------------------------------
    def oldpos(self, st, pid):
        m = st.m
        s = Z
        for q in m.uni[m.pi[pid].cont]:
            if q == pid:
                return st.dom.norm(s)
            s = add(s, m.pi[q].len)
        raise KeyError(pid)

    def clean(self, st):
        """drop gaps that are known to be empty"""
        m = st.m
        for cont, u in list(m.uni.items()):
            for pid in u:
                p = m.pi[pid]
                if p.kind == "g":
                    c = st.dom.norm(p.cnt)
                    if (not c[1] and c[0] == 0) or (c[1] and st.dom.le0(c)):
                        self.drop_gap(st, pid)

    def drop_gap(self, st, pid):
        m = st.m
        p = m.pi[pid]
        m.uni[p.cont] = tuple(q for q in m.uni[p.cont] if q != pid)
        for k, v in list(m.vecs.items()):
            if any(e[0] == "g" and e[1] == pid for e in v):
                m.vecs[k] = tuple(e for e in v if not (e[0] == "g" and e[1] == pid))
        st.dom.add_eq0(p.cnt)
        st.dom.add_eq0(p.len)
        self.adj(st, p.cont)

    def adj(self, st, cont):
        """neighbouring blocks of a canonical container differ in type"""
        m = st.m
        u = m.uni[cont]
        again = False
        for a, b in zip(u, u[1:]):
            pa, pb = m.pi[a], m.pi[b]
            if pa.kind != "c" or pb.kind != "c":
                continue
            if pa.null is True:
                if pb.null is True:
                    st.dom.bad = True
                    return
                if pb.null is None:
                    self.set_null(st, b, False, False)
            elif pb.null is True and pa.null is None:
                self.set_null(st, a, False, False)
                again = True
            pa, pb = m.pi[a], m.pi[b]
            if pa.null is False and pb.null is False:
                st.dom.add_ne0(sub(m.blk[a].type, m.blk[b].type)) if not st.dom.ne0(sub(self.otype(a), self.otype(b))) else None
        if again and not st.dom.bad:
            self.adj(st, cont)

    def otype(self, pid):
        return lin.sym("t:" + pid)

    def set_null(self, st, pid, null, do_adj=True):
        m = st.m
        p = m.pi[pid]
        if p.null is not None:
            return p.null == null
        m.pi[pid] = p.but(null=null)
        if not null:
            t = "t:" + pid
            st.dom.set_lb(t, 0)
            stt = p.status
            ct = (("old", p.cont, self.oldpos(st, pid), p.len),) if stt[0] == "full" else ()
            m.blk[pid] = Blk(lin.sym(t), ct, stt[1], stt[2], "old")
        if do_adj:
            self.adj(st, p.cont)
        return not st.dom.bad

    def piece_sym(self, st, old):
        return old

    def split(self, st, pid, k):
        """gap pid (k-th member, 0-based) -> [ga | c | gb]; returns id of c"""
        m = st.m
        p = m.pi[pid]
        k = st.dom.norm(k)
        n = st.dom.norm(p.cnt)
        rest = st.dom.norm(sub(n, add(k, ONE)))
        c = fresh("c" + p.cont)
        sc = fresh("s")
        st.dom.set_lb(sc, 1)
        ids, ln = [], Z
        pre = post = None
        if st.dom.gt0(k) or not st.dom.le0(k):
            pre = fresh("g" + p.cont)
            l = fresh("L")
            st.dom.set_lb(l, 0)
            m.pi[pre] = Piece("g", p.cont, lin.sym(l), k, None, p.status)
            ids.append(pre)
            ln = add(ln, lin.sym(l))
        else:
            st.dom.add_eq0(k)
        ids.append(c)
        m.pi[c] = Piece("c", p.cont, lin.sym(sc), ONE, None, p.status)
        ln = add(ln, lin.sym(sc))
        if not st.dom.le0(rest):
            post = fresh("g" + p.cont)
            l = fresh("L")
            st.dom.set_lb(l, 0)
            m.pi[post] = Piece("g", p.cont, lin.sym(l), rest, None, p.status)
            ids.append(post)
            ln = add(ln, lin.sym(l))
        else:
            st.dom.add_eq0(rest)
        self._set_len(st, p.len, ln)
        for q in (pre, post):
            if q:
                st.dom.add_ge0(m.pi[q].cnt)
                st.dom.add_ge0(sub(m.pi[q].len, m.pi[q].cnt))
        self._replace(st, pid, ids)
        self.adj(st, p.cont)
        if st.loops:
            d = len(st.loops)
            if pre is None and post is not None:
                m.generic = m.generic + ((c, post, "fwd", d),)
            elif post is None and pre is not None:
                m.generic = m.generic + ((c, pre, "bwd", d),)
        if st.dom.bad:
            raise Stop("dead")
        return c

    def split2(self, st, pid, k):
        """gap pid -> [ga | gb] with k blocks in ga"""
        m = st.m
        p = m.pi[pid]
        ids, ln = [], Z
        for cnt in (k, sub(p.cnt, k)):
            q = fresh("g" + p.cont)
            l = fresh("L")
            st.dom.set_lb(l, 0)
            m.pi[q] = Piece("g", p.cont, lin.sym(l), cnt, None, p.status)
            ids.append(q)
            ln = add(ln, lin.sym(l))
        self._set_len(st, p.len, ln)
        for q in ids:
            st.dom.add_ge0(m.pi[q].cnt)
            st.dom.add_ge0(sub(m.pi[q].len, m.pi[q].cnt))
        self._replace(st, pid, ids)
        return ids

    def _set_len(self, st, old, new):
        o = st.dom.norm(old)
        if len(o[1]) == 1 and o[0] == 0 and o[1][0][1] == 1:
            if not st.dom._subst(o[1][0][0], new):
                raise Stop("dead")
        else:
            if not st.dom.add_eq0(sub(o, new)):
                raise Stop("dead")

    def _replace(self, st, pid, ids):
        m = st.m
        p = m.pi[pid]
        u = []
        for q in m.uni[p.cont]:
            if q == pid:
                u.extend(ids)
            else:
                u.append(q)
        m.uni[p.cont] = tuple(u)
        for k, v in list(m.vecs.items()):
            if any(e[0] == "g" and e[1] == pid for e in v):
                nv = []
                for e in v:
                    if e[0] == "g" and e[1] == pid:
                        for q in ids:
                            if m.pi[q].kind == "g":
                                nv.append(("g", q, e[2]))
                            else:
                                nv.append(("e", self.cell_values(st, q, e[2])))
                    else:
                        nv.append(e)
                m.vecs[k] = tuple(nv)

    def cell_values(self, st, pid, roles):
        m = st.m
        out = []
        for off, role, par in roles:
            if role == "pos":
                v = add(self.oldpos(st, pid), par)
            elif role == "size":
                v = m.pi[pid].len
            elif role == "data":
                v = PNULL if par == "null" else ("P", ("eb", pid), Z)
            out.append((off, v))
        return tuple(out)

    # ---- vectors -----------------------------------------------------------
    def ecount(self, st, e):
        return ONE if e[0] == "e" else st.m.pi[e[1]].cnt

    def vsize(self, st, key):
        n = Z
        for e in st.m.vecs[key]:
            n = add(n, self.ecount(st, e))
        return st.dom.norm(n)

    def locate(self, st, key, idx, what="element access"):
        """index of the (materialised) entry at position idx"""
        self.clean(st)
        m = st.m
        if not self.I.decide_ge0(st, idx):
            raise Stop("bug", "block index below zero in " + what)
        while True:
            cum = Z
            again = False
            for j, e in enumerate(m.vecs[key]):
                if e[0] == "e":
                    if self.I.decide_ge0(st, sub(cum, idx)):
                        return j
                    cum = add(cum, ONE)
                else:
                    n = m.pi[e[1]].cnt
                    if self.I.decide_ge0(st, sub(add(cum, n), add(idx, ONE))):
                        self.split(st, e[1], sub(idx, cum))
                        again = True
                        break
                    cum = add(cum, n)
            if not again:
                raise Stop("bug", "block index beyond the end in " + what)

    def cut(self, st, key, idx, what):
        """entry boundary at index idx"""
        self.clean(st)
        m = st.m
        if not self.I.decide_ge0(st, idx):
            raise Stop("bug", "position before the beginning in " + what)
        while True:
            cum = Z
            again = False
            v = m.vecs[key]
            for j, e in enumerate(v):
                if self.I.decide_ge0(st, sub(cum, idx)):
                    return j
                if e[0] == "e":
                    cum = add(cum, ONE)
                else:
                    n = m.pi[e[1]].cnt
                    if self.I.decide_ge0(st, sub(idx, add(cum, n))):
                        cum = add(cum, n)
                        continue
                    self.split2(st, e[1], sub(idx, cum))
                    again = True
                    break
            if not again:
                if self.I.decide_ge0(st, sub(cum, idx)):
                    return len(v)
                raise Stop("bug", "position beyond the end in " + what)

    def vkey(self, st, p):
        k = (p[1], p[2][0])
        if p[2][1] or k not in st.m.vecs:
            return None
        return k

    def vdata(self, st, p, what, allow_stale=False):
        """(key, index) of an iterator/pointer into vector storage"""
        r = p[1]
        key = r[1]
        esz = st.m.esz[key]
        off = p[2]
        c = off[0] // esz
        fld = off[0] - c * esz
        ts = []
        for s, k in off[1]:
            if k % esz:
                raise Stop("unknown", "unaligned iterator")
            ts.append((s, k // esz))
        if not allow_stale and st.m.ep.get(key) != r[2]:
            raise Stop("bug", "%s through an iterator or pointer into a block array that was invalidated by a later insertion" % what)
        return key, (c, tuple(ts)), fld

    def vptr(self, st, key, idx):
        return ("P", ("vd", key, st.m.ep[key]), st.dom.norm(lin.scale(idx, st.m.esz[key])))

    def touch(self, st, what):
        if st.m.wrote is None:
            st.m.wrote = what

    # ---- memory ---------------------------------------------------------------
    def load(self, st, reg, off, ty):
        k = reg[0]
        if k == "vd":
            key, idx, fld = self.vdata(st, ("P", reg, off), "read")
            j = self.locate(st, key, idx, "read of a block array")
            ent = dict(st.m.vecs[key][j][1])
            if fld not in ent:
                raise Stop("unknown", "field %d of a block array element" % fld)
            return ent[fld]
        if k == "eb":
            b = self.block(st, ("P", reg, off), "read of the block type")
            return b.type
        if off[1]:
            return self.I.unknown(st, None, ty)
        return self.I.raw_load(st, reg, off[0], ty)

    def store(self, st, reg, off, v, ty):
        k = reg[0]
        if k == "vd":
            key, idx, fld = self.vdata(st, ("P", reg, off), "write")
            j = self.locate(st, key, idx, "write to a block array")
            vec = st.m.vecs[key]
            ent = dict(vec[j][1])
            ent[fld] = v
            st.m.vecs[key] = vec[:j] + (("e", tuple(sorted(ent.items()))),) + vec[j + 1:]
            if key[0] in self.conts:
                self.touch(st, "block array")
            return
        if k == "arg" and reg in self.conts:
            self.touch(st, "member")
        if off[1]:
            st.mem.pop(reg, None)
            return
        self.I.raw_store(st, reg, off[0], v)

    def initial(self, st, reg, off, ty):
        if ty == "ptr":
            return ("P", ("d", reg, off), Z)
        s = "m:%r:%d" % (reg, off)
        st.dom.set_lb(s, 0) if ty == "i64" else None
        return lin.sym(s)

    def norm_ptr(self, st, v):
        r = v[1]
        if r[0] == "eb":
            p = st.m.pi.get(r[1])
            if p is not None and p.null is True:
                return PNULL
        return v

    def cmp_ptr(self, st, pred, a, b):
        if pred not in ("eq", "ne"):
            if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                return self.I.decide(st, pred, a[2], b[2])
            return None
        r = self._ptr_eq(st, a, b)
        return r if pred == "eq" else not r

    def _ptr_eq(self, st, a, b):
        if is_lin(a):
            a, b = b, a
        if is_lin(b):
            if b[1] or b[0] != 0:
                return False
            r = a[1]
            if r[0] == "eb":
                p = st.m.pi.get(r[1])
                if p is not None and p.kind == "c" and p.null is None:
                    self.fork_null(st, r[1])
                return False
            if r[0] in ("d", "sym"):
                return self._peq(st, r, None)
            return False
        if a[1] == b[1]:
            return self.I.decide(st, "eq", a[2], b[2])
        ra, rb = a[1], b[1]
        if ra[0] == "vd" and rb[0] == "vd" and ra[1] == rb[1]:
            return self.I.decide(st, "eq", a[2], b[2])
        if ra[0] == "eb" and rb[0] == "eb":
            for r in (ra, rb):
                p = st.m.pi.get(r[1])
                if p is not None and p.null is None:
                    self.fork_null(st, r[1])
            return False
        if ra[0] in ("d", "sym") or rb[0] in ("d", "sym"):
            if ra[0] not in ("d", "sym"):
                ra, rb = rb, ra
            return self._peq(st, ra, rb)
        return False

    def _peq(self, st, ra, rb):
        k = (ra, rb)
        v = st.peq.get(k)
        if v is not None:
            return v

        def setk(val):
            def fn(s):
                s.peq = dict(s.peq)
                s.peq[k] = val
                return True
            return fn
        raise Fork([setk(True), setk(False)])

    def fork_null(self, st, pid):
        raise Fork([lambda s: self.set_null(s, pid, False), lambda s: self.set_null(s, pid, True)])

    # ---- element blocks ---------------------------------------------------------
    def block(self, st, p, what):
        if not is_ptr(p):
            raise Stop("bug", "%s on a null block" % what)
        if p[1][0] != "eb":
            raise Stop("unknown", "%s on an unmodelled pointer %r" % (what, p[1]))
        bid = p[1][1]
        pc = st.m.pi.get(bid)
        if pc is not None and pc.null is None:
            self.fork_null(st, bid)
        b = st.m.blk[bid]
        if not b.alive:
            raise Stop("bug", "%s on an element block that was already deleted" % what)
        return b

    def clen(self, st, content):
        n = Z
        for p in content:
            n = add(n, p[-1])
        return st.dom.norm(n)

    def ccut(self, st, content, k, what):
        """split a content list at element offset k"""
        k = st.dom.norm(k)
        if not self.I.decide_ge0(st, k):
            raise Stop("bug", "negative element offset in " + what)
        cum = Z
        for j, p in enumerate(content):
            if self.I.decide_ge0(st, sub(cum, k)):
                return content[:j], content[j:]
            n = add(cum, p[-1])
            if self.I.decide_ge0(st, sub(k, n)):
                cum = n
                continue
            h = sub(k, cum)
            return content[:j] + (self.psub(st, p, Z, h),), (self.psub(st, p, h, sub(p[-1], h)),) + content[j + 1:]
        if self.I.decide_ge0(st, sub(cum, k)):
            return content, ()
        raise Stop("bug", "element range beyond the end of a block in " + what)

    def psub(self, st, p, off, n):
        n = st.dom.norm(n)
        if p[0] in ("old", "rng"):
            return (p[0], p[1], st.dom.norm(add(p[2], off)), n)
        return p[:-1] + (n,)

    def setb(self, st, p, **k):
        bid = p[1][1]
        st.m.blk[bid] = st.m.blk[bid].but(**k)
        self.touch(st, "element block")

    def destroy(self, st, content, why):
        content = tuple(p for p in content if not st.dom.eq0(p[-1]))
        if content:
            st.m.destroyed = st.m.destroyed + tuple((p, why) for p in content)

    def newblock(self, st, ty, content, ins):
        st.m.nblk += 1
        bid = "N%d" % st.m.nblk
        st.m.blk[bid] = Blk(ty, content, True, (), self.f.mod.loc_str(ins.loc))
        return ("P", ("eb", bid), Z)

    def vtype(self, st, p):
        """element type of a value (by the region the reference leads into)"""
        if p[1][0] in ("arg", "inp"):
            s = "ty:%s" % (p[1],)
            st.dom.set_lb(s, 0)
            return lin.sym(s)
        v = st.mem.get(p[1], {}).get("type")
        if v is not None:
            return v
        s = "ty:%s" % (p[1],)
        st.dom.set_lb(s, 0)
        return lin.sym(s)

    def vpiece(self, st, p):
        if p[1][0] == "inp":
            k = p[2]
            return ("rng", p[1][1], (k[0] // 4, tuple((s, c // 4) for s, c in k[1])), ONE)
        return ("val", p[1], ONE)

    def rpiece(self, st, pb, pe):
        b = self.I.load(st, pb, "ptr")
        e = self.I.load(st, pe, "ptr")
        if not is_ptr(b) or not is_ptr(e) or b[1] != e[1] or b[1][0] != "inp":
            raise Stop("unknown", "unrecognised value range")

        def q(k):
            return (k[0] // 4, tuple((s, c // 4) for s, c in k[1]))
        return ("rng", b[1][1], q(b[2]), st.dom.norm(sub(q(e[2]), q(b[2]))))

    # ---- calls -----------------------------------------------------------------
    def call(self, st, ins, name, args):
        if name is None:
            return self.unk(st, ins, args)
        h = self.HANDLERS.get(name)
        if h is not None:
            self.n_ops[name] = self.n_ops.get(name, 0) + 1
            return h(self, st, ins, args)
        if name.startswith("llvm."):
            if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                self.memcpy(st, args)
                return None
            if name.startswith("llvm.memset"):
                p, v, n = args[:3]
                if is_ptr(p) and not p[2][1] and is_lin(n) and not n[1] and n[0] <= 256:
                    for o in range(0, n[0], 8):
                        self.I.raw_store(st, p[1], p[2][0] + o, Z)
                return None
            if name.startswith("llvm.is.constant"):
                return const(0)
            return None if ins.a[0] == "void" else self.unk(st, ins, args)
        if name.startswith("std::vector::"):
            m = name[13:]
            h = getattr(self, "v_" + {"operator[]": "index", "vector": "ctor", "~vector": "dtor"}.get(m, m), None)
            if h is None:
                raise Stop("unknown", name)
            self.n_ops[name] = self.n_ops.get(name, 0) + 1
            return h(st, ins, args)
        if name in ("operator new", "operator new[]"):
            return ("P", ("new", fresh("h")), Z)
        if name in ("std::terminate", "abort"):
            raise Stop("dead")
        return self.unk(st, ins, args)

    HARMLESS = re.compile(r"^(std::__cxx11::|std::basic_|std::(operator<<|ostream|istream|ios|allocator|out_of_range|exception|logic_error|runtime_error|char_traits)|"
                          r"mdds::(general_error|invalid_arg_error|size_error|type_error|integrity_error)|mdds::mtv::(detail::)?(shared_block_error|element_block_error)|"
                          r"__cxa_|__clang_call_terminate|drv::V::|drv::ev::|operator delete|llvm\.)")

    def unk(self, st, ins, args=()):
        ty = ins.a[0]
        nm = ins.cname
        if nm is None or not self.HARMLESS.match(nm):
            for v in args:
                if is_ptr(v) and v[1][0] not in ("g", "inp", "F", "sym", "null") and v != PNULL:
                    raise Stop("unknown", "call to %s, which is not modelled" % nm)
        if ty == "void":
            return None
        if ty == "ptr":
            return ("P", ("opq", ins.id), Z)
        return lin.sym(fresh("r"))

    def memcpy(self, st, args):
        d, s, n = args[:3]
        if not (is_ptr(d) and is_ptr(s)):
            raise Stop("bug", "copy through a null pointer")
        if not is_lin(n) or n[1]:
            raise Stop("unknown", "copy of unknown length")
        if s[1][0] == "vd" or d[1][0] == "vd":
            # a whole record of a block array
            if s[1][0] == "vd":
                key, idx, fld = self.vdata(st, s, "read")
                j = self.locate(st, key, idx, "read of a block array")
                ent = st.m.vecs[key][j][1]
                src = {o - fld: v for o, v in ent}
            else:
                src = {o - s[2][0]: v for o, v in st.mem.get(s[1], {}).items() if isinstance(o, int)}
            src = {o: v for o, v in src.items() if 0 <= o < n[0]}
            for o, v in sorted(src.items()):
                self.store(st, d[1], add(d[2], const(o)), v, None)
            return
        if s[2][1] or d[2][1]:
            raise Stop("unknown", "copy at a variable offset")
        so, do = s[2][0], d[2][0]
        src = st.mem.get(s[1], {})
        dd = dict(st.mem.get(d[1], {}))
        have = {o: v for o, v in src.items() if isinstance(o, int) and so <= o < so + n[0]}
        if s[1][0] in ("arg", "d"):
            for o in range(so, so + n[0], 8):
                if o not in have and not any(o < x < o + 8 for x in have):
                    have[o] = ("Z", s[1], o)
        for o in [o for o in dd if isinstance(o, int) and do <= o < do + n[0]]:
            del dd[o]
        for o, v in have.items():
            dd[o - so + do] = v
        st.mem[d[1]] = dd
        if d[1][0] == "arg" and d[1] in self.conts:
            self.touch(st, "member")

    # vectors
    def k(self, st, p, what="vector"):
        if not is_ptr(p):
            raise Stop("bug", "vector operation on null")
        key = self.vkey(st, p)
        if key is None:
            if p[1][0] in ("a", "new", "ret"):
                key = (p[1], p[2][0])
                st.m.vecs[key] = ()
                st.m.ep[key] = 0
                st.m.esz[key] = 8
                return key
            raise Stop("unknown", "vector at %r" % (p[1:],))
        return key

    def esz_of(self, ins):
        full = ins.cfull or ""
        if "::block," in full or "::block>" in full or "::block*" in full:
            return self.recsize
        return 8

    recsize = 24

    def v_index(self, st, ins, a):
        return self.vptr(st, self.k(st, a[0]), a[1])

    def v_begin(self, st, ins, a):
        return self.vptr(st, self.k(st, a[0]), Z)

    v_cbegin = v_begin
    v_data = v_begin

    def v_end(self, st, ins, a):
        k = self.k(st, a[0])
        return self.vptr(st, k, self.vsize(st, k))

    v_cend = v_end

    def v_rend(self, st, ins, a):
        # sret reverse_iterator holding begin()
        self.I.raw_store(st, a[0][1], a[0][2][0], self.vptr(st, self.k(st, a[1]), Z))

    def v_rbegin(self, st, ins, a):
        k = self.k(st, a[1])
        self.I.raw_store(st, a[0][1], a[0][2][0], self.vptr(st, k, self.vsize(st, k)))

    v_crend = v_rend
    v_crbegin = v_rbegin

    def v_size(self, st, ins, a):
        return self.vsize(st, self.k(st, a[0]))

    def v_empty(self, st, ins, a):
        n = self.vsize(st, self.k(st, a[0]))
        return ("B", "eq", n, Z)

    def v_back(self, st, ins, a):
        k = self.k(st, a[0])
        return self.vptr(st, k, sub(self.vsize(st, k), ONE))

    def v_front(self, st, ins, a):
        return self.vptr(st, self.k(st, a[0]), Z)

    def v_reserve(self, st, ins, a):
        k = self.k(st, a[0])
        st.m.ep[k] += 1

    def v_shrink_to_fit(self, st, ins, a):
        pass

    def v_clear(self, st, ins, a):
        k = self.k(st, a[0])
        st.m.vecs[k] = ()
        if k[0] in self.conts:
            self.touch(st, "block array")

    def mod_(self, st, key, v, grow):
        st.m.vecs[key] = v
        if grow:
            st.m.ep[key] += 1
        if key[0] in self.conts:
            self.touch(st, "block array")

    def elem_from(self, st, ins, key, p):
        """entry built from a reference to an element value"""
        esz = st.m.esz[key]
        if is_lin(p):
            return ("e", ((0, p),))
        if esz == 8:
            v = self.I.load(st, p, "ptr" if "base_element_block*" in (ins.cfull or "").split("(")[0] else "i64")
            return ("e", ((0, v),))
        if p[1][0] == "vd":
            kk, idx, fld = self.vdata(st, p, "read")
            j = self.locate(st, kk, idx, "read of a block array")
            return st.m.vecs[kk][j]
        src = st.mem.get(p[1], {})
        return ("e", tuple((o - p[2][0], v) for o, v in sorted((o, v) for o, v in src.items() if isinstance(o, int) and p[2][0] <= o < p[2][0] + esz)))

    def v_push_back(self, st, ins, a):
        k = self.k(st, a[0])
        if not st.m.vecs[k]:
            st.m.esz[k] = self.esz_of(ins)
        e = self.elem_from(st, ins, k, a[1])
        self.mod_(st, k, st.m.vecs[k] + (e,), True)

    def v_emplace_back(self, st, ins, a):
        k = self.k(st, a[0])
        if not st.m.vecs[k]:
            st.m.esz[k] = self.esz_of(ins)
        e = self.emplaced(st, ins, k, a[1:])
        n = self.vsize(st, k)
        self.mod_(st, k, st.m.vecs[k] + (e,), True)
        return self.vptr(st, k, n)

    def emplaced(self, st, ins, key, a):
        """entry constructed from constructor arguments"""
        full = ins.cfull or ""
        if st.m.esz[key] == 8:
            if "nullptr_t" in full.split("(")[-1]:
                return ("e", ((0, PNULL),))
            ty = "ptr" if "base_element_block*" in full.split("(")[-1] else "i64"
            if "int&&" in full.split("(")[-1]:
                ty = "i32"
            return ("e", ((0, self.I.load(st, a[0], ty)),))
        vals = []
        tys = full[full.rfind("("):]
        for n, x in enumerate(a):
            if is_lin(x):
                vals.append(x)
            else:
                vals.append(self.I.load(st, x, "ptr" if n == 2 else "i64"))
        if len(vals) == 1 and not is_lin(vals[0]):
            raise Stop("unknown", "emplace of a record")
        r = self.rec
        base = {r["position"]: Z, r["size"]: Z, r["data"]: PNULL}
        for f, v in zip(("position", "size", "data"), vals):
            base[r[f]] = v
        return ("e", tuple(sorted(base.items())))

    rec = {"position": 0, "size": 8, "data": 16}

    def v_pop_back(self, st, ins, a):
        k = self.k(st, a[0])
        n = self.vsize(st, k)
        j = self.locate(st, k, sub(n, ONE), "pop_back")
        self.mod_(st, k, st.m.vecs[k][:j], False)

    def v_erase(self, st, ins, a):
        k = self.k(st, a[0])
        k1, i1, _ = self.vdata(st, a[1], "erase")
        if k1 != k:
            raise Stop("bug", "erase with an iterator of another array")
        if len(a) == 2:
            j = self.locate(st, k, i1, "erase from a block array")
            v = st.m.vecs[k]
            self.mod_(st, k, v[:j] + v[j + 1:], False)
            return self.vptr(st, k, i1)
        k2, i2, _ = self.vdata(st, a[2], "erase")
        j1 = self.cut(st, k, i1, "erase from a block array")
        j2 = self.cut(st, k, i2, "erase from a block array")
        if j2 < j1:
            raise Stop("bug", "erase of an inverted range of a block array")
        v = st.m.vecs[k]
        self.mod_(st, k, v[:j1] + v[j2:], False)
        return self.vptr(st, k, i1)

    def v_insert(self, st, ins, a):
        k = self.k(st, a[0])
        k1, i1, _ = self.vdata(st, a[1], "insert")
        if k1 != k:
            raise Stop("bug", "insert with an iterator of another array")
        if not st.m.vecs[k]:
            st.m.esz[k] = self.esz_of(ins)
        full = ins.cfull or ""
        if len(a) == 3:
            e = (self.elem_from(st, ins, k, a[2]),)
        elif is_ptr(a[2]) and a[2][1][0] == "vd":
            ks, b1, _ = self.vdata(st, a[2], "insert")
            ks2, b2, _ = self.vdata(st, a[3], "insert")
            if ks != ks2:
                raise Stop("bug", "insert of a range from two arrays")
            x = self.cut(st, ks, b1, "insert range")
            y = self.cut(st, ks, b2, "insert range")
            x = self.cut(st, ks, b1, "insert range")
            e = st.m.vecs[ks][x:y]
        else:
            n = st.dom.norm(a[2])
            if n[1] or n[0] > 8:
                raise Stop("unknown", "insert of a variable number of blocks")
            e = (self.elem_from(st, ins, k, a[3]),) * n[0]
        j = self.cut(st, k, i1, "insert into a block array")
        v = st.m.vecs[k]
        self.mod_(st, k, v[:j] + e + v[j:], True)
        return self.vptr(st, k, i1)

    def v_emplace(self, st, ins, a):
        k = self.k(st, a[0])
        k1, i1, _ = self.vdata(st, a[1], "insert")
        if not st.m.vecs[k]:
            st.m.esz[k] = self.esz_of(ins)
        e = self.emplaced(st, ins, k, a[2:])
        j = self.cut(st, k, i1, "insert into a block array")
        v = st.m.vecs[k]
        self.mod_(st, k, v[:j] + (e,) + v[j:], True)
        return self.vptr(st, k, i1)

    def v_swap(self, st, ins, a):
        x, y = self.k(st, a[0]), self.k(st, a[1])
        v = st.m.vecs
        v[x], v[y] = v[y], v[x]
        st.m.ep[x] += 1
        st.m.ep[y] += 1
        self.touch(st, "block array")

    def v_ctor(self, st, ins, a):
        p = a[0]
        key = (p[1], p[2][0])
        st.m.ep[key] = st.m.ep.get(key, 0) + 1
        st.m.esz[key] = self.esz_of(ins)
        if len(a) == 1:
            st.m.vecs[key] = ()
        elif len(a) == 2:
            src = self.k(st, a[1])
            st.m.vecs[key] = st.m.vecs[src]
            st.m.esz[key] = st.m.esz[src]
            if "&&" in (ins.cfull or ""):
                st.m.vecs[src] = ()
        else:
            n = st.dom.norm(a[1]) if is_lin(a[1]) else None
            if n is None or n[1] or n[0] > 8:
                raise Stop("unknown", "array of variable length")
            if len(a) == 4:
                e = self.elem_from(st, ins, key, a[2])
            else:
                raise Stop("unknown", "array of default elements")
            st.m.vecs[key] = (e,) * n[0]

    def v_dtor(self, st, ins, a):
        k = self.vkey(st, a[0])
        if k is not None and k[0] not in self.conts:
            del st.m.vecs[k]

    def lower_bound(self, st, ins, a):
        key, first, _ = self.vdata(st, a[0], "search")
        k2, last, _ = self.vdata(st, a[1], "search")
        if is_lin(a[2]):
            x = a[2]
        else:
            x = self.I.load(st, a[2] if self.layout == "soa" else ("P", a[2][1], add(a[2][2], const(self.rec["position"]))), "i64")
        fld = 0 if self.layout == "soa" else self.rec["position"]
        j = self.cut(st, key, first, "search")
        if not self.I.decide(st, "eq", last, self.vsize(st, key)):
            raise Stop("unknown", "search over a part of the block array")
        idx = first
        m = st.m
        for e in m.vecs[key][j:]:
            if e[0] == "e":
                if self.I.decide_ge0(st, sub(dict(e[1])[fld], x)):
                    return self.vptr(st, key, idx)
                idx = add(idx, ONE)
                continue
            pid = e[1]
            p = m.pi[pid]
            if not self.I.decide_ge0(st, sub(p.cnt, ONE)):
                continue
            sh = [r[2] for r in e[2] if r[1] == "pos"]
            if not sh:
                raise Stop("unknown", "search over an array that is not the position array")
            start = add(self.oldpos(st, pid), sh[0])
            if self.I.decide_ge0(st, sub(start, x)):
                return self.vptr(st, key, idx)
            if self.I.decide_ge0(st, sub(x, add(start, p.len))):
                # every block of the gap starts before x
                idx = add(idx, p.cnt)
                continue

            # start < x < end of the gap: x belongs to exactly one block c with c.start < x <= c.end
            def inside(s):
                try:
                    k = fresh("k")
                    s.dom.set_lb(k, 0)
                    s.dom.add_ge0(sub(sub(s.m.pi[pid].cnt, lin.sym(k)), ONE))
                    if s.dom.bad:
                        return False
                    c = self.split(s, pid, lin.sym(k))
                    cs = add(self.oldpos(s, c), sh[0])
                    s.dom.add_ge0(sub(sub(x, cs), ONE))
                    s.dom.add_ge0(sub(add(cs, s.m.pi[c].len), x))
                    return not s.dom.bad
                except Stop:
                    return False
            raise Fork([inside])
        return self.vptr(st, key, idx)

    # element API ----------------------------------------------------------------
    def e_type(self, st, ins, a):
        return self.vtype(st, a[0])

    def e_create_n(self, st, ins, a):
        # create_new_block(type, n)
        n = st.dom.norm(a[1])
        return self.newblock(st, a[0], () if n == Z else (("def", n),), ins)

    def e_mcreate(self, st, ins, a):
        if len(a) == 2:
            # (init_size, value): the value fills the block
            n = st.dom.norm(a[0])
            if n == Z:
                return self.newblock(st, self.vtype(st, a[1]), (), ins)
            if n == ONE:
                return self.newblock(st, self.vtype(st, a[1]), (self.vpiece(st, a[1]),), ins)
            return self.newblock(st, self.vtype(st, a[1]), (("fill", a[1][1], n),), ins)
        return self.newblock(st, self.vtype(st, a[0]), (self.rpiece(st, a[1], a[2]),), ins)

    def e_delete(self, st, ins, a):
        if is_lin(a[0]):
            return
        b = self.block(st, a[0], "delete_block")
        self.destroy(st, b.content, "delete_block at " + self.where(ins))
        self.setb(st, a[0], alive=False, content=())
        st.m.log = st.m.log + (("delete", a[0][1][1], ins),)

    def where(self, ins):
        return self.mod.loc_str(ins.loc)

    def e_resize(self, st, ins, a):
        b = self.block(st, a[0], "resize_block")
        n = a[1]
        l = self.clen(st, b.content)
        if self.I.decide_ge0(st, sub(l, n)):
            x, y = self.ccut(st, b.content, n, "resize_block")
            self.setb(st, a[0], content=x)
        else:
            self.setb(st, a[0], content=b.content + (("def", st.dom.norm(sub(n, l))),))

    def e_erase(self, st, ins, a):
        b = self.block(st, a[0], "erase")
        n = a[2] if len(a) == 3 else ONE
        x, r = self.ccut(st, b.content, a[1], "erase")
        y, z = self.ccut(st, r, n, "erase")
        self.setb(st, a[0], content=x + z)

    def e_append_block(self, st, ins, a):
        d = self.block(st, a[0], "append_block")
        s = self.block(st, a[1], "append_block")
        self.same_type(st, d, s, "append_block")
        self.setb(st, a[0], content=d.content + s.content)

    def same_type(self, st, d, s, what):
        if not self.I.decide(st, "eq", d.type, s.type):
            raise Stop("bug", what + " between blocks of different types")

    def _slice(self, st, s, a, n, what):
        x, r = self.ccut(st, s.content, a, what)
        y, z = self.ccut(st, r, n, what)
        return y

    def e_append_from(self, st, ins, a):
        d = self.block(st, a[0], "append_values_from_block")
        s = self.block(st, a[1], "append_values_from_block")
        self.same_type(st, d, s, "append_values_from_block")
        y = self._slice(st, s, a[2], a[3], "append_values_from_block")
        self.setb(st, a[0], content=d.content + y)

    def e_assign_from(self, st, ins, a):
        d = self.block(st, a[0], "assign_values_from_block")
        s = self.block(st, a[1], "assign_values_from_block")
        self.same_type(st, d, s, "assign_values_from_block")
        y = self._slice(st, s, a[2], a[3], "assign_values_from_block")
        self.setb(st, a[0], content=y)

    def e_prepend_from(self, st, ins, a):
        d = self.block(st, a[0], "prepend_values_from_block")
        s = self.block(st, a[1], "prepend_values_from_block")
        self.same_type(st, d, s, "prepend_values_from_block")
        y = self._slice(st, s, a[2], a[3], "prepend_values_from_block")
        self.setb(st, a[0], content=y + d.content)

    def e_swap_values(self, st, ins, a):
        d = self.block(st, a[0], "swap_values")
        s = self.block(st, a[1], "swap_values")
        self.same_type(st, d, s, "swap_values")
        d1, r = self.ccut(st, d.content, a[2], "swap_values")
        d2, d3 = self.ccut(st, r, a[4], "swap_values")
        s1, r = self.ccut(st, s.content, a[3], "swap_values")
        s2, s3 = self.ccut(st, r, a[4], "swap_values")
        self.setb(st, a[0], content=d1 + s2 + d3)
        self.setb(st, a[1], content=s1 + d2 + s3)

    def e_overwrite(self, st, ins, a):
        b = self.block(st, a[0], "overwrite_values")
        y = self._slice(st, b, a[1], a[2], "overwrite_values")
        self.destroy(st, y, "overwrite_values at " + self.where(ins))
        self.touch(st, "element block")

    def e_shrink(self, st, ins, a):
        self.block(st, a[0], "shrink_to_fit")

    def e_size(self, st, ins, a):
        b = self.block(st, a[0], "size")
        return self.clen(st, b.content)

    def vmatch(self, st, b, p, what):
        if not self.I.decide(st, "eq", b.type, self.vtype(st, p)):
            raise Stop("bug", what + ": value of one type given to a block of another type")

    def e_set_value(self, st, ins, a):
        b = self.block(st, a[0], "set_value")
        self.vmatch(st, b, a[2], "set_value")
        x, r = self.ccut(st, b.content, a[1], "set_value")
        y, z = self.ccut(st, r, ONE, "set_value")
        self.setb(st, a[0], content=x + (self.vpiece(st, a[2]),) + z)

    def e_set_values(self, st, ins, a):
        b = self.block(st, a[0], "set_values")
        self.vmatch(st, b, a[2], "set_values")
        v = self.rpiece(st, a[3], a[4])
        x, r = self.ccut(st, b.content, a[1], "set_values")
        y, z = self.ccut(st, r, v[-1], "set_values")
        self.setb(st, a[0], content=x + (v,) + z)

    def e_get_value(self, st, ins, a):
        b = self.block(st, a[0], "get_value")
        x, r = self.ccut(st, b.content, a[1], "get_value")
        y, z = self.ccut(st, r, ONE, "get_value")
        p = a[2]
        d = dict(st.mem.get(p[1], {}))
        d["value"] = y
        d["type"] = b.type
        st.mem[p[1]] = d

    def e_empty_value(self, st, ins, a):
        p = a[0]
        d = dict(st.mem.get(p[1], {}))
        d["value"] = "empty"
        st.mem[p[1]] = d

    def e_append_value(self, st, ins, a):
        b = self.block(st, a[0], "append_value")
        self.vmatch(st, b, a[1], "append_value")
        self.setb(st, a[0], content=b.content + (self.vpiece(st, a[1]),))

    def e_prepend_value(self, st, ins, a):
        b = self.block(st, a[0], "prepend_value")
        self.vmatch(st, b, a[1], "prepend_value")
        self.setb(st, a[0], content=(self.vpiece(st, a[1]),) + b.content)

    def e_emplace_back(self, st, ins, a):
        b = self.block(st, a[0], "emplace_back_value")
        self.vmatch(st, b, a[1], "emplace_back_value")
        self.setb(st, a[0], content=b.content + (("val", "emplaced", ONE),))

    def e_append_values(self, st, ins, a):
        b = self.block(st, a[0], "append_values")
        self.vmatch(st, b, a[1], "append_values")
        self.setb(st, a[0], content=b.content + (self.rpiece(st, a[2], a[3]),))

    def e_prepend_values(self, st, ins, a):
        b = self.block(st, a[0], "prepend_values")
        self.vmatch(st, b, a[1], "prepend_values")
        self.setb(st, a[0], content=(self.rpiece(st, a[2], a[3]),) + b.content)

    def e_assign_values(self, st, ins, a):
        b = self.block(st, a[0], "assign_values")
        self.vmatch(st, b, a[1], "assign_values")
        self.setb(st, a[0], content=(self.rpiece(st, a[2], a[3]),))

    def e_insert_values(self, st, ins, a):
        b = self.block(st, a[0], "insert_values")
        self.vmatch(st, b, a[2], "insert_values")
        x, y = self.ccut(st, b.content, a[1], "insert_values")
        self.setb(st, a[0], content=x + (self.rpiece(st, a[3], a[4]),) + y)

    def ev(self, st, ins, a, kind):
        cont = self.conts.get(a[0][1]) if is_ptr(a[0]) else None
        if cont is None:
            raise Stop("unknown", "event on an unmodelled handler")
        if is_lin(a[1]):
            raise Stop("bug", "event for a null block")
        b = self.block(st, a[1], "element_block_%s" % kind)
        e = dict(b.ev)
        n = e.get(cont, 0) + (1 if kind == "acquired" else -1)
        if n > 1:
            st.errs.append(("event", "element_block_acquired fired twice for the same block", ins))
        if n < 0:
            st.errs.append(("event", "element_block_released fired for a block that was not announced as acquired (or fired twice)", ins))
        e[cont] = n
        self.setb(st, a[1], ev=tuple(sorted((k, v) for k, v in e.items() if v)))

    def ev_acq(self, st, ins, a):
        self.ev(st, ins, a, "acquired")

    def ev_rel(self, st, ins, a):
        self.ev(st, ins, a, "released")

    def throw(self, st, ins, a):
        ti = a[1]
        nm = ti[1][1] if is_ptr(ti) and ti[1][0] == "g" else "?"
        raise Stop("throw", str(nm).replace("typeinfo for ", ""))

    def nothing(self, st, ins, a):
        return None

    # ---- loops -----------------------------------------------------------------
    def generalise(self, st, snap, head, new, it):
        m = st.m
        d = len(st.loops)
        gs = [g for g in m.generic if g[3] >= d and g[0] in m.pi]
        m.generic = tuple(g for g in m.generic if g[3] < d)
        if not gs:
            return None
        if len(gs) > 1:
            return None
        c, rest, side, _ = gs[0]
        if rest not in m.pi or rest not in m.uni[m.pi[rest].cont]:
            return None
        pc, pr = m.pi[c], m.pi[rest]
        cont = pc.cont
        sc = st.dom.norm(pc.len)
        Lr = st.dom.norm(pr.len)
        nr = st.dom.norm(pr.cnt)
        dom = st.dom
        if len(sc[1]) != 1 or sc[0]:
            return None
        scs = sc[1][0][0]

        class NoFit(Exception):
            pass

        def coef(old, newv):
            """delta = a + b*s_c"""
            x = dom.norm(sub(newv, old))
            a, b = x[0], 0
            for s, k in x[1]:
                if s == scs:
                    b = k
                else:
                    raise NoFit("changes by " + lin.show(x))
            return a, b

        def accel(old, newv):
            """function (cnt, len) -> value after that many more iterations"""
            old, newv = self.I.norm(st, old), self.I.norm(st, newv)
            if old == newv:
                return None
            if is_lin(old) and is_lin(newv):
                a, b = coef(old, newv)
                return lambda n, l: add(add(newv, n, a), l, b)
            if is_ptr(old) and is_ptr(newv) and old[1] == newv[1]:
                x = dom.norm(sub(newv[2], old[2]))
                a, b = coef(old[2], newv[2])
                return lambda n, l: ("P", newv[1], add(add(newv[2], n, a), l, b))
            return lambda n, l: ("P", ("sym", fresh("p")), Z) if is_ptr(newv) else lin.sym(fresh("h"))
        try:
            phis = {}
            for p, v in new.items():
                f = accel(snap.env[p], v) if p in snap.env else None
                phis[p] = (v, f)
            mem = []
            for reg, cells in st.mem.items():
                oc = snap.mem.get(reg)
                if oc is cells or oc is None:
                    continue
                for off, v in cells.items():
                    ov = oc.get(off)
                    if ov is None or ov == v:
                        continue
                    f = accel(ov, v)
                    if f:
                        mem.append((reg, off, f))
            # vectors
            vec = []
            for k, v in m.vecs.items():
                ov = snap.m.vecs.get(k)
                if ov is None:
                    raise NoFit("array created in the loop")
                if m.ep[k] != snap.m.ep[k]:
                    raise NoFit("array grows in the loop")
                ri = [i for i, e in enumerate(v) if e[0] == "g" and e[1] == rest]
                if not ri:
                    # the piece is not in this array: it has to be unchanged
                    if len(ov) != len(v):
                        raise NoFit("array changes in the loop")
                    continue
                ci = ri[0] - 1 if side == "fwd" else ri[0] + 1
                if not (0 <= ci < len(v)) or v[ci][0] != "e":
                    raise NoFit("cell moved")
                roles = v[ri[0]][2]
                orig = dict(self.cell_values(st, c, roles))
                cur = dict(v[ci][1])
                nroles = []
                for off, role, par in roles:
                    o, n_ = self.I.norm(st, orig[off]), self.I.norm(st, cur[off])
                    if role == "pos":
                        x = dom.norm(sub(n_, o))
                        if any(s == scs for s, _ in x[1]):
                            raise NoFit("position shift depends on the block")
                        nroles.append((off, role, dom.norm(add(par, x))))
                    elif role == "data":
                        if o == n_:
                            nroles.append((off, role, par))
                        elif is_lin(n_):
                            nroles.append((off, role, "null"))
                        else:
                            raise NoFit("data pointer replaced")
                    else:
                        if o != n_:
                            raise NoFit("size changed")
                        nroles.append((off, role, par))
                vec.append((k, ri[0], tuple(nroles)))
            # block status
            token = (head, rest)
            stat = pr.status
            if pc.null is False:
                b = m.blk[c]
                if not b.content:
                    s0 = "empty"
                elif len(b.content) == 1 and b.content[0][0] == "old" and dom.eq0(sub(b.content[0][3], sc)):
                    s0 = "full"
                else:
                    raise NoFit("partial change of a block")
                stat = (s0, b.alive, b.ev)
                dd = tuple(x for x in m.destroyed if x not in snap.m.destroyed)
                self.registry[token] = (stat, bool(dd), [r for _, _, r in vec])
                dflag = bool(dd)
            else:
                r = self.registry.get(token)
                dflag = False
                if r is not None:
                    stat, dflag, roles2 = r
                    vec = [(k, i, r2) for (k, i, _), r2 in zip(vec, roles2)] if len(roles2) == len(vec) else vec
        except NoFit as e:
            raise Stop("unknown", "loop not summarised: " + str(e))
        blocks = self.I.loops[head]
        early = any(s not in blocks for b in blocks if b != head for s in self.f.blocks[b].succ
                    if self.f.blocks[b].unwind != s)

        def apply(s, pid, mode):
            """mark piece pid of state s as processed, advance the induction values"""
            p = s.m.pi[pid]
            s.m.pi[pid] = p.but(status=stat)
            for k, i, roles in vec:
                v = s.m.vecs[k]
                s.m.vecs[k] = tuple(("g", pid, roles) if e[0] == "g" and e[1] == pid else e for e in v)
            if dflag:
                s.m.destroyed = s.m.destroyed + ((("old", cont, self.oldpos(s, pid), p.len), "in the loop at %s" % self.where(self.f.blocks[head].ins[-1])),)
            for q, (v, f) in phis.items():
                s.env[q] = f(p.cnt, p.len) if f else v
            for reg, off, f in mem:
                self.I.raw_store(s, reg, off, f(p.cnt, p.len))

        out = []
        s1 = st.copy()
        apply(s1, rest, "all")
        out.append((s1, 0))
        if early:
            s2 = st.copy()
            m2 = s2.m
            p = m2.pi[rest]
            # rest -> [gp | d | gq] (fwd) or [gq | d | gp] (bwd)
            gp, dd_, gq = fresh("g" + cont), fresh("c" + cont), fresh("g" + cont)
            lp, ld, lq, kp = fresh("L"), fresh("s"), fresh("L"), fresh("k")
            for x, l in ((lp, 0), (ld, 1), (lq, 0), (kp, 0)):
                s2.dom.set_lb(x, l)
            m2.pi[gp] = Piece("g", cont, lin.sym(lp), lin.sym(kp), None, p.status)
            m2.pi[dd_] = Piece("c", cont, lin.sym(ld), ONE, None, p.status)
            m2.pi[gq] = Piece("g", cont, lin.sym(lq), sub(sub(p.cnt, ONE), lin.sym(kp)), None, p.status)
            ids = [gp, dd_, gq] if side == "fwd" else [gq, dd_, gp]
            ok = s2.dom.add_ge0(m2.pi[gq].cnt)
            facts = [x for x in s2.dom.ineq if x not in snap.dom.ineq]
            if ok:
                self._set_len(s2, p.len, add(add(lin.sym(lp), lin.sym(ld)), lin.sym(lq)))
                s2.dom.add_ge0(sub(lin.sym(lp), lin.sym(kp)))
                s2.dom.add_ge0(sub(lin.sym(lq), m2.pi[gq].cnt))
                self._replace(s2, rest, ids)
                if side == "bwd" and len(Lr[1]) == 1:
                    for x in facts:
                        if any(t == Lr[1][0][0] for t, _ in x[1]):
                            y = s2.dom.norm(x)
                            y = (y[0], tuple((t, k) for t, k in y[1] if t != lp))
                            s2.dom.add_ge0(y)
                self.adj(s2, cont)
                apply(s2, gp, "some")
                if not s2.dom.bad:
                    out.append((s2, "final"))
        return out

    def loop_exit(self, st, rec):
        d = len(st.loops)
        st.m.generic = tuple(g for g in st.m.generic if g[3] < d)


H = {}
for nm, fn in [("mdds_mtv_get_element_type", "e_type"), ("mdds_mtv_create_new_block", "e_mcreate"),
               ("mdds_mtv_set_value", "e_set_value"), ("mdds_mtv_set_values", "e_set_values"),
               ("mdds_mtv_get_value", "e_get_value"), ("mdds_mtv_get_empty_value", "e_empty_value"),
               ("mdds_mtv_append_value", "e_append_value"), ("mdds_mtv_prepend_value", "e_prepend_value"),
               ("mdds_mtv_emplace_back_value", "e_emplace_back"), ("mdds_mtv_append_values", "e_append_values"),
               ("mdds_mtv_prepend_values", "e_prepend_values"), ("mdds_mtv_assign_values", "e_assign_values"),
               ("mdds_mtv_insert_values", "e_insert_values")]:
    H["drv::" + nm] = getattr(MtvModel, fn)
for nm, fn in [("create_new_block", "e_create_n"), ("delete_block", "e_delete"), ("resize_block", "e_resize"),
               ("erase", "e_erase"), ("append_block", "e_append_block"), ("append_values_from_block", "e_append_from"),
               ("assign_values_from_block", "e_assign_from"), ("prepend_values_from_block", "e_prepend_from"),
               ("swap_values", "e_swap_values"), ("overwrite_values", "e_overwrite"), ("shrink_to_fit", "e_shrink"),
               ("size", "e_size")]:
    H["drv::bf::" + nm] = getattr(MtvModel, fn)
H["drv::ev::element_block_acquired"] = MtvModel.ev_acq
H["drv::ev::element_block_released"] = MtvModel.ev_rel
H["__cxa_throw"] = MtvModel.throw
H["std::lower_bound"] = MtvModel.lower_bound
MtvModel.HANDLERS = H
