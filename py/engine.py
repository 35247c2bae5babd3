"""Abstract interpreter for the LLVM IR of a witness translation unit.

Values
  int            constant (unsigned, already truncated to its width)
  (obj, off)     pointer: object id and constant byte offset
  ('f', name)    function pointer
  Sym            opaque / symbolic value (hash consed term)
  UNDEF          value of a cell that was never written
  list           aggregate (extractvalue / insertvalue)

Memory is a map object id -> Obj. Objects are copied on write, so forking a state is cheap.
Unknown branch conditions fork the abstract state; identical abstract states are merged by the
clients that compute fixpoints.
"""
import json
import sys

sys.setrecursionlimit(10000)


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class Part:
    """integer of which some bits (um) were never written, e.g. a struct copied with its padding"""
    __slots__ = ('val', 'um')

    def __init__(self, val, um):
        self.val = val
        self.um = um

    def __eq__(self, o):
        return isinstance(o, Part) and o.val == self.val and o.um == self.um

    def __hash__(self):
        return hash((self.val, self.um))

    def __repr__(self):
        return 'part(%x,%x)' % (self.val, self.um)


def bits_of(v, bits):
    if type(v) is int:
        return v, 0
    if v is UNDEF:
        return 0, mask(bits)
    if type(v) is Part:
        return v.val, v.um
    return None


def mk_part(val, um, bits):
    um &= mask(bits)
    if um == 0:
        return val & mask(bits)
    if um == mask(bits):
        return UNDEF
    return Part(val & mask(bits) & ~um, um)


class Sym:
    """Symbolic term. Identity is by structure (terms are interned)."""
    __slots__ = ('key', 'n', 'bits')
    table = {}

    def __repr__(self):
        k = self.key
        if k[0] == 'atom':
            return '$' + str(k[1])
        return '(' + ' '.join(map(str, k)) + ')'


def atom(name, bits=64):
    k = ('atom', name, bits)
    s = Sym.table.get(k)
    if s is None:
        s = Sym()
        s.key = k
        s.bits = bits
        s.n = len(Sym.table)
        Sym.table[k] = s
    return s


def term(op, bits, *args):
    k = (op, bits) + args
    s = Sym.table.get(k)
    if s is None:
        s = Sym()
        s.key = k
        s.bits = bits
        s.n = len(Sym.table)
        Sym.table[k] = s
    return s


class Unsupported(Exception):
    """The analysis cannot model a construct: never turned into a verdict."""


class UndefinedFunction(Unsupported):
    pass


class NeedRealContainers(Unsupported):
    pass


class Obj:
    __slots__ = ('size', 'cells', 'kind', 'items', 'name', 'const')

    def __init__(self, size, kind, name=''):
        self.size = size
        self.cells = {}
        self.kind = kind  # heap stack global list elem freed ext
        self.items = None
        self.name = name
        self.const = False

    def copy(self):
        o = Obj(self.size, self.kind, self.name)
        o.cells = dict(self.cells)
        o.items = list(self.items) if self.items is not None else None
        o.const = self.const
        return o


class SetBytes:
    """cell content written by memset"""
    __slots__ = ('byte',)

    def __init__(self, byte):
        self.byte = byte

    def __eq__(self, o):
        return isinstance(o, SetBytes) and o.byte == self.byte

    def __hash__(self):
        return hash(('sb', self.byte))

    def __repr__(self):
        return 'set(%r)' % (self.byte,)


class Frame:
    __slots__ = ('fn', 'regs', 'block', 'ip', 'prev', 'dst', 'allocas', 'after', 'lp')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.block = self.block
        f.ip = self.ip
        f.prev = self.prev
        f.dst = self.dst
        f.allocas = list(self.allocas)
        f.after = self.after
        f.lp = self.lp
        return f


class Fn:
    __slots__ = ('name', 'blocks', 'nargs', 'nregs', 'loc', 'rawblocks')


class Module:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.locs = j['locs']
        self.decls = set(j['decls'])
        self.fns = {}
        for f in j['functions']:
            fn = Fn()
            fn.name = f['name']
            fn.nargs = len(f['args'])
            fn.blocks = f['blocks']
            fn.loc = f['loc']
            fn.nregs = None
            self.fns[fn.name] = fn
        self.globals = {}
        for g in j['globals']:
            self.globals[g[0]] = g
        self.ninstr = sum(len(b) for f in self.fns.values() for b in f.blocks)
        self._prepared = {}

    def loc(self, i):
        if i is None or i < 0:
            return '?'
        return self.locs[i]

    def prepare(self, fn):
        if fn.nregs is None:
            m = fn.nargs
            for b in fn.blocks:
                for ins in b:
                    if ins[1] >= m:
                        m = ins[1] + 1
                    ins[0] = OPC[ins[0]]
            fn.nregs = m
        return fn


OPS = ['alloca', 'load', 'store', 'gep', 'phi', 'br', 'switch', 'select', 'icmp', 'bin', 'cast',
       'call', 'ret', 'unreachable', 'extractvalue', 'insertvalue', 'rmw', 'copy', 'unk', 'landingpad', 'resume']
OPC = {n: i for i, n in enumerate(OPS)}
(O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_PHI, O_BR, O_SWITCH, O_SELECT, O_ICMP, O_BIN, O_CAST, O_CALL,
 O_RET, O_UNREACH, O_EXTRACT, O_INSERT, O_RMW, O_COPY, O_UNK, O_LPAD, O_RESUME) = range(len(OPS))


class State:
    __slots__ = ('mem', 'own', 'frames', 'ghost', 'next', 'freed', 'gobj', 'facts', 'steps', 'ext', 'throwing', 'caught')

    def __init__(self):
        self.throwing = False   # an exception is looking for its handler
        self.caught = 0
        self.mem = {}
        self.own = set()
        self.frames = []
        self.ghost = None
        self.next = 1
        self.freed = {}
        self.gobj = {}
        self.facts = {}
        self.steps = 0
        self.ext = None  # client extension

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.frames = [f.copy() for f in self.frames]
        s.ghost = self.ghost.fork() if self.ghost is not None else None
        s.next = self.next
        s.freed = dict(self.freed)
        s.gobj = dict(self.gobj)
        s.facts = dict(self.facts)
        s.steps = self.steps
        s.ext = self.ext
        s.throwing = self.throwing
        s.caught = self.caught
        return s


class Stop(Exception):
    """ends the current abstract path: kind is 'throw', 'mem', 'trap', ..."""

    def __init__(self, kind, what):
        self.kind = kind
        self.what = what


class Forks(Exception):
    """the current call instruction has several outcomes: list of (value, function(state))"""

    def __init__(self, outs):
        self.outs = outs


THROW = object()   # outcome of an external function in Forks: it throws


class Path:
    __slots__ = ('state', 'kind', 'value', 'what', 'where', 'evsame')

    def __init__(self, state, kind, value=None, what=None, where=None):
        self.state = state
        self.kind = kind  # ret | throw | mem | limit
        self.value = value
        self.what = what
        self.where = where


def mask(bits):
    return (1 << bits) - 1


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) & 1 else v


class Engine:
    MAXSTEPS = 3000000

    def __init__(self, module):
        self.m = module
        self.ext = dict(EXTERNS)
        self.steps = 0
        self.visited_fns = set()
        self.nforks = 0

    # ---- objects -------------------------------------------------------------------------
    def new_obj(self, st, size, kind, name=''):
        i = st.next
        st.next = i + 1
        st.mem[i] = Obj(size, kind, name)
        st.own.add(i)
        return i

    def wobj(self, st, i):
        if i in st.own:
            return st.mem[i]
        o = st.mem[i].copy()
        st.mem[i] = o
        st.own.add(i)
        return o

    def global_obj(self, st, name):
        i = st.gobj.get(name)
        if i is not None:
            return i
        g = self.m.globals[name]
        i = self.new_obj(st, g[2], 'global', name)
        o = st.mem[i]
        st.gobj[name] = i
        o.const = bool(g[1])
        if g[2] == 0:
            o.kind = 'extglobal'
        for off, size, val in g[4]:
            v = self.const(st, val)
            if isinstance(v, tuple) and v and v[0] == 'z':
                o.cells[off] = (size, SetBytes(0))
            else:
                o.cells[off] = (size, v)
        return i

    def const(self, st, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return (self.global_obj(st, v[1]), 0)
        if k == 'o':
            b = self.const(st, v[1])
            if isinstance(b, tuple) and b[0] != 'f':
                return (b[0], b[1] + v[2])
            if isinstance(b, int):
                return (b + v[2]) & mask(64)
            raise Unsupported('const gep')
        if k == 'f':
            return ('f', v[1])
        if k == 'u':
            return UNDEF
        if k == 'z':
            return ('z',)
        if k == 'a':
            return [self.const(st, x) for x in v[1]]
        return atom('constx')

    def ptr(self, st, p, what):
        """check that p is a dereferenceable pointer"""
        if type(p) is tuple and p[0] != 'f':
            o = st.mem.get(p[0])
            if o is None:
                raise Stop('mem', '%s of a dead object (%s)' % (what, st.freed.get(p[0], 'stack')))
            return o
        if p is UNDEF:
            raise Stop('mem', '%s through an uninitialised pointer' % what)
        if isinstance(p, int):
            raise Stop('mem', '%s through a null pointer' % what)
        if isinstance(p, Sym):
            return self.symptr(st, p, what)
        raise Unsupported('%s through %r' % (what, p))

    def symptr(self, st, p, what):
        raise Unsupported('%s through symbolic pointer %r' % (what, p))

    def load(self, st, p, size, layout=None):
        o = self.ptr(st, p, 'read')
        off = p[1]
        if type(off) is not int:
            return self.symload(st, p, size)
        if layout is not None:
            return [self.load(st, (p[0], off + l[0]), l[2]) for l in layout]
        c = o.cells.get(off)
        if c is not None and c[0] == size and type(c[1]) is not SetBytes:
            return c[1]
        if off < 0 or off + size > o.size:
            if o.kind == 'extglobal':
                if o.name == '__libc_single_threaded':
                    return 1
                raise Unsupported('read of external variable ' + o.name)
            raise Stop('mem', 'read outside of an object (%s, offset %d, size %d)' % (o.name or o.kind, off, o.size))
        return self.load_slow(o, off, size)

    def symload(self, st, p, size):
        raise Unsupported('load at symbolic offset')

    def load_slow(self, o, off, size):
        # find cells overlapping [off, off+size)
        out = []
        for co, (cs, cv) in o.cells.items():
            if co < off + size and off < co + cs:
                out.append((co, cs, cv))
        if not out:
            return UNDEF
        val = 0
        um = mask(8 * size)
        for co, cs, cv in out:
            lo = max(co, off)
            hi = min(co + cs, off + size)
            pos = 8 * (lo - off)
            m = mask(8 * (hi - lo))
            if type(cv) is SetBytes:
                if cv.byte is UNDEF:
                    continue
                for b in range(lo, hi):
                    val |= cv.byte << (8 * (b - off))
                um &= ~(m << pos)
            elif type(cv) is int or type(cv) is Part or cv is UNDEF:
                v, u = bits_of(cv, 8 * cs)
                val |= ((v >> (8 * (lo - co))) & m) << pos
                um &= ~((m & ~(u >> (8 * (lo - co)))) << pos)
            elif isinstance(cv, Sym) and len(out) == 1:
                return term('byte', size * 8, cv, lo - co)
            else:
                return term('mix', size * 8, 'off%d' % (off - co), repr(cv))
        return mk_part(val, um, 8 * size)

    def kill(self, o, off, size):
        """remove / trim the cells overlapping [off, off+size)"""
        dead = []
        add = []
        for co, (cs, cv) in o.cells.items():
            if co < off + size and off < co + cs:
                dead.append(co)
                if co < off:
                    if type(cv) is SetBytes:
                        add.append((co, (off - co, cv)))
                    elif type(cv) is int:
                        add.append((co, (off - co, cv & mask(8 * (off - co)))))
                    elif type(cv) is Part:
                        add.append((co, (off - co, mk_part(cv.val, cv.um, 8 * (off - co)))))
                    else:
                        add.append((co, (off - co, SetBytes(UNDEF))))
                if co + cs > off + size:
                    no = off + size
                    if type(cv) is SetBytes:
                        add.append((no, (co + cs - no, cv)))
                    elif type(cv) is int:
                        add.append((no, (co + cs - no, cv >> (8 * (no - co)))))
                    elif type(cv) is Part:
                        add.append((no, (co + cs - no, mk_part(cv.val >> (8 * (no - co)), cv.um >> (8 * (no - co)), 8 * (co + cs - no)))))
                    else:
                        add.append((no, (co + cs - no, SetBytes(UNDEF))))
        for d in dead:
            del o.cells[d]
        for a, c in add:
            o.cells[a] = c

    def store(self, st, p, val, size, layout=None):
        o = self.ptr(st, p, 'write')
        off = p[1]
        if type(off) is not int:
            return self.symstore(st, p, val, size)
        if layout is not None:
            for i, l in enumerate(layout):
                v = val[i] if isinstance(val, list) else (0 if val == ('z',) else UNDEF)
                self.store(st, (p[0], off + l[0]), v, l[2])
            return
        if off < 0 or off + size > o.size:
            raise Stop('mem', 'write outside of an object (%s, offset %d, size %d)' % (o.name or o.kind, off, o.size))
        if o.const:
            raise Stop('mem', 'write to a constant (%s)' % o.name)
        if o.kind in ('global', 'extglobal'):
            self.on_global_store(st, o)
        o = self.wobj(st, p[0])
        c = o.cells.get(off)
        if c is None or c[0] != size:
            self.kill(o, off, size)
        elif len(o.cells) > 1:
            pass
        o.cells[off] = (size, val)
        self.on_store(st, p[0], off, size, val)

    def on_store(self, st, obj, off, size, val):
        pass

    def on_global_store(self, st, o):
        pass

    def symstore(self, st, p, val, size):
        raise Unsupported('store at symbolic offset')

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        if type(n) is not int:
            raise Unsupported('memcpy of unknown size')
        so = self.ptr(st, s, 'read')
        do = self.ptr(st, d, 'write')
        soff, doff = s[1], d[1]
        if soff < 0 or soff + n > so.size:
            raise Stop('mem', 'read outside of an object')
        if doff < 0 or doff + n > do.size:
            raise Stop('mem', 'write outside of an object')
        parts = []
        for co, (cs, cv) in so.cells.items():
            if co < soff + n and soff < co + cs:
                lo = max(co, soff)
                hi = min(co + cs, soff + n)
                if lo == co and hi == co + cs:
                    parts.append((co - soff, cs, cv))
                elif type(cv) is SetBytes:
                    parts.append((lo - soff, hi - lo, cv))
                elif type(cv) is int:
                    parts.append((lo - soff, hi - lo, (cv >> (8 * (lo - co))) & mask(8 * (hi - lo))))
                elif type(cv) is Part:
                    parts.append((lo - soff, hi - lo, mk_part(cv.val >> (8 * (lo - co)), cv.um >> (8 * (lo - co)), 8 * (hi - lo))))
                else:
                    parts.append((lo - soff, hi - lo, SetBytes(UNDEF)))
        if do.kind in ('global', 'extglobal'):
            self.on_global_store(st, do)
        o = self.wobj(st, d[0])
        self.kill(o, doff, n)
        for off, size, v in parts:
            o.cells[doff + off] = (size, v)
        self.on_store(st, d[0], doff, n, None)

    def memset(self, st, d, b, n):
        if n == 0:
            return
        if type(n) is not int:
            raise Unsupported('memset of unknown size')
        do = self.ptr(st, d, 'write')
        if d[1] < 0 or d[1] + n > do.size:
            raise Stop('mem', 'write outside of an object')
        if do.kind in ('global', 'extglobal'):
            self.on_global_store(st, do)
        o = self.wobj(st, d[0])
        self.kill(o, d[1], n)
        o.cells[d[1]] = (n, SetBytes(b & 255 if isinstance(b, int) else UNDEF))
        self.on_store(st, d[0], d[1], n, None)

    # ---- calls ---------------------------------------------------------------------------
    def push(self, st, name, args, dst, after=None):
        fn = self.m.fns.get(name)
        if fn is None:
            raise UndefinedFunction('call of undefined function ' + name)
        if fn.nregs is None:
            self.m.prepare(fn)
        self.visited_fns.add(name)
        if len(st.frames) > 400:
            raise Stop('mem', 'unbounded recursion')
        f = Frame()
        f.fn = fn
        f.regs = [UNDEF] * fn.nregs
        f.regs[:len(args)] = args
        f.block = 0
        f.ip = 0
        f.prev = -1
        f.dst = dst
        f.allocas = []
        f.after = after
        f.lp = None
        st.frames.append(f)

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            b = f.fn.blocks[f.block]
            ip = min(max(f.ip - 1, 0), len(b) - 1)
            l = self.m.loc(b[ip][2])
            if l != '?' and (not out or out[-1] != l):
                out.append(l)
        return out

    def call_root(self, st, name, args):
        """explore all abstract paths of a root function. Consumes st. Returns list of Path."""
        self.push(st, name, args, -1)
        return self.explore(st, len(st.frames) - 1)

    def explore(self, st, depth):
        work = [st]
        done = []
        while work:
            s = work.pop()
            r = self.run(s, depth, work)
            if r is not None:
                done.append(r)
        return done

    # ---- interpretation ------------------------------------------------------------------
    def val(self, st, regs, v):
        if type(v) is int:
            return regs[v]
        if v[0] == 'c':
            return v[1]
        return self.const(st, v)

    def run(self, st, depth, work):
        try:
            return self._run(st, depth, work)
        except Stop as e:
            w = self.where(st)
            while len(st.frames) > depth:
                st.frames.pop()
            return Path(st, e.kind, None, e.what, w)

    def unwind(self, st, depth):
        """continue an exception: in the innermost landing pad, None if there is none"""
        frames = st.frames
        st.throwing = False
        while len(frames) > depth:
            fr = frames[-1]
            if fr.lp is not None:
                fr.block, fr.prev = fr.lp
                fr.lp = None
                fr.ip = 0
                self.phis(st, fr)
                return fr
            for a in fr.allocas:
                st.mem.pop(a, None)
            frames.pop()
        return None

    def _run(self, st, depth, work):
        if st.throwing and self.unwind(st, depth) is None:
            return Path(st, 'threw')
        frames = st.frames
        fr = frames[-1]
        regs = fr.regs
        code = fr.fn.blocks[fr.block]
        n = 0
        while True:
            n += 1
            if n > self.MAXSTEPS:
                raise Stop('hang', 'no return within %d instructions' % self.MAXSTEPS)
            ins = code[fr.ip]
            fr.ip += 1
            op = ins[0]
            if op == O_LOAD:
                p = ins[3]
                p = regs[p] if type(p) is int else self.const(st, p)
                regs[ins[1]] = self.load(st, p, ins[5], ins[6] if len(ins) > 6 else None)
            elif op == O_STORE:
                p = ins[3]
                p = regs[p] if type(p) is int else self.const(st, p)
                v = ins[4]
                if type(v) is int:
                    v = regs[v]
                elif v[0] == 'c':
                    v = v[1]
                else:
                    v = self.const(st, v)
                self.store(st, p, v, ins[6], ins[7] if len(ins) > 7 else None)
            elif op == O_GEP:
                p = ins[3]
                p = regs[p] if type(p) is int else self.const(st, p)
                regs[ins[1]] = self.gep(st, p, ins[4], ins[5], regs)
            elif op == O_CALL:
                callee = ins[3]
                if type(callee) is int:
                    cv = regs[callee]
                else:
                    cv = self.const(st, callee)
                args = [self.val(st, regs, a) for a in ins[4]]
                if type(cv) is tuple and cv[0] == 'f':
                    name = cv[1]
                else:
                    h = self.indirect(st, cv, args)
                    if h is None:
                        if cv is UNDEF:
                            raise Stop('mem', 'call through an uninitialised pointer')
                        if isinstance(cv, int):
                            raise Stop('mem', 'call through a null pointer')
                        raise Unsupported('indirect call through %r' % (cv,))
                    name = h
                if len(ins) > 6:
                    nb = ins[6]
                    fr.lp = (ins[7], fr.block)
                else:
                    nb = fr.lp = None
                e = self.ext.get(name)
                if e is not None:
                    try:
                        r = e(self, st, args)
                    except Forks as f:
                        self.nforks += len(f.outs) - 1
                        for v, upd in f.outs[1:]:
                            s2 = st.fork()
                            f2 = s2.frames[-1]
                            if v is THROW:
                                s2.throwing = True
                                upd(s2)
                                work.append(s2)
                                continue
                            if ins[1] >= 0:
                                f2.regs[ins[1]] = v
                            if nb is not None:
                                f2.prev = f2.block
                                f2.block = nb
                                f2.ip = 0
                                self.phis(s2, f2)
                            upd(s2)
                            work.append(s2)
                        r, upd = f.outs[0]
                        upd(st)
                        if r is THROW:
                            st.throwing = True
                            work.append(st)
                            return None
                    if ins[1] >= 0:
                        regs[ins[1]] = r
                    if nb is not None:
                        fr.prev = fr.block
                        fr.block = nb
                        fr.ip = 0
                        code = fr.fn.blocks[nb]
                        self.phis(st, fr)
                else:
                    if nb is not None:
                        # continue in the normal successor after the call
                        fr.prev = fr.block
                        fr.block = nb
                        fr.ip = 0
                        self.push(st, name, args, ins[1])
                        # phis of the successor are evaluated on return
                        frames[-2].ip = -1
                    else:
                        self.push(st, name, args, ins[1])
                    fr = frames[-1]
                    regs = fr.regs
                    code = fr.fn.blocks[0]
            elif op == O_BR:
                if len(ins) == 4:
                    t = ins[3]
                else:
                    c = self.val(st, regs, ins[3])
                    if type(c) is not int:
                        c = self.branch(st, c, work, ins, fr)
                    t = ins[4] if c & 1 else ins[5]
                fr.prev = fr.block
                fr.block = t
                fr.ip = 0
                code = fr.fn.blocks[t]
                if code[0][0] == O_PHI:
                    self.phis(st, fr)
                if self.on_block(st, fr):
                    return None
            elif op == O_RET:
                v = self.val(st, regs, ins[3]) if len(ins) > 3 else None
                for a in fr.allocas:
                    st.mem.pop(a, None)
                frames.pop()
                if fr.after is not None:
                    v = fr.after(self, st, v)
                if len(frames) == depth:
                    self.steps += n
                    return Path(st, 'ret', v)
                d = fr.dst
                fr = frames[-1]
                regs = fr.regs
                if d >= 0:
                    regs[d] = v
                code = fr.fn.blocks[fr.block]
                if fr.ip == -1:
                    fr.ip = 0
                    self.phis(st, fr)
            elif op == O_ICMP:
                regs[ins[1]] = self.icmp(st, ins[3], self.val(st, regs, ins[4]), self.val(st, regs, ins[5]), ins[6])
            elif op == O_BIN:
                regs[ins[1]] = self.binop(st, ins[3], self.val(st, regs, ins[4]), self.val(st, regs, ins[5]), ins[6])
            elif op == O_CAST:
                regs[ins[1]] = self.cast(st, ins[3], self.val(st, regs, ins[4]), ins[5], ins[6])
            elif op == O_ALLOCA:
                i = self.new_obj(st, ins[3], 'stack')
                fr.allocas.append(i)
                regs[ins[1]] = (i, 0)
            elif op == O_PHI:
                pass  # evaluated on block entry
            elif op == O_SWITCH:
                c = self.val(st, regs, ins[3])
                if type(c) is not int:
                    c = self.switch(st, c, work, ins, fr)
                t = ins[4]
                for cv, ct in ins[5]:
                    if cv == c:
                        t = ct
                        break
                fr.prev = fr.block
                fr.block = t
                fr.ip = 0
                code = fr.fn.blocks[t]
                if code[0][0] == O_PHI:
                    self.phis(st, fr)
                if self.on_block(st, fr):
                    return None
            elif op == O_SELECT:
                c = self.val(st, regs, ins[3])
                a = self.val(st, regs, ins[4])
                b = self.val(st, regs, ins[5])
                if type(c) is int:
                    regs[ins[1]] = a if c & 1 else b
                elif a == b and type(a) is type(b):
                    regs[ins[1]] = a
                else:
                    regs[ins[1]] = self.select(st, c, a, b, ins, fr, work)
            elif op == O_EXTRACT:
                v = self.val(st, regs, ins[3])
                for i in ins[4]:
                    if v == ('z',):
                        v = 0
                        break
                    if v is UNDEF:
                        break
                    v = v[i]
                regs[ins[1]] = v
            elif op == O_INSERT:
                v = self.val(st, regs, ins[3])
                e = self.val(st, regs, ins[4])
                regs[ins[1]] = self.insertv(v, e, ins[5])
            elif op == O_RMW:
                p = self.val(st, regs, ins[4])
                old = self.load(st, p, ins[6])
                a = self.val(st, regs, ins[5])
                bits = ins[6] * 8
                if ins[3] == 'xchg':
                    new = a
                else:
                    new = self.binop(st, ins[3], old, a, bits)
                self.store(st, p, new, ins[6])
                regs[ins[1]] = old
            elif op == O_COPY:
                regs[ins[1]] = self.val(st, regs, ins[3])
            elif op == O_LPAD:
                if any(k != 0 for k in ins[4]):
                    # a clause for a type may or may not match the exception of the user
                    s2 = st.fork()
                    if ins[3]:
                        s2.frames[-1].regs[ins[1]] = [('exc', 0), 0]
                    else:
                        s2.throwing = True
                    work.append(s2)
                regs[ins[1]] = [('exc', 0), 1 if ins[4] else 0]
            elif op == O_RESUME:
                st.throwing = True
                work.append(st)
                return None
            elif op == O_UNREACH:
                raise Stop('trap', 'unreachable')
            else:
                if ins[1] >= 0:
                    regs[ins[1]] = atom('unk')

    def insertv(self, v, e, idx):
        if not isinstance(v, list):
            v = []
        v = list(v)
        i = idx[0]
        while len(v) <= i:
            v.append(UNDEF)
        if len(idx) == 1:
            v[i] = e
        else:
            v[i] = self.insertv(v[i], e, idx[1:])
        return v

    def phis(self, st, fr):
        code = fr.fn.blocks[fr.block]
        new = []
        for ins in code:
            if ins[0] != O_PHI:
                break
            for b, v in ins[3]:
                if b == fr.prev:
                    new.append((ins[1], self.val(st, fr.regs, v)))
                    break
        for r, v in new:
            fr.regs[r] = v

    # hooks for clients
    def on_block(self, st, fr):
        return False

    def indirect(self, st, cv, args):
        return None

    def branch(self, st, c, work, ins, fr):
        if c is UNDEF or type(c) is Part:
            raise Stop('mem', 'branch on an uninitialised value')
        return self.fork_bool(st, c, work, ins, fr)

    def fork_bool(self, st, c, work, ins, fr):
        raise Unsupported('branch on unknown value %r at %s' % (c, self.m.loc(ins[2])))

    def switch(self, st, c, work, ins, fr):
        if c is UNDEF or type(c) is Part:
            raise Stop('mem', 'branch on an uninitialised value')
        raise Unsupported('switch on unknown value %r at %s' % (c, self.m.loc(ins[2])))

    def select(self, st, c, a, b, ins, fr, work):
        if c is UNDEF:
            return UNDEF
        return term('select', 64, c, a if not isinstance(a, list) else tuple(a), b if not isinstance(b, list) else tuple(b))

    # ---- operators -----------------------------------------------------------------------
    def gep(self, st, p, off, vars, regs):
        for v, scale, bits, *bound in vars:
            x = self.val(st, regs, v)
            if type(x) is int:
                x = sgn(x, bits)
                if bound and not 0 <= x < bound[0]:
                    raise Stop('mem', 'element %d of an array of %d' % (x, bound[0]))
                off += x * scale
            elif x is UNDEF:
                raise Stop('mem', 'index is an uninitialised value')
            else:
                return self.symgep(st, p, off, vars, regs)
        if type(p) is tuple:
            if p[0] == 'f':
                raise Unsupported('gep on function')
            o = p[1]
            if type(o) is int:
                return (p[0], o + off)
            if off == 0:
                return p
            return (p[0], self.binop(st, 'add', o, off & mask(64), 64))
        if p is UNDEF:
            return UNDEF
        if isinstance(p, int):
            return (p + off) & mask(64)
        return self.symgep(st, p, off, [], regs)

    def symgep(self, st, p, off, vars, regs):
        raise Unsupported('pointer arithmetic with unknown values')

    def binop(self, st, op, a, b, bits):
        if type(a) is int and type(b) is int:
            m = mask(bits) if isinstance(bits, int) else mask(64)
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < 256 else 0
            if op == 'lshr':
                return a >> b
            if op == 'ashr':
                return (sgn(a, bits) >> b) & m
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    raise Stop('mem', 'division by zero')
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                sa, sb = sgn(a, bits), sgn(b, bits)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                if op == 'sdiv':
                    return q & m
                return (sa - q * sb) & m
            return atom('fop')
        if a is UNDEF or b is UNDEF or type(a) is Part or type(b) is Part:
            x = bits_of(a, bits)
            y = bits_of(b, bits)
            if x is None or y is None:
                return UNDEF
            (av, au), (bv, bu) = x, y
            if op == 'and':
                return mk_part(av & bv, (au | bu) & ~((~av & ~au) | (~bv & ~bu)), bits)
            if op == 'or':
                return mk_part(av | bv, (au | bu) & ~((av & ~au) | (bv & ~bu)), bits)
            if op == 'xor':
                return mk_part(av ^ bv, au | bu, bits)
            if op == 'shl' and bu == 0:
                return mk_part(av << bv, au << bv, bits) if bv < bits else 0
            if op == 'lshr' and bu == 0:
                return mk_part(av >> bv, au >> bv, bits)
            return UNDEF
        if op == 'sub' and type(a) is tuple and type(b) is tuple and a[0] == b[0] and type(a[1]) is int and type(b[1]) is int:
            return (a[1] - b[1]) & mask(64)
        return self.symbin(st, op, a, b, bits)

    def symbin(self, st, op, a, b, bits):
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr') and b == 0 and type(b) is int:
            return a
        if op in ('add', 'or', 'xor') and a == 0 and type(a) is int:
            return b
        if op == 'and' and (b == 0 or a == 0):
            return 0
        if bits == 1:
            if op == 'and' and a == 1:
                return b
            if op == 'and' and b == 1:
                return a
            if op == 'or' and (a == 1 or b == 1):
                return 1
        return term(op, bits, a, b)

    def icmp(self, st, pred, a, b, ty):
        if type(a) is int and type(b) is int:
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred == 'ult':
                return int(a < b)
            if pred == 'ule':
                return int(a <= b)
            if pred == 'ugt':
                return int(a > b)
            if pred == 'uge':
                return int(a >= b)
            bits = ty if isinstance(ty, int) else 64
            a, b = sgn(a, bits), sgn(b, bits)
            return int({'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b}[pred])
        if a is UNDEF or b is UNDEF or type(a) is Part or type(b) is Part:
            return UNDEF
        ta, tb = type(a) is tuple, type(b) is tuple
        if ta and tb:
            if a == b:
                return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
            if a[0] == b[0] and a[0] != 'f' and type(a[1]) is int and type(b[1]) is int:
                return self.icmp(st, pred, a[1], b[1], 64)
            if pred == 'eq' and (a[0] != b[0] or a[0] == 'f'):
                return 0
            if pred == 'ne' and (a[0] != b[0] or a[0] == 'f'):
                return 1
            if pred in ('ult', 'ule', 'ugt', 'uge') and a[0] != b[0] and a[0] != 'f' and b[0] != 'f':
                # some total order between objects
                return int({'ult': a[0] < b[0], 'ule': a[0] < b[0], 'ugt': a[0] > b[0], 'uge': a[0] > b[0]}[pred])
        elif (ta and type(b) is int) or (tb and type(a) is int):
            # pointer against null
            if pred == 'eq':
                return 0
            if pred == 'ne':
                return 1
            if pred in ('ugt', 'uge'):
                return int(ta)
            if pred in ('ult', 'ule'):
                return int(tb)
        return self.symicmp(st, pred, a, b, ty)

    def symicmp(self, st, pred, a, b, ty):
        if a is b or (type(a) is type(b) and a == b):
            return int(pred in ('eq', 'ule', 'uge', 'sle', 'sge'))
        return term('icmp_' + pred, 1, a, b)

    def cast(self, st, op, v, src, dst):
        if type(v) is int:
            if op == 'sext':
                return sgn(v, src) & mask(dst)
            if op == 'trunc':
                return v & mask(dst)
            return v
        if type(v) is Part or v is UNDEF and op == 'zext':
            val, um = bits_of(v, src)
            if op == 'sext' and not um >> (src - 1) & 1:
                return mk_part(sgn(val, src), um, dst)
            return UNDEF if op == 'sext' else mk_part(val, um, dst)
        if v is UNDEF or type(v) is tuple or isinstance(v, list):
            return v
        if op in ('zext', 'bitcast', 'ptrtoint', 'inttoptr'):
            return v
        return term(op, dst, v)


# ---- external functions ----------------------------------------------------------------------
EXTERNS = {}


def extern(*names):
    def d(f):
        for n in names:
            EXTERNS[n] = f
        return f
    return d


@extern('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def x_new(e, st, a):
    if type(a[0]) is not int:
        raise Unsupported('allocation of unknown size')
    i = e.new_obj(st, a[0], 'heap')
    return (i, 0)


@extern('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def x_delete(e, st, a):
    p = a[0]
    if type(p) is int and p == 0:
        return None
    o = e.ptr(st, p, 'free')
    if o.kind != 'heap' or p[1] != 0:
        raise Stop('mem', 'free of a non heap object')
    st.freed[p[0]] = 'freed'
    del st.mem[p[0]]
    return None


@extern('llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'memcpy', 'memmove', 'llvm.memcpy.inline.p0.p0.i64')
def x_memcpy(e, st, a):
    e.memcpy(st, a[0], a[1], a[2])
    return a[0]


@extern('llvm.memset.p0.i64', 'memset')
def x_memset(e, st, a):
    e.memset(st, a[0], a[1], a[2])
    return a[0]


@extern('llvm.expect.i1', 'llvm.expect.i64', 'llvm.expect.i8', 'llvm.expect.i32', 'llvm.launder.invariant.group.p0', 'llvm.strip.invariant.group.p0')
def x_expect(e, st, a):
    return a[0]


@extern('llvm.trap')
def x_trap(e, st, a):
    raise Stop('trap', 'trap')


@extern('__cxa_allocate_exception')
def x_exc(e, st, a):
    return (e.new_obj(st, 64 if type(a[0]) is not int else a[0], 'exc'), 0)


@extern('__cxa_throw', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt25__throw_bad_function_callv',
        '_ZSt21__throw_runtime_errorPKc', '_ZSt20__throw_length_errorPKc', '_ZSt19__throw_logic_errorPKc',
        '_ZSt16__throw_bad_castv', '_ZSt24__throw_invalid_argumentPKc')
def x_throw(e, st, a):
    t = ''
    if len(a) > 1 and type(a[1]) is tuple:
        t = st.mem[a[1][0]].name
    raise Stop('throw', t)


@extern('_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc')
def x_throw_oor(e, st, a):
    raise Stop('throw', '_ZTISt12out_of_range')


@extern('_ZSt9terminatev', 'abort', '__assert_fail', '__cxa_pure_virtual', '__clang_call_terminate')
def x_abort(e, st, a):
    raise Stop('trap', 'abort')


@extern('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt12out_of_rangeC1EPKc',
        '_ZNSt13runtime_errorD1Ev', '_ZNSt9exceptionD2Ev', 'llvm.experimental.noalias.scope.decl',
        '_ZNSt12length_errorC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt12domain_errorC1EPKc', 'llvm.va_start', 'llvm.va_end',
        '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
        '_ZNSt12out_of_rangeD1Ev', '_ZNSt11logic_errorD1Ev')
def x_nop(e, st, a):
    return None


@extern('__cxa_rethrow')
def x_rethrow(e, st, a):
    raise Forks([(THROW, lambda s: None)])


@extern('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def x_typeid(e, st, a):
    return 1


@extern('__cxa_begin_catch')
def x_begin_catch(e, st, a):
    st.caught += 1
    return (e.new_obj(st, 64, 'exc'), 0)


@extern('__cxa_end_catch')
def x_end_catch(e, st, a):
    st.caught -= 1


@extern('__cxa_free_exception')
def x_free_exc(e, st, a):
    return None


def minmax(name, f):
    for bits in (8, 16, 32, 64):
        def h(e, st, a, bits=bits):
            x, y = a[0], a[1]
            if type(x) is int and type(y) is int:
                return f(x, y, bits)
            return term(name, bits, x, y)
        EXTERNS['llvm.%s.i%d' % (name, bits)] = h


minmax('umax', lambda x, y, b: max(x, y))
minmax('umin', lambda x, y, b: min(x, y))
minmax('smax', lambda x, y, b: x if sgn(x, b) > sgn(y, b) else y)
minmax('smin', lambda x, y, b: x if sgn(x, b) < sgn(y, b) else y)


@extern('llvm.abs.i64')
def x_abs(e, st, a):
    return abs(sgn(a[0], 64)) if type(a[0]) is int else term('abs', 64, a[0])


def ovf(name, f):
    for bits in (8, 16, 32, 64):
        def h(e, st, a, bits=bits):
            if type(a[0]) is int and type(a[1]) is int:
                r = f(a[0], a[1])
                return [r & mask(bits), int(r < 0 or r > mask(bits))]
            return [term(name, bits, a[0], a[1]), term(name + 'o', 1, a[0], a[1])]
        EXTERNS['llvm.%s.with.overflow.i%d' % (name, bits)] = h


ovf('uadd', lambda a, b: a + b)
ovf('usub', lambda a, b: a - b)
ovf('umul', lambda a, b: a * b)


def byte(e, st, p, i):
    if type(p) is not tuple or p[0] == 'f':
        raise Unsupported('string function')
    v = e.load(st, (p[0], p[1] + i), 1)
    if type(v) is not int:
        raise Unsupported('string function on unknown content')
    return v


@extern('bcmp', 'memcmp')
def x_cmp(e, st, a):
    return compare(e, st, a, False)


@extern('strcmp', 'strncmp')
def x_strcmp(e, st, a):
    return compare(e, st, a, True)


def compare(e, st, a, text):
    if a[0] == a[1]:
        return 0
    n = a[2] if len(a) > 2 else 1 << 20
    if type(n) is not int:
        raise Unsupported('string function')
    for i in range(n):
        x, y = byte(e, st, a[0], i), byte(e, st, a[1], i)
        if x != y:
            return 1 if x > y else mask(32)
        if x == 0 and text:
            break
    return 0


@extern('strlen')
def x_strlen(e, st, a):
    n = 0
    while byte(e, st, a[0], n):
        n += 1
    return n


@extern('__cxa_guard_acquire')
def x_guard_acq(e, st, a):
    v = e.load(st, a[0], 1)
    return 1 if v == 0 else 0


@extern('__cxa_guard_release')
def x_guard_rel(e, st, a):
    e.store(st, a[0], 1, 1)
    return None


@extern('__cxa_atexit')
def x_atexit(e, st, a):
    return 0


# ---- sequence containers (stubs/hsmv_seq.h) ---------------------------------------------------
def seqobj(e, st, h, what):
    if type(h) is tuple and h[0] != 'f':
        o = st.mem.get(h[0])
        if o is None or o.kind != 'list':
            raise Stop('mem', '%s of a destroyed container' % what)
        return o
    if h is UNDEF:
        raise Stop('mem', '%s of an uninitialised container' % what)
    if isinstance(h, int):
        raise Stop('mem', '%s of a moved or null container' % what)
    raise Unsupported('container handle %r' % (h,))


@extern('hsmv_new')
def x_seq_new(e, st, a):
    i = e.new_obj(st, 0, 'list')
    o = st.mem[i]
    o.items = []
    o.name = 'list%d' % a[0]
    return (i, 0)


@extern('hsmv_free')
def x_seq_free(e, st, a):
    o = seqobj(e, st, a[0], 'destruction')
    for x in o.items:
        st.mem.pop(x, None)
    st.freed[a[0][0]] = 'freed container'
    del st.mem[a[0][0]]


@extern('hsmv_size')
def x_seq_size(e, st, a):
    return len(seqobj(e, st, a[0], 'size').items)


@extern('hsmv_empty')
def x_seq_empty(e, st, a):
    return int(not seqobj(e, st, a[0], 'empty').items)


@extern('hsmv_at')
def x_seq_at(e, st, a):
    o = seqobj(e, st, a[0], 'access')
    i = a[1]
    if i is UNDEF:
        raise Stop('mem', 'container index is an uninitialised value')
    if type(i) is not int:
        raise Unsupported('symbolic container index')
    if i >= len(o.items):
        raise Stop('mem', 'access of element %d of a container with %d elements' % (sgn(i, 64), len(o.items)))
    return (o.items[i], 0)


@extern('hsmv_insert')
def x_seq_insert(e, st, a):
    o = seqobj(e, st, a[0], 'insertion')
    if type(a[1]) is not int:
        raise Unsupported('symbolic container index')
    if a[1] > len(o.items):
        raise Stop('mem', 'insertion behind the end of a container')
    x = e.new_obj(st, a[2], 'elem')
    o = e.wobj(st, a[0][0])
    o.items.insert(a[1], x)
    e.on_seq(st, a[0][0], 'insert', a[1], x)
    return (x, 0)


@extern('hsmv_erase')
def x_seq_erase(e, st, a):
    o = seqobj(e, st, a[0], 'removal')
    if type(a[1]) is not int:
        raise Unsupported('symbolic container index')
    if a[1] >= len(o.items):
        raise Stop('mem', 'removal from an empty container')
    o = e.wobj(st, a[0][0])
    x = o.items.pop(a[1])
    e.on_seq(st, a[0][0], 'erase', a[1], x)
    st.freed[x] = 'erased element'
    st.mem.pop(x, None)


@extern('hsmv_data')
def x_seq_data(e, st, a):
    raise NeedRealContainers('contiguous access')


@extern('hsmv_capacity')
def x_seq_cap(e, st, a):
    raise NeedRealContainers('capacity')


def _on_seq(self, st, lst, what, idx, elem):
    pass


Engine.on_seq = _on_seq
