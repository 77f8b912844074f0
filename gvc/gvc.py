"""gvc: a deductive verification-condition generator for GOTO programs.

Input : the GOTO program that goto-cc (CBMC 6.11 front end) makes from a proof
        harness which #includes an unmodified /repo translation unit.
Output: named obligations, each discharged by an SMT solver (z3, then cvc5).

Semantics: C integers are mathematical integers (narrowing casts are obligations
or listed assumptions, see `range`), floating point is uninterpreted with
commutative add/mul, arrays of symbolic length are SMT arrays, pointers are
(object, path) pairs.  Loops are executed to completion when their exit is
decided by the case constants, otherwise cut with an inductive invariant from
the sidecar; a loop with neither is reported as `undecided`, never as proved.
"""
import json, sys, re, time, itertools, subprocess, os, tempfile
import z3

sys.setrecursionlimit(100000)
I = z3.IntSort()
FP = z3.DeclareSort('FP')
TAGS = {}
OPAQUE_PTR = object()


class Undecided(Exception):
    """the engine cannot decide (unsupported construct, missing invariant...)"""


class Unsupported(Undecided):
    pass


# ---------------------------------------------------------------- types
class Types:
    def __init__(self, symtab):
        self.symtab = symtab
        self.cache = {}
        self.szc = {}

    def parse(self, t):
        k = t.get('id')
        ns = t.get('namedSub', {})
        if k in ('signedbv', 'unsignedbv'):
            return ('int', int(ns['width']['id']), k == 'signedbv')
        if k == 'c_bool':
            return ('int', 8, False)
        if k == 'bool':
            return ('bool',)
        if k == 'floatbv':
            return ('fp', int(ns['width']['id']))
        if k == 'pointer':
            return ('ptr', self.parse(t['sub'][0]))
        if k in ('struct_tag', 'union_tag'):
            return (k[:-4], ns['identifier']['id'])
        if k == 'c_enum_tag':
            return ('int', 32, False)
        if k in ('c_enum', 'c_bit_field'):
            if k == 'c_bit_field':
                raise Unsupported('bit field')
            return ('int', 32, False)
        if k == 'array':
            sz = ns.get('size', {})
            n = None
            if sz.get('id') == 'constant':
                n = int(sz['namedSub']['value']['id'], 16)
            elif sz.get('id') not in (None, 'nil', ''):
                n = ('expr', json.dumps(sz))
            return ('array', self.parse(t['sub'][0]), n)
        if k in ('empty', None, ''):
            return ('void',)
        if k == 'code':
            return ('code',)
        if k in ('integer', 'natural'):
            return ('int', 1 << 20, True)
        if k == 'struct':
            return ('structd', t)
        return ('other', k)

    def fields(self, tag):
        if tag in self.cache:
            return self.cache[tag]
        s = self.symtab.get(tag)
        if s is None:
            raise Unsupported('struct ' + tag[:60])
        comps = s['type'].get('namedSub', {}).get('components', {}).get('sub', [])
        out = []
        for c in comps:
            ns = c['namedSub']
            out.append((ns['name']['id'], self.parse(ns['type'])))
        self.cache[tag] = out
        return out

    def sizeof(self, t):
        if t in self.szc:
            return self.szc[t]
        k = t[0]
        if k == 'int':
            r = t[1] // 8
        elif k == 'fp':
            r = t[1] // 8
        elif k == 'ptr':
            r = 8
        elif k == 'bool':
            r = 1
        elif k == 'void':
            r = 1
        elif k == 'code':
            r = 1
        elif k == 'array':
            if not isinstance(t[2], int):
                raise Unsupported('sizeof vla')
            r = self.sizeof(t[1]) * t[2]
        elif k in ('struct', 'union'):
            r = 0
            al = 1
            for n, ft in self.fields(t[1]):
                s = self.sizeof(ft)
                if k == 'union':
                    r = max(r, s)
                else:
                    r += s        # goto-cc makes padding explicit ($pad)
            # $pad fields are included by goto-cc
        else:
            raise Unsupported('sizeof %s' % (t,))
        self.szc[t] = r
        return r


# ---------------------------------------------------------------- scalars
def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def fold(x):
    if z3.is_int_value(x):
        return x.as_long()
    return x


def past(v, k):
    """the array below the stores whose index differs from k by a constant"""
    for _ in range(32):
        if not z3.is_app(v) or v.decl().kind() != z3.Z3_OP_STORE:
            break
        d = z3.simplify(zi(k) - v.arg(1))
        if not z3.is_int_value(d) or d.as_long() == 0:
            break
        v = v.arg(0)
    return v


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    return z3.IntVal(x) if isinstance(x, int) else x


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def simp(x):
    if isinstance(x, (int, bool)):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    if z3.is_int_value(x):
        return x.as_long()
    return x


def add(a, b):
    if isint(a) and isint(b):
        return a + b
    if isint(a) and a == 0:
        return b
    if isint(b) and b == 0:
        return a
    return simp(zi(a) + zi(b))


def sub_(a, b):
    if isint(a) and isint(b):
        return a - b
    if isint(b) and b == 0:
        return a
    return simp(zi(a) - zi(b))


def mul(a, b):
    if isint(a) and isint(b):
        return a * b
    if isint(a):
        a, b = b, a
    if isint(b):
        if b == 0:
            return 0
        if b == 1:
            return a
    return simp(zi(a) * zi(b))


def neg(a):
    return -a if isint(a) else simp(-a)


def not_(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def and_(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        o.append(x)
    if not o:
        return True
    return o[0] if len(o) == 1 else z3.And(*o)


def or_(*xs):
    o = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        o.append(x)
    if not o:
        return False
    return o[0] if len(o) == 1 else z3.Or(*o)


def implies(a, b):
    return or_(not_(a), b)


# ---------------------------------------------------------------- polynomials
def poly(x, depth=0):
    """z3 Int term -> {monomial: coef}; monomial = tuple of sorted atom ids.
    returns (dict, atoms)"""
    atoms = {}

    def rec(t):
        if isint(t):
            return {(): t} if t else {}
        if z3.is_int_value(t):
            v = t.as_long()
            return {(): v} if v else {}
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                for m, v in rec(c).items():
                    r[m] = r.get(m, 0) + v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            r = dict(rec(ch[0]))
            for c in ch[1:]:
                for m, v in rec(c).items():
                    r[m] = r.get(m, 0) - v
            return {m: v for m, v in r.items() if v}
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in rec(t.arg(0)).items()}
        if k == z3.Z3_OP_MUL:
            r = {(): 1}
            for c in t.children():
                p = rec(c)
                n = {}
                for m1, v1 in r.items():
                    for m2, v2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        n[m] = n.get(m, 0) + v1 * v2
                if len(n) > 400:
                    raise OverflowError
                r = {m: v for m, v in n.items() if v}
            return r
        if k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            e = t.arg(1).as_long()
            p = rec(t.arg(0))
            r = {(): 1}
            for _ in range(e):
                n = {}
                for m1, v1 in r.items():
                    for m2, v2 in p.items():
                        m = tuple(sorted(m1 + m2))
                        n[m] = n.get(m, 0) + v1 * v2
                r = n
            return r
        atoms[t.get_id()] = t
        return {(t.get_id(),): 1}
    try:
        p = rec(x)
    except OverflowError:
        return None, None
    return p, atoms


def unpoly(p, atoms):
    r = 0
    for m, v in sorted(p.items()):
        t = v
        for a in m:
            t = mul(t, atoms[a])
        r = add(r, t)
    return r


def divconst(x, c):
    """exact division of x by constant c if every coefficient is a multiple"""
    if isint(x):
        return x // c if x % c == 0 else None
    p, at = poly(x)
    if p is None or any(v % c for v in p.values()):
        return None
    return unpoly({m: v // c for m, v in p.items()}, at)


# ---------------------------------------------------------------- certificates
KEEP = {}


def padd(p, q, k=1):
    r = dict(p)
    for m, v in q.items():
        n = r.get(m, 0) + k * v
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            n = r.get(m, 0) + v1 * v2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def psubst(p, a, q):
    """replace atom a by polynomial q"""
    r = {}
    pw = {0: {(): 1}, 1: q}
    groups = {}
    for m, v in p.items():
        k = m.count(a)
        if k == 0:
            n = r.get(m, 0) + v
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        else:
            groups.setdefault(k, {})[tuple(x for x in m if x != a)] = v
    for k, g in groups.items():
        while k not in pw:
            j = max(pw)
            pw[j + 1] = pmul(pw[j], q)
        r = padd(r, pmul(g, pw[k]))
        if len(r) > 6000:
            raise OverflowError
    return r


def ptokeep(x):
    """polynomial over long-lived atom ids"""
    p, at = poly(x)
    if p is None:
        return None
    for i, t in at.items():
        KEEP[i] = t
    return p


class Cert:
    """positivity certificates: T >= 0 because, after writing every atom as a
    lower bound plus a nonnegative slack, no coefficient is negative."""

    def __init__(self):
        self.ineqs = []      # (guard id frozenset, poly >= 0)
        self.bylow = {}      # atom -> list of indices with coefficient > 0
        self.eqs = []
        self.slack = itertools.count(-1, -1)
        self.seen = set()

    def add(self, f, guards=frozenset()):
        if isinstance(f, bool):
            return
        if z3.is_and(f):
            for c in f.children():
                self.add(c, guards)
            return
        if z3.is_implies(f):
            a, b = f.children()
            self.add(b, guards | self.gids(a))
            return
        if z3.is_or(f) and f.num_args() == 2 and not z3.is_quantifier(f):
            # simplified implication: Or(Not g, c): either disjunct may be the consequence
            a, b = f.children()
            for x, y in ((a, b), (b, a)):
                self.add(y, guards | {not_(x).get_id()} if self._keep(not_(x)) else guards)
            return
        if z3.is_or(f):
            ch = f.children()
            for k, c in enumerate(ch):
                g = set()
                for j, o in enumerate(ch):
                    if j != k:
                        n = not_(o)
                        self._keep(n)
                        g.add(n.get_id())
                self.add(c, guards | g)
            return
        self._lit(f, guards)

    def _keep(self, t):
        KEEP[t.get_id()] = t
        return True

    def gids(self, g):
        if z3.is_and(g):
            s = frozenset()
            for c in g.children():
                s |= self.gids(c)
            return s
        self._keep(g)
        return frozenset([g.get_id()])

    def polys(self, f):
        """literal -> list of polys >= 0"""
        neg_ = False
        if z3.is_not(f):
            neg_ = True
            f = f.arg(0)
        if not z3.is_app(f):
            return []
        k = f.decl().kind()
        if f.num_args() != 2 or not z3.is_int(f.arg(0)):
            return []
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            return []
        a, b = ptokeep(f.arg(0)), ptokeep(f.arg(1))
        if a is None or b is None:
            return []
        if k == z3.Z3_OP_EQ:
            if neg_:
                return []
            return [padd(a, b, -1), padd(b, a, -1)]
        if k in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            a, b = b, a
            k = {z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_LE: z3.Z3_OP_GE}[k]
        # a >= b or a > b
        if neg_:
            a, b = b, a
            k = z3.Z3_OP_GT if k == z3.Z3_OP_GE else z3.Z3_OP_GE
        d = padd(a, b, -1)
        if k == z3.Z3_OP_GT:
            d = padd(d, {(): 1}, -1)
        return [d]

    def _lit(self, f, guards):
        for p in self.polys(f):
            if len(p) > 12:
                continue
            key = (guards, tuple(sorted(p.items())))
            if key in self.seen:
                continue
            self.seen.add(key)
            self.ineqs.append((guards, p))

    def proves(self, goal, guard_lits, budget=0.4):
        if isinstance(goal, bool):
            return goal
        if z3.is_and(goal):
            return all(self.proves(c, guard_lits, budget) for c in goal.children())
        if z3.is_implies(goal):
            return self.proves(goal.arg(1), tuple(guard_lits) + (goal.arg(0),), budget)
        if z3.is_or(goal):
            ch = goal.children()
            for k, c in enumerate(ch):
                if self.proves(c, tuple(guard_lits) + tuple(not_(o) for j, o in enumerate(ch) if j != k), budget):
                    return True
            return False
        if z3.is_not(goal) and z3.is_or(goal.arg(0)):
            return all(self.proves(not_(c), guard_lits, budget) for c in goal.arg(0).children())
        ps = self.polys(goal)
        if not ps:
            return False
        G = set()
        extra = []
        for g in guard_lits:
            for c in (g.children() if z3.is_and(g) else [g]):
                G.add(c.get_id())
                KEEP[c.get_id()] = c
                for p in self.polys(c):
                    if len(p) <= 12:
                        extra.append(p)
        facts = [p for gs, p in self.ineqs if gs <= G] + extra
        t1 = time.time() + budget
        try:
            return all(self._linear(p, facts) or self._prove(p, facts, t1) for p in ps)
        except OverflowError:
            return False

    monv = {}

    def _mon(self, m):
        v = self.monv.get(m)
        if v is None:
            v = z3.Real('m%d' % len(self.monv))
            self.monv[m] = v
        return v

    def _lin(self, p):
        k = id(p)
        r = self.linc.get(k)
        if r is not None and r[0] is p:
            return r[1]
        ts = [self._mon(m) * v if m else z3.RealVal(v) for m, v in p.items()]
        e = z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))
        self.linc[k] = (p, e)
        return e

    linc = {}

    def _linear(self, T, facts):
        """linear arithmetic with monomials as unknowns"""
        # relevant facts: transitive closure over shared monomials
        mons = set(m for m in T if m)
        use = []
        rest = list(facts)
        for _ in range(4):
            nr = []
            add_ = set()
            for p in rest:
                if any(m in mons for m in p if m):
                    use.append(p)
                    add_ |= set(m for m in p if m)
                else:
                    nr.append(p)
            rest = nr
            if add_ <= mons:
                break
            mons |= add_
        if not use and any(m for m in T):
            return False
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 500)
        for p in use:
            s.add(self._lin(p) >= 0)
        s.add(self._lin(T) <= -1)
        return s.check() == z3.unsat

    def _prove(self, T, facts, tend):
        if all(v >= 0 for v in T.values()) and not any(m for m in T):
            return T.get((), 0) >= 0
        for f in facts:
            if f == T:
                return True
        # lower bounds: atom -> list of polys rest with atom >= rest
        lows = {}
        ups = {}
        nonneg = set()
        for p in facts:
            for m, v in p.items():
                if len(m) == 1 and v == 1:
                    a = m[0]
                    rest = {mm: -vv for mm, vv in p.items() if mm != m}
                    if any(a in mm for mm in rest):
                        continue
                    lows.setdefault(a, []).append(rest)
                elif len(m) == 1 and v == -1:
                    a = m[0]
                    rest = {mm: vv for mm, vv in p.items() if mm != m}
                    if any(a in mm for mm in rest):
                        continue
                    ups.setdefault(a, []).append(rest)

        # equalities that define an atom are used from both sides by the caller's facts
        def nonneg_atom(a, seen=()):
            if a < 0:
                return True
            if a in nonneg:
                return True
            for r in lows.get(a, ()):
                if all(v >= 0 for v in r.values()) and all(
                        all(x < 0 or (x != a and x not in seen and nonneg_atom(x, seen + (a,))) for x in m) for m in r):
                    nonneg.add(a)
                    return True
            return False

        count = [0]

        def rec(T, done):
            if time.time() > tend:
                return False
            count[0] += 1
            neg_ = [m for m, v in T.items() if v < 0]
            if not neg_:
                return all(all(nonneg_atom(a) for a in m) for m in T)
            if count[0] > 3000:
                return False
            # atoms of positive monomials that may be lowered
            cands = []
            pos_atoms = set(a for m, v in T.items() if v > 0 for a in m if a >= 0)
            neg_atoms = set(a for m in neg_ for a in m)
            for a in pos_atoms:
                for r in lows.get(a, ()):
                    ra = set(x for m in r for x in m)
                    if a in done:
                        continue
                    score = 0
                    if ra & neg_atoms:
                        score += 4
                    if not ra:
                        score += 1 + min(r.get((), 0), 1)
                    elif not ra <= (neg_atoms | pos_atoms):
                        score -= 1
                    cands.append((-score, len(r), a, r))
            for a in neg_atoms:
                if a < 0 or a in done or a in pos_atoms:
                    continue
                for r in ups.get(a, ()):
                    ra = set(x for m in r for x in m)
                    score = 3 if ra and ra <= pos_atoms else 0 if ra else 1
                    cands.append((-score, len(r), a, (r,)))
            cands.sort(key=lambda c: (c[0], c[1]))
            for sc, ln, a, r in cands[:6]:
                # a := r + slack   (or an upper bound minus slack)
                sl = next(self.slack)
                if isinstance(r, tuple):
                    q = dict(r[0])
                    q[(sl,)] = -1
                else:
                    q = dict(r)
                    q[(sl,)] = 1
                T2 = psubst(T, a, q)
                d2 = dict(done)
                d2[a] = True
                if rec(T2, d2):
                    return True
            # negative monomials: an upper bound for a negative atom may help too
            return False
        return rec(T, {})


# ---------------------------------------------------------------- memory
class Obj:
    __slots__ = ('oid', 'type', 'name', 'zero', 'dyn', 'elem', 'length', 'nbytes', 'data', 'local')
    ctr = itertools.count(1)

    def __init__(self, name, type=None, zero=False, dyn=False, elem=None, length=None, nbytes=None, data=None):
        self.oid = next(Obj.ctr)
        self.name = name
        self.type = type
        self.zero = zero
        self.dyn = dyn
        self.elem = elem
        self.length = length
        self.nbytes = nbytes
        self.data = data

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.oid)


NULLO = Obj('NULL')
INVALID = Obj('INVALID')
EXPAND = 80


class PV:
    """pointer value: alternatives (cond, obj, path, boff)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'PV(%s)' % (self.alts,)


NULLP = PV([(True, NULLO, (), 0)])
INVP = PV([(True, INVALID, (), 0)])


class SV:
    """struct/array value: dict relative path -> scalar"""
    __slots__ = ('cells', 'type')

    def __init__(self, cells, type):
        self.cells = cells
        self.type = type


class PArr:
    """symbolic-length array of pointers into one object: byte offsets in a z3 array"""
    __slots__ = ('obj', 'arr')

    def __init__(self, obj, arr):
        self.obj = obj
        self.arr = arr


class State:
    __slots__ = ('guard', 'mem')

    def __init__(self, guard, mem):
        self.guard = guard     # tuple of literals
        self.mem = mem

    def fork(self, lit=None):
        g = self.guard if lit is None or lit is True else self.guard + (lit,)
        return State(g, dict(self.mem))


def iscompl(a, b):
    return (z3.is_not(a) and a.arg(0).eq(b)) or (z3.is_not(b) and b.arg(0).eq(a))


class Instr:
    __slots__ = ('op', 'code', 'guard', 'targets', 'loc', 'src', 'label', 'text')


class Func:
    def __init__(self, name, js):
        self.name = name
        self.ins = []
        self.locmap = {}
        for k, i in enumerate(js.get('instructions', [])):
            n = Instr()
            n.op = i['instructionId']
            n.code = i.get('code')
            n.guard = i.get('guard')
            n.targets = [int(t) for t in i.get('targets', [])]
            n.loc = i['locationNumber']
            n.src = i.get('sourceLocation', {})
            n.label = n.src.get('comment')
            n.text = i.get('instruction', '').strip().split('\n')[-1].strip()
            self.locmap[n.loc] = k
            self.ins.append(n)
        self.params = None
        # loops: head index -> back-edge index (max)
        self.loops = {}
        for k, n in enumerate(self.ins):
            if n.op == 'GOTO':
                for t in n.targets:
                    h = self.locmap.get(t)
                    if h is not None and h <= k:
                        self.loops[h] = max(k, self.loops.get(h, 0))


class LoopEnv:
    """what a sidecar invariant sees"""

    def __init__(self, eng, st, frame, func, head, tail, names, entry=None):
        object.__setattr__(self, '_', (eng, st, frame, func, head, tail, names, entry))

    def __getattr__(self, n):
        eng, st, frame, func, head, tail, names, entry = self._
        if n == 'old':
            return entry
        if n not in names:
            raise Undecided('invariant variable %s not in loop of %s' % (n, func.name))
        ident, ty = names[n]
        v = eng.read_leafs(st, frame.get(ident) or eng.glob(ident), (), ty)
        if isinstance(v, (int, bool)) or z3.is_expr(v):
            return zi(v) if not z3.is_expr(v) or z3.is_int(v) else v
        return v

    def g(self, name, *path):
        """a global (harness ghost) variable"""
        eng, st, frame, func, head, tail, names, entry = self._
        o = eng.glob(name)
        v = eng.read_leafs(st, o, path, eng.obj_type_at(o, path))
        return zi(v) if isinstance(v, (int, bool)) else v

    @property
    def fprank(self):
        return self._[0].uf('fprank', FP, z3.RealSort())

    def case(self, n):
        return self._[0].cases.get(n)

    def at(self, n, idx):
        """*(n + idx) for a pointer or array variable n (name or value)"""
        eng, st, frame, func, head, tail, names, entry = self._
        if isinstance(n, str):
            ident, ty = names[n]
            o = frame.get(ident) or eng.glob(ident)
            if ty[0] == 'array':
                p = PV([(True, o, (0,), 0)])
                et = ty[1]
            else:
                p = eng.read_leafs(st, o, (), ty)
                et = ty[1]
        else:
            p, et = n
        q = eng.ptr_add(p, idx, et)
        with eng.quiet():
            v = eng.load(st, q, et)
        return zi(v) if isinstance(v, (int, bool)) else v

    def gat(self, name, idx):
        """element idx of the array a ghost pointer points to"""
        eng, st, frame, func, head, tail, names, entry = self._
        o = eng.glob(name)
        ty = eng.obj_type_at(o, ())
        p = eng.read_leafs(st, o, (), ty)
        with eng.quiet():
            v = eng.load(st, eng.ptr_add(p, idx, ty[1]), ty[1])
        return zi(v) if isinstance(v, (int, bool)) else v

    def gatf(self, name, idx, fld):
        """a member of element idx of the array of structures a ghost pointer points to"""
        eng, st, frame, func, head, tail, names, entry = self._
        o = eng.glob(name)
        ty = eng.obj_type_at(o, ())
        p = eng.read_leafs(st, o, (), ty)
        with eng.quiet():
            return eng.load_path(st, eng.ptr_add(p, idx, ty[1]), (fld,))

    def field(self, n, *path):
        eng, st, frame, func, head, tail, names, entry = self._
        ident, ty = names[n]
        o = frame.get(ident) or eng.glob(ident)
        if ty[0] == 'ptr':
            p = eng.read_leafs(st, o, (), ty)
            with eng.quiet():
                v = eng.load_path(st, p, path)
        else:
            v = eng.read_leafs(st, o, path, eng.type_at(ty, path))
        return zi(v) if isinstance(v, (int, bool)) else v


def fpkey(t, depth=0):
    """structural order of floating point terms; array names weigh more than indices"""
    if depth > 6 or not z3.is_app(t):
        return ('~',)
    if z3.is_int(t):
        return ('i',)
    return (t.decl().name(), t.num_args()) + tuple(fpkey(x, depth + 1) for x in t.children())


class _Quiet:
    def __init__(self, e):
        self.e = e

    def __enter__(self):
        self.e.quietn += 1

    def __exit__(self, *a):
        self.e.quietn -= 1


def slowness():
    """how much longer a fixed amount of work takes than on an idle machine (at least 1, at most 8)"""
    t = time.perf_counter()
    x = 0
    for k in range(600000):
        x += k & 7
    return min(8.0, max(1.0, (time.perf_counter() - t) / SPEED))


SPEED = 0.024


class Engine:
    def __init__(self, gb, cases, opts):
        self.cases = cases
        self.opts = opts
        # all limits are wall clock times of an idle machine of the speed this was written on; a slower or busier one gets more
        self.slow = slowness() * opts.get('patience', 1)
        self.timeout = int(opts.get('timeout', 10000) * self.slow)
        self.types = Types(gb['symtab'])
        self.symtab = gb['symtab']
        self.funcs = gb['funcs']
        self.parsed = {}
        self.globs = {}
        self.strs = {}
        self.facts = []
        self.obl = []          # results
        self.fresh_ctr = itertools.count()
        self.nds = []          # (name, kind, value, guard)
        self.divmemo = {}
        self.cert = Cert()
        self.fmark = 0
        self.polymemo = {}
        self.quietn = 0
        self.dry = 0
        self.replace = opts.get('replace', {})
        self.invs = opts.get('invs', [])
        self.inv_hit = set()
        self.ignore = set(opts.get('ignore', ()))
        self.assumed = {}
        self.used_funcs = set()
        self.used_invs = {}
        self.solver_time = 0.0
        self.nqueries = 0
        self.backends = {}
        self.t0 = time.time()
        self.deadline = opts.get('deadline')
        if self.deadline:
            self.deadline = min(time.time() + (self.deadline - time.time()) * self.slow, opts.get('wall', 1e18))
        self.ufs = {}
        self.commut = set()
        self.rewrites = []
        self.maxunroll = opts.get('unroll', 40)
        self.stack = []
        self.forcecut = set(opts.get('forcecut', ()))
        self.witnesses = []
        self.typecache = {}
        self.linmemo, self.linmono, self.linfacts = {}, {}, {}
        self.stop_on_fail = opts.get('stop_on_fail', False)

    def quiet(self):
        return _Quiet(self)

    # ------------------------------------------------------------ utilities
    def fresh(self, name, sort):
        return z3.Const('%s!%d' % (name, next(self.fresh_ctr)), sort)

    def sort(self, t):
        if t[0] == 'int':
            return I
        if t[0] == 'fp':
            return FP
        if t[0] == 'bool':
            return z3.BoolSort()
        if t[0] == 'ptr':
            return None
        raise Unsupported('sort %s' % (t,))

    def ty(self, e):
        t = e['namedSub']['type']
        k = id(t)
        r = self.typecache.get(k)
        if r is None:
            r = self.types.parse(t)
            self.typecache[k] = r
        return r

    def fact(self, st, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        g = and_(*st.guard)
        self.facts.append(z3.simplify(zb(implies(g, f))))

    def fact0(self, f):
        self.facts.append(f)

    def uf(self, name, *sorts):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *sorts)
        return self.ufs[name]

    # ------------------------------------------------------------ solver
    def _slice(self, goal_terms):
        return self.facts

    def sync_cert(self):
        if self.fmark > len(self.facts):
            self.fmark = len(self.facts)
        for f in self.facts[self.fmark:]:
            if not z3.is_quantifier(f):
                self.cert.add(f)
        self.fmark = len(self.facts)

    def certify(self, st, c, budget=0.4):
        if isinstance(c, bool):
            return c
        self.sync_cert()
        return self.cert.proves(c, st.guard, budget)

    def quick(self, st, c, to=700):
        """cheap proof attempt (certificate, then a short z3 call)"""
        c = simp(c)
        if isinstance(c, bool):
            return c
        if self.certify(st, c):
            return True
        s = z3.Solver()
        s.set('timeout', int(to * self.slow))
        for f in self.facts:
            if not z3.is_quantifier(f):
                s.add(f)
        s.add(zb(and_(*st.guard)))
        s.add(z3.Not(zb(c)))
        return s.check() == z3.unsat

    def entails(self, st, c, timeout=None):
        """True / False(model) / None"""
        c = simp(c)
        if c is True:
            return True, None
        g = and_(*st.guard)
        t0 = time.time()
        self.nqueries += 1
        to = timeout or self.timeout
        if self.certify(st, c, (4.0 if timeout is None else 0.3) * self.slow):
            self.backends['certificate'] = self.backends.get('certificate', 0) + 1
            self.solver_time += time.time() - t0
            return True, None
        s = z3.Solver()
        for f in self.facts:
            s.add(f)
        s.add(zb(g))
        s.add(z3.Not(zb(c)))
        lin = self.opts.get('lin', True)
        r = z3.unknown
        # alternate between the two encodings with growing limits
        for ms, which in ((400, 'lin'), (500, 'z3'), (2500, 'lin'), (to, 'z3')):
            if which == 'lin':
                if lin and self.lin_proves(g, c, ms):
                    self.backends['z3/lin'] = self.backends.get('z3/lin', 0) + 1
                    self.solver_time += time.time() - t0
                    return True, None
            else:
                s.set('timeout', int(min(to, ms * self.slow if ms != to else to)))
                r = s.check()
                if r != z3.unknown or ms >= to:
                    break
        be = 'z3'
        res = None
        mod = None
        if r != z3.unsat and self.commut and timeout is None:
            x, y = z3.Const('x!fp', FP), z3.Const('y!fp', FP)
            for op, w in self.commut:
                f = self.uf('f%s%d' % (op, w), FP, FP, FP)
                s.add(z3.ForAll([x, y], f(x, y) == f(y, x), patterns=[f(x, y)]))
            r = s.check()
        if r == z3.unsat:
            res = True
        elif r == z3.sat:
            res = False
            mod = s.model()
        elif timeout is None:
            # second opinions: different arithmetic core, then cvc5
            for (nm, cfg) in (('z3/som', {'som': True}), ('z3/nl2', None)):
                s2 = z3.Solver()
                s2.set('timeout', to)
                if nm == 'z3/nl2':
                    try:
                        s2.set('smt.arith.solver', 2)
                    except z3.Z3Exception:
                        pass
                for f in self.facts:
                    s2.add(z3.simplify(f, som=True) if cfg else f)
                s2.add(zb(g))
                n = z3.Not(zb(c))
                s2.add(z3.simplify(n, som=True) if cfg else n)
                r = s2.check()
                be = nm
                if r == z3.unsat:
                    res = True
                    break
                if r == z3.sat:
                    res = False
                    mod = s2.model()
                    break
            if res is None and self.opts.get('cvc5', True):
                if self._cvc5(s, to):
                    res = True
                    be = 'cvc5'
        dt = time.time() - t0
        self.solver_time += dt
        if os.environ.get('GVC_SLOW') and dt > float(os.environ['GVC_SLOW']):
            print('slow %.1fs %s res=%s' % (dt, be, res), str(c)[:300], file=sys.stderr)
        if res is True:
            self.backends[be] = self.backends.get(be, 0) + 1
        return res, mod

    # ---- products as opaque values: enough when the lemmas provide what is needed of them, and decidable
    def lin(self, t):
        m = self.linmemo
        stack = [t]
        while stack:
            x = stack[-1]
            k = x.get_id()
            if k in m:
                stack.pop()
                continue
            if not z3.is_app(x) or x.num_args() == 0:
                m[k] = (x, x)
                stack.pop()
                continue
            ch = x.children()
            todo = [y for y in ch if y.get_id() not in m]
            if todo:
                stack.extend(todo)
                continue
            ch = [m[y.get_id()][1] for y in ch]
            if z3.is_mul(x):
                co = [y for y in ch if z3.is_int_value(y) or z3.is_rational_value(y)]
                va = [y for y in ch if not (z3.is_int_value(y) or z3.is_rational_value(y))]
                if len(va) > 1:
                    key = tuple(sorted(y.get_id() for y in va))
                    if key not in self.linmono:
                        self.linmono[key] = (z3.Const('mono!%d' % len(self.linmono), va[0].sort()), va)
                    r = self.linmono[key][0]
                    for y in co:
                        r = y * r
                    m[k] = (x, r)
                    stack.pop()
                    continue
            if x.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_DIV) and not z3.is_int_value(ch[1]) and not z3.is_rational_value(ch[1]):
                key = (x.decl().kind(), ch[0].get_id(), ch[1].get_id())
                if key not in self.linmono:
                    self.linmono[key] = (z3.Const('quot!%d' % len(self.linmono), x.sort()), ch)
                m[k] = (x, self.linmono[key][0])
                stack.pop()
                continue
            if z3.is_and(x):
                r = z3.And(*ch)
            elif z3.is_or(x):
                r = z3.Or(*ch)
            elif z3.is_add(x):
                r = z3.Sum(ch)
            elif x.decl().kind() == z3.Z3_OP_DISTINCT:
                r = z3.Distinct(*ch)
            elif z3.is_mul(x):
                r = ch[0]
                for y in ch[1:]:
                    r = r * y
            elif x.decl().kind() == z3.Z3_OP_SUB:
                r = ch[0]
                for y in ch[1:]:
                    r = r - y
            else:
                r = x.decl()(*ch)
            m[k] = (x, r)
            stack.pop()
        return m[t.get_id()][1]

    def linfact(self, f):
        k = f.get_id()
        if k not in self.linfacts:
            self.linfacts[k] = (f, self.lin(z3.simplify(f, som=True)))
        return self.linfacts[k][1]

    def lin_proves(self, g, c, ms=2500):
        try:
            s = z3.Solver()
            s.set('timeout', int(ms * self.slow))
            for f in self.facts:
                if not z3.is_quantifier(f):
                    s.add(self.linfact(f))
            s.add(self.lin(z3.simplify(zb(g), som=True)))
            s.add(self.lin(z3.simplify(z3.Not(zb(c)), som=True)))
            r = s.check()
            if os.environ.get('GVC_LIN') and r != z3.unsat and os.environ['GVC_LIN'] in str(c):
                print('LIN', r, s.to_smt2()[-6000:] if r != z3.sat else s.model(), 'GOAL', c, 'GUARD', g, file=sys.stderr)
            return r == z3.unsat
        except z3.Z3Exception:
            return False

    def _cvc5(self, s, to):
        smt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-logic ALL)', '')
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, smt.encode())
        os.close(fd)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % to, fn], capture_output=True, text=True, timeout=to / 1000 + 5)
            return p.stdout.strip().split('\n')[0] == 'unsat'
        except Exception:
            return False
        finally:
            os.unlink(fn)

    def feasible(self, st, extra):
        e = simp(extra)
        if e is False:
            return False
        return not self.quick(st, not_(e), self.opts.get('feas_timeout', 500))

    def oblige(self, st, c, label, src, kind='user'):
        if self.quietn or self.dry:
            return
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget')
        c = simp(c)
        if c is not True:
            pass
        r, m = (True, None) if c is True else self.entails(st, c)
        o = {'label': label, 'kind': kind, 'status': {True: 'proved', False: 'failed', None: 'unknown'}[r],
             'where': '%s:%s %s' % (src.get('file', '?').replace('/repo/', ''), src.get('line', '?'), src.get('function', '')),
             'trivial': c is True}
        if r is not True:
            o['goal'] = str(c)[:2000]
            o['model'] = self.model_values(m) if m is not None else None
        self.obl.append(o)
        # continue under the assumption that it holds (standard for VCs)
        if c is not True:
            self.fact(st, c)
        if r is not True and self.stop_on_fail:
            raise StopIteration

    def model_values(self, m):
        out = []
        for name, kind, v, guard in self.nds:
            try:
                if kind == 'int':
                    if isint(v):
                        out.append([name, 'i', v])
                    else:
                        x = m.eval(v, model_completion=True)
                        out.append([name, 'i', x.as_long()])
                elif kind == 'fp':
                    x = m.eval(v, model_completion=True)
                    out.append([name, 'f', abs(hash(str(x))) % 97 + 1])
                elif kind in ('ints', 'fps'):
                    arr, n = v
                    n = n if isint(n) else m.eval(n, model_completion=True).as_long()
                    vals = []
                    for k in range(min(n, 256)):
                        x = m.eval(z3.Select(arr, k), model_completion=True)
                        vals.append(x.as_long() if kind == 'ints' else abs(hash(str(x))) % 97 + 1)
                    out.append([name, 'a' if kind == 'ints' else 'b', n, vals])
            except Exception as e:
                out.append([name, '?', str(e)])
        return out

    def finding(self, st, label, src):
        self.oblige(st, False, label, src, 'safety')

    # ------------------------------------------------------------ memory
    def glob(self, ident):
        o = self.globs.get(ident)
        if o is None:
            s = self.symtab.get(ident)
            if s is None:
                raise Unsupported('global ' + ident)
            t = self.types.parse(s['type'])
            o = self.mkobj(ident, t, zero=True)
            self.globs[ident] = o
        return o

    def mkobj(self, name, t, zero=False):
        if t[0] == 'array' and isinstance(t[2], int) and t[2] > EXPAND:
            return Obj(name, None, zero, dyn=True, elem=t[1], length=t[2])
        return Obj(name, t, zero)

    def type_at(self, t, path):
        for p in path:
            if t[0] in ('struct', 'union'):
                for n, ft in self.types.fields(t[1]):
                    if n == p:
                        t = ft
                        break
                else:
                    raise Unsupported('field %s' % (p,))
            elif t[0] == 'array':
                t = t[1]
            else:
                raise Unsupported('path %s in %s' % (path, t))
        return t

    def obj_type_at(self, obj, path):
        if obj.dyn:
            if not path:
                return ('array', obj.elem, None)
            return self.type_at(obj.elem, path[1:])
        return self.type_at(obj.type, path)

    def resolve(self, st, obj, path, src=None):
        """-> list of (cond, key, aidx) leaf locations for a scalar path"""
        if obj.dyn:
            idx = path[0]
            subs = self._resolve(st, obj.elem, path[1:], src)
            return [(c, (obj.oid, ('*',) + p), idx if ai is None else self._bad2()) for c, p, ai in subs]
        return [(c, (obj.oid, p), ai) for c, p, ai in self._resolve(st, obj.type, path, src)]

    def _bad2(self):
        raise Unsupported('two-level symbolic array')

    def _resolve(self, st, t, path, src):
        alts = [(True, (), None)]
        for p in path:
            if t[0] == 'array':
                n = t[2]
                if isint(p):
                    if isinstance(n, int) and n > EXPAND:
                        if any(ai is not None for _, _, ai in alts):
                            raise Unsupported('two-level symbolic array')
                        alts = [(c, q + ('*',), p) for c, q, ai in alts]
                    else:
                        alts = [(c, q + (p,), ai) for c, q, ai in alts]
                else:
                    if isinstance(n, int) and n <= EXPAND:
                        alts = [(and_(c, zi(p) == k), q + (k,), ai) for c, q, ai in alts for k in range(n)]
                    else:
                        if any(ai is not None for _, _, ai in alts):
                            raise Unsupported('two-level symbolic array')
                        alts = [(c, q + ('*',), p) for c, q, ai in alts]
                t = t[1]
            else:
                t = self.type_at(t, (p,))
                alts = [(c, q + (p,), ai) for c, q, ai in alts]
        return alts

    def bounds(self, st, obj, path, src):
        """obligation: every array index along the path is in range"""
        if self.quietn or self.dry:
            return
        if obj.dyn:
            n = obj.length
            if n is not None and path:
                i = path[0]
                if not (isint(i) and isint(n) and 0 <= i < n):
                    self.oblige(st, and_(zi(i) >= 0, zi(i) < zi(n)) if not (isint(i) and isint(n)) else False,
                                'index in bounds of %s' % obj.name, src or {}, 'bounds')
            t = obj.elem
            rest = path[1:]
        else:
            t = obj.type
            rest = path
        for p in rest:
            if t[0] == 'array':
                n = t[2]
                if isint(n):
                    if isint(p):
                        if not 0 <= p < n:
                            self.oblige(st, False, 'index in bounds of %s' % obj.name, src or {}, 'bounds')
                            raise Undecided('index out of bounds')
                    else:
                        self.oblige(st, and_(p >= 0, p < n), 'index in bounds of %s' % obj.name, src or {}, 'bounds')
                t = t[1]
            else:
                t = self.type_at(t, (p,))

    def default(self, obj, key, t, arr):
        zero = obj.zero
        nm = obj.name.split('::')[-1] + ''.join('.' + str(x) for x in key[1])
        if t[0] == 'ptr':
            if arr:
                raise Unsupported('symbolic-length array of pointers: ' + obj.name)
            return NULLP if zero else INVP
        if t[0] == 'void':
            raise Unsupported('void leaf')
        s = self.sort(t)
        if arr:
            if zero:
                return z3.K(I, z3.IntVal(0) if t[0] == 'int' else self.fpconst(0.0))
            return z3.Const('%s@%d' % (nm, obj.oid), z3.ArraySort(I, s))
        if zero:
            return 0 if t[0] == 'int' else (self.fpconst(0.0) if t[0] == 'fp' else False)
        return z3.Const('%s@%d' % (nm, obj.oid), s)

    def leafval(self, st, obj, key, t, arr):
        v = st.mem.get(key)
        if v is None:
            v = self.default(obj, key, t, arr)
            # deterministic default, not stored
        return v

    def read_leafs(self, st, obj, path, t, src=None):
        if t[0] in ('struct', 'array', 'union'):
            return SV(self.collect(st, obj, path, t), t)
        alts = self.resolve(st, obj, path, src)
        if not alts:
            raise Undecided('read from an empty object ' + obj.name)
        val = None
        for c, key, ai in alts:
            v = self.leafval(st, obj, key, t, ai is not None)
            if ai is not None:
                if isinstance(v, PArr):
                    s = simp(z3.Select(v.arr, zi(ai)))
                    v = PV([(True, v.obj, (s,), 0) if getattr(v.obj, 'elem', None) in (('int', 32, True), ('int', 64, True)) else (True, v.obj, (), s)])
                else:
                    v = fold(z3.simplify(z3.Select(past(v, ai), zi(ai)))) if t[0] != 'ptr' else v
            val = v if val is None else self.ite(c, v, val)
        return val

    def collect(self, st, obj, path, t):
        out = {}

        def rec(p, tt):
            if tt[0] == 'struct':
                for n, ft in self.types.fields(tt[1]):
                    if n.startswith('$pad'):
                        continue
                    rec(p + (n,), ft)
            elif tt[0] == 'union':
                raise Unsupported('union copy')
            elif tt[0] == 'array':
                if not isint(tt[2]) or tt[2] > EXPAND:
                    raise Unsupported('large array copy')
                for k in range(tt[2]):
                    rec(p + (k,), tt[1])
            else:
                out[p] = self.read_leafs(st, obj, path + p, tt)
        rec((), t)
        return out

    def clobber_union(self, st, obj, path):
        """a store to one member of a union makes the other members arbitrary"""
        for d in range(1 if obj.dyn else 0, len(path)):
            u = self.obj_type_at(obj, path[:d])
            if u[0] != 'union':
                continue
            for n, ft in self.types.fields(u[1]):
                if n == path[d] or n.startswith('$pad'):
                    continue
                if ft[0] not in ('int', 'fp') or obj.dyn:
                    raise Unsupported('union with aggregate members')
                for c, key, ai in self.resolve(st, obj, path[:d] + (n,)):
                    if ai is not None:
                        raise Unsupported('array of unions')
                    st.mem[key] = self.fresh('union', self.sort(ft))

    def write_leafs(self, st, obj, path, v, t):
        if isinstance(v, SV):
            for p, x in v.cells.items():
                self.write_leafs(st, obj, path + p, x, self.type_at(t, p))
            return
        if any(isinstance(p, str) for p in path):
            self.clobber_union(st, obj, path)
        alts = self.resolve(st, obj, path)
        for c, key, ai in alts:
            if c is False:
                continue
            if ai is not None:
                if t[0] == 'ptr':
                    old = st.mem.get(key)
                    if isinstance(old, PArr) and len(v.alts) == 1 and v.alts[0][1] is old.obj and not v.alts[0][2]:
                        new = PArr(old.obj, z3.Store(old.arr, zi(ai), zi(v.alts[0][3])))
                        st.mem[key] = new
                        continue
                    raise Unsupported('pointer store into symbolic-length array')
                a = self.leafval(st, obj, key, t, True)
                nv = z3.Store(a, zi(ai), v if t[0] == 'fp' else zi(v))
                st.mem[key] = nv if c is True else z3.If(c, nv, a)
            else:
                if c is True:
                    st.mem[key] = v
                else:
                    old = self.leafval(st, obj, key, t, False)
                    st.mem[key] = self.ite(c, v, old)

    def ite(self, c, a, b):
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, PV) or isinstance(b, PV):
            if not isinstance(a, PV) or not isinstance(b, PV):
                raise Unsupported('pointer/int merge')
            return self.ptr_merge(c, a, b)
        if isinstance(a, PArr) or isinstance(b, PArr):
            if isinstance(a, PArr) and isinstance(b, PArr) and a.obj is b.obj:
                return a if a.arr.eq(b.arr) else PArr(a.obj, z3.If(c, a.arr, b.arr))
            raise Unsupported('pointer array merge')
        if isinstance(a, SV):
            return SV({p: self.ite(c, a.cells[p], b.cells[p]) for p in a.cells}, a.type)
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else not_(c)
        if isinstance(a, bool):
            return or_(c, b) if a else and_(not_(c), b)
        if isinstance(b, bool):
            return or_(not_(c), a) if b else and_(c, a)
        if isint(a) and isint(b) and a == b:
            return a
        a2, b2 = (zi(a) if isint(a) else a), (zi(b) if isint(b) else b)
        if a2.eq(b2):
            return a
        return z3.If(c, a2, b2)

    def ptr_merge(self, c, a, b):
        if a is b:
            return a
        out = []
        for (x, cc) in ((a, c), (b, not_(c))):
            for (g, o, p, bo) in x.alts:
                out.append((and_(cc, g), o, p, bo))
        # combine alternatives with same object and compatible path
        res = []
        for g, o, p, bo in out:
            for k, (g2, o2, p2, bo2) in enumerate(res):
                if o2 is o and len(p) == len(p2) and all(
                        (not isinstance(x, str) and not isinstance(y, str)) or x == y for x, y in zip(p, p2)):
                    np_ = tuple(x if isinstance(x, str) else self.ite(g2, y, x) for x, y in zip(p, p2))
                    res[k] = (or_(g, g2), o, np_, self.ite(g2, bo2, bo))
                    break
            else:
                res.append((g, o, p, bo))
        if len(res) == 1:
            g, o, p, bo = res[0]
            res = [(True, o, p, bo)]
        return PV(res)

    # pointer arithmetic, loads, stores
    def set_elem(self, o, t):
        """decide the element type of lazily typed memory"""
        if o.elem is None and o.dyn:
            if t[0] == 'void':
                raise Unsupported('void elem')
            o.elem = t
            sz = self.types.sizeof(t)
            n = o.nbytes
            if n is not None:
                q = divconst(n, sz)
                if q is None:
                    q = n // sz if isint(n) else simp(zi(n) / sz)
                o.length = q
            if isint(o.length) and o.length <= EXPAND:
                o.dyn = False
                o.type = ('array', t, o.length)

    def norm(self, alt, t):
        """normalise one pointer alternative for access as type t"""
        g, o, path, boff = alt
        if o is NULLO or o is INVALID:
            return alt
        if o.dyn and o.elem is None:
            self.set_elem(o, t)
        if o.dyn and not path:
            path = (0,)
        if not o.dyn and not path and o.type[0] == 'array':
            path = (0,)
        cur = self.obj_type_at(o, path)
        if not (isint(boff) and boff == 0):
            # fold byte offset into the last index
            if path and not isinstance(path[-1], str):
                sz = self.types.sizeof(cur)
                q = divconst(boff, sz)
                if q is not None:
                    path = path[:-1] + (add(path[-1], q),)
                    boff = 0
                elif cur[0] in ('struct', 'union') and isint(boff):
                    # offset inside a struct element
                    k, r = divmod(boff, sz)
                    path = path[:-1] + (add(path[-1], k),)
                    boff = r
                    path, boff = self.descend_off(cur, path, boff)
                else:
                    # symbolic: exact division required
                    q = self.fresh('q', I)
                    self.pending_div = (q, sz, boff)
                    raise Unsupported('byte offset not a multiple of element size: %s / %d' % (boff, sz))
            elif isint(boff):
                path, boff = self.descend_off(cur, path, boff)
            else:
                raise Unsupported('byte offset into non-array')
            cur = self.obj_type_at(o, path)
        # descend to a matching leaf type
        n = 0
        while not self.compat(cur, t) and n < 6:
            n += 1
            if cur[0] == 'array':
                path = path + (0,)
                cur = cur[1]
            elif cur[0] == 'struct':
                f = self.types.fields(cur[1])[0]
                path = path + (f[0],)
                cur = f[1]
            else:
                break
        return (g, o, path, boff)

    def descend_off(self, cur, path, boff):
        while boff:
            if cur[0] == 'struct':
                off = 0
                for n, ft in self.types.fields(cur[1]):
                    s = self.types.sizeof(ft)
                    if off <= boff < off + s:
                        path = path + (n,)
                        boff -= off
                        cur = ft
                        break
                    off += s
                else:
                    raise Unsupported('offset past struct')
            elif cur[0] == 'array':
                s = self.types.sizeof(cur[1])
                path = path + (boff // s,)
                boff %= s
                cur = cur[1]
            else:
                raise Unsupported('offset %d inside scalar' % boff)
        return path, 0

    def compat(self, a, b):
        if a == b:
            return True
        if a[0] == 'int' and b[0] == 'int':
            return a[1] == b[1]
        if a[0] == 'ptr' and b[0] == 'ptr':
            return True
        if a[0] in ('struct', 'array') and b[0] == a[0]:
            return a == b or (a[0] == 'array' and self.compat(a[1], b[1]))
        return False

    def ptr_add(self, p, k, t):
        """p + k elements of type t"""
        if isint(k) and k == 0:
            return p
        sz = self.types.sizeof(t)
        out = []
        for (g, o, path, boff) in p.alts:
            if o is NULLO or o is INVALID:
                out.append((g, o, path, boff))
                continue
            if o.dyn and o.elem is None and t[0] not in ('void',) and not (t[0] == 'int' and t[1] == 8):
                self.set_elem(o, t)
            if o.dyn and o.elem is not None and not path:
                path = (0,)
            if not o.dyn and not path and o.type[0] == 'array':
                path = (0,)
            if o.dyn and o.elem is None:
                out.append((g, o, path, add(boff, mul(k, sz))))
                continue
            cur = self.obj_type_at(o, path)
            if path and not isinstance(path[-1], str) and self.compat(cur, t):
                out.append((g, o, path[:-1] + (add(path[-1], k),), boff))
            elif cur[0] == 'array' and self.compat(cur[1], t):
                out.append((g, o, path + (k,), boff))
            else:
                nb = add(boff, mul(k, sz))
                if path and not isinstance(path[-1], str):
                    es = self.types.sizeof(cur)
                    q = divconst(nb, es)
                    if q is not None:
                        out.append((g, o, path[:-1] + (add(path[-1], q),), 0))
                        continue
                out.append((g, o, path, nb))
        return PV(out)

    def ptr_off(self, alt):
        """(object, field path prefix, byte offset) of an alternative"""
        g, o, path, boff = alt
        if o is NULLO or o is INVALID:
            return o, (), boff
        if not path:
            return o, (), boff
        if isinstance(path[-1], str):
            return o, path, boff
        t = self.obj_type_at(o, path)
        return o, path[:-1], add(mul(path[-1], self.types.sizeof(t)), boff)

    def ptr_cmp(self, a, b, op):
        """comparison of two pointers"""
        if op in ('=', 'notequal'):
            r = False
            for x in a.alts:
                for y in b.alts:
                    o1, p1, f1 = self.ptr_off(x)
                    o2, p2, f2 = self.ptr_off(y)
                    if o1 is not o2:
                        continue
                    if o1 is NULLO:
                        e = True
                    elif p1 == p2 or len(p1) == len(p2):
                        e = True
                        for u, v in zip(p1, p2):
                            if isinstance(u, str) or isinstance(v, str):
                                if u != v:
                                    e = False
                            else:
                                e = and_(e, simp(zi(u) == zi(v)))
                        e = and_(e, simp(zi(f1) == zi(f2)))
                    else:
                        if o1 is INVALID:
                            e = self.fresh('invcmp', z3.BoolSort())
                        elif not p1 or not p2 or set(map(type, p1 + p2)) == {str}:
                            # &s vs &s.first
                            e = False
                            q, w = (p1, p2) if len(p1) > len(p2) else (p2, p1)
                            if isint(f1) and isint(f2) and f1 == f2 == 0 and q[:len(w)] == w:
                                raise Unsupported('pointer compare across members')
                        else:
                            raise Unsupported('pointer compare')
                    r = or_(r, and_(x[0], y[0], e))
            return r if op == '=' else not_(r)
        r = False
        for x in a.alts:
            for y in b.alts:
                o1, p1, f1 = self.ptr_off(x)
                o2, p2, f2 = self.ptr_off(y)
                if o1 is not o2 or p1 != p2:
                    e = self.fresh('ptrcmp', z3.BoolSort())
                else:
                    e = simp({'<': zi(f1) < zi(f2), '>': zi(f1) > zi(f2), '<=': zi(f1) <= zi(f2), '>=': zi(f1) >= zi(f2)}[op])
                r = or_(r, and_(x[0], y[0], e))
        return r

    def ptr_diff(self, a, b, t):
        val = None
        sz = self.types.sizeof(t)
        for x in a.alts:
            for y in b.alts:
                o1, p1, f1 = self.ptr_off(x)
                o2, p2, f2 = self.ptr_off(y)
                if o1 is not o2 or p1 != p2:
                    d = self.fresh('ptrdiff', I)
                else:
                    d0 = sub_(f1, f2)
                    d = divconst(d0, sz)
                    if d is None:
                        d = self.div(State((), {}), d0, sz)[0]
                val = d if val is None else self.ite(and_(x[0], y[0]), d, val)
        return val

    def load(self, st, p, t, src=None):
        if not isinstance(p, PV):
            raise Unsupported('deref of non-pointer')
        val = None
        for alt in p.alts:
            g, o, path, boff = self.norm(alt, t)
            if o is NULLO or o is INVALID:
                if not (self.quietn or self.dry):
                    self.oblige(st, not_(g), 'valid pointer dereference', src or {}, 'safety')
                continue
            cur = self.obj_type_at(o, path)
            if not (isint(boff) and boff == 0) or not self.compat(cur, t):
                raise Unsupported('type-punned load of %s at %s in %s' % (t, cur, o))
            gst = st if g is True else State(st.guard + (g,), st.mem)
            self.bounds(gst, o, path, src)
            v = self.read_leafs(st, o, path, cur if cur[0] in ('struct', 'array') else t)
            val = v if val is None else self.ite(g, v, val)
        if val is None:
            if not self.quietn and not self.dry:
                raise Undecided('null/invalid dereference at %s' % (src,))
            if t[0] == 'ptr':
                return INVP
            return self.fresh('bad', self.sort(t))
        return val

    def load_path(self, st, p, path):
        g, o, pp, boff = p.alts[0]
        t = self.obj_type_at(o, pp + tuple(path))
        return self.read_leafs(st, o, pp + tuple(path), t)

    def store(self, st, p, v, t, src=None):
        if not isinstance(p, PV):
            raise Unsupported('store through non-pointer')
        for alt in p.alts:
            g, o, path, boff = self.norm(alt, t)
            if o is NULLO or o is INVALID:
                self.oblige(st, not_(g), 'valid pointer dereference', src or {}, 'safety')
                continue
            cur = self.obj_type_at(o, path)
            if not (isint(boff) and boff == 0) or not self.compat(cur, t):
                raise Unsupported('type-punned store of %s at %s in %s' % (t, cur, o))
            gst = st if g is True else State(st.guard + (g,), st.mem)
            self.bounds(gst, o, path, src)
            if g is True:
                self.write_leafs(st, o, path, v, cur if cur[0] in ('struct', 'array') else t)
            else:
                old = self.read_leafs(st, o, path, cur if cur[0] in ('struct', 'array') else t)
                self.write_leafs(st, o, path, self.ite(g, v, old), cur if cur[0] in ('struct', 'array') else t)

    # ------------------------------------------------------------ arithmetic
    def fpconst(self, v):
        return z3.Const('fp:%r' % (v,), FP)

    def div(self, st, x, y, src=None):
        """C truncated division -> (q, r)"""
        if isint(x) and isint(y):
            if y == 0:
                self.oblige(st, False, 'division by zero', src or {}, 'safety')
                raise Undecided('division by zero')
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q, x - q * y
        if isint(y) and y == 1:
            return x, 0
        if isint(x) and x == 0:
            if not isint(y):
                self.oblige(st, y != 0, 'division by zero', src or {}, 'safety')
            return 0, 0
        x, y = zi(x), zi(y)
        self.oblige(st, simp(y != 0), 'division by zero', src or {}, 'safety')
        if self.quietn and self.inquant:
            raise Unsupported('division inside a quantifier')
        for var, term, cond in self.rewrites:
            if self.occurs(var, x) and (cond is None or self.certify(st, simp(cond))):
                x = z3.simplify(z3.substitute(x, (var, term)))
        px, ax = poly(x)
        py, ay = poly(y)
        key = None
        if px is not None and py is not None:
            key = (tuple(sorted(px.items())), tuple(sorted(py.items())))
            if key in self.divmemo:
                mm = self.divmemo[key]
                gids = {g.get_id() for g in st.guard}
                if mm[4] is None or all(g.get_id() in gids for g in mm[4]):
                    return mm[:2]
        yc = y.as_long() if z3.is_int_value(y) else None
        ypos = yc > 0 if yc is not None else self.quick(st, y > 0)
        xpos = self.quick(st, x >= 0)
        # uniqueness of Euclidean division: x = y*A + B with 0 <= B < y
        split = None
        if ypos and px is not None and py is not None and len(py) == 1:
            (ym, yv), = py.items()
            A, B = {}, {}
            for m, v in px.items():
                mm = list(m)
                ok = v % yv == 0
                if ok:
                    for a_ in ym:
                        if a_ in mm:
                            mm.remove(a_)
                        else:
                            ok = False
                            break
                if ok:
                    A[tuple(mm)] = v // yv
                else:
                    B[m] = v
            if A and (ym or yc is not None):
                at = dict(ax)
                at.update(ay)
                Az, Bz = zi(unpoly(A, at)), zi(unpoly(B, at))
                if xpos or self.quick(st, Az >= 0):
                    if self.quick(st, z3.And(Bz >= 0, Bz < y)) and (xpos or True):
                        if self.quick(st, Az >= 0):
                            return simp(Az), simp(Bz)
                    elif self.rewrites and self.quick(st, Bz == y) and self.quick(st, Az >= 0):
                        return simp(Az + 1), 0
                split = (Az, Bz)
        if xpos and ypos and self.quick(st, x < y):
            return 0, simp(x)
        q = self.fresh('q', I)
        r = self.fresh('r', I)
        if ypos and xpos:
            g = st
            self.fact(g, x == y * q + r)
            self.fact(g, z3.And(0 <= r, r < y, q >= 0, q <= x))
            if py is not None and len(py) == 1 and yc is None:
                # x < y*N gives q < N, y*N <= x gives N <= q, for the N that occur with y
                (ym, yv), = py.items()
                cand = {}
                self.sync_cert()
                for gs, p in self.cert.ineqs:
                    for m in p:
                        if len(m) == len(ym) + 1:
                            mm = list(m)
                            try:
                                for a_ in ym:
                                    mm.remove(a_)
                            except ValueError:
                                continue
                            cand[mm[0]] = 1
                for a_ in list(cand)[:6]:
                    N = KEEP.get(a_)
                    if N is None or a_ == q.get_id():
                        continue
                    if self.quick(st, x < y * N, 300):
                        self.fact(g, q < N)
                    elif self.quick(st, y * N <= x, 300):
                        self.fact(g, q >= N)
        elif yc is not None:
            a = abs(yc)
            self.fact0(x == y * q + r)
            self.fact0(z3.If(x >= 0, z3.And(0 <= r, r < a), z3.And(r <= 0, -a < r)))
        else:
            self.fact0(z3.Implies(y != 0, x == y * q + r))
            self.fact0(z3.Implies(z3.And(x >= 0, y > 0), z3.And(0 <= r, r < y, q >= 0, q <= x)))
            self.fact0(z3.Implies(z3.And(x < 0, y > 0), z3.And(r <= 0, -y < r, q <= 0, x <= q)))
            self.fact0(z3.Implies(z3.And(x >= 0, y < 0), z3.And(0 <= r, r < -y)))
            self.fact0(z3.Implies(z3.And(x < 0, y < 0), z3.And(r <= 0, y < r)))
            self.fact0(z3.Implies(z3.And(x >= 0, x < y), z3.And(q == 0, r == x)))
        if key is not None and not self.dry:
            self.divmemo[key] = (q, r, x, y, st.guard if (ypos and xpos) else None)   # keep the asts alive
        if split is not None:
            Az, Bz = split
            self.fact0(z3.Implies(z3.And(y > 0, Az >= 0, Bz >= 0, Bz < y), z3.And(q == Az, r == Bz)))
            self.fact0(z3.Implies(z3.And(y > 0, Az >= 0, Bz == y), z3.And(q == Az + 1, r == 0)))
        return q, r

    inquant = 0

    def rng(self, t):
        if t[1] > 200:
            return None
        if t[2]:
            return -(1 << (t[1] - 1)), (1 << (t[1] - 1)) - 1
        return 0, (1 << t[1]) - 1

    def cast(self, st, v, ft, tt, src):
        if tt[0] == 'void':
            return v
        if ft == tt:
            return v
        if tt[0] == 'bool':
            if ft[0] == 'ptr':
                return not_(self.ptr_cmp(v, NULLP, '='))
            if ft[0] == 'fp':
                return simp(v != self.fpconst(0.0))
            return simp(zi(v) != 0) if not isint(v) else v != 0
        if ft[0] == 'bool' and tt[0] == 'int':
            if isinstance(v, bool):
                return int(v)
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if ft[0] == 'bool' and tt[0] == 'fp':
            return self.cast(st, self.cast(st, v, ft, ('int', 32, True), src), ('int', 32, True), tt, src)
        if ft[0] == 'int' and tt[0] == 'int':
            a, b = self.rng(ft), self.rng(tt)
            if b is None:
                return v
            if isint(v):
                w = v & ((1 << tt[1]) - 1)
                if tt[2] and w >> (tt[1] - 1):
                    w -= 1 << tt[1]
                return w
            if a is not None and a[0] >= b[0] and a[1] <= b[1]:
                return v
            if self.quietn == 0 and self.dry == 0:
                c = and_(zi(v) >= b[0], zi(v) <= b[1])
                mode = self.opts.get('range', 'assume')
                if mode == 'check':
                    self.oblige(st, c, 'value fits the narrower integer type', src or {}, 'range')
                else:
                    k = '%s:%s' % ((src or {}).get('file', '?').replace('/repo/', ''), (src or {}).get('line', '?'))
                    self.assumed.setdefault('conversion assumed value-preserving', set()).add(k)
            return v
        if ft[0] == 'int' and tt[0] == 'fp':
            if isint(v):
                return self.fpconst(float(v))
            return self.uf('i2f%d' % tt[1], I, FP)(v)
        if ft[0] == 'fp' and tt[0] == 'int':
            return self.uf('f2i', FP, I)(v)
        if ft[0] == 'fp' and tt[0] == 'fp':
            if tt[1] > ft[1]:
                return v
            if v.num_args() == 0 and v.decl().name().startswith('fp:'):
                return v
            return self.uf('f%dto%d' % (ft[1], tt[1]), FP, FP)(v)
        if ft[0] == 'ptr' and tt[0] == 'ptr':
            return v
        if ft[0] == 'int' and tt[0] == 'ptr':
            if isint(v) and v == 0:
                return NULLP
            raise Unsupported('integer to pointer cast')
        if ft[0] == 'ptr' and tt[0] == 'int':
            o, pp, off = self.ptr_off(v.alts[0])
            if len(v.alts) == 1 and o is NULLO:
                return 0
            raise Unsupported('pointer to integer cast')
        if ft[0] in ('struct', 'array') and tt[0] == ft[0]:
            return v
        raise Unsupported('cast %s -> %s' % (ft, tt))

    def fpop(self, op, a, b, t):
        f = self.uf('f%s%d' % (op, t[1]), FP, FP, FP)
        if op in ('add', 'mul'):
            self.commut.add((op, t[1]))
            if fpkey(a) > fpkey(b):
                a, b = b, a
        return f(a, b)

    # ------------------------------------------------------------ expressions
    def ev(self, st, e, fr, src=None):
        k = e['id']
        m = getattr(self, 'e_' + EXPR.get(k, ''), None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(st, e, fr, src)

    def e_const(self, st, e, fr, src):
        t = self.ty(e)
        v = e['namedSub']['value']['id']
        if t[0] == 'int':
            x = int(v, 16)
            if t[2] and x >> (t[1] - 1) & 1:
                x -= 1 << t[1]
            return x
        if t[0] == 'bool':
            return v == 'true'
        if t[0] == 'fp':
            import struct
            x = int(v, 16)
            f = struct.unpack('<d', struct.pack('<Q', x))[0] if t[1] == 64 else (
                struct.unpack('<f', struct.pack('<I', x))[0] if t[1] == 32 else x)
            return self.fpconst(float(f) if t[1] in (32, 64) else 'x%d:%s' % (t[1], v))
        if t[0] == 'ptr':
            if v == 'NULL' or int(v, 16) == 0:
                return NULLP
            raise Unsupported('pointer constant')
        raise Unsupported('constant of %s' % (t,))

    def e_nondet(self, st, e, fr, src):
        s = e['namedSub'].get('statement', {}).get('id')
        if s != 'nondet':
            raise Unsupported('side effect ' + str(s))
        t = self.ty(e)
        if t[0] == 'ptr':
            return INVP
        if t[0] == 'void':
            return 0
        if t[0] in ('struct', 'array', 'union'):
            o = self.mkobj('nondet', t)
            return self.read_leafs(st, o, (), t)
        return self.fresh('nondet', self.sort(t))

    def lookup(self, ident, fr):
        if fr is not None and ident in fr:
            return fr[ident]
        return self.glob(ident)

    def e_symbol(self, st, e, fr, src):
        ident = e['namedSub']['identifier']['id']
        if self.inquant and fr is not None and ('#q', ident) in fr:
            return fr[('#q', ident)]
        t = self.ty(e)
        if t[0] == 'code':
            return ('fn', ident)
        o = self.lookup(ident, fr)
        if o.dyn:
            raise Unsupported('whole large array value ' + ident)
        return self.read_leafs(st, o, (), o.type if o.type[0] in ('struct', 'array') else t)

    def lval(self, st, e, fr, src):
        """-> PV address of an lvalue expression"""
        k = e['id']
        if k == 'symbol':
            ident = e['namedSub']['identifier']['id']
            return PV([(True, self.lookup(ident, fr), (), 0)])
        if k == 'dereference':
            p = self.ev(st, e['sub'][0], fr, src)
            return p
        if k == 'member':
            b = self.lval(st, e['sub'][0], fr, src)
            t = self.ty(e['sub'][0])
            f = e['namedSub']['component_name']['id']
            out = []
            for alt in b.alts:
                g, o, path, boff = self.norm(alt, t) if alt[1] not in (NULLO, INVALID) else alt
                if o is NULLO or o is INVALID:
                    out.append((g, o, path, boff))
                else:
                    out.append((g, o, path + (f,), boff))
            return PV(out)
        if k == 'index':
            b = self.lval(st, e['sub'][0], fr, src)
            i = self.ev(st, e['sub'][1], fr, src)
            t = self.ty(e['sub'][0])
            out = []
            for (g, o, path, boff) in b.alts:
                if o is NULLO or o is INVALID:
                    out.append((g, o, path, boff))
                    continue
                if not (isint(boff) and boff == 0):
                    raise Unsupported('index with byte offset')
                if o.dyn and not path:
                    out.append((g, o, (i,), 0))
                else:
                    cur = self.obj_type_at(o, path)
                    if cur[0] != 'array' and path and not isinstance(path[-1], str):
                        # pointer-to-array view
                        out.append((g, o, path[:-1] + (add(path[-1], i),), 0))
                    else:
                        out.append((g, o, path + (i,), 0))
            return PV(out)
        if k == 'typecast':
            return self.lval(st, e['sub'][0], fr, src)
        if k == 'string_constant':
            return PV([(True, self.strobj(e), (), 0)])
        if k == 'if':
            c = self.evb(st, e['sub'][0], fr, src)
            return self.ite(c, self.lval(st, e['sub'][1], fr, src), self.lval(st, e['sub'][2], fr, src))
        raise Unsupported('lvalue ' + k)

    def strobj(self, e):
        v = e['namedSub']['value']['id']
        o = self.strs.get(v)
        if o is None:
            b = v.encode('latin1', 'replace') + b'\0'
            o = Obj('str', ('array', ('int', 8, True), max(len(b), 1)), data=b)
            self.strs[v] = o
        return o

    def e_lv(self, st, e, fr, src):
        p = self.lval(st, e, fr, src)
        t = self.ty(e)
        if len(p.alts) == 1 and p.alts[0][1].data is not None:
            g, o, path, boff = p.alts[0]
            if path and isint(path[-1]):
                return o.data[path[-1]] if path[-1] < len(o.data) else 0
        if e['id'] == 'index' and e['sub'][0]['id'] not in ('symbol', 'dereference', 'member', 'index', 'string_constant', 'typecast'):
            raise Unsupported('index of rvalue')
        return self.load(st, p, t, src)

    def e_address(self, st, e, fr, src):
        x = e['sub'][0]
        if x['id'] == 'symbol' and self.ty(x)[0] == 'code':
            return ('fn', x['namedSub']['identifier']['id'])
        return self.lval(st, x, fr, src)

    def e_cast(self, st, e, fr, src):
        s = e['sub'][0]
        v = self.ev(st, s, fr, src)
        if isinstance(v, tuple):
            return v
        return self.cast(st, v, self.ty(s), self.ty(e), src)

    def e_plus(self, st, e, fr, src):
        t = self.ty(e)
        vs = [self.ev(st, s, fr, src) for s in e['sub']]
        if t[0] == 'ptr':
            p, k = (vs[0], vs[1]) if isinstance(vs[0], PV) else (vs[1], vs[0])
            return self.ptr_add(p, k, t[1])
        if t[0] == 'fp':
            r = vs[0]
            for x in vs[1:]:
                r = self.fpop('add', r, x, t)
            return r
        r = vs[0]
        for x in vs[1:]:
            r = add(r, x)
        return r

    def e_minus(self, st, e, fr, src):
        t = self.ty(e)
        a = self.ev(st, e['sub'][0], fr, src)
        b = self.ev(st, e['sub'][1], fr, src)
        if isinstance(a, PV) and isinstance(b, PV):
            return self.ptr_diff(a, b, self.ty(e['sub'][0])[1])
        if isinstance(a, PV):
            return self.ptr_add(a, neg(b), t[1])
        if t[0] == 'fp':
            return self.fpop('sub', a, b, t)
        if t[0] == 'int' and not t[2] and not (isint(a) and isint(b)) and not self.quietn and not self.dry:
            if self.opts.get('range', 'assume') == 'check':
                self.oblige(st, zi(a) >= zi(b), 'unsigned subtraction does not wrap', src or {}, 'range')
            else:
                self.assumed.setdefault('unsigned subtraction assumed not to wrap', set()).add(
                    '%s:%s' % ((src or {}).get('file', '?').replace('/repo/', ''), (src or {}).get('line', '?')))
        r = sub_(a, b)
        if isint(r) and t[0] == 'int' and not t[2]:
            r &= (1 << t[1]) - 1
        return r

    def e_times(self, st, e, fr, src):
        t = self.ty(e)
        vs = [self.ev(st, s, fr, src) for s in e['sub']]
        r = vs[0]
        for x in vs[1:]:
            r = self.fpop('mul', r, x, t) if t[0] == 'fp' else mul(r, x)
        return r

    def e_div(self, st, e, fr, src):
        t = self.ty(e)
        a = self.ev(st, e['sub'][0], fr, src)
        b = self.ev(st, e['sub'][1], fr, src)
        if t[0] == 'fp':
            return self.fpop('div', a, b, t)
        return self.div(st, a, b, src)[0]

    def e_mod(self, st, e, fr, src):
        a = self.ev(st, e['sub'][0], fr, src)
        b = self.ev(st, e['sub'][1], fr, src)
        return self.div(st, a, b, src)[1]

    def e_neg(self, st, e, fr, src):
        t = self.ty(e)
        a = self.ev(st, e['sub'][0], fr, src)
        if t[0] == 'fp':
            return self.uf('fneg', FP, FP)(a)
        return neg(a)

    def evb(self, st, e, fr, src):
        v = self.ev(st, e, fr, src)
        if isint(v):
            return v != 0
        if z3.is_expr(v) and z3.is_int(v):
            return simp(v != 0)
        return v

    def e_not(self, st, e, fr, src):
        return not_(self.evb(st, e['sub'][0], fr, src))

    def e_and(self, st, e, fr, src):
        # short circuit: the right operand is only defined when the left holds
        acc = True
        s2 = st
        for s in e['sub']:
            v = simp(self.evb(s2, s, fr, src))
            acc = and_(acc, v)
            if acc is False:
                return False
            if v is not True:
                s2 = State(s2.guard + (v,), s2.mem)
        return acc

    def e_or(self, st, e, fr, src):
        acc = False
        s2 = st
        for s in e['sub']:
            v = simp(self.evb(s2, s, fr, src))
            acc = or_(acc, v)
            if acc is True:
                return True
            if v is not False:
                s2 = State(s2.guard + (not_(v),), s2.mem)
        return acc

    def e_implies(self, st, e, fr, src):
        a = simp(self.evb(st, e['sub'][0], fr, src))
        if a is False:
            return True
        s2 = st if a is True else State(st.guard + (a,), st.mem)
        return implies(a, self.evb(s2, e['sub'][1], fr, src))

    def e_if(self, st, e, fr, src):
        c = simp(self.evb(st, e['sub'][0], fr, src))
        if c is True:
            return self.ev(st, e['sub'][1], fr, src)
        if c is False:
            return self.ev(st, e['sub'][2], fr, src)
        a = self.ev(State(st.guard + (c,), st.mem), e['sub'][1], fr, src)
        b = self.ev(State(st.guard + (not_(c),), st.mem), e['sub'][2], fr, src)
        return self.ite(c, a, b)

    def e_rel(self, st, e, fr, src):
        k = e['id']
        a = self.ev(st, e['sub'][0], fr, src)
        b = self.ev(st, e['sub'][1], fr, src)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported('function pointer compare')
        if isinstance(a, PV) or isinstance(b, PV):
            return self.ptr_cmp(a, b, k)
        t = self.ty(e['sub'][0])
        if t[0] == 'bool':
            r = zb(a) == zb(b)
            return simp(r if k in ('=',) else z3.Not(r))
        if t[0] == 'fp':
            if self.opts.get('fp_order') and k in ('=', 'ieee_float_equal', 'notequal', 'ieee_float_notequal'):
                r = self.uf('fprank', FP, z3.RealSort())
                return simp(r(a) == r(b)) if k in ('=', 'ieee_float_equal') else not_(simp(r(a) == r(b)))
            if k in ('=', 'ieee_float_equal'):
                return simp(a == b) if self.opts.get('fp_eq', True) else self.uf('feq', FP, FP, z3.BoolSort())(a, b)
            if k in ('notequal', 'ieee_float_notequal'):
                return not_(simp(a == b))
            if self.opts.get('fp_order'):
                # values other than NaN are ordered
                r = self.uf('fprank', FP, z3.RealSort())
                return {'<': r(a) < r(b), '>': r(b) < r(a), '<=': r(a) <= r(b), '>=': r(b) <= r(a)}[k]
            f = self.uf('flt', FP, FP, z3.BoolSort())
            g = self.uf('fle', FP, FP, z3.BoolSort())
            return {'<': f(a, b), '>': f(b, a), '<=': g(a, b), '>=': g(b, a)}[k]
        if isint(a) and isint(b):
            return {'=': a == b, 'notequal': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[k]
        a, b = zi(a), zi(b)
        return simp({'=': a == b, 'notequal': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[k])

    def e_bit(self, st, e, fr, src):
        k = e['id']
        vs = [self.ev(st, s, fr, src) for s in e['sub']]
        t = self.ty(e)
        if all(isint(v) for v in vs):
            if k == 'bitand':
                r = vs[0] & vs[1]
            elif k == 'bitor':
                r = vs[0] | vs[1]
            elif k == 'bitxor':
                r = vs[0] ^ vs[1]
            elif k == 'shl':
                r = vs[0] << vs[1]
            elif k in ('ashr', 'lshr'):
                r = vs[0] >> vs[1]
            elif k == 'bitnot':
                r = ~vs[0]
            r &= (1 << t[1]) - 1
            if t[2] and r >> (t[1] - 1):
                r -= 1 << t[1]
            return r
        if k == 'shl' and isint(vs[1]):
            return mul(vs[0], 1 << vs[1])
        if k in ('ashr', 'lshr') and isint(vs[1]):
            return simp(zi(vs[0]) / (1 << vs[1]))
        if k == 'bitand' and isint(vs[1]) and vs[1] & (vs[1] + 1) == 0 and vs[1] >= 0:
            return simp(zi(vs[0]) % (vs[1] + 1))
        return self.uf('bv_' + k, I, I, I)(*[zi(v) for v in vs])

    def e_quant(self, st, e, fr, src):
        vs, body = e['sub']
        syms = vs['sub'] if vs.get('id') == 'tuple' else [vs]
        f2 = dict(fr)
        bound = []
        for s in syms:
            b = self.fresh('qv', I)
            f2[('#q', s['namedSub']['identifier']['id'])] = b
            bound.append(b)
        self.quietn += 1
        self.inquant += 1
        try:
            v = self.evb(st, body, f2, src)
        finally:
            self.quietn -= 1
            self.inquant -= 1
        v = zb(v)
        return z3.ForAll(bound, v) if e['id'] == 'forall' else z3.Exists(bound, v)

    def e_struct(self, st, e, fr, src):
        t = self.ty(e)
        cells = {}
        if t[0] == 'struct':
            for (n, ft), s in zip(self.types.fields(t[1]), e['sub']):
                if n.startswith('$pad'):
                    continue
                v = self.ev(st, s, fr, src)
                if isinstance(v, SV):
                    for p, x in v.cells.items():
                        cells[(n,) + p] = x
                else:
                    cells[(n,)] = v
        else:
            for k, s in enumerate(e['sub']):
                v = self.ev(st, s, fr, src)
                if isinstance(v, SV):
                    for p, x in v.cells.items():
                        cells[(k,) + p] = x
                else:
                    cells[(k,)] = v
        return SV(cells, t)

    def e_arrayof(self, st, e, fr, src):
        t = self.ty(e)
        v = self.ev(st, e['sub'][0], fr, src)
        if not isint(t[2]) or t[2] > EXPAND:
            return ('arrayof', v, t)
        cells = {}
        for k in range(t[2]):
            if isinstance(v, SV):
                for p, x in v.cells.items():
                    cells[(k,) + p] = x
            else:
                cells[(k,)] = v
        return SV(cells, t)

    def e_popaque(self, st, e, fr, src):
        raise Unsupported(e['id'])

    # ------------------------------------------------------------ merge
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        n = 0
        ga, gb = a.guard, b.guard
        while n < len(ga) and n < len(gb) and ga[n].eq(gb[n]):
            n += 1
        ra, rb = ga[n:], gb[n:]
        ca = and_(*ra)
        cb = and_(*rb)
        if len(ra) == 1 and len(rb) == 1 and iscompl(ra[0], rb[0]):
            g = ga[:n]
        elif ca is True or cb is True:
            g = ga[:n]
            if ca is True:
                a, b = b, a
                ca, cb = cb, ca
        else:
            o = z3.simplify(z3.Or(ca, cb))
            g = ga[:n] if z3.is_true(o) else ga[:n] + (o,)
        mem = {}
        for k in set(a.mem) | set(b.mem):
            va, vb = a.mem.get(k), b.mem.get(k)
            if va is None or vb is None:
                va2 = va if va is not None else self.default_key(k, vb)
                vb2 = vb if vb is not None else self.default_key(k, va)
                if va2 is None or vb2 is None:
                    # exists only on one side (a local of a dead scope)
                    mem[k] = va if va is not None else vb
                    continue
                va, vb = va2, vb2
            if va is vb:
                mem[k] = va
                continue
            try:
                mem[k] = self.join(a, b, ca, cb, g, k, va, vb)
            except Unsupported:
                # poison: only an error if it is read
                mem[k] = Poison()
        return State(g, mem)

    def join(self, a, b, ca, cb, g, k, va, vb):
        v = self.ite(ca, va, vb)
        if not (z3.is_expr(v) and z3.is_int(v) and v.decl().kind() == z3.Z3_OP_ITE):
            return v
        va, vb = zi(va), zi(vb)
        atoms = [x for x in (va, vb) if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name()[:3] in ('hv_', 'jn_', 'q!', 'r!0'[:2])]
        if not atoms:
            return v
        o = self.objreg.get(k[0])
        m = self.fresh('jn_' + (o.name.split('::')[-1] if o is not None else ''), I)
        cs = State(g, a.mem)
        self.fact(cs, implies(ca, m == va))
        self.fact(cs, implies(cb, m == vb))
        self.sync_cert()
        cands = []
        seen = set()
        for at, st in ((va, a), (vb, b)):
            if not any(at.eq(x) for x in atoms):
                continue
            G = set()
            lits = []
            for x in st.guard:
                for y in (x.children() if z3.is_and(x) else [x]):
                    G.add(y.get_id())
                    lits.append(y)
            # facts about the atom that hold on its side
            aid = at.get_id()
            n = 0
            for gs, p in reversed(self.cert.ineqs):
                if n > 40:
                    break
                if not gs <= G or not any(aid in mm for mm in p) and not any(self.hassel(x, at) for mm in p for x in mm):
                    continue
                n += 1
                t = zi(unpoly(p, KEEP)) >= 0
                t2 = z3.simplify(z3.substitute(t, (at, m)))
                if t2.get_id() not in seen:
                    seen.add(t2.get_id())
                    cands.append((t2, t, at))
            for y in lits:
                if self.occurs(at, y):
                    t2 = z3.simplify(z3.substitute(y, (at, m)))
                    if t2.get_id() not in seen:
                        seen.add(t2.get_id())
                        cands.append((t2, y, at))
        for t2, t, at in cands[:24]:
            ok = True
            for val, st in ((va, a), (vb, b)):
                if at.eq(val):
                    continue
                if not self.quick(st, z3.substitute(t2, (m, val)), 150):
                    ok = False
                    break
            if ok and not self.mentions_other(t2, a, b):
                self.fact(cs, t2)
        return m

    def mentions_other(self, t, a, b):
        return False

    def hassel(self, aid, at):
        t = KEEP.get(aid)
        return t is not None and z3.is_select(t) and self.occurs(at, t)

    def default_key(self, k, like):
        o = self.objreg.get(k[0])
        if o is None:
            return None
        path = k[1]
        arr = '*' in path
        try:
            if o.dyn:
                t = self.type_at(o.elem, path[1:])
            else:
                t = o.type
                for p in path:
                    t = t[1] if p == '*' else self.type_at(t, (p,))
            return self.default(o, k, t, arr)
        except Unsupported:
            return None

    # ------------------------------------------------------------ execution
    def func(self, name):
        f = self.parsed.get(name)
        if f is None:
            js = self.funcs.get(name)
            if js is None or not js.get('instructions'):
                return None
            f = Func(name, js)
            ps = self.symtab[name]['type']['namedSub']['parameters'].get('sub', [])
            f.params = [(p['namedSub'].get('#identifier', {}).get('id'), self.types.parse(p['namedSub']['type'])) for p in ps]
            self.parsed[name] = f
        return f

    def call(self, st, name, args, rett, src):
        """-> (state or None, value)"""
        name = self.replace.get(name, name)
        h = getattr(self, 'x_' + name, None)
        if h is None and name.startswith('__builtin_'):
            h = getattr(self, 'x_' + name[10:], None)
        if h is not None:
            return h(st, args, rett, src)
        f = self.func(name)
        if f is None:
            if name in self.ignore or name in DEFAULT_IGNORE:
                self.assumed.setdefault('external function assumed without effect on the checked state', set()).add(name)
                if rett[0] == 'void':
                    return st, None
                if rett[0] == 'ptr':
                    return st, INVP
                return st, self.fresh('ret_' + name, self.sort(rett))
            raise Unsupported('call to external function ' + name)
        if self.stack.count(name) > 3:
            raise Unsupported('recursion in ' + name)
        self.used_funcs.add(name)
        fr = {}
        for (ident, t), a in zip(f.params, args):
            if ident is None:
                continue
            o = self.mkobj(ident, t)
            self.objreg[o.oid] = o
            fr[ident] = o
            if isinstance(a, tuple):
                raise Unsupported('function pointer argument')
            self.write_leafs(st, o, (), a, t)
        self.stack.append(name)
        try:
            return self.run(f, st, fr, rett)
        finally:
            self.stack.pop()

    def run(self, f, st, fr, rett):
        retobj = None
        if rett[0] != 'void':
            retobj = self.mkobj('ret::' + f.name, rett)
            self.objreg[retobj.oid] = retobj
        n = len(f.ins)
        exits, backs = self.region(f, 0, n - 1, st, fr, rett, retobj, None)
        cur = None
        for t in sorted(exits):
            for s in exits[t]:
                cur = self.merge(cur, s)
        if cur is None:
            return None, None
        if retobj is None:
            return cur, None
        v = self.read_leafs(cur, retobj, (), rett)
        return cur, v

    def region(self, f, lo, hi, st, fr, rett, retobj, cuthead, start=None, iters=None):
        """execute instructions lo..hi; -> (exits: pc -> states, states at back edges to cuthead)"""
        pend = {}
        pathmode = self.opts.get('paths') and re.fullmatch(self.opts['paths'], f.name)
        exits = {}
        backs = []
        cur = st
        ins = f.ins
        pc = lo
        iters = {} if iters is None else iters
        came = lo if cuthead is not None else None
        if start is not None:
            pc, came = start, None

        def go(t, s):
            if t > hi or t < lo:
                exits.setdefault(t, []).append(s)
            else:
                pend.setdefault(t, []).append(s)
        while pc <= hi:
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time budget')
            if pc in pend and pathmode:
                ss = pend.pop(pc)
                if cur is None:
                    cur = ss.pop()
                for s in ss:
                    # follow every path separately
                    e2, b2 = self.region(f, lo, hi, s, dict(fr), rett, retobj, cuthead, pc, dict(iters))
                    for t, es in e2.items():
                        exits.setdefault(t, []).extend(es)
                    backs.extend(b2)
            elif pc in pend:
                for s in pend.pop(pc):
                    cur = self.merge(cur, s)
            if cur is None:
                pc += 1
                continue
            i = ins[pc]
            op = i.op
            self.lastsrc = i.src
            if pc in f.loops and pc != came:
                iters.pop(pc, None)
                if self.wants_cut(f, pc, cur, fr):
                    ex = self.cut_loop(f, pc, cur, fr, rett, retobj)
                    tail = f.loops[pc]
                    for t, ss in ex.items():
                        for s in ss:
                            if t == cuthead:
                                backs.append(s)
                            elif t <= tail and lo <= t:
                                raise Unsupported('jump back out of a nested loop')
                            else:
                                go(t, s)
                    cur = None
                    pc = tail + 1
                    came = None
                    continue
            came = None
            if op == 'ASSIGN':
                l, r = i.code['sub']
                v = self.ev(cur, r, fr, i.src)
                t = self.ty(l)
                if isinstance(v, tuple) and v and v[0] == 'fn':
                    p = self.lval(cur, l, fr, i.src)
                    self.store(cur, p, PV([(True, self.fnobj(v[1]), (), 0)]), t, i.src)
                elif isinstance(v, tuple) and v and v[0] == 'arrayof':
                    o = self.lookup(l['namedSub']['identifier']['id'], fr)
                    if not o.zero:
                        raise Unsupported('array_of')
                else:
                    p = self.lval(cur, l, fr, i.src)
                    self.store(cur, p, v, t, i.src)
            elif op == 'DECL':
                s = i.code['sub'][0]
                ident = s['namedSub']['identifier']['id']
                t = self.ty(s)
                if t[0] == 'array' and isinstance(t[2], tuple):
                    cnt = self.ev(cur, json.loads(t[2][1]), fr, i.src)
                    o = Obj(ident, None, dyn=True, elem=t[1], length=cnt)
                    if isint(cnt) and cnt <= EXPAND:
                        o = Obj(ident, ('array', t[1], cnt))
                else:
                    o = self.mkobj(ident, t)
                self.objreg[o.oid] = o
                fr[ident] = o
            elif op == 'GOTO':
                c = True
                if i.guard is not None:
                    c = self.decide(cur, simp(self.evb(cur, i.guard, fr, i.src)))
                tgt = f.locmap[i.targets[0]]
                if tgt <= pc:
                    # back edge
                    if c is False:
                        pc += 1
                        continue
                    stay = None
                    if c is not True:
                        stay = cur.fork(not_(c))
                    tk = cur.fork(c) if c is not True else cur
                    if tgt == cuthead:
                        if cuthead is not None and c is not True and self.condlog is not None and self.condlog[0] == (f.name, cuthead, self.depth):
                            self.condlog[1].append(c)
                        backs.append(tk)
                        cur = stay
                        pc += 1
                        continue
                    if tgt < lo:
                        exits.setdefault(tgt, []).append(tk)
                        cur = stay
                        pc += 1
                        continue
                    it = iters.get(tgt, 0) + 1
                    iters[tgt] = it
                    for h in list(iters):
                        if h > tgt:
                            del iters[h]
                    if c is not True and it > 2 and it % 3 == 0 and not self.feasible(tk, True):
                        cur = stay
                        pc += 1
                        continue
                    if it > self.maxunroll:
                        key = (f.name, tgt)
                        if key not in self.forcecut:
                            self.forcecut.add(key)
                            raise Restart()
                        raise Undecided('loop in %s (line %s) does not terminate within %d iterations'
                                        % (f.name, i.src.get('line'), self.maxunroll))
                    if stay is not None:
                        go(pc + 1, stay)
                    cur = tk
                    pc = tgt
                    came = tgt
                    continue
                if self.condlog is not None and self.condlog[0] == (f.name, cuthead, self.depth) and not isinstance(c, bool):
                    # a jump that leaves the loop: its negation is a stay condition
                    if tgt > hi:
                        self.condlog[1].append(not_(c))
                    elif ins[pc + 1].op == 'GOTO' and ins[pc + 1].guard is None and f.locmap[ins[pc + 1].targets[0]] > hi:
                        self.condlog[1].append(c)
                    else:
                        self.condlog[2].append(c)
                if c is True:
                    go(tgt, cur)
                    cur = None
                elif c is False:
                    pass
                else:
                    go(tgt, cur.fork(c))
                    cur = cur.fork(not_(c))
            elif op == 'FUNCTION_CALL':
                lhs, fn, args = i.code['sub']
                if fn['id'] != 'symbol':
                    if fn['id'] == 'dereference':
                        fv = self.ev(cur, fn['sub'][0], fr, i.src)
                        if isinstance(fv, tuple) and fv[0] == 'fn':
                            nm = fv[1]
                        elif isinstance(fv, PV) and len(fv.alts) == 1 and fv.alts[0][1].data is not None and fv.alts[0][1].name.startswith('fn:'):
                            nm = fv.alts[0][1].name[3:]
                        else:
                            raise Unsupported('indirect call')
                    else:
                        raise Unsupported('indirect call')
                else:
                    nm = fn['namedSub']['identifier']['id']
                av = [self.ev(cur, a, fr, i.src) for a in args.get('sub', [])]
                av = [PV([(True, self.fnobj(a[1]), (), 0)]) if isinstance(a, tuple) and a and a[0] == 'fn' else a for a in av]
                ps = fn['namedSub']['type'].get('namedSub', {})
                rt = self.types.parse(ps['return_type']) if 'return_type' in ps else ('void',)
                self.depth += 1
                try:
                    cur, v = self.call(cur, nm, av, rt, i.src)
                finally:
                    self.depth -= 1
                if cur is not None and lhs.get('id') != 'nil':
                    p = self.lval(cur, lhs, fr, i.src)
                    if v is None:
                        raise Unsupported('void result used')
                    self.store(cur, p, v, self.ty(lhs), i.src)
            elif op == 'SET_RETURN_VALUE':
                e = i.code['sub'][0]
                v = self.ev(cur, e, fr, i.src)
                if isinstance(v, tuple):
                    raise Unsupported('function pointer result')
                self.write_leafs(cur, retobj, (), v, rett)
            elif op == 'ASSUME':
                c = simp(self.evb(cur, i.guard, fr, i.src))
                self.fact(cur, c)
                if c is False:
                    cur = None
            elif op == 'ASSERT':
                c = self.evb(cur, i.guard, fr, i.src)
                self.oblige(cur, c, i.label or 'assertion', i.src, 'lemma' if (i.label or '').startswith('lemma:') else 'user')
            elif op in ('DEAD', 'SKIP', 'LOCATION', 'OTHER', 'ATOMIC_BEGIN', 'ATOMIC_END'):
                if op == 'OTHER':
                    s = i.code['namedSub'].get('statement', {}).get('id')
                    if s not in ('expression', 'output', 'input', 'printf', 'array_set'):
                        raise Unsupported('OTHER ' + str(s))
            elif op == 'END_FUNCTION':
                pass
            else:
                raise Unsupported('instruction ' + op)
            pc += 1
        if cur is not None:
            exits.setdefault(hi + 1, []).append(cur)
        for t, ss in pend.items():
            exits.setdefault(t, []).extend(ss)
        return exits, backs

    def decide(self, st, c):
        """prune a branch condition that the path already settles"""
        if isinstance(c, bool):
            return c
        if self.certify(st, c, 0.05):
            return True
        if self.certify(st, not_(c), 0.05):
            return False
        return c

    def fnobj(self, name):
        o = self.strs.get('fn:' + name)
        if o is None:
            o = Obj('fn:' + name, ('code',), data=b'')
            self.strs['fn:' + name] = o
        return o

    condlog = None
    depth = 0
    lastsrc = None

    # ------------------------------------------------------------ loops
    def wants_cut(self, f, h, st, fr):
        if (f.name, h) in self.forcecut:
            return True
        if any(re.fullmatch(x, f.name) for x in self.opts.get('nocut', ())):
            return False
        inv = self.find_inv(f, h, fr)
        if inv is not None and inv.get('force'):
            return True
        # is the first loop condition decided?
        s = st.fork()
        k = h
        self.quietn += 1
        snap = self.snapshot()
        f2 = dict(fr)
        try:
            while k <= f.loops[h]:
                i = f.ins[k]
                if i.op == 'GOTO':
                    if i.guard is None:
                        return False
                    c = simp(self.evb(s, i.guard, f2, i.src))
                    if isinstance(c, bool):
                        # decided; a do-while style body goes on
                        t = f.locmap[i.targets[0]]
                        return False
                    return True
                if i.op == 'FUNCTION_CALL':
                    return False
                if i.op == 'DECL':
                    sy = i.code['sub'][0]
                    o = self.mkobj(sy['namedSub']['identifier']['id'], self.ty(sy))
                    self.objreg[o.oid] = o
                    f2[sy['namedSub']['identifier']['id']] = o
                if i.op == 'ASSIGN':
                    l, r = i.code['sub']
                    self.store(s, self.lval(s, l, f2, i.src), self.ev(s, r, f2, i.src), self.ty(l), i.src)
                k += 1
        except Undecided:
            return False
        finally:
            self.quietn -= 1
            self.rollback(snap)
        return False

    def snapshot(self):
        self.sync_cert()
        return (len(self.facts), dict(self.divmemo), len(self.nds), len(self.cert.ineqs), len(self.obl))

    def rollback(self, sn):
        nf, dm, nn, ni, no = sn
        del self.facts[nf:]
        self.divmemo = dm
        del self.nds[nn:]
        for gs, p in self.cert.ineqs[ni:]:
            self.cert.seen.discard((gs, tuple(sorted(p.items()))))
        del self.cert.ineqs[ni:]
        self.fmark = min(self.fmark, nf)

    def cell_terms(self, v):
        """scalar z3 view of a memory cell (None if there is none)"""
        if isinstance(v, PV):
            if len(v.alts) != 1:
                return None
            g, o, p, b = v.alts[0]
            if o is NULLO or o is INVALID:
                return None
            if p and not isinstance(p[-1], str):
                if not (isint(b) and b == 0):
                    return None
                return zi(p[-1])
            return zi(b)
        if isinstance(v, PArr):
            return v.arr
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isint(v):
            return z3.IntVal(v)
        if isinstance(v, Poison):
            return None
        return v

    def cut_loop(self, f, h, st, fr, rett, retobj):
        tail = f.loops[h]
        src = f.ins[h].src
        nm = '%s:%s' % (f.name, src.get('line', h))
        self.used_invs[nm] = self.used_invs.get(nm, 0) + 1
        inv = self.find_inv(f, h, fr)
        # ---- which cells does the body modify?
        mod = {}            # key -> havoc term
        hav = st.fork()
        mark = next(Obj.ctr)
        oldlog = self.condlog
        lastbacks = None
        for rnd in range(8):
            fmark = next(self.fresh_ctr)
            self.dry += 1
            snap = self.snapshot()
            self.condlog = ((f.name, h, self.depth), [], [])
            try:
                ex, backs = self.region(f, h, tail, hav.fork(), dict(fr), rett, retobj, h)
            finally:
                log = self.condlog
                self.condlog = oldlog
                self.rollback(snap)
                self.dry -= 1
            new = {}
            for s in backs:
                for k2, v in s.mem.items():
                    if k2 in mod and not (isinstance(v, PV) and isinstance(mod[k2], PV) and not self.ptr_covered(mod[k2], v)):
                        continue
                    if k2[0] >= mark:
                        continue
                    o = self.objreg.get(k2[0])
                    if o is None:
                        continue
                    old = hav.mem.get(k2)
                    if old is None:
                        old = self.default_key(k2, v)
                    if old is v:
                        continue
                    if old is not None and z3.is_expr(old) and z3.is_expr(v) and old.eq(v):
                        continue
                    if isint(old) and isint(v) and old == v:
                        continue
                    if isinstance(old, PV) and isinstance(v, PV) and self.same_ptr(old, v):
                        continue
                    new[k2] = v
            lastbacks = backs
            if not new:
                break
            for k2, v in new.items():
                o = self.objreg[k2[0]]
                old = hav.mem.get(k2)
                if old is None:
                    old = self.default_key(k2, v)
                hv = self.havoc_like(o, k2, v, old)
                mod[k2] = hv
                hav.mem[k2] = hv
        else:
            raise Undecided('loop havoc does not stabilise in ' + nm)
        if not lastbacks:
            # the body never returns to the head: execute it once
            ex, backs = self.region(f, h, tail, st, fr, rett, retobj, h)
            if backs:
                raise Undecided('unexpected back edge in ' + nm)
            return ex
        # ---- candidates: terms over the havoc variables
        H, V0 = [], []       # havoc vars, entry values
        keys = []
        for k2, hv in mod.items():
            ht = self.cell_terms(hv)
            if ht is None or not (z3.is_const(ht)):
                continue
            e = st.mem.get(k2)
            if e is None:
                e = self.default_key(k2, hv)
            et = self.cell_terms(e) if e is not None else None
            if et is not None and et.sort() != ht.sort():
                et = None
            keys.append(k2)
            H.append(ht)
            V0.append(et)

        def sub(t, vals):
            ps = [(a, b) for a, b in zip(H, vals) if b is not None]
            return z3.substitute(t, *ps) if ps else t

        def vals_of(s):
            out = []
            for k2, ht in zip(keys, H):
                v = s.mem.get(k2)
                if v is None:
                    v = self.default_key(k2, mod[k2])
                t = self.cell_terms(v)
                if t is not None and t.sort() != ht.sort():
                    t = None
                out.append(t)
            return out
        nexts = [vals_of(s) for s in lastbacks]
        steps = []
        for j, ht in enumerate(H):
            d = None
            if z3.is_int(ht):
                for nv in nexts:
                    if nv[j] is None:
                        d = None
                        break
                    x = simp(nv[j] - ht)
                    if not isint(x):
                        # a symbolic loop-invariant step
                        if self.mentions(x, H, fmark):
                            d = None
                            break
                    if d is not None and not (isint(x) and isint(d) and x == d) and not (z3.is_expr(x) and z3.is_expr(d) and x.eq(d)):
                        d = None
                        break
                    d = x
            steps.append(d)
        cands = []

        def cand(label, t, hint=False):
            t = simp(t)
            if isinstance(t, bool):
                return
            if self.mentions_fresh(t, H, fmark):
                return
            for l2, t2, _ in cands:
                if t2.eq(t):
                    return
            cands.append((label, t, hint))
        defs, lemmas = [], []

        def use_lemmas(s):
            for cond, goal in lemmas:
                s2 = s.fork(cond)
                if self.entails(s2, goal, timeout=3000)[0] is True:
                    self.fact(s, z3.Implies(cond, goal))
                elif os.environ.get('GVC_INV'):
                    print('LEMMA not proved', cond, goal, file=sys.stderr)
        nrew = len(self.rewrites)
        if inv is not None:
            env = LoopEnv(self, hav, fr, f, h, tail, inv['names'],
                          LoopEnv(self, st.fork(), dict(fr), f, h, tail, inv['names']))
            for k, c in enumerate(inv['inv'](env)):
                if isinstance(c, bool):
                    continue
                if isinstance(c, tuple) and c[0] == 'lemma':
                    lemmas.append(c[1:])
                    continue
                if isinstance(c, tuple):
                    # ('def', variable, value, condition): an equation also used to normalise divisions
                    _, var, term, cond = c
                    c = z3.Implies(cond, var == term) if cond is not None else var == term
                    defs.append((c, (var, term, cond)))
                cands.append(('%s[%d]' % (inv.get('name', nm), k), c, True))
        lead = None
        for j, ht in enumerate(H):
            b = self.objreg[keys[j][0]].name.split('::')[-1]
            if z3.is_int(ht):
                v0 = V0[j]
                if v0 is not None:
                    cand('%s >= initial' % b, ht >= v0)
                    cand('%s <= initial' % b, ht <= v0)
                cand('%s >= 0' % b, ht >= 0)
                cand('%s >= -1' % b, ht >= -1)
                cand('%s <= 1' % b, ht <= 1)
                if steps[j] is not None and v0 is not None:
                    if isint(steps[j]) and abs(steps[j]) == 1 and (lead is None or not isint(steps[lead])):
                        lead = j
                    elif lead is None and not (isint(steps[j]) and steps[j] == 0):
                        lead = j
            elif z3.is_bool(ht) and V0[j] is not None:
                cand('%s unchanged' % b, ht == V0[j])
        if lead is not None:
            for j, ht in enumerate(H):
                if j != lead and z3.is_int(ht) and V0[j] is not None and steps[j] is not None:
                    b = self.objreg[keys[j][0]].name.split('::')[-1]
                    cand('%s linear' % b, zi(steps[lead]) * (ht - V0[j]) == zi(steps[j]) * (H[lead] - V0[lead]))
        shift = [(a, a - s) for a, s in zip(H, steps) if s is not None and not (isint(s) and s == 0)]

        def lits(c):
            c = simp(c)
            if isinstance(c, bool):
                return []
            if z3.is_and(c):
                return [x for y in c.children() for x in lits(y)]
            if z3.is_not(c) and z3.is_or(c.arg(0)):
                return [x for y in c.arg(0).children() for x in lits(z3.Not(y))]
            return [c]
        stay = [x for c in log[1] for x in lits(c)]
        for x in stay:
            if shift:
                cand('stay condition of the previous iteration', z3.substitute(x, *shift))
            for p in self.cert.polys(x):
                pass
            cand('stay condition', x)
            r = self.relax(x)
            if r is not None:
                cand('relaxed stay condition', r)
        for c in log[2]:
            for x in lits(c) + lits(not_(c)):
                if shift:
                    cand('branch condition of the previous iteration', z3.substitute(x, *shift))
        # array contents
        for j, ht in enumerate(H):
            if z3.is_array(ht) and V0[j] is not None:
                self.array_cands(j, H, V0, steps, nexts, lead, cand, fmark)
        # ---- Houdini
        ents = []
        for lab, t, hint in cands:
            if any(v is None and self.occurs(hh, t) for hh, v in zip(H, V0)):
                ents.append(None)
            else:
                ents.append(simp(sub(t, V0)))
        ok = self.prove_many([(st, e) if e is not None else None for e in ents], {k for k, c in enumerate(cands) if c[2]})
        live = [c for c, o in zip(cands, ok) if o]
        dropped = [(c, 'on entry') for c, o in zip(cands, ok) if not o and c[2]]
        for rnd in range(12):
            snap = self.snapshot()
            self.dry += 1
            try:
                hv = hav.fork()
                for lab, t, hint in live:
                    self.fact(hv, t)
                self.rewrites[nrew:] = [d for c, d in defs if any(t is c for _, t, _ in live)]
                use_lemmas(hv)
                ex, backs = self.region(f, h, tail, hv, dict(fr), rett, retobj, h)
                bad = set()
                for s in backs:
                    vs = vals_of(s)
                    jobs = []
                    for k, (lab, t, hint) in enumerate(live):
                        if k in bad or any(v is None and self.occurs(hh, t) for hh, v in zip(H, vs)):
                            bad.add(k)
                            jobs.append(None)
                        else:
                            jobs.append((s, simp(sub(t, vs))))
                    for k, o in enumerate(self.prove_many(jobs, {k for k, c in enumerate(live) if c[2]})):
                        if not o:
                            bad.add(k)
            finally:
                self.rollback(snap)
                self.dry -= 1
            if not bad:
                break
            dropped += [(live[k], 'preservation') for k in bad if live[k][2]]
            live = [c for k, c in enumerate(live) if k not in bad]
        else:
            raise Undecided('loop invariant inference does not stabilise in ' + nm)
        if os.environ.get('GVC_INV'):
            print('INV', nm, [(l, str(t)[:200]) for l, t, _ in live], 'dropped hints', [(d[0][0], str(d[0][1])[:300], d[1]) for d in dropped], file=sys.stderr)
        for lab, t, hint in live:
            self.fact(hav, t)
            if not self.dry and not self.quietn:
                for w in ('holds on entry', 'is preserved'):
                    self.obl.append({'label': 'loop invariant of %s: %s %s' % (f.name, lab, w), 'kind': 'invariant', 'status': 'proved',
                                     'where': '%s:%s %s' % (src.get('file', '?').replace('/repo/', ''), src.get('line', '?'), f.name), 'trivial': False})
        if not self.dry and not self.quietn:
            for (lab, t, hint), when in dropped:
                self.obl.append({'label': 'loop invariant of %s: %s (%s)' % (f.name, lab, when), 'kind': 'hint', 'status': 'dropped',
                                 'where': '%s:%s %s' % (src.get('file', '?').replace('/repo/', ''), src.get('line', '?'), f.name), 'trivial': False,
                                 'goal': str(t)[:1000]})
        self.cutcount += 1
        self.rewrites[nrew:] = [d for c, d in defs if any(t is c for _, t, _ in live)]
        use_lemmas(hav)
        ex, backs = self.region(f, h, tail, hav, fr, rett, retobj, h)
        if not self.dry and not self.quietn:
            self.check_term(f, h, backs, stay, H, vals_of, src)
        return ex

    cutcount = 0

    def check_term(self, f, h, backs, stay, H, vals_of, src):
        for x in stay:
            for p in self.cert.polys(x):
                m = zi(unpoly(p, KEEP))
                if not any(self.occurs(hh, m) for hh in H):
                    continue
                good = True
                for s in backs:
                    vs = vals_of(s)
                    m2 = z3.substitute(m, *[(a, b) for a, b in zip(H, vs) if b is not None])
                    if not self.quick(s, m2 < m):
                        good = False
                        break
                if good:
                    self.obl.append({'label': 'loop in %s terminates (a bounded variant decreases)' % f.name, 'kind': 'termination', 'status': 'proved',
                                     'where': '%s:%s %s' % (src.get('file', '?').replace('/repo/', ''), src.get('line', '?'), f.name), 'trivial': False})
                    return
        self.assumed.setdefault('loop termination not proved (partial correctness)', set()).add('%s:%s' % (f.name, src.get('line')))

    def relax(self, x):
        n = False
        if z3.is_not(x):
            n = True
            x = x.arg(0)
        if x.num_args() != 2 or not z3.is_int(x.arg(0)):
            return None
        k = x.decl().kind()
        a, b = x.arg(0), x.arg(1)
        if k == z3.Z3_OP_LT or (k == z3.Z3_OP_GE and n):
            return a <= b
        if k == z3.Z3_OP_GT or (k == z3.Z3_OP_LE and n):
            return a >= b
        if k == z3.Z3_OP_LE or (k == z3.Z3_OP_GT and n):
            return a <= b + 1
        if k == z3.Z3_OP_GE or (k == z3.Z3_OP_LT and n):
            return a >= b - 1
        return None

    def same_ptr(self, a, b):
        if len(a.alts) != 1 or len(b.alts) != 1:
            return False
        x, y = a.alts[0], b.alts[0]
        if x[1] is not y[1] or len(x[2]) != len(y[2]):
            return False
        for u, v in zip(x[2] + (x[3],), y[2] + (y[3],)):
            if isinstance(u, str) or isinstance(v, str):
                if u != v:
                    return False
            elif isint(u) and isint(v):
                if u != v:
                    return False
            elif not zi(u).eq(zi(v)):
                return False
        return True

    def consts(self, t, limit=20000):
        seen = set()
        out = {}
        todo = [t]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_app(x):
                if x.num_args() == 0:
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out[i] = x
                else:
                    todo.extend(x.children())
        return out

    def occurs(self, c, t):
        return c.get_id() in self.consts(t)

    def mentions(self, t, H, mark):
        cs = self.consts(t)
        hs = {x.get_id() for x in H}
        if any(i in hs for i in cs):
            return True
        return self.mentions_fresh(t, H, mark)

    def mentions_fresh(self, t, H, mark):
        """does t mention a constant created after `mark` other than the havoc variables"""
        hs = {x.get_id() for x in H}
        for i, c in self.consts(t).items():
            if i in hs:
                continue
            n = c.decl().name()
            k = n.rfind('!')
            if k >= 0 and n[k + 1:].isdigit() and int(n[k + 1:]) >= mark:
                return True
        return False

    def array_cands(self, j, H, V0, steps, nexts, lead, cand, fmark):
        ht = H[j]
        stores = []
        for nv in nexts:
            t = nv[j]
            if t is None:
                return
            todo = [t]
            n = 0
            while todo:
                n += 1
                if n > 200:
                    return
                x = todo.pop()
                if z3.is_store(x):
                    stores.append((x.arg(1), x.arg(2)))
                    todo.append(x.arg(0))
                elif x.decl().kind() == z3.Z3_OP_ITE:
                    todo += [x.arg(1), x.arg(2)]
                elif not x.eq(ht):
                    return
        A0 = V0[j]
        if lead is None:
            return
        hl, v0, sl = H[lead], V0[lead], steps[lead]
        if not (isint(sl) and abs(sl) == 1):
            return
        # express the other linear variables by the leading one
        others = [(H[i], V0[i] + zi(steps[i]) * (hl - v0) * sl) for i in range(len(H))
                  if i != lead and z3.is_int(H[i]) and steps[i] is not None and V0[i] is not None]

        def norm(t):
            return z3.simplify(z3.substitute(t, *others)) if others else z3.simplify(t)
        k = z3.Int('k!c')
        lows, highs = [], []
        for idx, val in stores:
            idx = norm(idx)
            p, at = poly(idx)
            if p is None:
                return
            hid = hl.get_id()
            co = {tuple(x for x in m if x != hid): v for m, v in p.items() if hid in m}
            if any(m.count(hid) > 1 for m in p):
                return
            if any(hid in [a for a in m] and any(self.occurs(hl, at[a]) and a != hid for a in m) for m in p):
                return
            if not co:
                # a fixed cell
                lows.append(idx)
                highs.append(idx + 1)
                continue
            if self.mentions(z3.simplify(z3.substitute(idx, (hl, z3.IntVal(0)))), [x for x in H], fmark):
                continue
            c1 = unpoly(co, at)
            c0 = z3.simplify(z3.substitute(idx, (hl, z3.IntVal(0))))
            first = z3.substitute(idx, (hl, v0))
            if isint(c1) and c1 * sl > 0:
                lows.append(first)
                highs.append(z3.substitute(idx, (hl, hl - sl)) + 1)
            elif isint(c1):
                lows.append(z3.substitute(idx, (hl, hl - sl)))
                highs.append(first + 1)
            else:
                lows.append(first)
                highs.append(z3.substitute(idx, (hl, hl - sl)) + 1)
            # content
            v = z3.simplify(norm(val))
            # elements read from the arrays the loop writes are taken before the iteration that writes them
            v = z3.substitute(v, *[(z3.Select(h2, idx), z3.Select(a2, idx)) for h2, a2 in zip(H, V0)
                                   if a2 is not None and z3.is_array(h2) and h2.sort().domain() == idx.sort()])
            if self.occurs(ht, v):
                continue

            def at_i(i):
                return z3.substitute(v, (hl, i)), z3.substitute(idx, (hl, i))

            def done(i):
                return z3.And(v0 <= i, i < hl) if sl > 0 else z3.And(hl < i, i <= v0)
            if isint(c1) and abs(c1) == 1:
                i = z3.simplify((k - c0) * c1)
                vv, _ = at_i(i)
                cand('array content', z3.ForAll([k], z3.Implies(done(i), ht[k] == vv), patterns=[ht[k]]))
            for w in self.witnesses:
                vv, ii = at_i(w)
                cand('array content at the witness', z3.Implies(done(w), ht[ii] == vv))
        if lows:
            # everything outside the written interval keeps its value
            cond = z3.And(*[z3.Or(k < l, k >= u) for l, u in zip(lows, highs)])
            cand('array frame', z3.ForAll([k], z3.Implies(cond, ht[k] == A0[k]), patterns=[ht[k]]))
            for w in self.witnesses:
                cand('array frame at the witness', z3.Implies(z3.substitute(cond, (k, w)), ht[w] == A0[w]))

    def prove_many(self, jobs, hints=()):
        """[(state, term) or None] -> [bool]; one model refutes many"""
        res = [False] * len(jobs)
        left = []
        for k, j in enumerate(jobs):
            if j is None:
                continue
            st, t = j
            if isinstance(t, bool):
                res[k] = t
                continue
            left.append(k)
        if not left:
            return res
        st = jobs[left[0]][0]
        g = and_(*st.guard)
        t0 = time.time()
        base = z3.Solver()
        base.set('timeout', int(self.opts.get('inv_timeout', 1500) * self.slow))
        for f in self.facts:
            base.add(f)
        base.add(zb(g))
        rounds = 0
        while left and rounds < 40:
            rounds += 1
            base.push()
            base.add(z3.Not(z3.And(*[jobs[k][1] for k in left])))
            r = base.check()
            m = base.model() if r == z3.sat else None
            base.pop()
            if r == z3.unsat:
                for k in left:
                    res[k] = True
                left = []
                break
            if m is None:
                break
            keep = []
            for k in left:
                v = m.eval(jobs[k][1], model_completion=True)
                if z3.is_false(v):
                    continue
                keep.append(k)
            if len(keep) == len(left):
                break
            left = keep
        for k in left:
            r, _ = self.entails(st, jobs[k][1], timeout=None if k in hints else int(self.opts.get('inv_timeout', 1500) * self.slow))
            res[k] = r is True
        self.solver_time += time.time() - t0
        return res

    def loop_names(self, f, h):
        """basename -> (identifier, type) of variables used in the loop"""
        names = {}
        writes = set()
        calls = set()

        def walk(e):
            if e.get('id') == 'symbol' and 'type' in e.get('namedSub', {}):
                ident = e['namedSub']['identifier']['id']
                t = self.types.parse(e['namedSub']['type'])
                if t[0] != 'code':
                    b = ident.split('::')[-1]
                    old = names.get(b)
                    if old is None or len(ident.split('::')) < len(old[0].split('::')):
                        names[b] = (ident, t)
            for s in e.get('sub', []):
                walk(s)
        for k in range(h, f.loops[h] + 1):
            i = f.ins[k]
            for e in (i.code, i.guard):
                if e is not None:
                    walk(e)
            if i.op == 'ASSIGN':
                b = i.code['sub'][0]
                while b['id'] in ('member', 'index', 'dereference', 'typecast') and b.get('sub'):
                    b = b['sub'][0]
                if b['id'] == 'symbol':
                    writes.add(b['namedSub']['identifier']['id'].split('::')[-1])
            if i.op == 'FUNCTION_CALL' and i.code['sub'][1]['id'] == 'symbol':
                calls.add(i.code['sub'][1]['namedSub']['identifier']['id'])
        # also variables of the enclosing function
        for k, i in enumerate(f.ins):
            if i.op == 'DECL':
                s = i.code['sub'][0]
                b = s['namedSub']['identifier']['id'].split('::')[-1]
                if b not in names:
                    names[b] = (s['namedSub']['identifier']['id'], self.types.parse(s['namedSub']['type']))
        for ident, t in f.params:
            b = (ident or '').split('::')[-1]
            if b and b not in names:
                names[b] = (ident, t)
        return names, writes, calls

    def find_inv(self, f, h, fr):
        for inv in self.invs:
            if not re.fullmatch(inv.get('func', '.*'), f.name):
                continue
            names, writes, calls = self.loop_names(f, h)
            if not set(inv.get('writes', ())) <= writes:
                continue
            if set(inv.get('notwrites', ())) & writes:
                continue
            if not set(inv.get('uses', ())) <= set(names):
                continue
            if not set(inv.get('calls', ())) <= calls:
                continue
            if 'textcond' in inv:
                body = '\n'.join(f.ins[k].text for k in range(h, f.loops[h] + 1))
                if not re.search(inv['textcond'], body):
                    continue
            if 'case' in inv and not inv['case'](self.cases):
                continue
            self.inv_hit.add(f.name)
            return dict(inv, names=names)
        return None

    @staticmethod
    def same_term(x, y):
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        if isint(x) and isint(y):
            return x == y
        return zi(x).eq(zi(y))

    @staticmethod
    def is_hv(x):
        return z3.is_expr(x) and z3.is_const(x) and x.decl().name().startswith('hv_')

    def ptr_covered(self, hv, v):
        """every alternative of v is an instance of an alternative of the havoced pointer hv"""
        for g, oo, p, b in v.alts:
            if g is False:
                continue
            for g2, o2, p2, b2 in hv.alts:
                if o2 is not oo or len(p2) != len(p):
                    continue
                if oo is NULLO or oo is INVALID or all(self.same_term(x, y) or (self.is_hv(y) and not isinstance(x, str)) for x, y in zip(p + (b,), p2 + (b2,))):
                    break
            else:
                return False
        return True

    def havoc_like(self, o, key, v, old):
        nm = 'hv_' + o.name.split('::')[-1]
        if isinstance(v, PV) or isinstance(old, PV):
            # pointers: keep the objects, havoc the indices and offsets
            objs = {}
            for x in (v, old):
                if isinstance(x, PV):
                    for g, oo, p, b in x.alts:
                        objs.setdefault((oo.oid, tuple(y if isinstance(y, str) else '#' for y in p)), (oo, []))[1].append((p, b))
            alts, rest = [], True
            for n, (oo, ps) in enumerate(objs.values()):
                if n == len(objs) - 1:
                    g = rest
                else:
                    sel = self.fresh('hvsel_' + o.name.split('::')[-1], z3.BoolSort())
                    g, rest = and_(rest, sel), and_(rest, not_(sel))
                if oo is NULLO or oo is INVALID:
                    alts.append((g,) + (oo,) + ps[0])
                    continue
                p0, b0 = ps[0]
                path = []
                for k, y in enumerate(p0):
                    if not isinstance(y, str) and (k == len(p0) - 1 or any(not self.same_term(q[k], y) for q, _ in ps)):
                        y = self.fresh(nm, I)
                    path.append(y)
                last = path and not isinstance(path[-1], str)
                if last and all(isint(bb) and bb == 0 for _, bb in ps):
                    alts.append((g, oo, tuple(path), 0))
                else:
                    alts.append((g, oo, tuple(path), self.fresh(nm, I)))
            return PV(alts)
        if isinstance(v, PArr):
            return PArr(v.obj, self.fresh(nm, v.arr.sort()))
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return self.fresh(nm, z3.BoolSort())
        if isint(v):
            return self.fresh(nm, I)
        if isinstance(v, Poison):
            raise Undecided('poison in loop')
        return self.fresh(nm, v.sort())

    # ------------------------------------------------------------ intrinsics
    def cstr(self, p):
        if isinstance(p, PV) and len(p.alts) == 1 and p.alts[0][1].data is not None:
            g, o, path, b = p.alts[0]
            k = (path[0] if path else 0)
            k = add(k, b)
            if isint(k):
                return o.data[k:-1].decode('latin1')
        raise Unsupported('string argument not constant')

    def x_vs_case(self, st, a, rt, src):
        n = self.cstr(a[0])
        if n not in self.cases:
            raise Undecided('case %s not enumerated' % n)
        v = self.cases[n]
        if not any(x[0] == n for x in self.nds):
            self.nds.append((n, 'int', v, ()))
        return st, v

    def x_vs_long(self, st, a, rt, src):
        n = self.cstr(a[0])
        if n in self.cases:
            return self.x_vs_case(st, a, rt, src)
        v = self.fresh(n, I)
        lo, hi = a[1], a[2]
        if not (isint(lo) and lo <= -(1 << 63)):
            self.fact(st, v >= zi(lo))
        if not (isint(hi) and hi >= (1 << 63) - 1):
            self.fact(st, v <= zi(hi))
        self.nds.append((n, 'int', v, st.guard))
        return st, v

    x_vs_int = x_vs_long

    def x_vs_double(self, st, a, rt, src):
        n = self.cstr(a[0])
        v = self.fresh(n, FP)
        self.nds.append((n, 'fp', v, st.guard))
        return st, v

    x_vs_float = x_vs_double

    def _arr(self, st, a, elem, kind):
        n = self.cstr(a[0])
        o = Obj(n, None, dyn=True, elem=elem, length=a[1])
        self.objreg[o.oid] = o
        arr = z3.Const('%s@%d' % (n, o.oid), z3.ArraySort(I, self.sort(elem)))
        st.mem[(o.oid, ('*',))] = arr
        self.nds.append((n, kind, (arr, a[1]), st.guard))
        return o, arr

    def x_vs_longs(self, st, a, rt, src):
        o, arr = self._arr(st, a, ('int', 64, True), 'ints')
        if len(a) > 4:
            lo, hi = a[3], a[4]
            if not (isint(lo) and lo <= -(1 << 63)) or not (isint(hi) and hi >= (1 << 63) - 1):
                k = self.fresh('k', I)
                self.fact(st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(a[1])),
                                                        z3.And(arr[k] >= zi(lo), arr[k] <= zi(hi)))))
        return st, PV([(True, o, (0,), 0)])

    def x_vs_segments(self, st, a, rt, src):
        n = self.cstr(a[0])
        nseg = a[1]
        if not isint(nseg):
            raise Unsupported('vs_segments: symbolic number of segments')
        lens, his = [], []
        for s in range(nseg):
            lens.append(self.load(st, self.ptr_add(a[2], s, ('int', 32, True)), ('int', 32, True), src))
            his.append(self.load(st, self.ptr_add(a[6], s, ('int', 64, True)), ('int', 64, True), src))
        tot = 0
        for l in lens:
            self.fact(st, zi(l) >= 1)
            tot = add(tot, l)
        o = Obj(n, None, dyn=True, elem=('int', 64, True), length=tot)
        self.objreg[o.oid] = o
        arr = z3.Const('%s@%d' % (n, o.oid), z3.ArraySort(I, I))
        st.mem[(o.oid, ('*',))] = arr
        off = 0
        k, j = z3.Int('k!s'), z3.Int('j!s')
        first, md = zi(a[4]), a[5]
        for l, hi in zip(lens, his):
            self.fact(st, arr[zi(off)] == first)
            self.fact(st, first + zi(mul(sub_(l, 1), md)) <= zi(hi))
            e = zi(add(off, l))
            o_ = zi(off)
            self.fact(st, z3.ForAll([k], z3.Implies(z3.And(o_ <= k, k < e), z3.And(arr[k] >= first, arr[k] <= zi(hi))), patterns=[arr[k]]))
            self.fact(st, z3.ForAll([k, j], z3.Implies(z3.And(o_ <= k, k < j, j < e), arr[k] + zi(md) <= arr[j]),
                                    patterns=[z3.MultiPattern(arr[k], arr[j])]))
            off = add(off, l)
        self.nds.append((n, 'ints', (arr, tot), st.guard))
        return st, PV([(True, o, (0,), 0)])

    def x_vs_witness(self, st, a, rt, src):
        st, v = self.x_vs_long(st, a, rt, src)
        if z3.is_expr(v):
            self.witnesses.append(v)
        return st, v

    def x_vs_ints(self, st, a, rt, src):
        o, arr = self._arr(st, a, ('int', 32, True), 'ints')
        if len(a) > 4:
            lo, hi = a[3], a[4]
            k = self.fresh('k', I)
            self.fact(st, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(a[1])),
                                                    z3.And(arr[k] >= zi(lo), arr[k] <= zi(hi)))))
        return st, PV([(True, o, (0,), 0)])

    def x_vs_doubles(self, st, a, rt, src):
        o, arr = self._arr(st, a, ('fp', 64), 'fps')
        return st, PV([(True, o, (0,), 0)])

    def x_vs_bytes(self, st, a, rt, src):
        o, arr = self._arr(st, a, ('int', 8, True), 'ints')
        return st, PV([(True, o, (0,), 0)])

    def x_vs_cpls(self, st, a, rt, src):
        """n elements of the (struct) type of the object a[3] points to"""
        n = self.cstr(a[0])
        po = a[3].alts[0][1]
        elem = self.obj_type_at(po, a[3].alts[0][2])
        o = Obj(n, None, dyn=True, elem=elem, length=a[1])
        self.objreg[o.oid] = o
        ls = []

        def rec(p, tt):
            if tt[0] == 'struct':
                for nm, ft in self.types.fields(tt[1]):
                    if not nm.startswith('$pad'):
                        rec(p + (nm,), ft)
            else:
                ls.append((p, tt))
        rec((), elem)
        for p, tt in ls:
            arr = z3.Const('%s%s@%d' % (n, '.'.join(map(str, p)), o.oid), z3.ArraySort(I, self.sort(tt)))
            st.mem[(o.oid, ('*',) + p)] = arr
        self.nds.append((n, 'fps', (z3.K(I, self.fpconst(1.0)), mul(a[1], len(ls))), st.guard))
        return st, PV([(True, o, (0,), 0)])

    def x_vs_floats(self, st, a, rt, src):
        o, arr = self._arr(st, a, ('fp', 32), 'fps')
        return st, PV([(True, o, (0,), 0)])

    def x_vs_arena(self, st, a, rt, src):
        """an address space: pointers into it are only compared and subtracted"""
        o = Obj(self.cstr(a[0]), None, dyn=True, elem=('int', 8, True), length=None)
        self.objreg[o.oid] = o
        return st, PV([(True, o, (0,), 0)])

    def x_vs_arena_of(self, st, a, rt, src):
        """an address space of integers of a[1] bits, of unlimited extent"""
        o = Obj(self.cstr(a[0]), None, dyn=True, elem=('int', a[1], True), length=None)
        self.objreg[o.oid] = o
        return st, PV([(True, o, (0,), 0)])

    def x_vs_ptrs(self, st, a, rt, src):
        """n pointers into an arena at symbolic byte offsets: vs_ptrs(name, n, cap, arena, spacing)"""
        n = self.cstr(a[0])
        base = a[3].alts[0][1]
        if isint(a[1]) and a[1] <= 16:
            o = Obj(n, ('array', ('ptr', ('int', 8, True)), a[1]))
            self.objreg[o.oid] = o
            for k in range(a[1]):
                v = self.fresh(n, I)
                st.mem[(o.oid, (k,))] = PV([(True, base, (v,), 0)])
            return st, PV([(True, o, (0,), 0)])
        o = Obj(n, None, dyn=True, elem=('ptr', ('int', 8, True)), length=a[1])
        self.objreg[o.oid] = o
        arr = z3.Const('%s@%d' % (n, o.oid), z3.ArraySort(I, I))
        st.mem[(o.oid, ('*',))] = PArr(base, arr)
        return st, PV([(True, o, (0,), 0)])

    def x_vs_reach(self, st, a, rt, src):
        """reachability (vacuity) probe: must NOT be provably unreachable"""
        if self.dry or self.quietn:
            return st, None
        n = self.cstr(a[0])
        r, _ = self.entails(st, False, timeout=1500)
        self.obl.append({'label': 'reachable: ' + n, 'kind': 'vacuity', 'status': 'failed' if r is True else 'proved',
                         'where': '', 'trivial': False, 'vacuous': r is True})
        return st, None

    def x___CPROVER_assume(self, st, a, rt, src):
        self.fact(st, a[0] if not isint(a[0]) else a[0] != 0)
        return st, None

    def x_vs_abort(self, st, a, rt, src):
        return None, None

    def x_malloc(self, st, a, rt, src):
        o = Obj('malloc@%s' % (src or {}).get('line', '?'), None, dyn=True, elem=None, nbytes=a[0])
        self.objreg[o.oid] = o
        return st, PV([(True, o, (), 0)])

    def x_calloc(self, st, a, rt, src):
        o = Obj('calloc@%s' % (src or {}).get('line', '?'), None, dyn=True, elem=None, nbytes=mul(a[0], a[1]), zero=True)
        self.objreg[o.oid] = o
        return st, PV([(True, o, (), 0)])

    def x_free(self, st, a, rt, src):
        return st, None

    def x_abs(self, st, a, rt, src):
        v = a[0]
        return st, abs(v) if isint(v) else z3.If(v >= 0, v, -v)

    x_labs = x_abs

    def x_exit(self, st, a, rt, src):
        return None, None

    x_abort = x_exit
    x_MPI_Abort = x_exit

    def x_strlen(self, st, a, rt, src):
        return st, len(self.cstr(a[0]))

    def x_strcmp(self, st, a, rt, src):
        x, y = self.cstr(a[0]), self.cstr(a[1])
        return st, (x > y) - (x < y)

    def x_strncmp(self, st, a, rt, src):
        if not isint(a[2]):
            raise Unsupported('strncmp')
        x, y = self.cstr(a[0])[:a[2]], self.cstr(a[1])[:a[2]]
        return st, (x > y) - (x < y)

    def x_memcpy(self, st, a, rt, src):
        d, s, n = a
        if isint(n) and n == 0:
            return st, d
        # element type
        g, so, sp, sb = s.alts[0]
        if len(s.alts) != 1 or len(d.alts) != 1:
            raise Unsupported('memcpy through merged pointers')
        t = so.elem if so.dyn else None
        if not so.dyn:
            tt = self.obj_type_at(so, sp)
            while tt[0] == 'array':
                tt = tt[1]
            t = tt
        if t is None:
            raise Unsupported('memcpy untyped')
        sz = self.types.sizeof(t)
        cnt = divconst(n, sz)
        if cnt is None:
            raise Unsupported('memcpy size')
        if isint(cnt) and cnt <= 32:
            vals = [self.load(st, self.ptr_add(s, k, t), t, src) for k in range(cnt)]
            for k, v in enumerate(vals):
                self.store(st, self.ptr_add(d, k, t), v, t, src)
            return st, d
        sg = self.norm(s.alts[0], t)
        dg = self.norm(d.alts[0], t)
        if not sg[1].dyn or not dg[1].dyn or t[0] in ('struct', 'ptr'):
            raise Unsupported('memcpy symbolic size')
        self.oblige(st, or_(zi(cnt) <= 0, and_(zi(sg[2][0]) >= 0, zi(sg[2][0]) + zi(cnt) <= zi(sg[1].length)) if sg[1].length is not None else True),
                    'memcpy source in bounds', src, 'bounds')
        self.oblige(st, or_(zi(cnt) <= 0, and_(zi(dg[2][0]) >= 0, zi(dg[2][0]) + zi(cnt) <= zi(dg[1].length)) if dg[1].length is not None else True),
                    'memcpy destination in bounds', src, 'bounds')
        sk, dk = (sg[1].oid, ('*',)), (dg[1].oid, ('*',))
        sa = self.leafval(st, sg[1], sk, t, True)
        da = self.leafval(st, dg[1], dk, t, True)
        k = self.fresh('k', I)
        na = self.fresh('cpy', da.sort())
        d0, s0 = zi(dg[2][0]), zi(sg[2][0])
        self.fact(st, z3.ForAll([k], na[k] == z3.If(z3.And(k >= d0, k < d0 + zi(cnt)), sa[k - d0 + s0], da[k])))
        st.mem[dk] = na
        return st, d

    x_memmove = x_memcpy

    def x_memset(self, st, a, rt, src):
        d, c, n = a
        if len(d.alts) != 1:
            raise Unsupported('memset')
        g, o, p, b = d.alts[0]
        if o.dyn and o.elem is None and isint(c) and c == 0:
            o.zero = True
            return st, d
        raise Unsupported('memset')

    x_bzero = None

    objreg = {}

    # ------------------------------------------------------------ entry
    def main(self, entry='vs_main'):
        Engine.objreg = self.objreg = RegDict(self)
        st = State((), {})
        if self.func('__CPROVER_initialize') is not None and self.opts.get('init', True):
            f = self.func('__CPROVER_initialize')
            for i in f.ins:
                if i.op == 'ASSIGN' and i.code['sub'][0]['id'] == 'symbol':
                    ident = i.code['sub'][0]['namedSub']['identifier']['id']
                    if ident.startswith('__CPROVER'):
                        continue
                    try:
                        v = self.ev(st, i.code['sub'][1], {}, i.src)
                        if isinstance(v, tuple):
                            continue
                        o = self.glob(ident)
                        if o.dyn:
                            # big zero or constant table
                            if isinstance(v, SV):
                                continue
                            continue
                        # drop zero cells (default)
                        if isinstance(v, SV):
                            v = SV({p: x for p, x in v.cells.items() if not (isint(x) and x == 0)}, v.type)
                        self.write_leafs(st, o, (), v, o.type)
                    except Undecided:
                        pass
        try:
            fin, _ = self.call(st, entry, [], ('int', 32, True), {})
            return fin
        except Restart:
            fc = self.forcecut
            dl = self.deadline
            self.__init__({'symtab': self.symtab, 'funcs': self.funcs}, self.cases, self.opts)
            self.forcecut = fc
            self.deadline = dl
            return self.main(entry)


class RegDict(dict):
    def __init__(self, eng):
        self.eng = eng

    def get(self, k, d=None):
        v = dict.get(self, k)
        if v is None:
            for o in self.eng.globs.values():
                if o.oid == k:
                    self[k] = o
                    return o
        return v if v is not None else d


class Restart(Exception):
    pass


class Poison:
    pass


EXPR = {'constant': 'const', 'symbol': 'symbol', 'dereference': 'lv', 'member': 'lv', 'index': 'lv',
        'string_constant': 'lv', 'address_of': 'address', 'typecast': 'cast', '+': 'plus', '-': 'minus', '*': 'times',
        '/': 'div', 'mod': 'mod', 'unary-': 'neg', 'not': 'not', 'and': 'and', 'or': 'or', '=>': 'implies',
        'if': 'if', '=': 'rel', 'notequal': 'rel', '<': 'rel', '>': 'rel', '<=': 'rel', '>=': 'rel',
        'ieee_float_equal': 'rel', 'ieee_float_notequal': 'rel',
        'floatbv_plus': 'plus', 'floatbv_minus': 'minus', 'floatbv_mult': 'times', 'floatbv_div': 'div',
        'bitand': 'bit', 'bitor': 'bit', 'bitxor': 'bit', 'shl': 'bit', 'ashr': 'bit', 'lshr': 'bit', 'bitnot': 'bit',
        'side_effect': 'nondet', 'nondet': 'nondet', 'forall': 'quant', 'exists': 'quant',
        'struct': 'struct', 'array': 'struct', 'array_of': 'arrayof', 'floatbv_typecast': 'cast'}

DEFAULT_IGNORE = {'printf', 'fprintf', 'sprintf', 'snprintf', 'fflush', 'puts', 'putchar', 'srand',
                  'GA_Internal_Threadsafe_Lock', 'GA_Internal_Threadsafe_Unlock'}


def load(goto_json, symtab_json):
    funcs = {}
    for x in json.load(open(goto_json)):
        if 'functions' in x:
            for f in x['functions']:
                funcs[f['name']] = f
    sym = {}
    for x in json.load(open(symtab_json)):
        if 'symbolTable' in x:
            sym = x['symbolTable']
    return {'funcs': funcs, 'symtab': sym}
